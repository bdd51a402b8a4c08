// Connected components: union-find, zero-dimensional persistence, hierarchy.
#include "bridge.hh"

#include <aleph/persistentHomology/Calculation.hh>
#include <aleph/persistentHomology/ConnectedComponents.hh>
#include <aleph/persistentHomology/ExtendedPersistenceHierarchy.hh>
#include <aleph/topology/ConnectedComponents.hh>

using namespace model;
using S = aleph::topology::Simplex<double, unsigned>;
using K = aleph::topology::SimplicialComplex<S>;

// A merge of two components, determined by naive relabelling.
struct Merge { std::size_t young, old, edge; unsigned u, v; std::set<unsigned> youngSet, oldSet; };

struct Components
{
  std::vector<Merge> merges;
  std::vector<std::size_t> essential; // indices of the vertices
  std::map<unsigned, std::set<unsigned> > parts; // component of each vertex in the end
};

static Components track( const Complex& m )
{
  Components r;
  std::map<unsigned, std::size_t> birth;
  std::map<unsigned, unsigned> comp; // vertex -> oldest vertex of its component
  for( std::size_t i = 0; i < m.size(); i++ )
  {
    if( m[i].v.size() == 1 )
    {
      birth[ m[i].v[0] ] = i;
      comp [ m[i].v[0] ] = m[i].v[0];
    }
    else if( m[i].v.size() == 2 )
    {
      auto a = comp.at( m[i].v[0] ), b = comp.at( m[i].v[1] );
      if( a == b )
        continue;
      if( birth[a] < birth[b] )
        std::swap( a, b );
      Merge x{ birth[a], birth[b], i, m[i].v[0], m[i].v[1], {}, {} };
      for( auto&& p : comp )
      {
        if( p.second == a ) x.youngSet.insert( p.first );
        if( p.second == b ) x.oldSet.insert( p.first );
      }
      for( auto&& p : comp )
        if( p.second == a )
          p.second = b;
      r.merges.push_back( x );
    }
  }
  for( auto&& p : comp )
  {
    if( p.first == p.second )
      r.essential.push_back( birth[ p.first ] );
    for( auto&& q : comp )
      if( p.second == q.second )
        r.parts[ p.first ].insert( q.first );
  }
  std::sort( r.essential.begin(), r.essential.end() );
  return r;
}

// graphs are more interesting here than higher-dimensional complexes
static Complex genGraph( pbt::Ctx& c, bool tree )
{
  auto n = static_cast<unsigned>( c.extent( 1, 14, 120 ) );
  std::vector<unsigned> ids;
  unsigned id = 0;
  for( unsigned i = 0; i < n; i++ )
  {
    ids.push_back( id );
    id += 1 + ( c.chance( 1, 4 ) ? static_cast<unsigned>( c.draw( 5 ) ) : 0 );
  }
  c.shuffle( ids );
  auto mode = c.draw( 5 );
  std::map<V,double> w;
  for( auto v : ids )
    w[ { v } ] = mode == 4 ? 0.0 : genWeight( c, static_cast<unsigned>( mode ) );
  auto link = [&] ( unsigned i, unsigned j )
  {
    V e = { std::min( ids[i], ids[j] ), std::max( ids[i], ids[j] ) };
    double x = std::max( w[ { e[0] } ], w[ { e[1] } ] );
    if( mode == 4 || c.chance( 1, 3 ) )
      x += static_cast<double>( c.size( 0, 5 ) );
    w[e] = x;
  };
  bool path = tree && c.boolean();
  for( unsigned i = 1; i < n; i++ )
    if( !c.chance( 1, 8 ) )
      link( i, path ? i - 1 : static_cast<unsigned>( c.draw( i ) ) );
  if( !tree )
  {
    auto extra = c.size( 0, 2 * n );
    for( std::size_t k = 0; k < extra; k++ )
    {
      auto i = static_cast<unsigned>( c.draw( n ) ), j = static_cast<unsigned>( c.draw( n ) );
      if( i != j )
        link( i, j );
    }
  }
  Complex m;
  for( auto&& p : w )
    m.push_back( { p.first, p.second } );
  c.shuffle( m );
  std::stable_sort( m.begin(), m.end(), [] ( const Cell& a, const Cell& b ) { return std::make_pair( a.w, a.v.size() ) < std::make_pair( b.w, b.v.size() ); } );
  return m;
}

static Complex genEither( pbt::Ctx& c )
{
  if( c.chance( 1, 3 ) )
  {
    Options o;
    o.bulk( 150, 900, 20 );
    o.empty = true;
    return genFiltered( c, o, true );
  }
  auto m = genGraph( c, false );
  if( c.chance( 1, 5 ) ) // descending filtration
    for( auto&& x : m )
      x.w = -x.w;
  return m;
}

struct Recorder
{
  std::vector< std::tuple<unsigned,unsigned,double,double,unsigned,unsigned> > merges;
  std::multiset< std::pair<unsigned,double> > roots;
  std::multiset<unsigned> initial;
  void initialize( unsigned v ) { initial.insert( v ); }
  void operator()( unsigned a, unsigned b, double x, double y, unsigned u, unsigned v ) { merges.emplace_back( a, b, x, y, u, v ); }
  void operator()( unsigned a, double x ) { roots.insert( { a, x } ); }
};

LAW( zero_dimensional, 28000, 420000, "graphs of <=14 vertices with non-contiguous ids, ties and isolated vertices, and higher complexes in filtration order: diagram, pairing, notifications of the union-find computation against naive component tracking and the full matrix computation; non-trivial: >=2 merges with positive persistence" )
{
  auto m = genEither( c );
  c.input( show( m ) );
  auto t = track( m );
  auto k = bridge::complex<S>( m );

  using Pairing = aleph::PersistencePairing<unsigned>;
  using With    = aleph::traits::PersistencePairingCalculation<Pairing>;
  Recorder rec;
  auto all  = aleph::calculateZeroDimensionalPersistenceDiagram<S, With, aleph::traits::DiagonalElementCalculation, Recorder&>( k, rec );
  auto some = aleph::calculateZeroDimensionalPersistenceDiagram<S, With>( k );
  auto bare = aleph::calculateZeroDimensionalPersistenceDiagram( k );

  std::multiset< std::pair<double,double> > dAll, dSome;
  std::set< std::pair<unsigned,unsigned> > pAll, pSome;
  const auto none = std::numeric_limits<unsigned>::max();
  std::size_t positive = 0;
  for( auto&& x : t.merges )
  {
    dAll.insert( { m[x.young].w, m[x.edge].w } );
    pAll.insert( { static_cast<unsigned>( x.young ), static_cast<unsigned>( x.edge ) } );
    if( m[x.young].w != m[x.edge].w )
    {
      dSome.insert( { m[x.young].w, m[x.edge].w } );
      pSome.insert( { static_cast<unsigned>( x.young ), static_cast<unsigned>( x.edge ) } );
      ++positive;
    }
  }
  std::multiset< std::pair<unsigned,double> > roots;
  for( auto i : t.essential )
  {
    dAll.insert( { m[i].w, std::numeric_limits<double>::infinity() } );
    dSome.insert( { m[i].w, std::numeric_limits<double>::infinity() } );
    pAll.insert( { static_cast<unsigned>( i ), none } );
    pSome.insert( { static_cast<unsigned>( i ), none } );
    roots.insert( { m[i].v[0], m[i].w } );
  }
  auto pts = [] ( const aleph::PersistenceDiagram<double>& d )
  {
    std::multiset< std::pair<double,double> > r;
    for( auto&& p : d )
      r.insert( { p.x(), p.y() } );
    return r;
  };
  auto prs = [] ( const Pairing& p ) { return std::set< std::pair<unsigned,unsigned> >( p.begin(), p.end() ); };
  c.check( pts( std::get<0>( all ) )  == dAll,  "diagram with diagonal points" );
  c.check( pts( std::get<0>( some ) ) == dSome, "diagram without diagonal points" );
  c.check( pts( std::get<0>( bare ) ) == dSome, "diagram with default traits" );
  c.check( prs( std::get<1>( all ) )  == pAll  && std::get<1>( all ).size()  == pAll.size(),  "pairing with diagonal points" );
  c.check( prs( std::get<1>( some ) ) == pSome && std::get<1>( some ).size() == pSome.size(), "pairing without diagonal points" );
  c.check( std::get<1>( bare ).empty(), "pairing was not requested" );
  c.equal( std::get<0>( bare ).betti(), t.essential.size(), "Betti number" );
  c.equal( std::get<0>( bare ).dimension(), std::size_t(0), "dimension" );

  // notifications
  std::multiset<unsigned> vertices;
  for( auto&& x : m )
    if( x.v.size() == 1 )
      vertices.insert( x.v[0] );
  c.check( rec.initial == vertices, "initial notifications" );
  c.check( rec.roots == roots, "notifications of essential components" );
  c.equal( rec.merges.size(), t.merges.size(), "number of merge notifications" );
  for( std::size_t i = 0; i < t.merges.size(); i++ )
  {
    auto& x = t.merges[i];
    auto u = std::get<4>( rec.merges[i] ), v = std::get<5>( rec.merges[i] );
    c.check( std::get<0>( rec.merges[i] ) == m[x.young].v[0] && std::get<1>( rec.merges[i] ) == m[x.old].v[0], "components of merge notification" );
    c.check( std::get<2>( rec.merges[i] ) == m[x.young].w && std::get<3>( rec.merges[i] ) == m[x.edge].w, "values of merge notification" );
    c.check( std::min( u, v ) == x.u && std::max( u, v ) == x.v, "edge of merge notification" );
  }

  // full computation
  if( !m.empty() )
  {
    auto ds = aleph::calculatePersistenceDiagrams( k, true, true );
    bool found = false;
    for( auto&& d : ds )
      if( d.dimension() == 0 )
      {
        auto full = pts( d );
        std::multiset< std::pair<double,double> > reduced;
        for( auto&& p : full )
          if( p.first != p.second )
            reduced.insert( p );
        c.check( reduced == dSome, "disagrees with the full computation" );
        found = true;
      }
    c.check( found, "full computation has no zero-dimensional diagram" );
  }
  c.nontrivial( positive >= 2 );
}

LAW( partitions, 21000, 280000, "connected components of complexes and graphs: roots, members, find; non-trivial: >=2 components, one with >=3 vertices" )
{
  auto m = genEither( c );
  c.input( show( m ) );
  auto t  = track( m );
  auto k  = bridge::complex<S>( m );
  auto uf = aleph::topology::calculateConnectedComponents( k );
  std::vector<unsigned> roots;
  uf.roots( std::back_inserter( roots ) );
  c.equal( roots.size(), t.essential.size(), "number of components" );
  std::set< std::set<unsigned> > got, expected;
  for( auto r : roots )
  {
    std::vector<unsigned> members;
    uf.get( r, std::back_inserter( members ) );
    std::set<unsigned> s( members.begin(), members.end() );
    c.equal( s.size(), members.size(), "members are reported repeatedly" );
    c.check( s.count( r ) == 1, "root is not part of its component" );
    got.insert( s );
  }
  std::size_t largest = 0;
  for( auto&& p : t.parts )
  {
    expected.insert( p.second );
    largest = std::max( largest, p.second.size() );
    std::vector<unsigned> members;
    uf.get( p.first, std::back_inserter( members ) );
    c.check( std::set<unsigned>( members.begin(), members.end() ) == p.second, "component of a vertex" );
    for( auto&& q : t.parts )
      c.equal( uf.find( p.first ) == uf.find( q.first ), p.second == q.second, "connectivity" );
  }
  c.check( got == expected, "partition" );
  c.nontrivial( expected.size() >= 2 && largest >= 3 );
}

LAW( union_find, 21000, 280000, "histories of <=40 directed merges and queries over arbitrary (sparse) items against naive sets with a representative; non-trivial: >=3 effective merges" )
{
  auto n = c.extent( 1, 12, 80 );
  std::vector<int> items;
  for( std::size_t i = 0; i < n; i++ )
    items.push_back( static_cast<int>( i ) * ( c.boolean() ? 1 : 17 ) - 5 );
  std::sort( items.begin(), items.end() );
  items.erase( std::unique( items.begin(), items.end() ), items.end() );
  std::map<int,int> rep;
  for( auto i : items )
    rep[i] = i;
  c.shuffle( items );
  aleph::topology::UnionFind<int> uf( items.begin(), items.end() );
  auto steps = c.extent( 0, 40, 400 );
  std::string log;
  unsigned effective = 0;
  for( std::size_t s = 0; s < steps; s++ )
  {
    int a = c.pick( items ), b = c.pick( items );
    switch( c.draw( 4 ) )
    {
    case 0:
    case 1:
      {
        log += "merge " + pbt::str( a ) + " " + pbt::str( b ) + "; ";
        c.input( log );
        uf.merge( a, b );
        int ra = rep[a], rb = rep[b];
        effective += ra != rb;
        for( auto&& p : rep )
          if( p.second == ra )
            p.second = rb; // directional: b's representative survives
        break;
      }
    case 2:
      log += "find " + pbt::str( a ) + "; ";
      c.input( log );
      c.equal( uf.find( a ), rep[a], "representative of " + pbt::str( a ) );
      break;
    case 3:
      {
        std::vector<int> got;
        uf.get( a, std::back_inserter( got ) );
        std::sort( got.begin(), got.end() );
        std::vector<int> e;
        for( auto&& p : rep )
          if( p.second == rep[a] )
            e.push_back( p.first );
        c.equal( got, e, "members of the set of " + pbt::str( a ) );
      }
    }
    c.check( uf.contains( a ) && !uf.contains( 1000 ), "contains" );
  }
  std::vector<int> roots;
  uf.roots( std::back_inserter( roots ) );
  std::sort( roots.begin(), roots.end() );
  std::vector<int> e;
  for( auto&& p : rep )
  {
    c.equal( uf.find( p.first ), p.second, "representative" );
    if( p.first == p.second )
      e.push_back( p.first );
  }
  c.equal( roots, e, "roots" );
  bool thrown = false;
  try { uf.find( 1000 ); } catch( std::out_of_range& ) { thrown = true; }
  c.check( thrown, "unknown item is found" );
  c.nontrivial( effective >= 3 );
}

// Parents that the hierarchy may report for the merges of positive
// persistence, in order. Each dying component is attached to the critical
// vertex that was attached last to the surviving component if a path between
// the critical vertices of both components, in the interlevel set spanned by
// them and the merge, meets the regions of exactly two critical vertices. Else,
// it is attached to the oldest vertex of the surviving component. The path is
// only well-defined if the interlevel set does not contain cycles.
static std::vector< std::set<unsigned> > parents( const Complex& m, const Components& t )
{
  std::map<unsigned, std::size_t> index;
  for( std::size_t i = 0; i < m.size(); i++ )
    if( m[i].v.size() == 1 )
      index[ m[i].v[0] ] = i;

  std::map<unsigned, unsigned> region;
  std::map<std::size_t, unsigned> tag;
  for( auto&& p : index )
    region[p.first] = p.first;
  for( std::size_t i = 0; i < m.size(); i++ )
    if( m[i].v.size() == 2 )
    {
      auto older = m[i].v[0], younger = m[i].v[1];
      if( index[older] > index[younger] )
        std::swap( older, younger );
      if( m[ index[younger] ].w == m[i].w )
        region[younger] = unsigned( region[older] );
      tag[i] = region[older];
    }

  std::vector< std::set<unsigned> > result;
  std::map<unsigned, unsigned> last;
  for( auto&& p : index )
    last[p.first] = p.first;
  for( auto&& x : t.merges )
  {
    if( m[x.young].w == m[x.edge].w )
      continue;
    auto young = static_cast<unsigned>( m[x.young].v[0] ), old = static_cast<unsigned>( m[x.old].v[0] );
    auto a = last[young], b = last[old];
    if( index[a] < index[b] )
      std::swap( a, b );
    auto lower = m[ index[b] ].w, upper = m[x.edge].w;
    if( lower > upper )
      std::swap( lower, upper );
    auto inside = [&] ( std::size_t i ) { return m[i].w >= lower && m[i].w <= upper; };

    // Traversal that starts from one of the critical vertices
    std::map<unsigned, std::pair<unsigned, std::size_t> > from;
    std::vector<unsigned> queue;
    std::size_t edges = 0;
    if( inside( index[b] ) )
    {
      from[b] = { b, 0 };
      queue.push_back( b );
    }
    for( std::size_t q = 0; q < queue.size(); q++ )
      for( std::size_t i = 0; i < m.size(); i++ )
      {
        if( m[i].v.size() != 2 || !inside( i ) )
          continue;
        unsigned u = m[i].v[0], v = m[i].v[1];
        if( v == queue[q] )
          std::swap( u, v );
        if( u != queue[q] || !inside( index[u] ) || !inside( index[v] ) )
          continue;
        ++edges;
        if( from.emplace( v, std::make_pair( u, i ) ).second )
          queue.push_back( v );
      }

    std::set<unsigned> allowed;
    if( !from.count( a ) )
      allowed = { old };
    else if( edges / 2 + 1 != queue.size() )
      allowed = { old, last[old] };
    else
    {
      std::set<unsigned> regions;
      for( auto v = a; v != b; v = from[v].first )
        regions.insert( tag[ from[v].second ] );
      allowed = { regions.size() == 2 ? last[old] : old };
    }
    result.push_back( allowed );
    last[old] = young;
  }
  return result;
}

LAW( hierarchy, 56000, 700000, "persistence hierarchies of filtered graphs: pairing equals the naive merges, one hierarchy edge per merge of positive persistence, attaching the dying component's oldest vertex to the oldest or the last critical vertex of the surviving component as decided by the interlevel set; non-trivial: >=2 hierarchy edges" )
{
  bool tree = c.boolean();
  auto m = genGraph( c, tree );
  if( c.chance( 1, 4 ) ) // descending filtration
    for( auto&& x : m )
      x.w = -x.w;
  c.input( show( m ) );
  auto t = track( m );
  auto k = bridge::complex<S>( m );
  aleph::ExtendedPersistenceHierarchy<S> eph;
  auto r = eph( k );
  const auto none = std::numeric_limits<unsigned>::max();
  std::set< std::pair<unsigned,unsigned> > pairs;
  std::vector<const Merge*> positive;
  std::set<unsigned> critical;
  for( auto&& x : t.merges )
  {
    pairs.insert( { static_cast<unsigned>( x.young ), static_cast<unsigned>( x.edge ) } );
    if( m[x.young].w != m[x.edge].w )
    {
      positive.push_back( &x );
      critical.insert( m[x.young].v[0] );
      critical.insert( m[x.old].v[0] );
    }
  }
  for( auto i : t.essential )
    pairs.insert( { static_cast<unsigned>( i ), none } );
  std::set< std::pair<unsigned,unsigned> > got( r.first.begin(), r.first.end() );
  c.check( got == pairs && r.first.size() == pairs.size(), "pairing" );
  c.equal( r.second.size(), positive.size(), "number of hierarchy edges" );
  auto allowed = parents( m, t );
  bool last = false;
  for( std::size_t i = 0; i < positive.size(); i++ )
  {
    auto& x = *positive[i];
    c.equal( r.second[i].second, m[x.young].v[0], "child of hierarchy edge" );
    c.check( x.oldSet.count( r.second[i].first ) == 1, "parent of hierarchy edge is not part of the surviving component" );
    c.check( critical.count( r.second[i].first ) == 1, "parent of hierarchy edge is not critical" );
    c.check( allowed[i].count( r.second[i].first ) == 1, "hierarchy edge " + pbt::str( i ) + " has parent " + pbt::str( r.second[i].first ) + " but requires " + pbt::str( *allowed[i].begin() ) );
    last = last || ( allowed[i].size() == 1 && *allowed[i].begin() != m[x.old].v[0] );
  }
  c.label( last ? "attached to last critical vertex" : "attached to oldest vertices" );
  c.nontrivial( positive.size() >= 2 );
}
