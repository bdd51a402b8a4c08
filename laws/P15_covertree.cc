// A cover tree stores every inserted point and satisfies its invariants.
#include "clouds.hh"

#include <aleph/geometry/CoverTree.hh>

#include <functional>
#include <map>
#include <set>

// Points are identified by their index, so that any distance can be used.
struct P
{
  cloud::Row x;
  std::size_t id;
  bool operator<( const P& o ) const { return id < o.id; }
  bool operator==( const P& o ) const { return id == o.id; }
};
static std::ostream& operator<<( std::ostream& o, const P& p ) { return o << p.id; }

static std::function<double( const P&, const P& )> metric;
struct M { double operator()( const P& a, const P& b ) const { return metric( a, b ); } };

using Tree = aleph::geometry::CoverTree<P, M>;

struct Quiet
{
  Quiet() : old( std::cerr.rdbuf( nullptr ) ) {}
  ~Quiet() { std::cerr.rdbuf( old ); std::cerr.clear(); }
  std::streambuf* old;
};

// Does an assignment of parents exist that satisfies the covering and the
// separating invariant? Levels are searched one at a time, with backtracking.
static bool explainable( const std::map<long, std::vector<P> >& levels, std::string& why )
{
  for( auto&& level : levels )
  {
    auto l = level.first;
    if( l == levels.rbegin()->first )
    {
      if( level.second.size() != 1 )
      {
        why = "more than one point on the top level";
        return false;
      }
      continue;
    }
    auto above = levels.find( l + 1 );
    if( above == levels.end() )
    {
      why = "level " + pbt::str( l + 1 ) + " is empty";
      return false;
    }
    auto cover    = std::pow( 2.0, static_cast<double>( l + 1 ) );
    auto separate = std::pow( 2.0, static_cast<double>( l ) );
    auto&& children = level.second;
    auto&& parents  = above->second;
    std::vector< std::vector<std::size_t> > assigned( parents.size() );
    std::size_t steps = 0;
    std::function<bool( std::size_t )> place = [&] ( std::size_t i )
    {
      if( i == children.size() )
        return true;
      for( std::size_t j = 0; j < parents.size(); j++ )
      {
        if( ++steps > 200000 )
          return true; // too many possibilities, no statement
        if( metric( parents[j], children[i] ) > cover )
          continue;
        bool ok = true;
        for( auto k : assigned[j] )
          ok = ok && metric( children[k], children[i] ) > separate;
        if( !ok )
          continue;
        assigned[j].push_back( i );
        if( place( i + 1 ) )
          return true;
        assigned[j].pop_back();
      }
      return false;
    };
    if( !place( 0 ) )
    {
      why = "points on level " + pbt::str( l ) + " cannot be covered by separated children of level " + pbt::str( l + 1 );
      return false;
    }
  }
  return true;
}

static std::map<long, std::vector<P> > levels( const Tree& t )
{
  std::map<long, std::vector<P> > r;
  for( auto&& x : t.getNodesByLevel() )
    r[ x.first ].push_back( x.second );
  return r;
}

static void content( pbt::Ctx& c, Tree& t, const std::multiset<std::size_t>& expected )
{
  std::multiset<std::size_t> points, byLevel;
  std::map<std::size_t, std::multiset<long> > level;
  for( auto&& p : t.points() )
    points.insert( p.id );
  for( auto&& x : t.getNodesByLevel() )
  {
    byLevel.insert( x.second.id );
    level[ x.second.id ].insert( x.first );
  }
  c.equal( points, expected, "points of the tree" );
  c.equal( byLevel, expected, "points by level" );
  auto map = t.nodesToLevel();
  c.equal( map.size(), level.size(), "number of points with levels" );
  for( auto&& x : map )
    c.check( level[ x.first.id ].count( x.second ), "level of point " + pbt::str( x.first.id ) );
  auto l = levels( t );
  if( !l.empty() )
    c.equal( t.level(), l.rbegin()->first, "level of the tree" );
  // The printed tree lists the levels from top to bottom.
  std::ostringstream out;
  t.print( out );
  std::istringstream in( out.str() );
  std::string line;
  auto next = l.rbegin();
  while( std::getline( in, line ) )
  {
    c.check( next != l.rend(), "more levels are printed than exist: " + out.str() );
    std::istringstream row( line );
    long number = 0;
    char colon  = 0;
    row >> number >> colon;
    c.check( row && colon == ':' && number == next->first, "printed level: " + out.str() );
    std::multiset<std::size_t> ids, stored;
    for( std::size_t id; row >> id; )
      ids.insert( id );
    for( auto&& p : next->second )
      stored.insert( p.id );
    c.equal( ids, stored, "printed points of a level" );
    ++next;
  }
  c.check( next == l.rend(), "some levels are not printed: " + out.str() );
}

LAW( history, 112000, 1120000, "insertion sequences of <=30 points in 1-3 dimensions (clusters, widely varying scales, duplicates), validity checked after every step: stored points, levels, existence of a covering and separated parent assignment, self-checks; non-trivial: >=5 distinct points on >=3 levels" )
{
  Quiet quiet;
  auto d = c.size( 1, 3 );
  auto p = cloud::gen( c, 0, c.chance( 1, 2 ) ? 30 : 9, d, -1, 90 );
  // large range of scales
  if( c.chance( 1, 3 ) )
    for( auto&& x : p )
    {
      auto f = std::pow( 2.0, static_cast<double>( c.integer( -6, 6 ) ) );
      for( auto&& y : x )
        y *= f;
    }
  bool l1 = c.boolean();
  c.input( cloud::show( p ) + ( l1 ? " Manhattan" : " Euclidean" ) );
  metric = [l1] ( const P& a, const P& b ) { return l1 ? cloud::manhattan( a.x, b.x ) : cloud::euclidean( a.x, b.x ); };
  std::map<cloud::Row, std::size_t> ids;
  std::multiset<std::size_t> expected;
  Tree t;
  std::vector<P> pending;
  bool bulk = c.chance( 1, 4 );
  for( std::size_t i = 0; i <= p.size(); i++ )
  {
    if( i > 0 )
    {
      auto id = ids.insert( { p[i-1], ids.size() } ).first->second;
      P q{ p[i-1], id };
      if( bulk )
        pending.push_back( q );
      else
        t.insert( q );
      expected.insert( id );
    }
    if( bulk && i < p.size() )
      continue;
    if( bulk )
      t.insert( pending.begin(), pending.end() );
    content( c, t, expected );
    std::string why;
    c.check( explainable( levels( t ), why ), "after " + pbt::str( i ) + " points: " + why );
    c.check( t.checkLevelInvariant(), "level invariant is reported as violated" );
    c.check( t.checkCoveringInvariant(), "covering invariant is reported as violated" );
    c.check( t.checkSeparatingInvariant(), "separating invariant is reported as violated" );
    c.check( t.isValid(), "tree is reported as invalid" );
  }
  c.nontrivial( ids.size() >= 5 && levels( t ).size() >= 3 );
}

LAW( harmonic, 42000, 420000, "trees of distinct points queried for harmonicity between insertions keep their points and invariants; non-trivial: >=5 points" )
{
  Quiet quiet;
  auto d = c.size( 1, 2 );
  auto p = cloud::gen( c, 1, 14, d );
  metric = [] ( const P& a, const P& b ) { return cloud::euclidean( a.x, b.x ); };
  c.input( cloud::show( p ) );
  std::set<cloud::Row> seen;
  std::multiset<std::size_t> expected;
  std::vector<P> all;
  Tree t;
  for( auto&& x : p )
  {
    if( !seen.insert( x ).second )
      continue;
    P q{ x, all.size() };
    all.push_back( q );
    expected.insert( q.id );
    t.insert( q );
    if( c.chance( 1, 3 ) )
    {
      t.isHarmonic( all[ c.size( 0, all.size() - 1 ) ] );
      content( c, t, expected );
      std::string why;
      c.check( explainable( levels( t ), why ), why );
      c.check( t.isValid(), "tree is reported as invalid" );
    }
  }
  content( c, t, expected );
  c.check( t.isValid(), "tree is reported as invalid" );
  c.nontrivial( all.size() >= 5 );
}

LAW( arbitrary_functions, 84000, 840000, "distances that violate the triangle inequality: all points are stored, and trees that are reported as valid can be explained; non-trivial: the tree is reported as invalid" )
{
  Quiet quiet;
  auto n = c.extent( 1, 12, 30 );
  std::vector< std::vector<double> > D( n, std::vector<double>( n ) );
  for( std::size_t i = 0; i < n; i++ )
    for( std::size_t j = 0; j < i; j++ )
      D[i][j] = D[j][i] = static_cast<double>( c.size( 1, 40 ) ) / 4;
  metric = [&] ( const P& a, const P& b ) { return D[a.id][b.id]; };
  std::string in;
  for( auto&& r : D )
    in += pbt::str( r );
  c.input( in );
  Tree t;
  std::multiset<std::size_t> expected;
  for( std::size_t i = 0; i < n; i++ )
  {
    t.insert( P{ {}, i } );
    expected.insert( i );
  }
  content( c, t, expected );
  std::string why;
  bool valid = t.isValid();
  c.equal( valid, t.checkLevelInvariant() && t.checkCoveringInvariant() && t.checkSeparatingInvariant(), "validity" );
  if( valid )
    c.check( explainable( levels( t ), why ), "tree is reported as valid, but " + why );
  c.label( valid ? "valid" : "invalid" );
  c.nontrivial( !valid );
}

LAW( self_checks, 112000, 1120000, "trees whose parents are uniquely determined by their levels, checked under a rescaled or perturbed distance for which the invariants may fail: every self-check reports exactly what the distances say; non-trivial: some invariant fails" )
{
  Quiet quiet;
  auto d = c.size( 1, 2 );
  auto p = cloud::gen( c, 2, 8, d );
  std::set<cloud::Row> seen;
  Tree t;
  std::size_t n = 0;
  metric = [] ( const P& a, const P& b ) { return cloud::euclidean( a.x, b.x ); };
  for( auto&& x : p )
    if( seen.insert( x ).second )
      t.insert( P{ x, n++ } );
  std::vector<double> scales;
  auto common = std::pow( 2.0, c.uniform( -2.0, 2.0 ) );
  bool individual = c.boolean();
  for( std::size_t i = 0; i < n * n; i++ )
    scales.push_back( individual ? ( c.chance( 1, 4 ) ? std::pow( 2.0, c.uniform( -2.0, 2.0 ) ) : 1.0 ) : common );
  c.input( cloud::show( p ) + " scales " + pbt::str( scales ) );
  auto l = levels( t );
  std::map<std::size_t, std::vector< std::pair<P, long> > > children; // by parent
  std::map<std::size_t, P> points;
  for( auto&& level : l )
    for( auto&& x : level.second )
    {
      points.insert( { x.id, x } );
      if( level.first == l.rbegin()->first )
        continue;
      std::vector<P> candidates;
      for( auto&& y : l[ level.first + 1 ] )
        if( metric( y, x ) <= std::pow( 2.0, static_cast<double>( level.first + 1 ) ) )
          candidates.push_back( y );
      c.assume( candidates.size() == 1 );
      children[ candidates.front().id ].push_back( { x, level.first } );
    }
  metric = [&] ( const P& a, const P& b ) { return cloud::euclidean( a.x, b.x ) * scales[ std::min( a.id, b.id ) * n + std::max( a.id, b.id ) ]; };
  bool covering = true, separating = true;
  for( auto&& x : children )
    for( std::size_t i = 0; i < x.second.size(); i++ )
    {
      auto level = static_cast<double>( x.second[i].second );
      auto cover = metric( points.at( x.first ), x.second[i].first );
      c.assume( std::abs( cover - std::pow( 2.0, level + 1 ) ) > 1e-9 );
      covering = covering && cover < std::pow( 2.0, level + 1 );
      for( std::size_t j = 0; j < i; j++ )
      {
        auto gap = metric( x.second[i].first, x.second[j].first );
        c.assume( std::abs( gap - std::pow( 2.0, level ) ) > 1e-9 );
        separating = separating && gap > std::pow( 2.0, level );
      }
    }
  c.equal( t.checkLevelInvariant(), true, "level invariant" );
  c.equal( t.checkCoveringInvariant(), covering, "covering invariant" );
  c.equal( t.checkSeparatingInvariant(), separating, "separating invariant" );
  c.equal( t.isValid(), covering && separating, "validity" );
  c.label( covering ? "covering" : "not covering" );
  c.label( separating ? "separating" : "not separating" );
  c.nontrivial( !covering || !separating );
}
