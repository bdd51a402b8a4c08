// Topological constructions change homology exactly as theory predicts.
#include "bridge.hh"

#include <aleph/topology/BarycentricSubdivision.hh>
#include <aleph/topology/Intersections.hh>
#include <aleph/topology/QuotientSpaces.hh>
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>
#include <aleph/topology/Skeleton.hh>
#include <aleph/topology/Spine.hh>

#include <algorithm>
#include <map>
#include <set>

using S = aleph::topology::Simplex<double, unsigned>;
using K = aleph::topology::SimplicialComplex<S>;
using model::V;

static std::set<V> keys( const model::Complex& m )
{
  std::set<V> r;
  for( auto&& x : m )
    r.insert( x.v );
  return r;
}

static std::vector<long> trimmed( std::vector<long> b )
{
  while( !b.empty() && b.back() == 0 )
    b.pop_back();
  return b;
}

static bool contains( const V& big, const V& small ) { return std::includes( big.begin(), big.end(), small.begin(), small.end() ); }

static void closed( pbt::Ctx& c, const std::set<V>& s, const char* what )
{
  for( auto&& x : s )
    for( auto&& f : model::facets( x ) )
      c.check( f.empty() || s.count( f ), std::string( what ) + " lacks face " + model::show( f ) + " of " + model::show( x ) );
}

LAW( subdivision, 12000, 120000, "filtered complexes with distinct weights (hence every barycentre can be recognised): vertices, one simplex per chain, weights with scaling factors by dimension, homology of the first and sometimes second subdivision; non-trivial: dimension >=2" )
{
  model::Options o;
  o.maxVertices = 7;
  o.maxCells    = 60;
  o.bulk( 30, 160, 100 );
  auto m = model::genFiltered( c, o, false );
  // unique, non-zero weights that identify a simplex
  for( std::size_t i = 0; i < m.size(); i++ )
    m[i].w = static_cast<double>( i + 1 );
  auto f = c.size( 0, 2 );
  c.input( model::show( m ) + " scaling " + pbt::str( f ) );
  auto L = bridge::complex<S>( m );
  aleph::topology::BarycentricSubdivision sd;
  double factors[] = { 1.0, 0.5, 0.25, 2.0, 4.0, 8.0, 16.0, 32.0 };
  std::vector<std::size_t> calls;
  auto M = f == 0 ? sd( L ) : sd( L, [&] ( std::size_t d ) { calls.push_back( d ); return f == 1 || d > 7 ? 1.0 : factors[d]; } );
  auto result = bridge::asMap( M );
  c.equal( result.size(), M.size(), "every simplex occurs once" );

  auto factor = [&] ( std::size_t d ) { return f == 2 ? factors[d] : 1.0; };

  // Recognise barycentres by their weights
  std::map<double, V> byWeight;
  std::map<V, unsigned> bary;
  for( auto&& x : m )
    if( x.v.size() > 1 )
      byWeight[ x.w * factor( 0 ) ] = x.v;
    else
      bary[ x.v ] = static_cast<unsigned>( x.v[0] );
  std::set<unsigned> taken;
  for( auto&& x : bary )
    taken.insert( x.second );
  for( auto&& x : result )
    if( x.first.size() == 1 && !taken.count( static_cast<unsigned>( x.first[0] ) ) )
    {
      c.check( byWeight.count( x.second ), "vertex " + model::show( x.first ) + " does not carry the weight of a simplex" );
      c.check( bary.insert( { byWeight[ x.second ], static_cast<unsigned>( x.first[0] ) } ).second, "two barycentres for one simplex" );
    }
  c.equal( bary.size(), m.size(), "one vertex per simplex" );
  c.assume( m.size() <= 170 );

  // All chains
  std::map<V, double> expected;
  std::vector< std::pair< std::vector<std::size_t>, V > > chains;
  std::vector<std::size_t> order( m.size() );
  for( std::size_t i = 0; i < m.size(); i++ )
    order[i] = i;
  std::stable_sort( order.begin(), order.end(), [&] ( std::size_t a, std::size_t b ) { return m[a].v.size() < m[b].v.size(); } );
  std::map< std::size_t, std::vector<V> > ending; // chains by their last simplex
  for( auto i : order )
  {
    auto self = V{ static_cast<V::value_type>( bary.at( m[i].v ) ) };
    ending[i].push_back( self );
    for( auto j : order )
      if( m[j].v.size() < m[i].v.size() && contains( m[i].v, m[j].v ) )
        for( auto&& x : ending[j] )
        {
          auto y = x;
          y.push_back( self[0] );
          std::sort( y.begin(), y.end() );
          ending[i].push_back( y );
        }
    for( auto&& x : ending[i] )
      expected[x] = m[i].v.size() == 1 ? m[i].w : m[i].w * factor( x.size() - 1 );
  }
  c.check( result == expected, "subdivision has " + pbt::str( result.size() ) + " simplices, expected " + pbt::str( expected.size() ) + " (or their weights differ)" );

  if( m.size() <= 25 && c.chance( 1, 3 ) )
  {
    auto N = f == 0 ? sd( sd( L ) ) : sd( M, [] ( std::size_t ) { return 1.0; } );
    if( N.size() < 1500 )
    {
      auto s = keys( bridge::back( N ) );
      closed( c, s, "second subdivision" );
      c.equal( trimmed( model::betti( s ) ), trimmed( model::betti( keys( m ) ) ), "homology of second subdivision" );
      c.label( "second subdivision" );
    }
  }
  c.nontrivial( model::dimension( m ) >= 2 );
}

LAW( cones, 30000, 300000, "cones and suspensions of filtered complexes with and without a weight functor: simplices, weights, homology; non-trivial: >=2 components or non-trivial homology in a higher dimension" )
{
  model::Options o;
  o.maxVertices = 8;
  o.maxCells    = 120;
  o.bulk( 50, 400, 100 );
  auto m = model::genFiltered( c, o, c.boolean() );
  bool suspend = c.boolean(), functor = c.boolean();
  c.input( model::show( m ) + ( suspend ? " suspension" : " cone" ) + ( functor ? " with weights" : "" ) );
  auto L = bridge::complex<S>( m );
  auto f = [] ( const S& s ) { return s ? 100.0 + 2 * s.data() + double( s.size() ) : -7.0; };
  K M;
  if( functor )
    M = suspend ? aleph::topology::suspension( L, f ) : aleph::topology::cone( L, f );
  else
    M = suspend ? aleph::topology::suspension( L ) : aleph::topology::cone( L );
  if( m.empty() )
    return;
  auto result = bridge::asMap( M );
  c.equal( result.size(), M.size(), "every simplex occurs once" );
  auto base = keys( m );
  V apexes;
  for( auto&& x : result )
    if( x.first.size() == 1 && !base.count( x.first ) )
      apexes.push_back( x.first[0] );
  c.equal( apexes.size(), std::size_t( suspend ? 2 : 1 ), "number of new vertices" );
  std::map<V, double> expected;
  for( auto&& x : m )
  {
    expected[ x.v ] = x.w;
    for( auto a : apexes )
    {
      auto y = x.v;
      y.push_back( a );
      std::sort( y.begin(), y.end() );
      expected[y] = functor ? 100.0 + 2 * x.w + double( x.v.size() ) : 0.0;
    }
  }
  for( auto a : apexes )
    expected[ { a } ] = functor ? -7.0 : 0.0;
  c.equal( result, expected, "simplices" );
  // homology of the result
  auto b = trimmed( model::betti( base ) );
  auto r = trimmed( model::betti( keys( bridge::back( M ) ) ) );
  std::vector<long> e = { 1 };
  if( suspend )
  {
    for( std::size_t i = 0; i < b.size(); i++ )
      e.push_back( b[i] - ( i == 0 ? 1 : 0 ) );
  }
  c.equal( r, trimmed( e ), "Betti numbers" );
  c.nontrivial( b.size() > 1 || b[0] > 1 );
}

LAW( spines, 25000, 250000, "filtered complexes incl. contractible, closed and non-pure ones: both spine calculations return a subcomplex with the same homology, the same weights and no free face; non-trivial: something was collapsed and something of positive dimension remains" )
{
  model::Options o;
  o.maxVertices = 8;
  o.maxCells    = 90;
  o.bulk( 40, 250, 100 );
  auto m = model::genFiltered( c, o, c.boolean() );
  // The reference implementation is slow
  bool dumb = m.size() <= 40 && c.boolean();
  c.input( model::show( m ) + ( dumb ? " dumb" : " smart" ) );
  auto L = bridge::complex<S>( m );
  auto M = dumb ? aleph::topology::dumb::spine( L ) : aleph::topology::spine( L );
  auto original = bridge::asMap( L );
  auto result   = bridge::asMap( M );
  std::set<V> s;
  std::size_t dimension = 0;
  for( auto&& x : result )
  {
    c.check( original.count( x.first ) && original[ x.first ] == x.second, "simplex " + model::show( x.first ) + " is not part of the complex" );
    s.insert( x.first );
    dimension = std::max( dimension, x.first.size() );
  }
  closed( c, s, "spine" );
  c.equal( trimmed( model::betti( s ) ), trimmed( model::betti( keys( m ) ) ), "homology of the spine" );
  std::map<V, std::size_t> cofaces;
  for( auto&& x : s )
    for( auto&& f : model::facets( x ) )
      if( !f.empty() )
        cofaces[f]++;
  for( auto&& x : s )
    if( !cofaces.count( x ) ) // principal
      for( auto&& f : model::facets( x ) )
        c.check( f.empty() || cofaces[f] != 1, "face " + model::show( f ) + " of " + model::show( x ) + " is free" );
  c.label( dumb ? "dumb" : "smart" );
  c.nontrivial( s.size() < m.size() && dimension >= 2 );
}

LAW( skeletons, 30000, 300000, "k-skeletons for all k: simplices, weights and order; non-trivial: some but not all simplices are kept" )
{
  auto o = model::Options().bulk( 60, 600, 100 ).solid( 10 );
  auto m = model::genFiltered( c, o, c.boolean() );
  auto k = c.size( 0, model::dimension( m ) + 1 );
  c.input( model::show( m ) + " k=" + pbt::str( k ) );
  auto L = bridge::complex<S>( m );
  auto M = aleph::topology::Skeleton()( k, L );
  std::vector< std::pair<V, double> > expected, got;
  for( auto&& x : m )
    if( x.v.size() <= k + 1 )
      expected.push_back( { x.v, x.w } );
  for( auto&& x : bridge::back( M ) )
    got.push_back( { x.v, x.w } );
  c.equal( got, expected, "skeleton" );
  // homology below k is preserved
  auto a = model::betti( keys( m ) ), b = model::betti( keys( bridge::back( M ) ) );
  for( std::size_t i = 0; i < k; i++ )
    c.equal( i < b.size() ? b[i] : 0, i < a.size() ? a[i] : 0, "Betti number in dimension " + pbt::str( i ) );
  c.nontrivial( !expected.empty() && expected.size() < m.size() );
}

LAW( intersections, 60000, 600000, "pairs of simplices, and complexes with simplices inside, outside and partially overlapping: all intersection functions against set intersections; non-trivial: the simplex is not part of the complex but meets it in an edge or more" )
{
  model::Options o;
  o.maxVertices = 8;
  o.bulk( 50, 400, 200 );
  auto m = model::genFiltered( c, o, c.boolean() );
  auto pickSimplex = [&] ()
  {
    V v;
    if( !m.empty() && c.boolean() )
      v = m[ c.size( 0, m.size() - 1 ) ].v;
    auto extra = c.size( 0, 3 );
    for( std::size_t i = 0; i < extra; i++ )
    {
      if( m.empty() || c.chance( 1, 4 ) )
        v.push_back( static_cast<V::value_type>( c.size( 0, 12 ) ) );
      else
        v.push_back( c.pick( m[ c.size( 0, m.size() - 1 ) ].v ) );
    }
    if( v.empty() )
      v.push_back( 0 );
    std::sort( v.begin(), v.end() );
    v.erase( std::unique( v.begin(), v.end() ), v.end() );
    return v;
  };
  auto a = pickSimplex(), b = pickSimplex();
  c.input( model::show( m ) + " a=" + model::show( a ) + " b=" + model::show( b ) );
  auto common = [] ( const V& x, const V& y )
  {
    V r;
    std::set_intersection( x.begin(), x.end(), y.begin(), y.end(), std::back_inserter( r ) );
    return r;
  };
  auto sa = bridge::simplex<S>( a ), sb = bridge::simplex<S>( b );
  auto ab = common( a, b );
  c.equal( aleph::topology::sizeOfIntersection( sa, sb ), ab.size(), "size of intersection" );
  c.equal( bridge::vertices( aleph::topology::intersect( sa, sb ) ), ab, "intersection of simplices" );

  auto L = bridge::complex<S>( m );
  auto k = keys( m );
  std::set<V> all, constrained;
  std::size_t biggest = 0;
  for( auto&& x : k )
  {
    auto y = common( a, x );
    if( y.empty() )
      continue;
    all.insert( y );
    biggest = std::max( biggest, y.size() );
    if( x.size() == a.size() )
      constrained.insert( y );
  }
  if( k.count( a ) )
    all = { a };
  std::set<V> got;
  for( auto&& x : aleph::topology::intersect( L, sa ) )
    got.insert( bridge::vertices( x ) );
  c.equal( got, all, "intersection with complex" );
  got.clear();
  for( auto&& x : aleph::topology::intersectWithConstrainedDimension( L, sa ) )
    got.insert( bridge::vertices( x ) );
  c.equal( got, constrained, "intersection with simplices of the same dimension" );
  auto last = aleph::topology::lastLexicographicalIntersection( L, sa );
  auto v = bridge::vertices( last );
  c.equal( v.size(), biggest, "size of largest intersection" );
  if( biggest > 0 )
  {
    c.check( k.count( v ) && contains( a, v ), "largest intersection is not part of simplex and complex" );
    for( auto&& x : m )
      if( x.v == v )
        c.equal( last.data(), x.w, "weight of largest intersection" );
  }
  c.nontrivial( !k.count( a ) && biggest >= 2 );
}
