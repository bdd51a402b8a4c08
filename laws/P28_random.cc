// flags: -I/usr/include/eigen3 -llz4
// Random objects: support constraints are exact; distributions are compared by
// bounds whose probability of being exceeded by a correct generator is below
// exp(-40) for every single comparison.
#include "pbt.hh"

#include <aleph/math/KahanSummation.hh>

#include <aleph/containers/PointCloud.hh>

#include <aleph/geometry/SphereSampling.hh>
#include <aleph/geometry/TorusSampling.hh>
#include <aleph/geometry/WitnessComplex.hh>

#include <aleph/geometry/distances/Euclidean.hh>

#include <aleph/math/Bootstrap.hh>

#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>
#include <aleph/topology/RandomGraph.hh>

#include <algorithm>
#include <cmath>
#include <map>
#include <set>
#include <vector>

namespace
{

// Chernoff bound for the number of successes among independent trials
void binomial( pbt::Ctx& c, double successes, double trials, double p, const std::string& what )
{
  if( trials <= 0 )
    return;
  if( p <= 1e-12 || p >= 1 - 1e-12 )
  {
    // boundaries of the support are checked exactly elsewhere
    return;
  }
  auto q  = successes / trials;
  auto kl = 0.0;
  if( q > 0 )
    kl += q * std::log( q / p );
  if( q < 1 )
    kl += ( 1 - q ) * std::log( ( 1 - q ) / ( 1 - p ) );
  c.check( trials * kl <= 40, what + ": " + pbt::str( successes ) + " of " + pbt::str( trials ) + ", probability is " + pbt::str( p ) );
}

double probability( pbt::Ctx& c )
{
  switch( c.draw( 6 ) )
  {
  case 0:  return 0.0;
  case 1:  return 1.0;
  case 2:  return 0.5;
  case 3:  return c.uniform( 0.0, 0.05 );
  case 4:  return c.uniform( 0.95, 1.0 );
  default: return c.uniform( 0.0, 1.0 );
  }
}

template <class Complex> std::map< std::pair<unsigned,unsigned>, unsigned > edges( pbt::Ctx& c, const Complex& K, unsigned n )
{
  std::map< std::pair<unsigned,unsigned>, unsigned > r;
  std::set<unsigned> vertices;
  for( auto&& s : K )
  {
    c.check( s.dimension() <= 1, "graph contains a simplex of higher dimension" );
    if( s.dimension() == 0 )
    {
      c.check( vertices.insert( s[0] ).second, "vertex is contained twice" );
      c.check( s[0] < n, "vertex is out of range" );
      c.check( s.data() == 0, "vertex has a weight" );
    }
    else
    {
      unsigned a = s[0], b = s[1];
      auto e = std::minmax( a, b );
      c.check( e.first != e.second && e.second < n, "edge is out of range" );
      c.check( r.insert( { { e.first, e.second }, static_cast<unsigned>( s.data() ) } ).second, "edge is contained twice" );
    }
  }
  c.equal( vertices.size(), std::size_t( n ), "number of vertices" );
  c.equal( K.size(), vertices.size() + r.size(), "number of simplices" );
  return r;
}

using Angles = std::vector< std::pair<double,double> >;

// Counts of all cells of a partition of a square, given the probabilities of
// the intervals in both directions (the directions are independent)
void product( pbt::Ctx& c, const Angles& points, const std::vector<double>& x, const std::vector<double>& px, const std::vector<double>& y, const std::vector<double>& py, const std::string& what )
{
  auto index = [] ( const std::vector<double>& bounds, double v )
  {
    return static_cast<std::size_t>( std::upper_bound( bounds.begin() + 1, bounds.end() - 1, v ) - ( bounds.begin() + 1 ) );
  };
  std::vector< std::vector<double> > n( px.size(), std::vector<double>( py.size(), 0 ) );
  for( auto&& p : points )
    n[ index( x, p.first ) ][ index( y, p.second ) ]++;
  for( std::size_t i = 0; i < px.size(); i++ )
  {
    double row = 0;
    for( std::size_t j = 0; j < py.size(); j++ )
    {
      binomial( c, n[i][j], double( points.size() ), px[i] * py[j], what + " in cell " + pbt::str( i ) + "," + pbt::str( j ) );
      row += n[i][j];
    }
    binomial( c, row, double( points.size() ), px[i], what + " in row " + pbt::str( i ) );
  }
  for( std::size_t j = 0; j < py.size(); j++ )
  {
    double column = 0;
    for( std::size_t i = 0; i < px.size(); i++ )
      column += n[i][j];
    binomial( c, column, double( points.size() ), py[j], what + " in column " + pbt::str( j ) );
  }
}

std::vector<double> steps( double lo, double hi, std::size_t n )
{
  std::vector<double> r;
  for( std::size_t i = 0; i <= n; i++ )
    r.push_back( lo + ( hi - lo ) * double( i ) / double( n ) );
  return r;
}

// Consecutive samples are independent as well
void independent( pbt::Ctx& c, const std::vector<double>& uniform, const std::string& what )
{
  Angles pairs;
  for( std::size_t i = 0; i + 1 < uniform.size(); i += 2 )
    pairs.push_back( { uniform[i], uniform[i+1] } );
  std::vector<double> p( 3, 1 / 3.0 );
  product( c, pairs, steps( 0, 1, 3 ), p, steps( 0, 1, 3 ), p, what + ", consecutive samples" );
}

template <class T> void sphere( pbt::Ctx& c, unsigned n )
{
  auto angles = aleph::geometry::sphereSampling<T>( n );
  c.equal( angles.size(), std::size_t( n ), "number of samples" );
  auto r  = T( c.integer( 1, 400 ) ) / T( 16 );
  auto x0 = T( c.around( 100 ) ) / T( 4 ), y0 = T( c.around( 100 ) ) / T( 4 ), z0 = T( c.around( 100 ) ) / T( 4 );
  c.input( pbt::str( n ) + " points, radius " + pbt::str( r ) + ", centre " + pbt::str( x0 ) + " " + pbt::str( y0 ) + " " + pbt::str( z0 ) );
  auto cloud = aleph::geometry::makeSphere( angles, r, x0, y0, z0 );
  c.equal( cloud.size(), std::size_t( n ), "number of points" );
  c.equal( cloud.dimension(), std::size_t( 3 ), "dimension of points" );
  double eps = std::is_same<T, float>::value ? 1e-5 : 1e-12;
  Angles normalised;
  std::vector<double> first, second;
  for( std::size_t i = 0; i < n; i++ )
  {
    auto p = cloud[i];
    auto x = double( p[0] - x0 ), y = double( p[1] - y0 ), z = double( p[2] - z0 );
    double scale = double( r ) + std::abs( double( x0 ) ) + std::abs( double( y0 ) ) + std::abs( double( z0 ) );
    c.close( std::sqrt( x*x + y*y + z*z ), double( r ), eps * scale, "distance from the centre" );
    // angles describe the point
    auto theta = double( angles[i].first ), phi = double( angles[i].second );
    c.check( theta >= 0 && theta <= 2 * M_PI + 1e-5, "range of first angle" );
    c.check( phi >= 0 && phi <= M_PI + 1e-5, "range of second angle" );
    c.close( x, double( r ) * std::cos( theta ) * std::sin( phi ), eps * scale, "x-coordinate" );
    c.close( y, double( r ) * std::sin( theta ) * std::sin( phi ), eps * scale, "y-coordinate" );
    c.close( z, double( r ) * std::cos( phi ), eps * scale, "z-coordinate" );
    auto a = std::atan2( y, x );
    normalised.push_back( { ( a < 0 ? a + 2 * M_PI : a ) / ( 2 * M_PI ), std::min( 1.0, std::max( 0.0, ( z / double( r ) + 1 ) / 2 ) ) } );
    first .push_back( normalised.back().first );
    second.push_back( normalised.back().second );
  }
  // equal areas: the height and the longitude are uniform and independent
  auto m = n > 3000 ? 8 : 4;
  std::vector<double> p( std::size_t( m ), 1.0 / m );
  product( c, normalised, steps( 0, 1, p.size() ), p, steps( 0, 1, p.size() ), p, "points of the sphere" );
  independent( c, first , "longitude" );
  independent( c, second, "height" );
  c.nontrivial( n >= 300 );
}

template <class T> void torus( pbt::Ctx& c, unsigned n )
{
  auto R = T( c.integer( 4, 160 ) ) / T( 16 );
  auto r = T( c.integer( 1, 16 ) ) * R / T( 16 );
  c.input( pbt::str( n ) + " points, radii " + pbt::str( R ) + " " + pbt::str( r ) );
  auto angles = aleph::geometry::torusRejectionSampling<T>( R, r, n );
  c.equal( angles.size(), std::size_t( n ), "number of samples" );
  auto cloud = aleph::geometry::makeTorus( angles, R, r );
  c.equal( cloud.size(), std::size_t( n ), "number of points" );
  c.equal( cloud.dimension(), std::size_t( 3 ), "dimension of points" );
  double eps = std::is_same<T, float>::value ? 1e-5 : 1e-12;
  Angles pairs;
  std::vector<double> first, second;
  auto cdf = [&] ( double t ) { return ( t + double( r / R ) * std::sin( t ) ) / ( 2 * M_PI ); };
  for( std::size_t i = 0; i < n; i++ )
  {
    auto p = cloud[i];
    auto x = double( p[0] ), y = double( p[1] ), z = double( p[2] );
    auto rho = std::hypot( x, y ) - double( R );
    if( r < R )
      c.close( std::hypot( rho, z ), double( r ), eps * double( R + r ), "distance from the central circle" );
    auto theta = double( angles[i].first ), psi = double( angles[i].second );
    c.check( theta >= 0 && theta <= 2 * M_PI + 1e-5 && psi >= 0 && psi <= 2 * M_PI + 1e-5, "range of angles" );
    auto d = double( R ) + double( r ) * std::cos( theta );
    c.close( x, d * std::cos( psi ), eps * double( R + r ), "x-coordinate" );
    c.close( y, d * std::sin( psi ), eps * double( R + r ), "y-coordinate" );
    c.close( z, double( r ) * std::sin( theta ), eps * double( R + r ), "z-coordinate" );
    pairs .push_back( { theta, psi } );
    first .push_back( cdf( theta ) );
    second.push_back( psi / ( 2 * M_PI ) );
  }
  std::size_t m = n > 3000 ? 8 : 4;
  auto x = steps( 0, 2 * M_PI, m );
  std::vector<double> px, py( m, 1.0 / double( m ) );
  for( std::size_t i = 0; i < m; i++ )
    px.push_back( cdf( x[i+1] ) - cdf( x[i] ) );
  product( c, pairs, x, px, x, py, "points of the torus" );
  independent( c, first , "first angle" );
  independent( c, second, "second angle" );
  c.nontrivial( n >= 300 );
}

unsigned sampleSize( pbt::Ctx& c )
{
  switch( c.draw( 4 ) )
  {
  case 0:  return static_cast<unsigned>( c.integer( 0, 20 ) );
  case 1:  return static_cast<unsigned>( c.integer( 20, 400 ) );
  default: return static_cast<unsigned>( c.integer( 400, 8000 ) );
  }
}

} // namespace

LAW( graphs, 3000, 40000, "at least four vertices and a probability different from zero and one" )
{
  auto n = static_cast<unsigned>( c.extent( 0, 12, 40 ) );
  auto p = probability( c );
  auto N = static_cast<unsigned>( c.integer( 1, 400 ) );
  c.input( pbt::str( N ) + " graphs with " + pbt::str( n ) + " vertices and probability " + pbt::str( p ) );
  c.nontrivial( n >= 4 && p > 0 && p < 1 );
  std::map< std::pair<unsigned,unsigned>, double > count;
  // joint occurrences of edges with respect to the first edge, the previous
  // edge in lexicographical order, and the previous graph
  double total = 0, neighbours = 0, neighbourPairs = 0, previous = 0, previousPairs = 0;
  std::map< std::pair<unsigned,unsigned>, unsigned > last;
  for( unsigned k = 0; k < N; k++ )
  {
    auto E = edges( c, aleph::topology::generateErdosRenyiGraph( n, p ), n );
    auto slots = std::size_t( n ) * ( n ? n - 1 : 0 ) / 2;
    if( p == 0 )
      c.equal( E.size(), std::size_t(0), "number of edges" );
    if( p == 1 )
      c.equal( E.size(), slots, "number of edges" );
    for( auto&& e : E )
    {
      c.equal( e.second, 0u, "weight of edge" );
      count[e.first]++;
      total++;
    }
    // disjoint pairs, so that trials are independent
    for( unsigned u = 0; u < n; u++ )
      for( unsigned v = u + 1; v + 1 < n; v += 2 )
      {
        neighbourPairs++;
        neighbours += E.count( { u, v } ) && E.count( { u, v + 1 } );
      }
    if( k % 2 == 1 )
      for( unsigned u = 0; u < n; u++ )
        for( unsigned v = u + 1; v < n; v++ )
        {
          previousPairs++;
          previous += E.count( { u, v } ) && last.count( { u, v } );
        }
    last = E;
  }
  for( unsigned u = 0; u < n; u++ )
    for( unsigned v = u + 1; v < n; v++ )
      binomial( c, count[ { u, v } ], N, p, "edge " + pbt::str( u ) + "-" + pbt::str( v ) );
  binomial( c, total, double( N ) * n * ( n ? n - 1 : 0 ) / 2, p, "all edges" );
  binomial( c, neighbours, neighbourPairs, p * p, "pairs of edges" );
  binomial( c, previous, previousPairs, p * p, "edges of consecutive graphs" );
}

LAW( weighted_graphs, 2500, 40000, "at least four vertices and a probability of at least 0.05" )
{
  auto n = static_cast<unsigned>( c.extent( 0, 10, 30 ) );
  auto p = std::min( 0.97, probability( c ) );
  auto N = static_cast<unsigned>( c.integer( 1, 250 ) );
  c.input( pbt::str( N ) + " weighted graphs with " + pbt::str( n ) + " vertices and probability " + pbt::str( p ) );
  c.nontrivial( n >= 4 && p >= 0.05 );
  std::map< std::pair<unsigned,unsigned>, double > count;
  std::vector<double> atLeast( 8, 0 );
  double neighbours = 0, neighbourPairs = 0;
  for( unsigned k = 0; k < N; k++ )
  {
    auto K = aleph::topology::generateWeightedRandomGraph( n, p );
    auto E = edges( c, K, n );
    unsigned w = 0;
    for( auto&& s : K )
    {
      c.check( s.data() >= w, "simplices are not sorted by weight" );
      w = s.data();
    }
    if( p == 0 )
      c.equal( E.size(), std::size_t(0), "number of edges" );
    for( auto&& e : E )
    {
      c.check( e.second >= 1, "edge without weight" );
      count[e.first]++;
      for( unsigned i = 1; i <= std::min( e.second, 7u ); i++ )
        atLeast[i]++;
    }
    for( unsigned u = 0; u < n; u++ )
      for( unsigned v = u + 1; v + 1 < n; v += 2 )
      {
        neighbourPairs++;
        neighbours += E.count( { u, v } ) && E.count( { u, v + 1 } );
      }
  }
  for( unsigned u = 0; u < n; u++ )
    for( unsigned v = u + 1; v < n; v++ )
      binomial( c, count[ { u, v } ], N, p, "edge " + pbt::str( u ) + "-" + pbt::str( v ) );
  for( unsigned i = 1; i <= 7; i++ )
    binomial( c, atLeast[i], double( N ) * n * ( n ? n - 1 : 0 ) / 2, std::pow( p, i ), "weight of at least " + pbt::str( i ) );
  binomial( c, neighbours, neighbourPairs, p * p, "pairs of edges" );
}

LAW( large_graphs, 150, 2000, "at least 40 vertices and a probability different from zero and one" )
{
  auto n = static_cast<unsigned>( c.integer( 30, 300 ) );
  auto p = probability( c );
  auto N = 1 + c.draw( 3 );
  bool weighted = c.boolean();
  if( weighted )
    p = std::min( 0.97, p );
  c.input( pbt::str( N ) + ( weighted ? " weighted" : "" ) + " graphs with " + pbt::str( n ) + " vertices and probability " + pbt::str( p ) );
  c.label( weighted ? "weighted" : "unweighted" );
  c.nontrivial( n >= 40 && p > 0 && p < 1 );
  double total = 0, weight = 0;
  std::vector<double> degree( n, 0 );
  for( std::size_t k = 0; k < N; k++ )
  {
    auto E = weighted ? edges( c, aleph::topology::generateWeightedRandomGraph( n, p ), n )
                      : edges( c, aleph::topology::generateErdosRenyiGraph( n, p ), n );
    for( auto&& e : E )
    {
      total++;
      weight += e.second >= 2;
      degree[ e.first.first ]++;
      degree[ e.first.second ]++;
    }
  }
  auto slots = double( N ) * n * ( n - 1 ) / 2;
  binomial( c, total, slots, p, "all edges" );
  if( p == 0 || p == 1 )
    c.equal( total, p * slots, "number of edges" );
  if( weighted )
    binomial( c, weight, slots, p * p, "weight of at least two" );
  else
    c.equal( weight, 0.0, "number of edges with a weight" );
  for( unsigned u = 0; u < n; u++ )
    binomial( c, degree[u], double( N ) * ( n - 1 ), p, "degree of " + pbt::str( u ) );
}

LAW( spheres, 1500, 20000, "at least 300 points" )
{
  auto n = sampleSize( c );
  if( c.boolean() )
    sphere<double>( c, n );
  else
    sphere<float>( c, n );
}

LAW( tori, 1500, 20000, "at least 300 points" )
{
  auto n = sampleSize( c );
  if( c.boolean() )
    torus<double>( c, n );
  else
    torus<float>( c, n );
}

LAW( large_samples, 75, 1000, "at least 60000 points of a sphere or a torus" )
{
  auto n = static_cast<unsigned>( c.integer( 60000, 120000 ) );
  if( c.chance( 1, 4 ) )
    sphere<double>( c, n );
  else
    torus<double>( c, n );
}

LAW( replicates, 1500, 20000, "at least two values and 100 replicates" )
{
  auto n = c.extent( 1, 10, 40 );
  auto N = static_cast<unsigned>( c.integer( 1, 3000 ) );
  c.input( pbt::str( N ) + " replicates of " + pbt::str( n ) + " values" );
  c.nontrivial( n >= 2 && N >= 100 );
  std::vector<std::size_t> data;
  for( std::size_t i = 0; i < n; i++ )
    data.push_back( i );
  using Iterator = std::vector<std::size_t>::iterator;
  std::vector< std::vector<std::size_t> > samples;
  aleph::math::Bootstrap().makeReplicates( N, data.begin(), data.end(), [] ( Iterator a, Iterator b ) { return std::vector<std::size_t>( a, b ); }, std::back_inserter( samples ) );
  c.equal( samples.size(), std::size_t( N ), "number of replicates" );
  // position and value; consecutive positions
  std::vector< std::vector<double> > count( n, std::vector<double>( n, 0 ) ), pairs = count;
  double same = 0, samePairs = 0;
  for( auto&& s : samples )
  {
    c.equal( s.size(), n, "size of a replicate" );
    for( std::size_t i = 0; i < n; i++ )
    {
      c.check( s[i] < n, "value is not part of the data" );
      count[i][ s[i] ]++;
    }
    for( std::size_t i = 0; i + 1 < n; i += 2 )
    {
      pairs[ s[i] ][ s[i+1] ]++;
      same += s[i] == s[i+1];
      samePairs++;
    }
  }
  for( std::size_t i = 0; i < n; i++ )
    for( std::size_t j = 0; j < n; j++ )
    {
      binomial( c, count[i][j], N, 1.0 / double( n ), "value " + pbt::str( j ) + " at position " + pbt::str( i ) );
      if( n > 1 )
        binomial( c, pairs[i][j], samePairs, 1.0 / double( n * n ), "values " + pbt::str( i ) + "," + pbt::str( j ) );
    }
  if( n > 1 )
    binomial( c, same, samePairs, 1.0 / double( n ), "repeated values" );
}

LAW( landmarks, 1500, 20000, "at least three points, not all of them are landmarks, and 100 repetitions" )
{
  auto n = c.extent( 1, 9, 40 );
  auto k = c.size( 0, n );
  auto N = static_cast<unsigned>( c.integer( 1, 1000 ) );
  c.input( pbt::str( k ) + " landmarks of " + pbt::str( n ) + " points, " + pbt::str( N ) + " times" );
  c.nontrivial( n >= 3 && k > 0 && k < n && N >= 100 );
  std::vector<double> chosen( n, 0 );
  std::vector< std::vector<double> > both( n, chosen );
  std::vector<double> start( n, 0 );
  aleph::containers::PointCloud<double> cloud( n, 1 );
  for( std::size_t i = 0; i < n; i++ )
    cloud.set( i, { double( i * i ) } );
  for( unsigned t = 0; t < N; t++ )
  {
    std::vector<std::size_t> L;
    aleph::geometry::generateRandomLandmarks( n, k, std::back_inserter( L ) );
    std::set<std::size_t> S( L.begin(), L.end() );
    c.equal( L.size(), k, "number of landmarks" );
    c.equal( S.size(), k, "number of distinct landmarks" );
    for( auto&& i : S )
    {
      c.check( i < n, "landmark is out of range" );
      chosen[i]++;
      for( auto&& j : S )
        both[i][j]++;
    }
    if( k > 0 )
    {
      std::vector<std::size_t> M;
      aleph::geometry::generateMaxMinLandmarks( cloud, k, std::back_inserter( M ), aleph::geometry::distances::Euclidean<double>() );
      c.equal( M.size(), k, "number of max-min landmarks" );
      c.check( M.front() < n, "landmark is out of range" );
      start[ M.front() ]++;
    }
  }
  auto a = double( k ) / double( n );
  for( std::size_t i = 0; i < n; i++ )
  {
    binomial( c, chosen[i], N, a, "landmark " + pbt::str( i ) );
    if( k > 0 )
      binomial( c, start[i], N, 1.0 / double( n ), "first max-min landmark " + pbt::str( i ) );
    for( std::size_t j = 0; j < n; j++ )
      if( i != j && n > 1 )
        binomial( c, both[i][j], N, a * double( k ? k - 1 : 0 ) / double( n - 1 ), "landmarks " + pbt::str( i ) + "," + pbt::str( j ) );
  }
}
