// flags: -llz4
// Nearest-neighbour searches are exact, back ends agree, metrics are right.
#include "clouds.hh"

#include <aleph/geometry/BruteForce.hh>
#include <aleph/geometry/FLANN.hh>
#include <aleph/geometry/distances/Euclidean.hh>
#include <aleph/geometry/distances/Hamming.hh>
#include <aleph/geometry/distances/Infinity.hh>
#include <aleph/geometry/distances/Manhattan.hh>
#include <aleph/geometry/distances/Wrapper.hh>
#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>

#include <list>
#include <set>

using aleph::geometry::BruteForce;
using aleph::geometry::FLANN;
using aleph::geometry::distances::Euclidean;
using aleph::geometry::distances::Hamming;
using aleph::geometry::distances::Manhattan;

using Metric  = double ( * )( const cloud::Row&, const cloud::Row& );
using Indices = std::vector< std::vector<std::size_t> >;

static double hamming( const cloud::Row& a, const cloud::Row& b )
{
  double s = 0;
  for( std::size_t i = 0; i < a.size(); i++ )
    s += a[i] != b[i];
  return s;
}

static double dgmInfinity( double a, double b, double c, double d ) { return std::max( std::fabs( a - c ), std::fabs( b - d ) ); }

template <template <class,class> class Search, class T, template <class> class M>
void searchLaw( pbt::Ctx& c, Metric metric, bool exactMetric, bool exactSearch, std::size_t minimum )
{
  auto dim  = c.size( 1, 6 );
  auto mode = static_cast<int>( c.draw( 5 ) );
  auto p    = cloud::gen( c, minimum, c.chance( 1, 3 ) ? 60 : 14, dim, mode, 300 );
  if( sizeof( T ) == sizeof( float ) )
    for( auto&& x : p )
      for( auto&& y : x )
        y = static_cast<float>( y );
  auto n    = p.size();
  auto container = cloud::make<T>( p, dim );
  using Cloud = aleph::containers::PointCloud<T>;
  Search<Cloud, M<T> > nn( container );
  auto tolerance = sizeof( T ) == sizeof( float ) ? 1e-5 : 1e-12;

  std::vector< std::vector<double> > d( n, std::vector<double>( n ) );
  std::set<double> values;
  for( std::size_t i = 0; i < n; i++ )
    for( std::size_t j = 0; j < n; j++ )
      values.insert( d[i][j] = metric( p[i], p[j] ) );

  // radius: either exactly a distance, or away from all distances
  std::vector<double> v( values.begin(), values.end() );
  double radius = 1;
  bool exact = exactMetric && exactSearch && mode <= 1;
  if( !v.empty() )
  {
    auto i = c.size( 0, v.size() - 1 );
    if( exact && c.boolean() )
      radius = v[i];
    else
      radius = i + 1 < v.size() ? ( v[i] + v[i+1] ) / 2 : v[i] + 1;
  }
  double margin = exact ? 0 : exactSearch && sizeof( T ) == sizeof( double ) ? 1e-9 * ( 1 + radius ) : 1e-5 * ( 1 + radius );
  auto k = c.size( 0, n + 2 );
  c.input( cloud::show( p ) + " radius " + pbt::str( radius ) + " k " + pbt::str( k ) );
  c.equal( nn.size(), n, "number of points" );

  Indices indices;
  std::vector< std::vector<T> > distances;
  // previous contents of the result are replaced
  if( c.boolean() )
  {
    indices.resize( 3, { 7, 7 } );
    distances.resize( 3, { T( 7 ), T( 7 ) } );
  }
  nn.radiusSearch( static_cast<T>( radius ), indices, distances );
  c.equal( indices.size(), n, "number of results" );
  c.equal( distances.size(), n, "number of results" );
  std::size_t least = n, most = 0;
  for( std::size_t i = 0; i < n; i++ )
  {
    c.equal( indices[i].size(), distances[i].size(), "numbers of indices and distances" );
    std::set<std::size_t> got( indices[i].begin(), indices[i].end() );
    c.equal( got.size(), indices[i].size(), "neighbours are distinct" );
    for( std::size_t j = 0; j < n; j++ )
      if( d[i][j] < radius - margin )
        c.check( got.count( j ), "neighbour " + pbt::str( j ) + " of " + pbt::str( i ) + " is missing" );
      else if( d[i][j] >= radius + margin )
        c.check( !got.count( j ), "neighbour " + pbt::str( j ) + " of " + pbt::str( i ) + " is too far away" );
    for( std::size_t j = 0; j < indices[i].size(); j++ )
    {
      c.check( indices[i][j] < n, "index of neighbour" );
      c.close( static_cast<double>( distances[i][j] ), d[i][ indices[i][j] ], tolerance * ( 1 + radius ) * 10, "distance of neighbour" );
    }
    least = std::min( least, got.size() );
    most  = std::max( most, got.size() );
  }
  c.label( least == most ? "uniform" : "varying neighbourhoods" );

  nn.neighbourSearch( static_cast<unsigned>( k ), indices, distances );
  c.equal( indices.size(), n, "number of results" );
  c.equal( distances.size(), n, "number of results" );
  for( std::size_t i = 0; i < n; i++ )
  {
    auto expected = d[i];
    std::sort( expected.begin(), expected.end() );
    expected.resize( std::min( k, n ) );
    c.equal( indices[i].size(), expected.size(), "number of neighbours" );
    c.equal( distances[i].size(), expected.size(), "number of neighbours" );
    std::set<std::size_t> got( indices[i].begin(), indices[i].end() );
    c.equal( got.size(), indices[i].size(), "nearest neighbours are distinct" );
    for( std::size_t j = 0; j < expected.size(); j++ )
    {
      c.check( indices[i][j] < n, "index of nearest neighbour" );
      c.close( static_cast<double>( distances[i][j] ), expected[j], tolerance * ( 1 + expected[j] ) * 10, "distance of nearest neighbour " + pbt::str( j ) + " of " + pbt::str( i ) );
      c.close( static_cast<double>( distances[i][j] ), d[i][ indices[i][j] ], tolerance * ( 1 + expected[j] ) * 10, "index of nearest neighbour " + pbt::str( j ) + " of " + pbt::str( i ) );
    }
  }
  c.nontrivial( n >= 4 && least < most && k >= 2 && k < n );
}

LAW( euclidean, 5600, 56000, "clouds of <=60 points in <=6 dimensions (ties, duplicates, clusters), radii at or between distances, k beyond the number of points, brute force: exact neighbours and distances; non-trivial: >=4 points, neighbourhoods of different sizes and 2 <= k < n" ) { searchLaw<BruteForce, double, Euclidean>( c, cloud::euclidean, true, true, 0 ); }
LAW( euclidean_float, 2100, 14000, "as euclidean in single precision" ) { searchLaw<BruteForce, float, Euclidean>( c, cloud::euclidean, false, true, 0 ); }
LAW( manhattan, 2800, 28000, "as euclidean with the Manhattan metric" ) { searchLaw<BruteForce, double, Manhattan>( c, cloud::manhattan, true, true, 0 ); }
LAW( hamming_metric, 2100, 21000, "as euclidean with the Hamming metric" ) { searchLaw<BruteForce, double, Hamming>( c, hamming, true, true, 0 ); }
LAW( flann_euclidean, 4200, 42000, "as euclidean with the tree-based search" ) { searchLaw<FLANN, double, Euclidean>( c, cloud::euclidean, true, false, 1 ); }
LAW( flann_float, 1400, 14000, "as flann_euclidean in single precision" ) { searchLaw<FLANN, float, Euclidean>( c, cloud::euclidean, true, false, 1 ); }
LAW( flann_manhattan, 2100, 21000, "as manhattan with the tree-based search" ) { searchLaw<FLANN, double, Manhattan>( c, cloud::manhattan, true, false, 1 ); }
LAW( flann_hamming, 2100, 21000, "as hamming_metric with the tree-based search" ) { searchLaw<FLANN, double, Hamming>( c, hamming, true, false, 1 ); }

// Values of a metric on generated vectors, for any length
template <template <class> class M, class T> void metricLaw( pbt::Ctx& c, Metric metric, bool squared )
{
  auto dim = c.extent( 1, 13, 70 );
  auto p   = cloud::gen( c, 3, 3, dim );
  if( sizeof( T ) == sizeof( float ) )
    for( auto&& x : p )
      for( auto&& y : x )
        y = static_cast<float>( y );
  c.input( cloud::show( p ) );
  auto tolerance = sizeof( T ) == sizeof( float ) ? 1e-5 : 1e-12;
  std::vector< std::vector<T> > v;
  for( auto&& x : p )
    v.emplace_back( x.begin(), x.end() );
  M<T> m;
  aleph::geometry::distances::Traits< M<T> > traits;
  aleph::geometry::distances::Wrapper< M<T>, std::vector<T> > wrapper;
  double d[3][3];
  for( int i = 0; i < 3; i++ )
    for( int j = 0; j < 3; j++ )
    {
      double expected = metric( p[i], p[j] );
      double raw      = static_cast<double>( m( v[i].begin(), v[j].begin(), dim ) );
      c.close( raw, squared ? expected * expected : expected, tolerance * 10 * ( 1 + expected * expected ), "raw value" );
      d[i][j] = static_cast<double>( traits.from( static_cast<T>( raw ) ) );
      c.close( d[i][j], expected, tolerance * 10 * ( 1 + expected ), "distance" );
      c.close( static_cast<double>( traits.to( traits.from( static_cast<T>( raw ) ) ) ), raw, tolerance * 10 * ( 1 + raw ), "conversion" );
      c.close( static_cast<double>( wrapper( v[i], v[j] ) ), expected, tolerance * 10 * ( 1 + expected ), "wrapped distance" );
      // partial distances add up
      double partial = 0;
      for( std::size_t k = 0; k < dim; k++ )
        partial += static_cast<double>( m.accum_dist( v[i][k], v[j][k], 0 ) );
      c.close( partial, raw, tolerance * 10 * ( 1 + raw ), "sum of partial distances" );
      // bounded calculation: either exact or beyond the bound
      double bound = raw * c.uniform( 0.1, 1.5 );
      double bounded = static_cast<double>( m( v[i].begin(), v[j].begin(), dim, static_cast<T>( bound ) ) );
      c.check( std::fabs( bounded - raw ) <= tolerance * 10 * ( 1 + raw ) || ( bounded > bound * ( 1 - tolerance ) && bounded <= raw * ( 1 + tolerance * 10 ) ), "bounded calculation" );
    }
  for( int i = 0; i < 3; i++ )
    c.check( d[i][i] == 0 && std::fabs( d[i][( i + 1 ) % 3] - d[( i + 1 ) % 3][i] ) <= tolerance * ( 1 + d[i][( i + 1 ) % 3] ), "symmetry" );
  c.check( d[0][2] <= ( d[0][1] + d[1][2] ) * ( 1 + tolerance * 10 ), "triangle inequality" );
  c.nontrivial( dim >= 2 && d[0][1] > 0 && d[1][2] > 0 && d[0][2] > 0 );
}

LAW( metric_euclidean, 4200, 42000, "triples of vectors with 1-13 components: values, conversions, partial and bounded calculation, metric axioms; non-trivial: >=2 components, all distinct" ) { metricLaw<Euclidean, double>( c, cloud::euclidean, true ); }
LAW( metric_euclidean_float, 1400, 14000, "as metric_euclidean in single precision" ) { metricLaw<Euclidean, float>( c, cloud::euclidean, true ); }
LAW( metric_manhattan, 2800, 28000, "as metric_euclidean for the Manhattan distance" ) { metricLaw<Manhattan, double>( c, cloud::manhattan, false ); }
LAW( metric_hamming, 2800, 28000, "as metric_euclidean for the Hamming distance" ) { metricLaw<Hamming, double>( c, hamming, false ); }

LAW( point_metrics, 2800, 28000, "pairs of diagram points: supremum and squared Euclidean distance, also for integers; non-trivial: both coordinates differ" )
{
  auto p = cloud::gen( c, 2, 2, 2 );
  c.input( cloud::show( p ) );
  using Point = aleph::PersistenceDiagram<double>::Point;
  Point a( p[0][0], p[0][1] ), b( p[1][0], p[1][1] );
  aleph::geometry::distances::InfinityDistance<double> infinity;
  Euclidean<double> euclidean;
  auto expected = dgmInfinity( p[0][0], p[0][1], p[1][0], p[1][1] );
  c.close( infinity( a, b ), expected, 1e-12, "supremum distance" );
  c.close( infinity( b, a ), expected, 1e-12, "supremum distance" );
  c.close( euclidean( a, b ), cloud::squared( p[0], p[1] ), 1e-10, "squared Euclidean distance" );
  c.close( euclidean( b, a ), cloud::squared( p[0], p[1] ), 1e-10, "squared Euclidean distance" );
  using U = aleph::PersistenceDiagram<unsigned>::Point;
  auto x = [&] { return static_cast<unsigned>( c.size( 0, 20 ) ); };
  unsigned q[4] = { x(), x(), x(), x() };
  U e( q[0], q[1] ), f( q[2], q[3] );
  aleph::geometry::distances::InfinityDistance<unsigned> infinityU;
  Euclidean<unsigned> euclideanU;
  c.equal( static_cast<double>( infinityU( e, f ) ), dgmInfinity( q[0], q[1], q[2], q[3] ), "supremum distance of integers" );
  c.equal( static_cast<double>( euclideanU( e, f ) ), std::pow( double( q[0] ) - q[2], 2 ) + std::pow( double( q[1] ) - q[3], 2 ), "squared Euclidean distance of integers" );
  c.nontrivial( p[0][0] != p[1][0] && p[0][1] != p[1][1] );
}

LAW( units, 5000, 50000, "clouds of <=20 points in units that differ by a power of two (2^-40 to 2^40), both back ends: scaled distances of neighbours, same neighbours within a scaled radius; non-trivial: at least four points" )
{
  auto dim = c.size( 1, 4 );
  auto p   = cloud::gen( c, 1, 20, dim, -1 );
  auto q   = p;
  auto exponent = c.pick( std::vector<int>{ -40, -24, -10, 10, 24, 40 } );
  double s = std::ldexp( 1.0, exponent );
  for( auto&& x : q )
    for( auto&& y : x )
      y *= s;
  auto n = p.size();
  auto k = c.size( 1, n );
  double radius = static_cast<double>( c.size( 0, 40 ) ) / 4 + 1.0 / 64;
  c.input( cloud::show( p ) + " radius " + pbt::str( radius ) + " k " + pbt::str( k ) + " units 2^" + pbt::str( exponent ) );
  using Cloud = aleph::containers::PointCloud<double>;
  Cloud P = cloud::make<double>( p, dim ), Q = cloud::make<double>( q, dim );
  auto compare = [&] ( const std::string& what, const Indices& i, std::vector< std::vector<double> > d, const Indices& j, std::vector< std::vector<double> > e, bool nearest )
  {
    c.equal( j.size(), i.size(), what + ": number of results in other units" );
    for( std::size_t l = 0; l < i.size(); l++ )
    {
      c.equal( j[l].size(), i[l].size(), what + ": number of neighbours in other units" );
      if( !nearest )
        c.equal( std::set<std::size_t>( j[l].begin(), j[l].end() ), std::set<std::size_t>( i[l].begin(), i[l].end() ), what + ": neighbours in other units" );
      std::sort( d[l].begin(), d[l].end() );
      std::sort( e[l].begin(), e[l].end() );
      for( std::size_t m = 0; m < d[l].size(); m++ )
        c.close( e[l][m] / s, d[l][m], 1e-12 * ( 1 + d[l][m] ), what + ": distance of neighbour in other units" );
    }
  };
  Indices i, j;
  std::vector< std::vector<double> > d, e;
  {
    BruteForce<Cloud, Euclidean<double> > a( P ), b( Q );
    a.radiusSearch( radius, i, d );
    b.radiusSearch( radius * s, j, e );
    compare( "radius search", i, d, j, e, false );
    a.neighbourSearch( static_cast<unsigned>( k ), i, d );
    b.neighbourSearch( static_cast<unsigned>( k ), j, e );
    compare( "neighbour search", i, d, j, e, true );
  }
  {
    FLANN<Cloud, Euclidean<double> > a( P ), b( Q );
    a.radiusSearch( radius, i, d );
    b.radiusSearch( radius * s, j, e );
    compare( "radius search in a tree", i, d, j, e, false );
    a.neighbourSearch( static_cast<unsigned>( k ), i, d );
    b.neighbourSearch( static_cast<unsigned>( k ), j, e );
    compare( "neighbour search in a tree", i, d, j, e, true );
  }
  c.label( exponent < 0 ? "smaller" : "larger" );
  c.nontrivial( n >= 4 );
}
