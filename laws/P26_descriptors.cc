// flags: -I/usr/include/eigen3 -llz4
// Descriptors and dimension estimates of point clouds equal their formulas,
// evaluated directly from all pairwise distances.
#include "pbt.hh"
#include "clouds.hh"

#include <aleph/math/KahanSummation.hh>

#include <aleph/containers/DataDescriptors.hh>
#include <aleph/containers/DimensionalityEstimators.hh>
#include <aleph/containers/FractalDimension.hh>
#include <aleph/containers/MeanShift.hh>
#include <aleph/containers/PointCloud.hh>

#include <aleph/geometry/BruteForce.hh>
#include <aleph/geometry/FLANN.hh>

#include <aleph/geometry/distances/Euclidean.hh>
#include <aleph/geometry/Point.hh>
#include <aleph/geometry/TangentSpace.hh>
#include <aleph/geometry/distances/Manhattan.hh>

#include <algorithm>
#include <cmath>
#include <map>
#include <set>
#include <sstream>
#include <vector>

namespace
{

using Cloud     = aleph::containers::PointCloud<double>;
using Euclidean = aleph::geometry::distances::Euclidean<double>;
using Manhattan = aleph::geometry::distances::Manhattan<double>;

template <class D> using Brute = aleph::geometry::BruteForce<Cloud, D>;
template <class D> using Tree  = aleph::geometry::FLANN<Cloud, D>;

template <class D> double metric( const cloud::Row& a, const cloud::Row& b );
template <> double metric<Euclidean>( const cloud::Row& a, const cloud::Row& b ) { return cloud::euclidean( a, b ); }
template <> double metric<Manhattan>( const cloud::Row& a, const cloud::Row& b ) { return cloud::manhattan( a, b ); }

// Sorted distances to all points, including the point itself
template <class D> std::vector< std::vector< std::pair<double, std::size_t> > > table( const cloud::Rows& r )
{
  std::vector< std::vector< std::pair<double, std::size_t> > > t( r.size() );
  for( std::size_t i = 0; i < r.size(); i++ )
  {
    for( std::size_t j = 0; j < r.size(); j++ )
      t[i].push_back( { i == j ? 0.0 : metric<D>( r[i], r[j] ), j } );
    std::sort( t[i].begin(), t[i].end() );
  }
  return t;
}

cloud::Rows permuted( const cloud::Rows& r, const std::vector<std::size_t>& order )
{
  cloud::Rows s;
  for( auto&& i : order )
    s.push_back( r[i] );
  return s;
}

// A different presentation of the same cloud: its points are permuted, and
// the points are translated by integers.
struct Variant
{
  cloud::Rows rows;
  std::vector<std::size_t> order;
};

Variant variant( pbt::Ctx& c, const cloud::Rows& r, std::size_t d, bool translate )
{
  Variant v;
  for( std::size_t i = 0; i < r.size(); i++ )
    v.order.push_back( i );
  c.shuffle( v.order );
  v.rows = permuted( r, v.order );
  if( translate )
  {
    for( std::size_t k = 0; k < d; k++ )
    {
      auto shift = static_cast<double>( c.integer( -16, 16 ) );
      for( auto&& x : v.rows )
        x[k] += shift;
    }
  }
  return v;
}

void vectors( pbt::Ctx& c, const std::vector<double>& got, const std::vector<double>& expected, double tolerance, const std::string& what )
{
  c.equal( got.size(), expected.size(), "number of values: " + what );
  for( std::size_t i = 0; i < got.size(); i++ )
  {
    if( std::isnan( expected[i] ) )
      c.check( std::isnan( got[i] ), what + " of point " + pbt::str( i ) + " is " + pbt::str( got[i] ) + " instead of undefined" );
    else if( std::isinf( expected[i] ) )
      c.equal( got[i], expected[i], what + " of point " + pbt::str( i ) );
    else
      c.close( got[i], expected[i], tolerance * ( 1.0 + std::abs( expected[i] ) ), what + " of point " + pbt::str( i ) );
  }
}

// Applies a descriptor to a cloud and to its variant; both have to agree.
template <class F> void equivariant( pbt::Ctx& c, F f, const cloud::Rows& r, std::size_t d, bool translate, const std::vector<double>& expected, double tolerance, const std::string& what )
{
  vectors( c, f( cloud::make<double>( r, d ) ), expected, tolerance, what );

  auto v = variant( c, r, d, translate );
  std::vector<double> moved;
  for( auto&& i : v.order )
    moved.push_back( expected[i] );
  vectors( c, f( cloud::make<double>( v.rows, d ) ), moved, tolerance, what + " (reordered and translated)" );
}

template <class D> void eccentricityLaw( pbt::Ctx& c )
{
  auto d     = static_cast<std::size_t>( c.integer( 1, 4 ) );
  auto r     = cloud::gen( c, 1, 14, d, -1, 80 );
  auto order = static_cast<unsigned>( c.draw( 5 ) );
  c.input( "order " + pbt::str( order ) + ": " + cloud::show( r ) );

  auto t = table<D>( r );
  std::vector<double> expected;
  for( std::size_t i = 0; i < r.size(); i++ )
  {
    double e = 0.0;
    for( auto&& p : t[i] )
      e = order ? e + std::pow( p.first, order ) / static_cast<double>( r.size() ) : std::max( e, p.first );
    expected.push_back( order ? std::pow( e, 1.0 / order ) : e );
  }

  equivariant( c, [&] ( const Cloud& p ) { return aleph::containers::eccentricities<D>( p, order ); }, r, d, true, expected, 1e-9, "eccentricity" );
  c.check( aleph::containers::eccentricities<D>( Cloud(), order ).empty(), "eccentricities of empty cloud" );
  c.label( "order " + pbt::str( order ) );
  c.nontrivial( r.size() >= 3 );
}

LAW( eccentricities, 15000, 150000, "clouds of <=14 points, all orders; non-trivial: at least three points" ) { eccentricityLaw<Euclidean>( c ); }
LAW( eccentricities_manhattan, 10000, 100000, "as eccentricities, with the Manhattan distance" ) { eccentricityLaw<Manhattan>( c ); }

LAW( gaussian_density, 20000, 200000, "clouds of <=14 points, bandwidths between their distances; non-trivial: some but not all pairs are truncated" )
{
  auto d = static_cast<std::size_t>( c.integer( 1, 4 ) );
  auto r = cloud::gen( c, 1, 14, d, -1, 80 );
  auto t = table<Euclidean>( r );

  // The bandwidth stays away from all distances
  auto bandwidth = 0.05 + c.uniform( 0, 8 );
  bool inside = false, outside = false;
  std::vector<double> expected;
  for( auto&& row : t )
  {
    double density = 0.0;
    for( auto&& p : row )
    {
      c.assume( std::abs( p.first - bandwidth ) > 1e-9 );
      if( p.first < bandwidth )
      {
        density += std::exp( -p.first * p.first / ( 2.0 * bandwidth ) );
        inside   = inside || p.first > 0;
      }
      else
        outside = true;
    }
    expected.push_back( density / static_cast<double>( r.size() ) );
  }
  c.input( "bandwidth " + pbt::str( bandwidth ) + ": " + cloud::show( r ) );

  equivariant( c, [&] ( const Cloud& p ) { return aleph::containers::estimateDensityTruncatedGaussian( p, bandwidth ); }, r, d, true, expected, 1e-9, "density" );
  c.nontrivial( inside && outside );
}

template <class D> void measureLaw( pbt::Ctx& c )
{
  auto d = static_cast<std::size_t>( c.integer( 1, 4 ) );
  auto r = cloud::gen( c, 1, 14, d, -1, 80 );
  auto k = static_cast<unsigned>( 1 + c.draw( r.size() + 1 ) ); // may be too large
  c.input( "k=" + pbt::str( k ) + ": " + cloud::show( r ) );

  auto t = table<D>( r );
  std::vector<double> expected;
  for( auto&& row : t )
  {
    double sum = 0.0;
    for( std::size_t j = 0; j < k && j < row.size(); j++ )
      sum += row[j].first;
    expected.push_back( -sum / static_cast<double>( r.size() ) );
  }

  equivariant( c, [&] ( const Cloud& p ) { return aleph::containers::estimateDensityDistanceToMeasure<D>( p, k ); }, r, d, true, expected, 1e-9, "distance to a measure" );
  if( k <= r.size() )
    equivariant( c, [&] ( const Cloud& p ) { return aleph::containers::estimateDensityDistanceToMeasure<D, Cloud, Tree<D> >( p, k ); }, r, d, true, expected, 1e-9, "distance to a measure (search tree)" );
  c.nontrivial( r.size() >= 3 && k >= 2 );
}

LAW( distance_to_measure, 15000, 150000, "clouds of <=14 points, all numbers of neighbours, both back ends; non-trivial: at least three points and two neighbours" ) { measureLaw<Euclidean>( c ); }
LAW( distance_to_measure_manhattan, 10000, 100000, "as distance_to_measure, with the Manhattan distance" ) { measureLaw<Manhattan>( c ); }

template <class D> void lensLaw( pbt::Ctx& c )
{
  // Integers so that ties are exact
  auto d = static_cast<std::size_t>( c.integer( 1, 3 ) );
  auto r = cloud::gen( c, 0, 12, d, static_cast<int>( c.draw( 2 ) ), 40 );
  c.input( cloud::show( r ) );

  auto distance = [&] ( std::size_t i, std::size_t j )
  {
    return std::is_same<D, Euclidean>::value ? cloud::squared( r[i], r[j] ) : cloud::manhattan( r[i], r[j] );
  };

  std::vector<double> expected( r.size(), 0.0 );
  bool tie = false;
  for( std::size_t k = 0; k < r.size(); k++ )
    for( std::size_t i = 0; i < r.size(); i++ )
      for( std::size_t j = 0; j < i; j++ )
        if( k != i && k != j )
        {
          auto m = std::max( distance( i, k ), distance( j, k ) );
          expected[k] += m <= distance( i, j );
          tie          = tie || m == distance( i, j );
        }

  equivariant( c, [&] ( const Cloud& p )
  {
    auto depth = aleph::containers::estimateLensDataDepth( p, D() );
    return std::vector<double>( depth.begin(), depth.end() );
  }, r, d, true, expected, 0, "lens depth" );

  c.label( tie ? "ties" : "no ties" );
  c.nontrivial( r.size() >= 4 );
}

LAW( lens_depth, 15000, 150000, "clouds of <=12 integer points with ties; non-trivial: at least four points" ) { lensLaw<Euclidean>( c ); }
LAW( lens_depth_manhattan, 10000, 100000, "as lens_depth, with the Manhattan distance" ) { lensLaw<Manhattan>( c ); }

template <class D> void shiftLaw( pbt::Ctx& c )
{
  auto d = static_cast<std::size_t>( c.integer( 1, 3 ) );
  auto r = cloud::gen( c, 2, 12, d, -1, 60 );
  auto k = static_cast<unsigned>( c.draw( r.size() ) );
  auto n = static_cast<unsigned>( c.draw( 5 ) );

  std::vector<double> values;
  for( std::size_t i = 0; i < r.size(); i++ )
    values.push_back( c.uniform( -10, 10 ) );
  c.input( "k=" + pbt::str( k ) + ", " + pbt::str( n ) + " steps: " + cloud::show( r ) + " values " + pbt::str( values ) );

  auto t = table<D>( r );

  // Which of the neighbours at the same distance are used is up to the
  // neighbour search, so there must not be a choice.
  for( auto&& row : t )
  {
    c.assume( k + 1 >= row.size() || row[k+1].first - row[k].first > 1e-9 );
    // Weights of very close points would amplify rounding errors
    for( auto&& p : row )
      c.assume( p.first == 0.0 || p.first > 1e-3 );
  }

  auto expected = values;
  for( unsigned step = 0; step < n; step++ )
  {
    auto next = expected;
    for( std::size_t i = 0; i < r.size(); i++ )
    {
      double value = 0.0, weights = 0.0;
      for( std::size_t j = 0; j <= k; j++ )
      {
        auto distance = t[i][j].first;
        auto weight   = distance > 0 ? 1.0 / ( distance * distance ) : 1.0;
        value   += weight * expected[ t[i][j].second ];
        weights += weight;
      }
      next[i] = value / weights;
    }
    expected = next;
  }

  auto run = [&] ( const cloud::Rows& rows, const std::vector<double>& input, bool tree )
  {
    auto p = cloud::make<double>( rows, d );
    std::vector<double> output;
    if( tree )
      aleph::containers::meanShiftSmoothing< Tree<D> >( p, input.begin(), input.end(), std::back_inserter( output ), k, n );
    else
      aleph::containers::meanShiftSmoothing< Brute<D> >( p, input.begin(), input.end(), std::back_inserter( output ), k, n );
    return output;
  };

  for( bool tree : { false, true } )
  {
    auto name = std::string( tree ? "smoothed value (search tree)" : "smoothed value" );
    vectors( c, run( r, values, tree ), expected, 1e-7, name );

    auto v = variant( c, r, d, false );
    std::vector<double> input, output;
    for( auto&& i : v.order )
    {
      input.push_back( values[i] );
      output.push_back( expected[i] );
    }
    vectors( c, run( v.rows, input, tree ), output, 1e-7, name + " (reordered)" );
  }

  c.label( pbt::str( n ) + " steps" );
  c.nontrivial( r.size() >= 3 && k >= 1 && n >= 1 );
}

LAW( mean_shift, 15000, 150000, "clouds of <=12 points without ties for the last neighbour, <=4 steps, both back ends; non-trivial: at least three points, one neighbour and one step" ) { shiftLaw<Euclidean>( c ); }
LAW( mean_shift_manhattan, 7500, 75000, "as mean_shift, with the Manhattan distance" ) { shiftLaw<Manhattan>( c ); }

// Dimensionality ---------------------------------------------------------

template <class D> void dimensionLaw( pbt::Ctx& c )
{
  auto d    = static_cast<std::size_t>( c.integer( 1, 4 ) );
  auto r    = cloud::gen( c, 4, 14, d, c.boolean() ? 2 : 1, 80 );
  auto kMin = static_cast<unsigned>( 1 + c.draw( r.size() - 1 ) );
  auto kMax = static_cast<unsigned>( 1 + c.draw( r.size() - 1 ) );
  c.input( "k=" + pbt::str( kMin ) + "," + pbt::str( kMax ) + ": " + cloud::show( r ) );

  auto t = table<D>( r );
  auto lower = std::min( kMin, kMax );
  auto upper = std::max( kMin, kMax );

  // Mean distance to the first k entries; all formulas are ill-conditioned
  // if different points are very close to each other or if the mean
  // distances do not change.
  auto mean = [&] ( std::size_t i, unsigned k )
  {
    double s = 0.0;
    for( unsigned j = 0; j < k; j++ )
      s += t[i][j].first;
    return s / k;
  };

  std::vector<double> single, regression, likelihood;
  bool defined = true;
  for( std::size_t i = 0; i < r.size(); i++ )
  {
    for( auto&& p : t[i] )
      c.assume( p.second == i || p.first > 1e-3 );

    auto r1 = mean( i, kMin );
    auto r2 = mean( i, kMin + 1 );
    single.push_back( r1 / ( ( r2 - r1 ) * kMin ) );
    c.assume( r2 - r1 > 1e-3 );

    double s = 0.0, u = 0.0;
    for( unsigned k = lower; k + 1 < upper; k++ )
    {
      auto a = mean( i, k );
      auto b = mean( i, k + 1 );
      c.assume( b - a > 1e-3 );
      s += ( b - a ) * a / k;
      u += ( b - a ) * ( b - a );
    }
    regression.push_back( s / u );
    defined = defined && lower + 1 < upper;

    // For every number of neighbours, the inverse of the mean logarithm of
    // the ratio of distances
    double total = 0.0;
    for( unsigned k = lower - 1; k < upper; k++ )
    {
      if( k < 2 )
        continue;
      double logarithms = 0.0;
      for( unsigned j = 1; j < k; j++ )
        logarithms += std::log( t[i][k].first / t[i][j].first );
      logarithms /= k - 1;
      c.assume( logarithms == 0.0 || logarithms > 1e-4 );
      total += logarithms > 0.0 ? 1.0 / logarithms : 0.0;
    }
    likelihood.push_back( total / ( upper - lower + 1 ) );
  }

  using namespace aleph::containers;

  equivariant( c, [&] ( const Cloud& p ) { return estimateLocalDimensionalityNearestNeighbours<D, Cloud, Brute<D> >( p, kMin ); }, r, d, true, single, 1e-6, "dimension" );
  equivariant( c, [&] ( const Cloud& p ) { return estimateLocalDimensionalityNearestNeighbours<D, Cloud, Tree<D> >( p, kMin ); }, r, d, true, single, 1e-6, "dimension (search tree)" );

  equivariant( c, [&] ( const Cloud& p ) { return estimateLocalDimensionalityNearestNeighbours<D, Cloud, Brute<D> >( p, kMin, kMax ); }, r, d, true, regression, 1e-6, "dimension by regression" );
  equivariant( c, [&] ( const Cloud& p ) { return estimateLocalDimensionalityNearestNeighbours<D, Cloud, Tree<D> >( p, kMin, kMax ); }, r, d, true, regression, 1e-6, "dimension by regression (search tree)" );

  equivariant( c, [&] ( const Cloud& p ) { return estimateLocalDimensionalityNearestNeighboursMLE<D, Cloud, Brute<D> >( p, kMin, kMax ); }, r, d, true, likelihood, 1e-6, "maximum likelihood dimension" );
  equivariant( c, [&] ( const Cloud& p ) { return estimateLocalDimensionalityNearestNeighboursMLE<D, Cloud, Tree<D> >( p, kMin, kMax ); }, r, d, true, likelihood, 1e-6, "maximum likelihood dimension (search tree)" );

  for( auto&& k : std::vector< std::pair<unsigned, unsigned> >{ {0,kMax}, {kMin,0}, {0,0} } )
  {
    int thrown = 0;
    auto p     = cloud::make<double>( r, d );
    try { estimateLocalDimensionalityNearestNeighbours<D, Cloud, Brute<D> >( p, k.first, k.second ); } catch( std::runtime_error& ) { ++thrown; }
    try { estimateLocalDimensionalityNearestNeighboursMLE<D, Cloud, Brute<D> >( p, k.first, k.second ); } catch( std::runtime_error& ) { ++thrown; }
    c.equal( thrown, 2, "number of rejected calls without neighbours" );
  }

  c.label( defined ? "regression" : "undefined regression" );
  c.nontrivial( upper - lower >= 2 );
}

LAW( local_dimension, 20000, 200000, "clouds of <=14 different points, all ranges of neighbours, both back ends; non-trivial: range of at least three" ) { dimensionLaw<Euclidean>( c ); }
LAW( local_dimension_manhattan, 10000, 100000, "as local_dimension, with the Manhattan distance" ) { dimensionLaw<Manhattan>( c ); }

// Points of a flat subspace of known dimension have that dimension as soon
// as their remaining coordinates are negligible.
LAW( principal_dimension, 7500, 75000, "points around a flat subspace, moved by a random rotation in one plane; non-trivial: subspace of smaller dimension" )
{
  auto d    = static_cast<std::size_t>( c.integer( 2, 5 ) );
  auto flat = static_cast<std::size_t>( c.integer( 1, static_cast<long>( d ) - 1 ) );

  // For every subset of size k+1 to have the largest gap at the desired
  // position, use the vertices of a cross polytope and all of its points as
  // neighbours.
  cloud::Rows r;
  for( std::size_t i = 0; i < flat; i++ )
    for( int sign : { -1, 1 } )
    {
      cloud::Row x( d, 0.0 );
      x[i] = sign * c.uniform( 2.9, 3.1 );
      for( std::size_t j = flat; j < d; j++ )
        x[j] = c.uniform( -0.01, 0.01 );
      r.push_back( x );
    }
  while( r.size() < d + 1 )
  {
    cloud::Row x( d, 0.0 );
    for( std::size_t j = flat; j < d; j++ )
      x[j] = c.uniform( -0.01, 0.01 );
    r.push_back( x );
  }
  auto a = static_cast<std::size_t>( c.draw( d ) );
  auto b = static_cast<std::size_t>( c.draw( d ) );
  if( a != b )
  {
    auto phi = c.uniform( 0, 6.28 );
    for( auto&& x : r )
    {
      auto u = x[a], v = x[b];
      x[a] = std::cos( phi ) * u - std::sin( phi ) * v;
      x[b] = std::sin( phi ) * u + std::cos( phi ) * v;
    }
  }
  c.input( "dimension " + pbt::str( flat ) + ": " + cloud::show( r ) );

  auto k = static_cast<unsigned>( r.size() - 1 );
  std::vector<double> expected( r.size(), static_cast<double>( flat ) );
  for( bool tree : { false, true } )
    equivariant( c, [&] ( const Cloud& p )
    {
      auto e = tree ? aleph::containers::estimateLocalDimensionalityPCA<Euclidean, Cloud, Tree<Euclidean> >( p, k )
                    : aleph::containers::estimateLocalDimensionalityPCA<Euclidean, Cloud, Brute<Euclidean> >( p, k );
      return std::vector<double>( e.begin(), e.end() );
    }, r, d, true, expected, 0, "dimension by principal components" );
  c.label( "dimension " + pbt::str( flat ) );
  c.nontrivial( flat < d );
}

// The position of the largest gap of the singular values is reported for
// arbitrary neighbourhoods.
LAW( principal_gaps, 7500, 75000, "arbitrary clouds and numbers of neighbours, compared with the eigenvalues of local covariance matrices in two dimensions; non-trivial: at least four points and two neighbours" )
{
  // In two dimensions there is only one gap; the interesting part is that
  // in three dimensions with axis-aligned data, the variances are known.
  cloud::Rows r;
  auto n = static_cast<std::size_t>( c.integer( 1, 4 ) );
  std::vector<double> scale = { c.uniform( 0.1, 10 ), c.uniform( 0.1, 10 ), c.uniform( 0.1, 10 ) };
  for( std::size_t i = 0; i < 3; i++ )
    for( std::size_t j = 0; j < n; j++ )
      for( int sign : { -1, 1 } )
      {
        cloud::Row x( 3, 0.0 );
        x[i] = sign * scale[i] * static_cast<double>( j + 1 );
        r.push_back( x );
      }
  auto sorted = scale;
  std::sort( sorted.rbegin(), sorted.rend() );
  c.assume( std::abs( ( sorted[0] - sorted[1] ) - ( sorted[1] - sorted[2] ) ) > 1e-6 );
  double expected = sorted[0] - sorted[1] > sorted[1] - sorted[2] ? 1 : 2;
  c.input( pbt::str( scale ) + " " + cloud::show( r ) );

  equivariant( c, [&] ( const Cloud& p )
  {
    auto e = aleph::containers::estimateLocalDimensionalityPCA<Euclidean, Cloud, Brute<Euclidean> >( p, static_cast<unsigned>( r.size() - 1 ) );
    return std::vector<double>( e.begin(), e.end() );
  }, r, 3, true, std::vector<double>( r.size(), expected ), 0, "position of largest gap" );
  c.label( expected > 1 ? "second" : "first" );
  c.nontrivial( true );
}

template <class D> void correlationLaw( pbt::Ctx& c )
{
  auto d = static_cast<std::size_t>( c.integer( 1, 3 ) );
  auto r = cloud::gen( c, 2, 14, d, static_cast<int>( c.draw( 2 ) ), 60 );
  c.input( cloud::show( r ) );

  // Integers so that equal distances are equal
  std::map<double, std::size_t> counts;
  for( std::size_t i = 0; i < r.size(); i++ )
    for( std::size_t j = 0; j < i; j++ )
      counts[ metric<D>( r[i], r[j] ) ]++;

  auto pairs = static_cast<double>( r.size() * ( r.size() - 1 ) / 2 );
  std::vector<double> x, y;
  std::size_t seen = 0;
  for( auto&& p : counts )
  {
    seen += p.second;
    if( p.first > 0 )
    {
      x.push_back( p.first );
      y.push_back( static_cast<double>( seen ) / pairs );
    }
  }

  auto compare = [&] ( const cloud::Rows& rows, const std::string& what )
  {
    auto s = aleph::containers::correlationDimensionIntegral( cloud::make<double>( rows, d ), D() );
    vectors( c, s.x, x, 1e-12, "distance" + what );
    vectors( c, s.y, y, 1e-12, "fraction of pairs" + what );
    return s;
  };

  auto s = compare( r, "" );
  compare( variant( c, r, d, true ).rows, " (reordered and translated)" );

  if( x.size() >= 2 )
  {
    // Slope of the regression line of the logarithms
    double mx = 0, my = 0, xx = 0, xy = 0;
    auto n = static_cast<double>( x.size() );
    for( std::size_t i = 0; i < x.size(); i++ )
    {
      mx += std::log( x[i] ) / n;
      my += std::log( y[i] ) / n;
    }
    for( std::size_t i = 0; i < x.size(); i++ )
    {
      xx += ( std::log( x[i] ) - mx ) * ( std::log( x[i] ) - mx );
      xy += ( std::log( x[i] ) - mx ) * ( std::log( y[i] ) - my );
    }
    c.close( aleph::containers::correlationDimension( s ), xy / xx, 1e-8 * ( 1 + std::abs( xy / xx ) ), "correlation dimension" );

    // A power law is recovered
    auto exponent = c.uniform( 0.2, 5 );
    auto factor   = c.uniform( 0.1, 5 );
    for( std::size_t i = 0; i < s.x.size(); i++ )
      s.y[i] = factor * std::pow( s.x[i], exponent );
    c.close( aleph::containers::correlationDimension( s ), exponent, 1e-7 * ( 1 + exponent ) / std::min( 1.0, xx ), "dimension of power law" );

    s.y.pop_back();
    bool thrown = false;
    try { aleph::containers::correlationDimension( s ); } catch( std::runtime_error& ) { thrown = true; }
    c.check( thrown, "inconsistent sequence is not rejected" );
  }
  c.nontrivial( x.size() >= 3 );
}

LAW( correlation_dimension, 15000, 150000, "clouds of <=14 integer points with repeated distances; non-trivial: at least three different distances" ) { correlationLaw<Euclidean>( c ); }
LAW( correlation_dimension_manhattan, 10000, 100000, "as correlation_dimension, with the Manhattan distance" ) { correlationLaw<Manhattan>( c ); }

// Containers -------------------------------------------------------------

LAW( container_histories, 20000, 200000, "sequences of <=25 (sometimes 150) operations on three clouds of few, sometimes up to 2500, points; non-trivial: at least five operations, among them a change after a copy" )
{
  struct Model
  {
    std::size_t d = 0;
    cloud::Rows rows;
  };

  std::vector<Cloud> clouds( 3 );
  std::vector<Model> models( 3 );
  std::ostringstream o;
  bool copied = false, changed = false;

  auto verify = [&] ()
  {
    for( std::size_t k = 0; k < 3; k++ )
    {
      auto&& p = clouds[k];
      auto&& m = models[k];
      c.equal( p.size(), m.rows.size(), "number of points of cloud " + pbt::str( k ) );
      c.equal( p.empty(), m.rows.empty(), "emptiness of cloud " + pbt::str( k ) );
      c.equal( p.dimension(), m.d, "dimension of cloud " + pbt::str( k ) );
      for( std::size_t i = 0; i < m.rows.size(); i++ )
      {
        if( p[i] != m.rows[i] )
          c.equal( p[i], m.rows[i], "point " + pbt::str( i ) + " of cloud " + pbt::str( k ) );
        if( !std::equal( m.rows[i].begin(), m.rows[i].end(), p.data() + i * m.d ) )
          c.fail( "raw coordinates of point " + pbt::str( i ) + " of cloud " + pbt::str( k ) );
      }
      for( std::size_t l = 0; l < 3; l++ )
        c.equal( p == clouds[l], m.d == models[l].d && m.rows == models[l].rows, "equality of clouds " + pbt::str( k ) + " and " + pbt::str( l ) );
    }
  };

  auto rejected = [&] ( std::function<void()> f )
  {
    try { f(); } catch( std::runtime_error& ) { return true; }
    return false;
  };

  auto steps = c.extent( 1, 25, 150 );
  for( std::size_t step = 0; step < steps; step++ )
  {
    auto a = c.draw( 3 ), b = c.draw( 3 ), t = c.draw( 3 );
    switch( c.draw( 7 ) )
    {
    case 0:
    {
      auto n = c.extent( 0, 3, 2500, 600 );
      auto d = 1 + c.draw( 3 );
      o << " " << a << "=new(" << n << "," << d << ")";
      clouds[a]      = Cloud( n, d );
      models[a].d    = d;
      models[a].rows = cloud::Rows( n, cloud::Row( d, 0.0 ) );
      break;
    }
    case 1:
    case 2:
    {
      auto i = models[a].rows.size() > 5 && c.boolean() ? models[a].rows.size() - 1 - c.draw( 5 ) : c.draw( 5 );
      auto d = c.chance( 1, 6 ) ? models[a].d + 1 : models[a].d;
      cloud::Row x;
      for( std::size_t j = 0; j < d; j++ )
        x.push_back( static_cast<double>( c.integer( -9, 9 ) ) );
      o << " " << a << ".set(" << i << "," << pbt::str( x ) << ")";
      bool valid = i < models[a].rows.size() && d == models[a].d;
      c.equal( rejected( [&] { clouds[a].set( i, x.begin(), x.end() ); } ), !valid, "rejected point" );
      if( valid )
      {
        models[a].rows[i] = x;
        changed           = changed || copied;
      }
      c.equal( rejected( [&] { clouds[a][i]; } ), i >= models[a].rows.size(), "rejected access" );
      break;
    }
    case 3:
      o << " " << a << "=copy " << b;
      clouds[a] = clouds[b];
      models[a] = models[b];
      copied    = copied || a != b;
      break;
    case 4:
    {
      o << " " << a << "=moved copy " << b;
      Cloud p( clouds[b] );
      Cloud q( std::move( p ) );
      models[a] = models[b];
      clouds[a] = std::move( q );
      copied    = copied || a != b;
      break;
    }
    case 5:
      o << " swap " << a << " " << b;
      swap( clouds[a], clouds[b] );
      std::swap( models[a], models[b] );
      break;
    default:
    {
      o << " " << t << "=" << a << "+" << b;
      bool valid = models[a].d == models[b].d;
      Cloud sum;
      c.equal( rejected( [&] { sum = clouds[a] + clouds[b]; } ), !valid, "rejected sum" );
      if( valid )
      {
        Model m;
        m.d    = models[a].d;
        m.rows = models[a].rows;
        m.rows.insert( m.rows.end(), models[b].rows.begin(), models[b].rows.end() );
        if( m.rows.size() <= 12 || ( std::max( models[a].rows.size(), models[b].rows.size() ) > 12 && m.rows.size() <= 6000 ) )
        {
          clouds[t] = sum;
          models[t] = m;
        }
      }
    }
    }
    verify();
  }
  c.input( o.str() );
  c.nontrivial( steps >= 5 && changed );
}

}

LAW( units, 8000, 80000, "clouds of 3-12 points in general position, in units that differ by a power of two (2^-40 to 2^40): eccentricities and distances to a measure scale accordingly, depths and dimensions do not change; non-trivial: at least four points" )
{
  auto d = static_cast<std::size_t>( c.integer( 1, 3 ) );
  auto r = cloud::gen( c, 3, 12, d, 2, 40 );
  auto q = r;
  auto exponent = c.pick( std::vector<int>{ -40, -24, -10, 10, 24, 40 } );
  double s = std::ldexp( 1.0, exponent );
  for( auto&& x : q )
    for( auto&& y : x )
      y *= s;
  auto k = static_cast<unsigned>( 2 + c.draw( r.size() - 2 ) );
  auto order = static_cast<unsigned>( c.draw( 3 ) );
  c.input( "k=" + pbt::str( k ) + " order " + pbt::str( order ) + " units 2^" + pbt::str( exponent ) + ": " + cloud::show( r ) );
  auto t = table<Euclidean>( r );
  for( auto&& row : t )
    for( std::size_t j = 1; j < row.size(); j++ )
      c.assume( row[j].first - row[j-1].first > 1e-4 );
  auto P = cloud::make<double>( r, d ), Q = cloud::make<double>( q, d );

  using namespace aleph::containers;
  auto same = [&] ( const std::vector<double>& small, const std::vector<double>& large, double factor, const std::string& what )
  {
    c.equal( large.size(), small.size(), what + ": number of values in other units" );
    for( std::size_t i = 0; i < small.size(); i++ )
      c.close( large[i] / factor, small[i], 1e-9 * ( 1e-3 + std::abs( small[i] ) ), what + " in other units" );
  };
  same( eccentricities<Euclidean>( P, order ), eccentricities<Euclidean>( Q, order ), s, "eccentricity" );
  same( estimateDensityDistanceToMeasure<Euclidean>( P, k ), estimateDensityDistanceToMeasure<Euclidean>( Q, k ), s, "distance to a measure" );
  {
    auto a = estimateLensDataDepth( P, Euclidean() ), b = estimateLensDataDepth( Q, Euclidean() );
    same( std::vector<double>( a.begin(), a.end() ), std::vector<double>( b.begin(), b.end() ), 1, "depth" );
  }
  same( estimateLocalDimensionalityNearestNeighbours<Euclidean, Cloud, Brute<Euclidean> >( P, k - 1 ),
        estimateLocalDimensionalityNearestNeighbours<Euclidean, Cloud, Brute<Euclidean> >( Q, k - 1 ), 1, "dimension" );
  same( estimateLocalDimensionalityNearestNeighboursMLE<Euclidean, Cloud, Brute<Euclidean> >( P, 1, k - 1 ),
        estimateLocalDimensionalityNearestNeighboursMLE<Euclidean, Cloud, Brute<Euclidean> >( Q, 1, k - 1 ), 1, "maximum likelihood dimension" );
  {
    auto a = correlationDimensionIntegral( P, Euclidean() ), b = correlationDimensionIntegral( Q, Euclidean() );
    same( a.x, b.x, s, "distance" );
    same( a.y, b.y, 1, "fraction of pairs" );
  }
  c.label( exponent < 0 ? "smaller" : "larger" );
  c.nontrivial( r.size() >= 4 );
}

LAW( curvature, 1500, 20000, "20 to 50 points on a sphere of 1 to 3 dimensions, or on a hyperplane, neighbourhoods with at least half of the points: the curvature is the inverse radius, or zero; non-trivial: a sphere that is not centred at the origin" )
{
  auto d = c.size( 2, 4 );
  auto n = c.size( 20, 50 );
  auto k = c.size( ( n + 1 ) / 2, n );
  cloud::Row centre;
  bool centred = true;
  for( std::size_t i = 0; i < d; i++ )
  {
    centre.push_back( static_cast<double>( c.around( 8 ) ) / 4 );
    centred = centred && centre[i] == 0.0;
  }
  bool flat = c.chance( 1, 5 );
  auto radius = flat ? 0.0 : static_cast<double>( c.size( 2, 32 ) ) / 8;
  auto r = cloud::onSphere( c, n, centre, radius );
  c.input( cloud::show( r ) + "k " + pbt::str( k ) + " centre " + cloud::show( { centre } ) + "radius " + pbt::str( radius ) );
  c.label( flat ? "plane" : "sphere" );
  c.nontrivial( !flat && !centred );
  auto values = aleph::geometry::TangentSpace()( cloud::make<double>( r, d ), static_cast<unsigned>( k ) );
  c.equal( values.size(), n, "number of curvature values" );
  for( auto&& x : values )
    c.close( x, flat ? 0.0 : 1.0 / radius, 1e-4, flat ? "curvature of points on a plane" : "curvature of points on a sphere" );
}

LAW( points, 20000, 200000, "lists of <=6 points of 0 to 4 dimensions, some of which share leading coordinates: coordinates, dimension, equality, order, printing; non-trivial: two points of different dimension" )
{
  using Point = aleph::geometry::Point<double>;
  auto n = c.size( 1, 6 );
  cloud::Rows rows;
  for( std::size_t i = 0; i < n; i++ )
  {
    cloud::Row r;
    if( i && c.boolean() )
      r = rows[ c.draw( i ) ];
    if( c.chance( 1, 3 ) && !r.empty() )
      r.pop_back();
    auto d = c.size( 0, 2 );
    for( std::size_t j = 0; j < d && r.size() < 4; j++ )
      r.push_back( static_cast<double>( c.around( 3 ) ) / 2 );
    if( c.chance( 1, 4 ) && !r.empty() )
      r[ c.draw( r.size() ) ] += 1;
    rows.push_back( r );
  }
  c.input( cloud::show( rows ) );
  std::vector<Point> points;
  for( auto&& r : rows )
    points.push_back( Point( r.begin(), r.end() ) );
  bool different = false;
  for( std::size_t i = 0; i < n; i++ )
  {
    c.equal( points[i].dimension(), rows[i].size(), "dimension of a point" );
    c.equal( points[i].size(), rows[i].size(), "number of coordinates of a point" );
    c.equal( cloud::Row( points[i].begin(), points[i].end() ), rows[i], "coordinates of a point" );
    std::ostringstream o, e;
    o << points[i];
    for( std::size_t j = 0; j < rows[i].size(); j++ )
      e << ( j ? " " : "" ) << rows[i][j];
    c.equal( o.str(), e.str(), "printed point" );
    for( std::size_t j = 0; j < n; j++ )
    {
      c.equal( points[i] == points[j], rows[i] == rows[j], "equality of points" );
      c.equal( points[i] != points[j], rows[i] != rows[j], "inequality of points" );
      if( rows[i].size() == rows[j].size() )
        c.equal( points[i] < points[j], rows[i] < rows[j], "order of points" );
      else
        different = true;
    }
  }
  auto copy = points.front();
  for( auto&& x : copy )
    x += 1;
  c.equal( cloud::Row( points.front().begin(), points.front().end() ), rows.front(), "coordinates after changing a copy" );
  c.equal( copy == points.front(), rows.front().empty(), "equality with a changed copy" );
  Point p = { 1.5, -2.0 };
  c.equal( cloud::Row( p.begin(), p.end() ), cloud::Row( { 1.5, -2.0 } ), "coordinates in braces" );
  c.nontrivial( different );
}
