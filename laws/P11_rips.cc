// flags: -llz4
// Vietoris-Rips complexes contain exactly the simplices of small diameter.
#include "bridge.hh"
#include "clouds.hh"

#include <aleph/geometry/BruteForce.hh>
#include <aleph/geometry/FLANN.hh>
#include <aleph/geometry/RipsExpander.hh>
#include <aleph/geometry/RipsExpanderTopDown.hh>
#include <aleph/geometry/RipsSkeleton.hh>
#include <aleph/geometry/VietorisRipsComplex.hh>
#include <aleph/geometry/distances/Euclidean.hh>
#include <aleph/geometry/distances/Hamming.hh>
#include <aleph/geometry/distances/Manhattan.hh>

#include <functional>

using namespace model;
using Map = std::map<V, double>;
using Distances = std::vector< std::vector<double> >;

// All vertex sets of bounded size whose pairs satisfy the relation
static Map cliques( std::size_t n, std::size_t dimension, std::function<bool( unsigned, unsigned )> adjacent, std::function<double( const V& )> weight )
{
  Map r;
  std::vector<V> layer;
  for( unsigned i = 0; i < n; i++ )
    layer.push_back( { i } );
  for( std::size_t size = 1; size <= dimension + 1 && !layer.empty(); size++ )
  {
    std::vector<V> next;
    for( auto&& v : layer )
    {
      r[v] = weight( v );
      for( unsigned i = v.back() + 1; i < n; i++ )
        if( std::all_of( v.begin(), v.end(), [&] ( unsigned j ) { return adjacent( j, i ); } ) )
        {
          next.push_back( v );
          next.back().push_back( i );
        }
    }
    layer.swap( next );
  }
  return r;
}

static double diameter( const Distances& d, const V& v )
{
  double w = 0;
  for( auto i : v )
    for( auto j : v )
      w = std::max( w, d[i][j] );
  return w;
}

static void compare( pbt::Ctx& c, const Map& got, const Map& expected, double tolerance, const std::string& what )
{
  for( auto&& x : expected )
    c.check( got.count( x.first ), what + ": simplex " + pbt::str( x.first ) + " is missing" );
  for( auto&& x : got )
    c.check( expected.count( x.first ), what + ": simplex " + pbt::str( x.first ) + " does not belong to the complex" );
  for( auto&& x : expected )
    c.close( got.at( x.first ), x.second, tolerance * ( 1 + std::fabs( x.second ) ), what + ": weight of " + pbt::str( x.first ) );
}

// Faces precede cofaces, weights are non-decreasing
template <class C> void filtration( pbt::Ctx& c, const C& K, const std::string& what )
{
  std::set<V> seen;
  double last = -std::numeric_limits<double>::infinity();
  for( auto&& s : K )
  {
    auto v = bridge::vertices( s );
    c.check( static_cast<double>( s.data() ) >= last, what + ": weights are not sorted" );
    last = static_cast<double>( s.data() );
    if( v.size() > 1 )
      for( auto&& f : facets( v ) )
        c.check( seen.count( f ), what + ": face " + pbt::str( f ) + " does not precede " + pbt::str( v ) );
    c.check( seen.insert( v ).second, what + ": duplicate simplex" );
  }
}

// Chooses a threshold; exact distances are only permitted if distances are
// calculated without error
static double threshold( pbt::Ctx& c, const Distances& d, bool exact, double margin )
{
  std::set<double> values;
  for( auto&& r : d )
    values.insert( r.begin(), r.end() );
  std::vector<double> v( values.begin(), values.end() );
  if( v.empty() )
    return 1;
  if( exact && c.chance( 1, 2 ) )
    return v[ c.size( 0, v.size() - 1 ) ];
  auto i = c.size( 0, v.size() - 1 );
  double t = i + 1 < v.size() ? ( v[i] + v[i+1] ) / 2 : v[i] + 1;
  for( auto x : v )
    c.assume( std::fabs( x - t ) > margin * ( 1 + x ) );
  return t;
}

template <template <class,class> class Search, class T, template <class> class Metric>
void buildLaw( pbt::Ctx& c, std::function<double( const cloud::Row&, const cloud::Row& )> metric, bool exactMetric, bool exactSearch, std::size_t minimum )
{
  auto dim  = c.size( 1, 4 );
  auto mode = static_cast<int>( c.draw( 5 ) );
  auto p    = cloud::gen( c, minimum, 8, dim, mode, 24 );
  auto n    = p.size();
  if( sizeof( T ) == sizeof( float ) )
    for( auto&& x : p )
      for( auto&& y : x )
        y = static_cast<float>( y );
  Distances d( n, std::vector<double>( n ) );
  for( std::size_t i = 0; i < n; i++ )
    for( std::size_t j = 0; j < n; j++ )
      d[i][j] = metric( p[i], p[j] );
  bool exact = exactMetric && exactSearch && mode <= 1;
  auto epsilon   = threshold( c, d, exact, sizeof( T ) == sizeof( float ) || !exactSearch ? 1e-4 : 1e-9 );
  auto dimension = c.size( 0, n > 8 ? 2 : 4 );
  c.input( cloud::show( p ) + " threshold " + pbt::str( epsilon ) + " dimension " + pbt::str( dimension ) );
  using Cloud = aleph::containers::PointCloud<T>;
  auto container = cloud::make<T>( p, dim );
  Search<Cloud, Metric<T> > nn( container );
  auto tolerance = sizeof( T ) == sizeof( float ) ? 1e-4 : 1e-12;
  auto adjacent  = [&] ( unsigned i, unsigned j ) { return d[i][j] < epsilon; };
  auto expected  = cliques( n, dimension, adjacent, [&] ( const V& v ) { return diameter( d, v ); } );
  auto K = aleph::geometry::buildVietorisRipsComplex( nn, static_cast<T>( epsilon ), static_cast<unsigned>( dimension ) );
  compare( c, bridge::asMap( K ), expected, tolerance, "complex" );
  filtration( c, K, "complex" );

  // function values instead of distances
  std::vector<T> values;
  for( std::size_t i = 0; i < n; i++ )
    values.push_back( static_cast<T>( c.around( 6 ) ) );
  auto L = aleph::geometry::buildVietorisRipsComplex( nn, static_cast<T>( epsilon ), static_cast<unsigned>( dimension ), values.begin(), values.end() );
  auto byValue = cliques( n, dimension, adjacent, [&] ( const V& v )
  {
    double w = -1e300;
    for( auto i : v )
      w = std::max( w, static_cast<double>( values[i] ) );
    return w;
  } );
  compare( c, bridge::asMap( L ), byValue, 0, "complex with function values" );
  filtration( c, L, "complex with function values" );

  // graph
  aleph::geometry::RipsSkeleton< Search<Cloud, Metric<T> > > skeleton;
  auto G = skeleton( nn, static_cast<T>( epsilon ) );
  compare( c, bridge::asMap( G ), cliques( n, 1, adjacent, [&] ( const V& v ) { return diameter( d, v ); } ), tolerance, "skeleton" );

  std::size_t triangles = 0;
  for( auto&& x : expected )
    triangles += x.first.size() == 3;
  c.label( triangles ? "with triangles" : "without triangles" );
  c.nontrivial( triangles > 0 && expected.size() < ( std::size_t( 1 ) << n ) - 1 );
}

using aleph::geometry::BruteForce;
using aleph::geometry::FLANN;
using aleph::geometry::distances::Euclidean;
using aleph::geometry::distances::Hamming;
using aleph::geometry::distances::Manhattan;

static double hamming( const cloud::Row& a, const cloud::Row& b )
{
  double s = 0;
  for( std::size_t i = 0; i < a.size(); i++ )
    s += a[i] != b[i];
  return s;
}

LAW( euclidean, 22500, 300000, "clouds of <=8 points (ties, duplicates, clusters), thresholds at or between distances, dimension <=4, brute force: simplices, diameters and order; non-trivial: a triangle exists and the complex is not full" ) { buildLaw<BruteForce, double, Euclidean>( c, cloud::euclidean, true, true, 0 ); }
LAW( euclidean_float, 7500, 90000, "as euclidean in single precision" ) { buildLaw<BruteForce, float, Euclidean>( c, cloud::euclidean, false, true, 0 ); }
LAW( manhattan, 10500, 120000, "as euclidean with the Manhattan metric" ) { buildLaw<BruteForce, double, Manhattan>( c, cloud::manhattan, true, true, 0 ); }
LAW( hamming_metric, 6000, 75000, "as euclidean with the Hamming metric" ) { buildLaw<BruteForce, double, Hamming>( c, hamming, true, true, 0 ); }
LAW( flann_euclidean, 12000, 150000, "as euclidean with the tree-based search" ) { buildLaw<FLANN, double, Euclidean>( c, cloud::euclidean, true, false, 1 ); }
LAW( flann_manhattan, 7500, 90000, "as manhattan with the tree-based search" ) { buildLaw<FLANN, double, Manhattan>( c, cloud::manhattan, true, false, 1 ); }

LAW( expansion, 37500, 450000, "weighted graphs with <=8 (relabelled) vertices, expanded bottom-up and top-down with weights from edges, function values, minima: simplices and weights; non-trivial: a clique of >=3 vertices exists" )
{
  using S = aleph::topology::Simplex<double, unsigned>;
  using K = aleph::topology::SimplicialComplex<S>;
  auto n = c.extent( 0, 8, 18 );
  std::vector<unsigned> name;
  unsigned last = static_cast<unsigned>( c.size( 0, 3 ) );
  for( std::size_t i = 0; i < n; i++ )
  {
    name.push_back( last );
    last += 1 + static_cast<unsigned>( c.chance( 1, 2 ) ? 0 : c.size( 0, 5 ) );
  }
  auto density = c.size( 1, 4 );
  auto wmode   = c.draw( 2 );
  Distances w( n, std::vector<double>( n ) ), adjacent( n, std::vector<double>( n ) );
  std::vector<double> vw( n );
  Complex cells;
  for( unsigned i = 0; i < n; i++ )
  {
    vw[i] = c.chance( 1, 2 ) ? 0.0 : static_cast<double>( c.size( 0, 3 ) );
    cells.push_back( { { name[i] }, vw[i] } );
  }
  for( unsigned i = 0; i < n; i++ )
    for( unsigned j = i + 1; j < n; j++ )
      if( c.chance( density, 5 ) )
      {
        adjacent[i][j] = adjacent[j][i] = 1;
        w[i][j] = w[j][i] = wmode ? static_cast<double>( c.size( 0, 5 ) ) : c.uniform( 0, 10 );
        cells.push_back( { { name[i], name[j] }, w[i][j] } );
      }
  c.shuffle( cells );
  auto dimension = c.size( 0, n > 8 ? 3 : 5 );
  c.input( show( cells ) + " dimension " + pbt::str( dimension ) );
  auto G = bridge::complex<S>( cells );
  auto edge = [&] ( unsigned i, unsigned j ) { return adjacent[i][j] > 0; };
  auto rename = [&] ( const Map& m )
  {
    Map r;
    for( auto&& x : m )
    {
      V v;
      for( auto i : x.first )
        v.push_back( name[i] );
      r[v] = x.second;
    }
    return r;
  };
  // weights of vertices and edges are kept
  auto weight = [&] ( const V& v ) { return v.size() == 1 ? vw[ v[0] ] : diameter( w, v ); };
  auto expected = rename( cliques( n, dimension, edge, weight ) );
  aleph::geometry::RipsExpander<K> up;
  auto A = up( G, static_cast<unsigned>( dimension ) );
  Map raw;
  for( auto&& x : bridge::asMap( A ) )
    raw[ x.first ] = x.first.size() <= 2 ? x.second : 0;
  Map rawExpected;
  for( auto&& x : expected )
    rawExpected[ x.first ] = x.first.size() <= 2 ? x.second : 0;
  compare( c, raw, rawExpected, 0, "expansion" );
  auto B = up.assignMaximumWeight( A );
  compare( c, bridge::asMap( B ), expected, 0, "expansion with maximum weights" );

  // top-down expansion: weights from edges; vertices have no weight
  aleph::geometry::RipsExpanderTopDown<K> down;
  auto topExpected = rename( cliques( n, dimension, edge, [&] ( const V& v ) { return diameter( w, v ); } ) );
  auto D = down( G, static_cast<unsigned>( dimension ) );
  auto E = down.assignMaximumWeight( D, G );
  auto eMap = bridge::asMap( E );
  for( auto&& x : eMap )
    if( x.first.size() == 1 )
      x.second = 0;
  compare( c, eMap, topExpected, 0, "top-down expansion" );

  // lower bound on the dimension
  auto lower = c.size( 0, dimension );
  auto F = down( G, static_cast<unsigned>( dimension ), static_cast<unsigned>( lower ) );
  std::set<V> got, want;
  for( auto&& s : F )
    got.insert( bridge::vertices( s ) );
  for( auto&& x : expected )
    if( x.first.size() >= lower + 1 )
      want.insert( x.first );
  c.equal( got, want, "top-down expansion with lower bound " + pbt::str( lower ) );
  c.equal( static_cast<std::size_t>( F.size() ), want.size(), "size of top-down expansion" );

  // function values, by order of vertices
  std::vector<double> values;
  for( std::size_t i = 0; i < n; i++ )
    values.push_back( static_cast<double>( c.around( 6 ) ) );
  auto extremum = [&] ( bool maximum )
  {
    return rename( cliques( n, dimension, edge, [&] ( const V& v )
    {
      double r = values[ v[0] ];
      for( auto i : v )
        r = maximum ? std::max( r, values[i] ) : std::min( r, values[i] );
      return r;
    } ) );
  };
  compare( c, bridge::asMap( up.assignMaximumData( A, values.begin(), values.end() ) ), extremum( true ), 0, "maximum of function values" );
  compare( c, bridge::asMap( up.assignData( A, values.begin(), values.end(), std::numeric_limits<double>::max(), [] ( double a, double b ) { return std::min( a, b ); } ) ), extremum( false ), 0, "minimum of function values" );

  bool clique = false;
  for( auto&& x : expected )
    clique = clique || x.first.size() >= 3;
  c.nontrivial( clique );
}

LAW( nested, 7500, 90000, "growing thresholds give nested complexes with unchanged weights, lower dimension bounds give skeletons; clouds of <=12 points; non-trivial: >=2 different complexes of dimension >=2" )
{
  auto dim = c.size( 1, 3 );
  auto p   = cloud::gen( c, 1, 12, dim, -1, 18 );
  auto container = cloud::make<double>( p, dim );
  BruteForce< aleph::containers::PointCloud<double>, Euclidean<double> > nn( container );
  double a = c.uniform( 0, 5 ), b = a + c.uniform( 0, 5 );
  c.input( cloud::show( p ) + " thresholds " + pbt::str( a ) + " " + pbt::str( b ) );
  auto small = bridge::asMap( aleph::geometry::buildVietorisRipsComplex( nn, a, 3u ) );
  auto large = bridge::asMap( aleph::geometry::buildVietorisRipsComplex( nn, b, 3u ) );
  for( auto&& x : small )
    c.check( large.count( x.first ) && large[ x.first ] == x.second, "simplex " + pbt::str( x.first ) + " of the smaller complex" );
  for( auto&& x : large )
    c.check( small.count( x.first ) == ( x.second < a || x.first.size() == 1 ), "sublevel set at " + pbt::str( x.first ) );
  auto flat = bridge::asMap( aleph::geometry::buildVietorisRipsComplex( nn, b, 2u ) );
  std::size_t n = 0;
  for( auto&& x : large )
    if( x.first.size() <= 3 )
    {
      ++n;
      c.check( flat.count( x.first ) && flat[ x.first ] == x.second, "skeleton at " + pbt::str( x.first ) );
    }
  c.equal( flat.size(), n, "size of the skeleton" );
  bool high = false;
  for( auto&& x : small )
    high = high || x.first.size() >= 3;
  c.nontrivial( small.size() < large.size() && high );
}

LAW( units, 15000, 150000, "clouds of <=10 points in units that differ by a power of two (2^-40 to 2^40), both back ends, two metrics: same simplices, scaled weights; non-trivial: a triangle belongs to the complex" )
{
  auto dim = c.size( 1, 3 );
  auto p   = cloud::gen( c, 1, 10, dim, -1 );
  auto q   = p;
  auto exponent = c.pick( std::vector<int>{ -40, -24, -10, 10, 24, 40 } );
  double s = std::ldexp( 1.0, exponent );
  for( auto&& x : q )
    for( auto&& y : x )
      y *= s;
  double t = static_cast<double>( c.size( 0, 24 ) ) / 4 + 1.0 / 64;
  c.input( cloud::show( p ) + " threshold " + pbt::str( t ) + " units 2^" + pbt::str( exponent ) );
  using Cloud = aleph::containers::PointCloud<double>;
  auto P = cloud::make<double>( p, dim ), Q = cloud::make<double>( q, dim );
  auto build = [&] ( Cloud& x, double epsilon, unsigned kind )
  {
    if( kind == 0 ) { BruteForce<Cloud, Euclidean<double> > nn( x ); return bridge::asMap( aleph::geometry::buildVietorisRipsComplex( nn, epsilon, 3u ) ); }
    if( kind == 1 ) { BruteForce<Cloud, Manhattan<double> > nn( x ); return bridge::asMap( aleph::geometry::buildVietorisRipsComplex( nn, epsilon, 3u ) ); }
    FLANN<Cloud, Euclidean<double> > nn( x );
    return bridge::asMap( aleph::geometry::buildVietorisRipsComplex( nn, epsilon, 3u ) );
  };
  bool triangle = false;
  for( unsigned kind = 0; kind < 3; kind++ )
  {
    auto K = build( P, t, kind ), L = build( Q, t * s, kind );
    for( auto&& x : L )
      x.second /= s;
    compare( c, L, K, 1e-12, "complex in other units" );
    for( auto&& x : K )
      triangle = triangle || x.first.size() >= 3;
  }
  c.label( exponent < 0 ? "smaller" : "larger" );
  c.nontrivial( triangle );
}
