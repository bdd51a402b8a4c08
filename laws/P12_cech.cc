// Cech complexes contain exactly the simplices with a small enclosing ball.
#include "bridge.hh"
#include "clouds.hh"

#include <aleph/geometry/CechComplex.hh>

using namespace model;
using Map = std::map<V, double>;
using L   = long double;

// Circumscribed ball of affinely independent points in their affine hull;
// returns false if points are (nearly) dependent.
static bool circumscribed( const cloud::Rows& p, const V& s, std::vector<L>& centre, L& r2 )
{
  auto k = s.size() - 1, d = p[0].size();
  centre.assign( p[ s[0] ].begin(), p[ s[0] ].end() );
  r2 = 0;
  if( k == 0 )
    return true;
  std::vector< std::vector<L> > u( k, std::vector<L>( d ) ), A( k, std::vector<L>( k + 1 ) );
  L scale = 0;
  for( std::size_t i = 0; i < k; i++ )
    for( std::size_t j = 0; j < d; j++ )
    {
      u[i][j] = static_cast<L>( p[ s[i+1] ][j] ) - p[ s[0] ][j];
      scale   = std::max( scale, std::fabs( u[i][j] ) );
    }
  for( std::size_t i = 0; i < k; i++ )
  {
    for( std::size_t j = 0; j < k; j++ )
      for( std::size_t l = 0; l < d; l++ )
        A[i][j] += 2 * u[i][l] * u[j][l];
    for( std::size_t l = 0; l < d; l++ )
      A[i][k] += u[i][l] * u[i][l];
  }
  for( std::size_t col = 0; col < k; col++ )
  {
    auto pivot = col;
    for( std::size_t row = col; row < k; row++ )
      if( std::fabs( A[row][col] ) > std::fabs( A[pivot][col] ) )
        pivot = row;
    if( std::fabs( A[pivot][col] ) <= 1e-11L * scale * scale )
      return false;
    std::swap( A[pivot], A[col] );
    for( std::size_t row = 0; row < k; row++ )
      if( row != col )
      {
        auto f = A[row][col] / A[col][col];
        for( std::size_t j = col; j <= k; j++ )
          A[row][j] -= f * A[col][j];
      }
  }
  std::vector<L> offset( d );
  for( std::size_t i = 0; i < k; i++ )
    for( std::size_t j = 0; j < d; j++ )
      offset[j] += A[i][k] / A[i][i] * u[i][j];
  for( std::size_t j = 0; j < d; j++ )
  {
    centre[j] += offset[j];
    r2        += offset[j] * offset[j];
  }
  return true;
}

// Smallest enclosing ball: the smallest ball circumscribed to at most d+1 of
// the points that contains all others
static L enclosing( const cloud::Rows& p, const V& v, std::size_t& boundary )
{
  L best = -1;
  auto d = p[0].size();
  for( std::size_t m = 1; m < ( std::size_t( 1 ) << v.size() ); m++ )
  {
    V s;
    for( std::size_t i = 0; i < v.size(); i++ )
      if( m >> i & 1 )
        s.push_back( v[i] );
    if( s.size() > d + 1 )
      continue;
    std::vector<L> centre;
    L r2;
    if( !circumscribed( p, s, centre, r2 ) )
      continue;
    if( best >= 0 && r2 >= best )
      continue;
    bool all = true;
    std::size_t on = 0;
    for( auto i : v )
    {
      L s2 = 0;
      for( std::size_t j = 0; j < d; j++ )
        s2 += ( centre[j] - p[i][j] ) * ( centre[j] - p[i][j] );
      all = all && s2 <= r2 * ( 1 + 1e-10L ) + 1e-14L;
      on += s2 >= r2 * ( 1 - 1e-9L );
    }
    if( all )
    {
      best     = r2;
      boundary = on;
    }
  }
  return std::sqrt( best );
}

static void cechLaw( pbt::Ctx& c, std::size_t maximum, std::size_t maxDimension, int forced )
{
  auto d    = c.size( 1, maxDimension );
  auto mode = forced >= 0 ? forced : static_cast<int>( c.draw( 5 ) );
  auto p    = cloud::gen( c, 0, maximum, d, mode );
  auto n    = p.size();
  std::map<V, L> radius;
  std::set<L> values;
  std::set<V> degenerate;
  for( std::size_t m = 1; m < ( std::size_t( 1 ) << n ); m++ )
  {
    V v;
    for( unsigned i = 0; i < n; i++ )
      if( m >> i & 1 )
        v.push_back( i );
    std::size_t boundary = 0;
    values.insert( radius[v] = enclosing( p, v, boundary ) );
    // Known defect: enclosing balls whose boundary contains more points than
    // are required to define it, up to rounding errors
    if( boundary >= d + 2 && mode == 3 )
      degenerate.insert( v );
  }
  // threshold in a gap between radii
  std::vector< std::pair<L,L> > gaps;
  L last = 0;
  for( auto x : values )
  {
    if( x - last > 1e-6L )
      gaps.push_back( { last, x } );
    last = x;
  }
  gaps.push_back( { last, last + 1 } );
  auto gap = c.pick( gaps );
  auto r   = static_cast<double>( ( gap.first + gap.second ) / 2 );
  c.input( cloud::show( p ) + " radius " + pbt::str( r ) );
  auto K = aleph::geometry::buildCechComplex( cloud::make<double>( p, d ), r );
  auto got = bridge::asMap( K );
  c.equal( got.size(), static_cast<std::size_t>( K.size() ), "number of distinct simplices" );
  std::size_t triangles = 0, expected = 0;
  for( auto&& x : radius )
  {
    auto it = got.find( x.first );
    if( degenerate.count( x.first ) )
    {
      bool right = ( it != got.end() ) == ( x.second < r ) && ( it == got.end() || std::fabs( it->second - static_cast<double>( 2 * x.second ) ) < 1e-7 * ( 1 + static_cast<double>( x.second ) ) );
      if( !right )
        c.known( "CECH-COSPHERICAL", "simplex " + pbt::str( x.first ) + " with radius " + pbt::str( static_cast<double>( x.second ) ) );
      continue;
    }
    if( x.second < r )
    {
      ++expected;
      c.check( it != got.end(), "simplex " + pbt::str( x.first ) + " with radius " + pbt::str( static_cast<double>( x.second ) ) + " is missing" );
      c.close( it->second, static_cast<double>( 2 * x.second ), 1e-7 * ( 1 + static_cast<double>( x.second ) ), "weight of " + pbt::str( x.first ) );
      triangles += x.first.size() >= 3;
      // bounds by the diameter
      double diameter = 0;
      for( auto i : x.first )
        for( auto j : x.first )
          diameter = std::max( diameter, cloud::euclidean( p[i], p[j] ) );
      auto jung = 2 * diameter * std::sqrt( static_cast<double>( d ) / ( 2 * ( static_cast<double>( d ) + 1 ) ) );
      c.check( it->second >= diameter * ( 1 - 1e-7 ) - 1e-7 && it->second <= jung * ( 1 + 1e-7 ) + 1e-7, "weight of " + pbt::str( x.first ) + " lies between the Vietoris-Rips bounds" );
    }
    else
      c.check( it == got.end(), "simplex " + pbt::str( x.first ) + " with radius " + pbt::str( static_cast<double>( x.second ) ) + " does not belong to the complex" );
  }
  // order: faces first, weights sorted
  std::set<V> seen;
  double w = -1;
  for( auto&& s : K )
  {
    auto v = bridge::vertices( s );
    if( v.size() > 1 )
      for( auto&& f : facets( v ) )
        c.check( seen.count( f ) || degenerate.count( f ) || degenerate.count( v ), "face " + pbt::str( f ) + " does not precede " + pbt::str( v ) );
    c.check( s.data() >= w, "weights are not sorted" );
    w = s.data();
    seen.insert( v );
  }
  c.label( "dimension " + pbt::str( d ) );
  c.nontrivial( triangles > 0 && expected < radius.size() );
}

LAW( balls, 60000, 600000, "clouds of <=7 points in 1-3 dimensions (ties, duplicates, collinear, cocircular, obtuse), radii between critical values: simplices by brute-force smallest enclosing balls, weights, bounds, order; non-trivial: a triangle belongs to the complex and some simplex does not" ) { cechLaw( c, 7, 3, -1 ); }
LAW( grid, 37500, 450000, "as balls with small integer coordinates" ) { cechLaw( c, 6, 2, 0 ); }

LAW( units, 20000, 200000, "clouds of <=7 points in general position, in units that differ by a power of two (2^-40 to 2^40): same simplices, scaled weights; non-trivial: a triangle belongs to the complex" )
{
  auto d = c.size( 1, 3 );
  auto p = cloud::gen( c, 0, 7, d, 2 );
  auto q = p;
  auto exponent = c.pick( std::vector<int>{ -40, -24, -10, 10, 24, 40 } );
  double s = std::ldexp( 1.0, exponent );
  for( auto&& x : q )
    for( auto&& y : x )
      y *= s;
  double r = static_cast<double>( c.size( 0, 40 ) ) / 4 + 1.0 / 64;
  c.input( cloud::show( p ) + " radius " + pbt::str( r ) + " units 2^" + pbt::str( exponent ) );
  auto K = bridge::asMap( aleph::geometry::buildCechComplex( cloud::make<double>( p, d ), r ) );
  auto M = bridge::asMap( aleph::geometry::buildCechComplex( cloud::make<double>( q, d ), r * s ) );
  bool triangle = false;
  for( auto&& x : K )
  {
    triangle = triangle || x.first.size() >= 3;
    if( std::fabs( x.second / 2 - r ) < 1e-7 )
      continue;
    c.check( M.count( x.first ), "simplex " + pbt::str( x.first ) + " is missing in other units" );
    c.close( M[x.first] / s, x.second, 1e-7 * ( 1 + x.second ), "weight of " + pbt::str( x.first ) + " in other units" );
  }
  for( auto&& x : M )
    c.check( K.count( x.first ) || std::fabs( x.second / s / 2 - r ) < 1e-7, "simplex " + pbt::str( x.first ) + " is added in other units" );
  c.label( exponent < 0 ? "smaller" : "larger" );
  c.nontrivial( triangle );
}
