// Point cloud generators.
#ifndef VERIF_CLOUDS_HH
#define VERIF_CLOUDS_HH

#include "pbt.hh"

#include <aleph/containers/PointCloud.hh>

#include <cmath>
#include <iomanip>
#include <sstream>
#include <random>
#include <vector>

namespace cloud
{

using Row  = std::vector<double>;
using Rows = std::vector<Row>;

inline std::string show( const Rows& r )
{
  std::ostringstream o;
  o << std::setprecision( 17 );
  for( auto&& x : r )
  {
    o << "(";
    for( std::size_t i = 0; i < x.size(); i++ )
      o << ( i ? "," : "" ) << x[i];
    o << ")";
  }
  return o.str();
}

// modes: 0 small grid (many ties, duplicates), 1 larger integers, 2 reals,
// 3 points on a circle (needs d >= 2), 4 clusters
inline Rows gen( pbt::Ctx& c, std::size_t minimum, std::size_t maximum, std::size_t d, int mode = -1, std::size_t big = 0 )
{
  auto m = mode >= 0 ? static_cast<std::size_t>( mode ) : static_cast<std::size_t>( c.draw( 5 ) );
  auto n = big ? c.extent( minimum, maximum, big ) : c.size( minimum, maximum );
  if( m == 3 && d < 2 )
    m = 2;
  Rows r;
  for( std::size_t i = 0; i < n; i++ )
  {
    Row x;
    if( m == 3 )
    {
      double t = c.uniform( 0, 6.283185307179586 );
      x = { std::cos( t ) * 3, std::sin( t ) * 3 };
    }
    double base = m == 4 ? 20.0 * static_cast<double>( c.size( 0, 2 ) ) : 0.0;
    while( x.size() < d )
      x.push_back( m == 0 ? static_cast<double>( c.around( 2 ) )
                 : m == 1 ? static_cast<double>( c.around( 20 ) )
                 : m == 2 ? c.uniform( -5, 5 )
                 : m == 3 ? c.uniform( -0.5, 0.5 )
                          : base + c.uniform( -2, 2 ) );
    r.push_back( x );
  }
  return r;
}

template <class T> aleph::containers::PointCloud<T> make( const Rows& r, std::size_t d )
{
  aleph::containers::PointCloud<T> p( r.size(), d );
  for( std::size_t i = 0; i < r.size(); i++ )
  {
    std::vector<T> x( r[i].begin(), r[i].end() );
    p.set( i, x.begin(), x.end() );
  }
  return p;
}

inline double squared( const Row& a, const Row& b )
{
  double s = 0;
  for( std::size_t i = 0; i < a.size(); i++ )
    s += ( a[i] - b[i] ) * ( a[i] - b[i] );
  return s;
}

inline double euclidean( const Row& a, const Row& b ) { return std::sqrt( squared( a, b ) ); }

inline double manhattan( const Row& a, const Row& b )
{
  double s = 0;
  for( std::size_t i = 0; i < a.size(); i++ )
    s += std::fabs( a[i] - b[i] );
  return s;
}

// Points that are well distributed on a sphere, or on a hyperplane (radius 0)
// through the centre: the generator is seeded by one draw, so that shrinking
// does not make them degenerate.
inline Rows onSphere( pbt::Ctx& c, std::size_t n, const Row& centre, double radius )
{
  std::mt19937_64 engine( c.draw( 1u << 30 ) );
  auto d = centre.size();
  auto normal = [&] ()
  {
    double s = 0.0;
    for( int i = 0; i < 12; i++ )
      s += static_cast<double>( engine() >> 11 ) / 9007199254740992.0;
    return s - 6.0;
  };
  auto direction = [&] ()
  {
    Row r( d );
    double s = 0.0;
    while( s < 0.01 )
    {
      s = 0.0;
      for( auto&& x : r )
      {
        x = normal();
        s += x * x;
      }
    }
    for( auto&& x : r )
      x /= std::sqrt( s );
    return r;
  };
  auto plane = direction();
  Rows rows;
  for( std::size_t i = 0; i < n; i++ )
  {
    auto r = direction();
    if( radius > 0 )
      for( auto&& x : r )
        x *= radius;
    else
    {
      for( auto&& x : r )
        x *= 1.0 + static_cast<double>( engine() % 1024 ) / 1024.0;
      double s = 0.0;
      for( std::size_t j = 0; j < d; j++ )
        s += r[j] * plane[j];
      for( std::size_t j = 0; j < d; j++ )
        r[j] -= s * plane[j];
    }
    for( std::size_t j = 0; j < d; j++ )
      r[j] += centre[j];
    rows.push_back( r );
  }
  return rows;
}

} // namespace cloud

#endif
