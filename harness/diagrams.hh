// Generators and reference computations for persistence diagrams.
#ifndef VERIF_DIAGRAMS_HH
#define VERIF_DIAGRAMS_HH

#include "pbt.hh"

#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>

#include <cmath>
#include <iomanip>
#include <set>
#include <sstream>
#include <functional>
#include <limits>
#include <vector>

namespace dgm
{

using P      = std::pair<double,double>;
using Points = std::vector<P>;
using Metric = std::function<double( const P&, const P& )>;

inline double linf( const P& a, const P& b ) { return std::max( std::fabs( a.first - b.first ), std::fabs( a.second - b.second ) ); }
inline double l1  ( const P& a, const P& b ) { return std::fabs( a.first - b.first ) + std::fabs( a.second - b.second ); }
inline double l2  ( const P& a, const P& b ) { return std::hypot( a.first - b.first, a.second - b.second ); }

inline std::string show( const Points& p )
{
  std::ostringstream o;
  o << std::setprecision( 17 ) << "[";
  for( auto&& x : p )
    o << "(" << x.first << "," << x.second << ")";
  o << "]";
  return o.str();
}

// modes: 0 small integers, 1 quarters, 2 arbitrary reals, 3 clustered close to each other
inline P genPoint( pbt::Ctx& c, unsigned mode, bool below )
{
  double x, y;
  if( mode == 0 )      { x = static_cast<double>( c.around( 4 ) );      y = x + static_cast<double>( c.size( 0, 5 ) ); }
  else if( mode == 1 ) { x = static_cast<double>( c.around( 20 ) ) / 4; y = x + static_cast<double>( c.size( 0, 30 ) ) / 4; }
  else if( mode == 2 ) { x = c.uniform( -10, 10 );                      y = x + c.uniform( 0, 10 ); }
  else                 { x = 1 + static_cast<double>( c.size( 0, 2 ) ) * 0.125; y = 2 + static_cast<double>( c.size( 0, 2 ) ) * 0.125; }
  if( below && c.chance( 1, 3 ) )
    std::swap( x, y );
  return { x, y };
}

inline Points genPoints( pbt::Ctx& c, std::size_t maximum, int mode = -1, bool below = true, std::size_t minimum = 0, std::size_t big = 0 )
{
  unsigned m = mode >= 0 ? static_cast<unsigned>( mode ) : static_cast<unsigned>( c.draw( 4 ) );
  auto n = big ? c.extent( minimum, maximum, big ) : c.size( minimum, maximum );
  Points r;
  for( std::size_t i = 0; i < n; i++ )
  {
    if( !r.empty() && c.chance( 1, 8 ) )
      r.push_back( r[ c.draw( r.size() ) ] );
    else
      r.push_back( genPoint( c, m, below ) );
  }
  return r;
}

// a diagram related to another one: points moved, dropped or added
inline Points genRelated( pbt::Ctx& c, const Points& a, std::size_t maximum )
{
  Points r;
  for( auto&& p : a )
  {
    if( c.chance( 1, 5 ) )
      continue;
    double dx = c.boolean() ? static_cast<double>( c.around( 4 ) ) / 8 : 0, dy = c.boolean() ? static_cast<double>( c.around( 4 ) ) / 8 : 0;
    if( r.size() < maximum )
      r.push_back( { p.first + dx, p.second + dy } );
  }
  if( r.size() < maximum && c.boolean() )
    r.push_back( genPoint( c, 1, true ) );
  c.shuffle( r );
  return r;
}

template <class T> aleph::PersistenceDiagram<T> make( const Points& p, std::size_t dimension = 0 )
{
  aleph::PersistenceDiagram<T> D;
  D.setDimension( dimension );
  for( auto&& x : p )
  {
    if( std::isinf( x.second ) )
      D.add( static_cast<T>( x.first ) );
    else
      D.add( static_cast<T>( x.first ), static_cast<T>( x.second ) );
  }
  return D;
}

inline double toDiagonal( const P& p, const Metric& d )
{
  double u = ( p.first + p.second ) / 2;
  return d( p, { u, u } );
}

// Optimal partial matching by dynamic programming over subsets of b;
// unmatched points pay their distance to the diagonal. Either the sum of
// the powers or the maximum is minimised.
inline double optimal( const Points& a, const Points& b, const Metric& d, double power, bool bottleneck )
{
  std::size_t m = b.size();
  auto add = [&] ( double x, double y ) { return bottleneck ? std::max( x, y ) : x + std::pow( y, power ); };
  std::vector<double> best( std::size_t(1) << m, std::numeric_limits<double>::infinity() );
  best[0] = 0;
  for( auto&& p : a )
  {
    std::vector<double> next( best.size(), std::numeric_limits<double>::infinity() );
    for( std::size_t s = 0; s < best.size(); s++ )
    {
      if( std::isinf( best[s] ) )
        continue;
      next[s] = std::min( next[s], add( best[s], toDiagonal( p, d ) ) );
      for( std::size_t j = 0; j < m; j++ )
        if( !( s >> j & 1 ) )
          next[ s | std::size_t(1) << j ] = std::min( next[ s | std::size_t(1) << j ], add( best[s], d( p, b[j] ) ) );
    }
    best.swap( next );
  }
  double r = std::numeric_limits<double>::infinity();
  for( std::size_t s = 0; s < best.size(); s++ )
  {
    double x = best[s];
    for( std::size_t j = 0; j < m; j++ )
      if( !( s >> j & 1 ) )
        x = add( x, toDiagonal( b[j], d ) );
    r = std::min( r, x );
  }
  return r;
}

// Minimum-cost assignment with potentials (shortest augmenting paths).
inline double assignment( const std::vector< std::vector<double> >& a )
{
  std::size_t n = a.size();
  const long double INF = 1e300L;
  std::vector<long double> u( n + 1 ), v( n + 1 );
  std::vector<std::size_t> p( n + 1 ), way( n + 1 );
  for( std::size_t i = 1; i <= n; i++ )
  {
    p[0] = i;
    std::size_t j0 = 0;
    std::vector<long double> minv( n + 1, INF );
    std::vector<char> used( n + 1, 0 );
    do
    {
      used[j0] = 1;
      std::size_t i0 = p[j0], j1 = 0;
      long double delta = INF;
      for( std::size_t j = 1; j <= n; j++ )
        if( !used[j] )
        {
          long double cur = a[i0-1][j-1] - u[i0] - v[j];
          if( cur < minv[j] ) { minv[j] = cur; way[j] = j0; }
          if( minv[j] < delta ) { delta = minv[j]; j1 = j; }
        }
      for( std::size_t j = 0; j <= n; j++ )
        if( used[j] ) { u[p[j]] += delta; v[j] -= delta; }
        else minv[j] -= delta;
      j0 = j1;
    }
    while( p[j0] != 0 );
    do
    {
      std::size_t j1 = way[j0];
      p[j0] = p[j1];
      j0 = j1;
    }
    while( j0 );
  }
  long double r = 0;
  for( std::size_t j = 1; j <= n; j++ )
    r += a[ p[j] - 1 ][ j - 1 ];
  return static_cast<double>( r );
}

// The same optimum as optimal(), for larger diagrams.
inline double optimalSum( const Points& a, const Points& b, const Metric& d, double power )
{
  std::size_t n = a.size(), m = b.size();
  std::vector< std::vector<double> > C( n + m, std::vector<double>( n + m, 0.0 ) );
  for( std::size_t i = 0; i < n; i++ )
    for( std::size_t j = 0; j < n + m; j++ )
      C[i][j] = std::pow( j < m ? d( a[i], b[j] ) : toDiagonal( a[i], d ), power );
  for( std::size_t i = n; i < n + m; i++ )
    for( std::size_t j = 0; j < m; j++ )
      C[i][j] = std::pow( toDiagonal( b[j], d ), power );
  return assignment( C );
}

// Bottleneck distance for larger diagrams: threshold search with augmenting paths.
inline double bottleneck( const Points& a, const Points& b, const Metric& d )
{
  std::size_t n = a.size(), m = b.size(), N = n + m;
  auto cost = [&] ( std::size_t i, std::size_t j )
  {
    if( i < n && j < m ) return d( a[i], b[j] );
    if( i < n )          return toDiagonal( a[i], d );
    if( j < m )          return toDiagonal( b[j], d );
    return 0.0;
  };
  std::vector<double> values = { 0.0 };
  for( std::size_t i = 0; i < N; i++ )
    for( std::size_t j = 0; j < N; j++ )
      values.push_back( cost( i, j ) );
  std::sort( values.begin(), values.end() );
  values.erase( std::unique( values.begin(), values.end() ), values.end() );
  auto feasible = [&] ( double t )
  {
    std::vector<long> mate( N, -1 );
    for( std::size_t i = 0; i < N; i++ )
    {
      std::vector<char> seen( N, 0 );
      std::function<bool( std::size_t )> go = [&] ( std::size_t x )
      {
        for( std::size_t j = 0; j < N; j++ )
          if( !seen[j] && cost( x, j ) <= t )
          {
            seen[j] = 1;
            if( mate[j] < 0 || go( static_cast<std::size_t>( mate[j] ) ) )
            {
              mate[j] = static_cast<long>( x );
              return true;
            }
          }
        return false;
      };
      if( !go( i ) )
        return false;
    }
    return true;
  };
  std::size_t lo = 0, hi = values.size() - 1;
  while( lo < hi )
  {
    auto mid = ( lo + hi ) / 2;
    if( feasible( values[mid] ) ) hi = mid;
    else                          lo = mid + 1;
  }
  return values[lo];
}

} // namespace dgm

#endif
