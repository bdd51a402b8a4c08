// Large inputs. Their contents are derived from one drawn seed, so that only
// the sizes are subject to shrinking.
#pragma once

#include "pbt.hh"

#include <algorithm>
#include <cmath>
#include <map>
#include <random>
#include <set>
#include <string>
#include <vector>

namespace large
{

using V = std::vector<unsigned>; // vertices, ascending

struct Source
{
  explicit Source( pbt::Ctx& c ) : engine( c.draw( 1u << 30 ) + 1 ) {}

  std::size_t below( std::size_t n ) { return static_cast<std::size_t>( engine() % n ); }
  bool chance( std::size_t a, std::size_t b ) { return below( b ) < a; }
  double unit() { return static_cast<double>( engine() >> 11 ) / 9007199254740992.0; }
  double uniform( double lo, double hi ) { return lo + ( hi - lo ) * unit(); }

  // values on a coarse grid, on a fine grid, or arbitrary ones
  double value( unsigned mode )
  {
    switch( mode )
    {
    case 0: return static_cast<double>( below( 9 ) );
    case 1: return static_cast<double>( below( 4001 ) ) / 8 - 250;
    default: return uniform( -100, 100 );
    }
  }

  template <class T> void shuffle( std::vector<T>& v )
  {
    for( std::size_t i = v.size(); i > 1; i-- )
      std::swap( v[i-1], v[ below( i ) ] );
  }

  std::mt19937_64 engine;
};

// ascending identifiers with gaps
inline std::vector<unsigned> ids( Source& s, std::size_t n, bool gaps )
{
  std::vector<unsigned> r;
  unsigned id = gaps ? static_cast<unsigned>( s.below( 3 ) ) : 0;
  for( std::size_t i = 0; i < n; i++ )
  {
    r.push_back( id );
    id += 1 + ( gaps && s.chance( 1, 5 ) ? static_cast<unsigned>( s.below( 7 ) ) : 0 );
  }
  return r;
}

// Flag complex of a random graph (arbitrary or with edges between neighbours in
// the plane), up to a dimension and a number of simplices, without weights.
inline std::set<V> closed( Source& s, std::size_t n, std::size_t dimension, std::size_t cells, bool gaps = true )
{
  auto v = ids( s, n, gaps );
  s.shuffle( v );
  std::set<V> r;
  for( auto x : v )
    r.insert( { x } );

  bool planar = s.chance( 1, 2 );
  std::vector<std::pair<double,double>> p;
  for( std::size_t i = 0; i < n; i++ )
    p.push_back( { s.unit(), s.unit() } );
  double radius = std::sqrt( s.uniform( 2.0, 14.0 ) / ( 3.15 * static_cast<double>( n ) ) );
  double density = s.uniform( 1.5, 9.0 ) / static_cast<double>( n );

  std::map<unsigned, std::set<unsigned>> adjacent;
  std::vector<V> layer;
  for( std::size_t i = 0; i < n; i++ )
    for( std::size_t j = i + 1; j < n; j++ )
    {
      bool link = planar ? std::hypot( p[i].first - p[j].first, p[i].second - p[j].second ) < radius : s.unit() < density;
      if( !link || r.size() >= cells )
        continue;
      auto a = std::min( v[i], v[j] ), b = std::max( v[i], v[j] );
      adjacent[a].insert( b );
      r.insert( { a, b } );
      layer.push_back( { a, b } );
    }

  for( std::size_t d = 2; d <= dimension; d++ )
  {
    std::vector<V> next;
    for( auto&& x : layer )
      for( auto y : adjacent[ x.back() ] )
      {
        bool clique = true;
        for( auto z : x )
          clique = clique && adjacent[z].count( y );
        if( !clique || r.size() >= cells )
          continue;
        auto t = x;
        t.push_back( y );
        bool faces = true; // the number of simplices may have been exhausted
        for( std::size_t i = 0; i < t.size(); i++ )
        {
          auto f = t;
          f.erase( f.begin() + static_cast<std::ptrdiff_t>( i ) );
          faces = faces && r.count( f );
        }
        if( faces && r.insert( t ).second )
          next.push_back( t );
      }
    layer = next;
  }
  return r;
}

}
