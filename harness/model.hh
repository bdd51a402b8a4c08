// Independent reference model of finite filtered complexes and generators for
// them. Shares no code with the library under test.
#ifndef MODEL_HH
#define MODEL_HH

#include "large.hh"
#include "pbt.hh"

#include <algorithm>
#include <cmath>
#include <limits>
#include <map>
#include <set>
#include <vector>

namespace model
{

using V = std::vector<unsigned>; // vertices, ascending

struct Cell
{
  V v;
  double w;
};

using Complex = std::vector<Cell>; // in filtration order

inline std::string show( const V& v )
{
  std::string s = "{";
  for( std::size_t i = 0; i < v.size(); i++ )
    s += ( i ? "," : "" ) + std::to_string( v[i] );
  return s + "}";
}

inline std::string show( const Complex& K )
{
  std::ostringstream os;
  os.precision( 17 );
  for( auto&& c : K )
    os << show( c.v ) << ":" << c.w << " ";
  return os.str();
}

inline std::vector<V> facets( const V& v )
{
  std::vector<V> r;
  if( v.size() <= 1 )
    return r;
  for( std::size_t i = 0; i < v.size(); i++ )
  {
    V f;
    for( std::size_t j = 0; j < v.size(); j++ )
      if( j != i )
        f.push_back( v[j] );
    r.push_back( f );
  }
  return r;
}

// all non-empty subsets
inline std::vector<V> subsets( const V& v )
{
  std::vector<V> r;
  for( std::size_t mask = 1; mask < ( std::size_t(1) << v.size() ); mask++ )
  {
    V s;
    for( std::size_t i = 0; i < v.size(); i++ )
      if( mask >> i & 1 )
        s.push_back( v[i] );
    r.push_back( s );
  }
  return r;
}

inline std::set<V> closure( const std::vector<V>& in )
{
  std::set<V> r;
  for( auto v : in )
  {
    std::sort( v.begin(), v.end() );
    for( auto&& s : subsets( v ) )
      r.insert( s );
  }
  return r;
}

// --- GF(2) linear algebra on bit rows --------------------------------

using Bits = std::vector<uint64_t>;

inline void flip( Bits& b, std::size_t i ) { b[i >> 6] ^= uint64_t(1) << ( i & 63 ); }

inline long highest( const Bits& b )
{
  for( std::size_t k = b.size(); k-- > 0; )
    if( b[k] )
      return static_cast<long>( k * 64 ) + 63 - __builtin_clzll( b[k] );
  return -1;
}

inline std::size_t rank( std::vector<Bits> M )
{
  std::map<long, Bits> basis;
  for( auto& b : M )
  {
    long h;
    while( ( h = highest( b ) ) >= 0 )
    {
      auto it = basis.find( h );
      if( it == basis.end() )
      {
        basis[h] = b;
        break;
      }
      for( std::size_t k = 0; k < b.size(); k++ )
        b[k] ^= it->second[k];
    }
  }
  return basis.size();
}

// Persistence pairs of a filtration given by vertex sets in order: for every
// creator the index of its destroyer, or -1.
struct Pair
{
  long birth, death;
  bool operator<( const Pair& o ) const { return birth != o.birth ? birth < o.birth : death < o.death; }
  bool operator==( const Pair& o ) const { return birth == o.birth && death == o.death; }
};

inline std::vector<Pair> pairsOfColumns( const std::vector< std::vector<std::size_t> >& columns )
{
  auto n     = columns.size();
  auto words = n / 64 + 1;
  std::map<long, Bits> low;
  std::vector<char> negative( n, 0 );
  std::vector<Pair> r;
  std::vector<char> paired( n, 0 );
  for( std::size_t j = 0; j < n; j++ )
  {
    Bits b( words, 0 );
    for( auto i : columns[j] )
      flip( b, i );
    long h;
    while( ( h = highest( b ) ) >= 0 )
    {
      auto it = low.find( h );
      if( it == low.end() )
      {
        low[h] = b;
        break;
      }
      for( std::size_t k = 0; k < words; k++ )
        b[k] ^= it->second[k];
    }
    if( h >= 0 )
    {
      negative[j] = 1;
      paired[ static_cast<std::size_t>( h ) ] = 1;
      r.push_back( { h, static_cast<long>( j ) } );
    }
  }
  for( std::size_t j = 0; j < n; j++ )
    if( !negative[j] && !paired[j] )
      r.push_back( { static_cast<long>( j ), -1 } );
  std::sort( r.begin(), r.end() );
  return r;
}

inline std::vector< std::vector<std::size_t> > columnsOf( const Complex& K )
{
  std::map<V, std::size_t> index;
  std::vector< std::vector<std::size_t> > columns;
  for( std::size_t i = 0; i < K.size(); i++ )
  {
    std::vector<std::size_t> col;
    for( auto&& f : facets( K[i].v ) )
      col.push_back( index.at( f ) );
    std::sort( col.begin(), col.end() );
    columns.push_back( col );
    index[ K[i].v ] = i;
  }
  return columns;
}

inline std::vector<Pair> pairs( const Complex& K ) { return pairsOfColumns( columnsOf( K ) ); }

inline std::size_t dimension( const Complex& K )
{
  std::size_t d = 0;
  for( auto&& c : K )
    d = std::max( d, c.v.size() - 1 );
  return d;
}

// Betti numbers by ranks of boundary maps; indices 0..dimension
inline std::vector<long> betti( const std::set<V>& K )
{
  std::size_t top = 0;
  for( auto&& v : K )
    top = std::max( top, v.size() );
  std::vector< std::vector<V> > byDim( top + 1 );
  std::map<V, std::size_t> index;
  for( auto&& v : K )
  {
    index[v] = byDim[ v.size() - 1 ].size();
    byDim[ v.size() - 1 ].push_back( v );
  }
  std::vector<std::size_t> ranks( top + 1, 0 ); // ranks[d] = rank of boundary from d to d-1
  for( std::size_t d = 1; d < top; d++ )
  {
    std::vector<Bits> M;
    for( auto&& v : byDim[d] )
    {
      Bits b( byDim[d-1].size() / 64 + 1, 0 );
      for( auto&& f : facets( v ) )
        flip( b, index.at( f ) );
      M.push_back( b );
    }
    ranks[d] = rank( M );
  }
  std::vector<long> r;
  for( std::size_t d = 0; d < top; d++ )
    r.push_back( static_cast<long>( byDim[d].size() ) - static_cast<long>( ranks[d] ) - static_cast<long>( ranks[d+1] ) );
  return r;
}

inline std::vector<long> betti( const Complex& K )
{
  std::set<V> s;
  for( auto&& c : K )
    s.insert( c.v );
  return betti( s );
}

// Persistence diagram by dimension: sorted (birth,death) with inf; optionally
// with the infinite points of the top dimension.
using Diagram = std::vector< std::pair<double,double> >;

inline std::map<std::size_t, Diagram> diagrams( const Complex& K, bool top )
{
  std::map<std::size_t, Diagram> r;
  auto D = dimension( K );
  for( auto&& p : pairs( K ) )
  {
    auto d = K[ static_cast<std::size_t>( p.birth ) ].v.size() - 1;
    if( p.death < 0 && d == D && !top )
      continue;
    r[d].push_back( { K[ static_cast<std::size_t>( p.birth ) ].w,
                      p.death < 0 ? std::numeric_limits<double>::infinity() : K[ static_cast<std::size_t>( p.death ) ].w } );
  }
  for( auto& x : r )
    std::sort( x.second.begin(), x.second.end() );
  return r;
}

// --- generators -------------------------------------------------------

inline std::vector<V> namedComplex( std::size_t which )
{
  switch( which )
  {
  case 0: return { {0,1},{1,2},{0,2} };                                            // circle
  case 1: return { {0,1,2},{0,1,3},{0,2,3},{1,2,3} };                              // sphere
  case 2: return { {0,1,3},{1,2,4},{2,3,5},{3,4,6},{4,5,0},{5,6,1},{6,0,2},
                   {0,2,3},{1,3,4},{2,4,5},{3,5,6},{4,6,0},{5,0,1},{6,1,2} };      // torus (7 vertices)
  case 3: return { {0,1,4},{0,1,5},{0,2,3},{0,2,5},{0,3,4},{1,2,3},{1,2,4},{1,3,5},{2,4,5},{3,4,5} }; // projective plane
  case 4: return { {0,1,2},{1,2,3},{2,3,4},{3,4,0},{4,0,1} };                      // Moebius strip
  case 5: return { {0,2,4},{0,2,5},{0,3,4},{0,3,5},{1,2,4},{1,2,5},{1,3,4},{1,3,5} }; // octahedron
  case 6: return { {0,1,2,3},{0,1,2,4},{0,1,3,4},{0,2,3,4},{1,2,3,4} };            // 3-sphere
  case 7: return { {0,1},{1,2},{0,2},{2,3},{3,4},{2,4},{5} };                      // figure eight and a point
  case 8: return { {0,1,2,3,4} };                                                  // 4-simplex
  default: return { {0,1,2},{2,3},{3,4,5,6},{7},{6,7} };                           // non-pure
  }
}

// triangulated m x n torus / Klein bottle grids (m,n >= 3)
inline std::vector<V> gridSurface( unsigned m, unsigned n, bool klein )
{
  std::vector<V> r;
  auto id = [&] ( unsigned i, unsigned j )
  {
    unsigned jj = j % n;
    unsigned ii = i;
    if( i >= m )
    {
      ii = i % m;
      if( klein )
        jj = ( n - jj ) % n;
    }
    return ii * n + jj;
  };
  for( unsigned i = 0; i < m; i++ )
    for( unsigned j = 0; j < n; j++ )
    {
      V a = { id(i,j), id(i+1,j), id(i+1,j+1) };
      V b = { id(i,j), id(i,j+1), id(i+1,j+1) };
      std::sort( a.begin(), a.end() );
      std::sort( b.begin(), b.end() );
      r.push_back( a );
      r.push_back( b );
    }
  return r;
}

struct Options
{
  unsigned maxVertices  = 8;
  unsigned maxDimension = 3;
  unsigned maxFacets    = 8;
  bool     relabel      = true;  // permit gaps in vertex ids
  bool     empty        = false; // permit the empty complex
  std::size_t maxCells  = 220;
  bool     units        = true;  // permit weights in very small or large units
  bool     fine         = true;  // permit weights that are not representable in single precision

  // every so many cases, a complex of up to this many vertices and simplices
  std::size_t bulkEvery    = 50;
  std::size_t bulkVertices = 0;
  std::size_t bulkCells    = 0;
  unsigned    solidVertices = 0; // ...or a single simplex with up to this many vertices

  Options& solid( unsigned vertices )
  {
    solidVertices = vertices;
    return *this;
  }

  Options& bulk( std::size_t vertices, std::size_t cells, std::size_t every = 50 )
  {
    bulkVertices = vertices;
    bulkCells    = cells;
    bulkEvery    = every;
    return *this;
  }
};

inline std::set<V> genClosed( pbt::Ctx& c, const Options& o = Options() )
{
  if( o.bulkVertices && c.chance( 1, o.bulkEvery ) )
  {
    if( o.solidVertices && c.chance( 1, 4 ) )
    {
      c.label( "high dimension" );
      V v;
      unsigned x = 0;
      for( auto n = c.size( 6, o.solidVertices ); n > 0; n-- )
        v.push_back( x += 1 + static_cast<unsigned>( o.relabel ? c.draw( 2 ) : 0 ) );
      if( !o.relabel )
        for( auto&& a : v )
          a -= 1;
      return closure( { v } );
    }
    c.label( "large complex" );
    auto n = c.size( 10, o.bulkVertices );
    auto m = c.size( n, o.bulkCells );
    large::Source s( c );
    return large::closed( s, n, o.maxDimension, m, o.relabel );
  }
  std::vector<V> gens;
  auto kind = c.draw( 8 );
  if( kind <= 4 )
  {
    auto n = static_cast<unsigned>( c.size( o.empty ? 0 : 1, o.maxVertices ) );
    if( n == 0 )
      return {};
    auto k = c.size( 1, o.maxFacets );
    bool allVertices = c.boolean();
    for( std::size_t i = 0; i < k; i++ )
    {
      auto size = c.size( 1, std::min( n, o.maxDimension + 1 ) );
      std::set<unsigned> s;
      for( std::size_t j = 0; j < size; j++ )
        s.insert( static_cast<unsigned>( c.draw( n ) ) );
      gens.push_back( V( s.begin(), s.end() ) );
    }
    if( allVertices )
      for( unsigned i = 0; i < n; i++ )
        gens.push_back( { i } );
  }
  else if( kind == 5 )
  {
    // flag complex of a random graph
    auto n = static_cast<unsigned>( c.size( 1, std::min( o.maxVertices, 7u ) ) );
    auto density = c.integer( 1, 4 );
    std::vector< std::vector<char> > adj( n, std::vector<char>( n, 0 ) );
    for( unsigned i = 0; i < n; i++ )
      for( unsigned j = i + 1; j < n; j++ )
        adj[i][j] = adj[j][i] = c.chance( static_cast<uint64_t>( density ), 5 );
    V all;
    for( unsigned i = 0; i < n; i++ )
      all.push_back( i );
    for( auto&& s : subsets( all ) )
    {
      if( s.size() > o.maxDimension + 1 )
        continue;
      bool ok = true;
      for( auto a : s )
        for( auto b : s )
          ok = ok && ( a == b || adj[a][b] );
      if( ok )
        gens.push_back( s );
    }
  }
  else
  {
    gens = namedComplex( c.draw( 10 ) );
    if( c.chance( 1, 4 ) )
    {
      // disjoint union or wedge with a second one
      auto shift = c.boolean() ? 10u : 0u;
      for( auto v : namedComplex( c.draw( 10 ) ) )
      {
        for( auto& x : v )
          x = x ? x + ( shift ? shift : 10u ) : shift;
        gens.push_back( v );
      }
    }
    // delete some facets
    std::vector<V> kept;
    bool del = c.boolean();
    for( auto&& g : gens )
      if( !del || !c.chance( 1, 6 ) )
        kept.push_back( g );
    if( kept.empty() )
      kept.push_back( { 0 } );
    gens = kept;
    for( auto& g : gens )
      if( g.size() > o.maxDimension + 1 )
        g.resize( o.maxDimension + 1 );
  }

  auto K = closure( gens );
  if( K.size() > o.maxCells )
    throw pbt::Discard();

  if( o.relabel && c.chance( 1, 3 ) )
  {
    // strictly increasing or arbitrary injective relabelling with gaps
    std::set<unsigned> ids;
    for( auto&& v : K )
      ids.insert( v.begin(), v.end() );
    std::vector<unsigned> target;
    unsigned x = static_cast<unsigned>( c.draw( 5 ) );
    for( std::size_t i = 0; i < ids.size(); i++ )
    {
      target.push_back( x );
      x += 1 + static_cast<unsigned>( c.draw( 4 ) );
    }
    c.shuffle( target );
    std::map<unsigned,unsigned> m;
    std::size_t i = 0;
    for( auto id : ids )
      m[id] = target[i++];
    std::set<V> R;
    for( auto&& v : K )
    {
      V w;
      for( auto a : v )
        w.push_back( m[a] );
      std::sort( w.begin(), w.end() );
      R.insert( w );
    }
    K = R;
  }
  return K;
}

// exactly representable in float, too
inline double genWeight( pbt::Ctx& c, int mode )
{
  switch( mode )
  {
  case 0: return 0;
  case 1: return static_cast<double>( c.integer( 0, 3 ) );
  case 2: return static_cast<double>( c.around( 6 ) );
  case 3: return static_cast<double>( c.around( 400 ) ) / 16.0;
  default: return static_cast<double>( c.integer( 0, 100000 ) ) / 64.0;
  }
}

// Filtered complex with monotone weights, in a valid filtration order that is
// not necessarily the lexicographic one.
inline Complex genFiltered( pbt::Ctx& c, const Options& o = Options(), bool randomOrder = true )
{
  auto K    = genClosed( c, o );
  auto mode = static_cast<int>( c.draw( 5 ) );
  bool star = c.chance( 1, 3 );
  std::map<V,double> w;
  std::vector<V> order( K.begin(), K.end() );
  std::stable_sort( order.begin(), order.end(), [] ( const V& a, const V& b ) { return a.size() < b.size(); } );
  for( auto&& v : order )
  {
    double x = v.size() == 1 || !star ? genWeight( c, mode ) : -std::numeric_limits<double>::infinity();
    for( auto&& f : facets( v ) )
      x = std::max( x, w.at( f ) );
    w[v] = x;
  }
  std::stable_sort( order.begin(), order.end(), [&] ( const V& a, const V& b ) { return w[a] < w[b]; } );
  Complex r;
  for( auto&& v : order )
    r.push_back( { v, w[v] } );

  // random linear extension within equal weights: swap neighbours
  if( randomOrder && c.boolean() )
  {
    auto swaps = c.size( 0, 30 );
    for( std::size_t k = 0; k < swaps && r.size() > 1; k++ )
    {
      auto i = static_cast<std::size_t>( c.draw( r.size() - 1 ) );
      auto&& a = r[i];
      auto&& b = r[i+1];
      bool face = std::includes( b.v.begin(), b.v.end(), a.v.begin(), a.v.end() );
      if( !face && a.w == b.w )
        std::swap( r[i], r[i+1] );
    }
  }
  if( o.units && c.chance( 1, 8 ) )
  {
    auto unit = std::ldexp( 1.0, c.pick( std::vector<int>{ 20, -20, 40, -40 } ) );
    for( auto&& s : r )
      s.w *= unit;
    c.label( "other units" );
  }
  if( o.fine && c.chance( 1, 8 ) )
    for( auto&& s : r )
      s.w *= 1.0 + std::ldexp( 1.0, -30 );
  return r;
}

inline void labelComplex( pbt::Ctx& c, const Complex& K )
{
  auto d = K.empty() ? std::string( "empty" ) : std::to_string( dimension( K ) );
  c.label( "dim " + d );
  std::set<double> ws;
  for( auto&& x : K )
    ws.insert( x.w );
  c.label( ws.size() == K.size() ? "distinct weights" : ws.size() <= 1 ? "constant weights" : "ties" );
}

} // namespace model

#endif
