// Maximal cliques, clique graphs and shortest paths are exact.
#include "bridge.hh"

#include <aleph/topology/CliqueGraph.hh>
#include <aleph/topology/FloydWarshall.hh>
#include <aleph/topology/MaximalCliques.hh>
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>

#include <algorithm>
#include <limits>
#include <map>
#include <set>

using S = aleph::topology::Simplex<double, unsigned>;
using K = aleph::topology::SimplicialComplex<S>;

struct Graph
{
  std::vector<unsigned> names;
  std::vector< std::vector<bool> > adjacent;
  std::vector< std::vector<double> > weight;
  std::string text;
};

static Graph genGraph( pbt::Ctx& c, std::size_t max, bool integers = false )
{
  Graph g;
  auto n = c.size( 0, max );
  switch( c.size( 0, 3 ) )
  {
  case 0:
    for( unsigned i = 0; i < n; i++ ) g.names.push_back( i );
    break;
  case 1:
    for( unsigned i = 0; i < n; i++ ) g.names.push_back( i + 1 );
    break;
  default:
    {
      std::set<unsigned> s;
      unsigned x = 0;
      while( s.size() < n )
        s.insert( x += 1 + static_cast<unsigned>( c.size( 0, 4 ) ) );
      g.names.assign( s.begin(), s.end() );
    }
  }
  g.adjacent.assign( n, std::vector<bool>( n ) );
  g.weight.assign( n, std::vector<double>( n, 0.0 ) );
  auto density = c.size( 0, 10 );
  auto mode    = c.size( 0, 3 );
  // cocktail party graphs have exponentially many cliques
  bool party = c.chance( 1, 12 );
  for( std::size_t i = 0; i < n; i++ )
    for( std::size_t j = 0; j < i; j++ )
      if( party ? i / 2 != j / 2 : c.chance( density, 10 ) )
      {
        g.adjacent[i][j] = g.adjacent[j][i] = true;
        double w = mode == 0 ? 1.0 : mode == 1 ? double( c.size( 0, 4 ) ) : mode == 2 ? double( c.size( 1, 9 ) ) : c.uniform( 0, 10 );
        if( integers )
          w = std::floor( w );
        g.weight[i][j] = g.weight[j][i] = w;
      }
  for( std::size_t i = 0; i < n; i++ )
  {
    g.text += pbt::str( g.names[i] ) + ":";
    for( std::size_t j = 0; j < n; j++ )
      if( g.adjacent[i][j] )
        g.text += " " + pbt::str( g.names[j] ) + "(" + pbt::str( g.weight[i][j] ) + ")";
    g.text += "; ";
  }
  return g;
}

// Simplices are added in a random order that respects faces
template <class T> static aleph::topology::SimplicialComplex<T> make( pbt::Ctx& c, const Graph& g, std::vector<unsigned>& order, bool facesFirst = true )
{
  using D = typename T::DataType;
  using V = typename T::VertexType;
  std::vector<std::size_t> v( g.names.size() );
  for( std::size_t i = 0; i < v.size(); i++ )
    v[i] = i;
  c.shuffle( v );
  std::vector<T> s;
  for( auto i : v )
  {
    order.push_back( g.names[i] );
    s.push_back( T( V( g.names[i] ), D( 0 ) ) );
    if( facesFirst && c.boolean() )
      continue;
  }
  std::vector<T> edges;
  for( std::size_t i = 0; i < v.size(); i++ )
    for( std::size_t j = 0; j < i; j++ )
      if( g.adjacent[i][j] )
        edges.push_back( T( { V( g.names[i] ), V( g.names[j] ) }, D( g.weight[i][j] ) ) );
  c.shuffle( edges );
  s.insert( s.end(), edges.begin(), edges.end() );
  return aleph::topology::SimplicialComplex<T>( s.begin(), s.end() );
}

static std::set< std::set<unsigned> > referenceCliques( const Graph& g )
{
  auto n = g.names.size();
  std::vector<unsigned> nb( n, 0 );
  for( std::size_t i = 0; i < n; i++ )
    for( std::size_t j = 0; j < n; j++ )
      if( g.adjacent[i][j] )
        nb[i] |= 1u << j;
  std::set< std::set<unsigned> > r;
  for( unsigned m = 1; m < ( 1u << n ); m++ )
  {
    unsigned common = ( 1u << n ) - 1;
    bool clique = true;
    for( std::size_t i = 0; clique && i < n; i++ )
      if( m >> i & 1 )
      {
        clique = ( ( nb[i] | 1u << i ) & m ) == m;
        common &= nb[i];
      }
    if( clique && common == 0 )
    {
      std::set<unsigned> s;
      for( std::size_t i = 0; i < n; i++ )
        if( m >> i & 1 )
          s.insert( g.names[i] );
      r.insert( s );
    }
  }
  return r;
}

LAW( cliques, 144000, 1440000, "graphs with <=11 vertices of all densities, arbitrary ids, isolated vertices and cocktail party graphs: both enumerations against exhaustive search over vertex sets; non-trivial: >=3 maximal cliques, one of them of >=3 vertices" )
{
  auto g = genGraph( c, c.chance( 1, 3 ) ? 11 : 7 );
  c.input( g.text );
  std::vector<unsigned> order;
  auto L = make<S>( c, g, order );
  auto expected = referenceCliques( g );
  bool koch = c.boolean();
  auto got = koch ? aleph::topology::maximalCliquesKoch( L ) : aleph::topology::maximalCliquesBronKerbosch( L );
  if( g.names.empty() )
  {
    // the empty set is the only clique of an empty graph
    for( auto&& q : got )
      c.check( q.empty(), "clique in empty graph" );
    return;
  }
  std::multiset< std::set<unsigned> > all;
  for( auto&& q : got )
    all.insert( std::set<unsigned>( q.begin(), q.end() ) );
  c.equal( all, std::multiset< std::set<unsigned> >( expected.begin(), expected.end() ), koch ? "Koch" : "Bron-Kerbosch" );
  std::size_t biggest = 0;
  for( auto&& q : expected )
    biggest = std::max( biggest, q.size() );
  c.label( koch ? "koch" : "bron-kerbosch" );
  c.nontrivial( expected.size() >= 3 && biggest >= 3 );
}

// Vertices one after another, either part of the clique or not
static void extend( const Graph& g, std::vector<std::size_t>& chosen, std::vector<std::size_t> candidates, std::set< std::set<unsigned> >& r )
{
  if( candidates.empty() )
  {
    for( std::size_t i = 0; i < g.names.size(); i++ )
      if( std::all_of( chosen.begin(), chosen.end(), [&] ( std::size_t j ) { return g.adjacent[i][j]; } ) )
        return;
    std::set<unsigned> s;
    for( auto i : chosen )
      s.insert( g.names[i] );
    r.insert( s );
    return;
  }
  for( std::size_t k = 0; k < candidates.size(); k++ )
  {
    std::vector<std::size_t> rest;
    for( std::size_t l = k + 1; l < candidates.size(); l++ )
      if( g.adjacent[ candidates[k] ][ candidates[l] ] )
        rest.push_back( candidates[l] );
    chosen.push_back( candidates[k] );
    extend( g, chosen, rest, r );
    chosen.pop_back();
  }
}

LAW( large_cliques, 1800, 18000, "sparse graphs with <=60 vertices and arbitrary ids, some vertices of high degree: both enumerations against simple backtracking; non-trivial: >=20 maximal cliques, one of them of >=4 vertices" )
{
  auto n = c.size( 12, 60 );
  large::Source s( c );
  Graph g;
  g.names = large::ids( s, n, c.boolean() );
  g.adjacent.assign( n, std::vector<bool>( n ) );
  g.weight.assign( n, std::vector<double>( n, 0.0 ) );
  auto density = s.uniform( 0.05, 0.3 );
  for( std::size_t i = 0; i < n; i++ )
    for( std::size_t j = 0; j < i; j++ )
      if( s.unit() < ( j < 2 ? 0.7 : density ) )
        g.adjacent[i][j] = g.adjacent[j][i] = true;
  s.shuffle( g.names );
  for( std::size_t i = 0; i < n; i++ )
  {
    g.text += pbt::str( g.names[i] ) + ":";
    for( std::size_t j = 0; j < i; j++ )
      if( g.adjacent[i][j] )
        g.text += " " + pbt::str( g.names[j] );
    g.text += "; ";
  }
  c.input( g.text );
  std::vector<unsigned> order;
  auto L = make<S>( c, g, order );
  std::set< std::set<unsigned> > expected;
  std::vector<std::size_t> chosen, all;
  for( std::size_t i = 0; i < n; i++ )
    all.push_back( i );
  extend( g, chosen, all, expected );
  std::size_t biggest = 0;
  for( auto&& q : expected )
    biggest = std::max( biggest, q.size() );
  for( int koch = 0; koch < 2; koch++ )
  {
    std::multiset< std::set<unsigned> > found;
    for( auto&& q : koch ? aleph::topology::maximalCliquesKoch( L ) : aleph::topology::maximalCliquesBronKerbosch( L ) )
      found.insert( std::set<unsigned>( q.begin(), q.end() ) );
    c.check( found == std::multiset< std::set<unsigned> >( expected.begin(), expected.end() ), koch ? "Koch" : "Bron-Kerbosch" );
  }
  c.nontrivial( expected.size() >= 20 && biggest >= 4 );
}

LAW( cliques_of_complexes, 36000, 360000, "complexes of higher dimension: cliques depend on the 1-skeleton only; non-trivial: dimension >=2" )
{
  model::Options o;
  o.maxVertices = 9;
  auto m = model::genFiltered( c, o, false );
  c.input( model::show( m ) );
  auto L = bridge::complex<S>( m );
  Graph g;
  std::map<unsigned, std::size_t> index;
  for( auto&& s : m )
    if( s.v.size() == 1 )
    {
      index[ s.v[0] ] = 0;
    }
  for( auto&& x : index )
  {
    x.second = g.names.size();
    g.names.push_back( x.first );
  }
  c.assume( !g.names.empty() && g.names.size() <= 14 );
  g.adjacent.assign( g.names.size(), std::vector<bool>( g.names.size() ) );
  for( auto&& s : m )
    if( s.v.size() == 2 )
      g.adjacent[ index[ s.v[0] ] ][ index[ s.v[1] ] ] = g.adjacent[ index[ s.v[1] ] ][ index[ s.v[0] ] ] = true;
  auto expected = referenceCliques( g );
  for( bool koch : { false, true } )
  {
    auto got = koch ? aleph::topology::maximalCliquesKoch( L ) : aleph::topology::maximalCliquesBronKerbosch( L );
    std::multiset< std::set<unsigned> > all;
    for( auto&& q : got )
      all.insert( std::set<unsigned>( q.begin(), q.end() ) );
    c.equal( all, std::multiset< std::set<unsigned> >( expected.begin(), expected.end() ), koch ? "Koch" : "Bron-Kerbosch" );
  }
  c.nontrivial( model::dimension( m ) >= 2 );
}

LAW( clique_graph, 120000, 1200000, "filtered complexes and every clique degree k>=1, with the default and user-defined weights: vertices, edges and weights of the clique graph; non-trivial: >=2 edges" )
{
  model::Options o;
  o.bulk( 60, 500 );
  o.maxVertices = 8;
  auto m = model::genFiltered( c, o, c.boolean() );
  c.assume( !m.empty() );
  auto k = static_cast<unsigned>( c.size( 1, static_cast<std::size_t>( std::max( 1, int( model::dimension( m ) ) ) ) + ( c.chance( 1, 8 ) ? 1 : 0 ) ) );
  auto f = c.size( 0, 3 );
  c.input( model::show( m ) + " k=" + pbt::str( k ) + " weights " + pbt::str( f ) );
  auto L = bridge::complex<S>( m );
  std::function<double( double, double )> functor = [] ( double a, double b ) { return std::max( a, b ); };
  if( f == 1 )
    functor = [] ( double a, double b ) { return std::min( a, b ); };
  else if( f == 2 )
    functor = [] ( double a, double b ) { return a + b; };
  auto G = f == 0 || f == 3 ? aleph::topology::getCliqueGraph( L, k ) : aleph::topology::getCliqueGraph( L, k, functor );
  std::vector<std::size_t> cells;
  for( std::size_t i = 0; i < m.size(); i++ )
    if( m[i].v.size() == k + 1 )
      cells.push_back( i );
  std::map<model::V, double> expected;
  using N = model::V::value_type;
  std::size_t edges = 0;
  for( auto i : cells )
  {
    expected[ { static_cast<N>( i ) } ] = m[i].w;
    for( auto j : cells )
      if( j < i )
      {
        std::vector<N> shared;
        auto a = m[i].v, b = m[j].v;
        std::sort( a.begin(), a.end() );
        std::sort( b.begin(), b.end() );
        std::set_intersection( a.begin(), a.end(), b.begin(), b.end(), std::back_inserter( shared ) );
        if( shared.size() == k )
        {
          expected[ { static_cast<N>( j ), static_cast<N>( i ) } ] = functor( m[i].w, m[j].w );
          ++edges;
        }
      }
  }
  c.equal( bridge::asMap( G ), expected, "clique graph" );
  c.nontrivial( edges >= 2 );
}

template <class T> static void paths( pbt::Ctx& c, const Graph& g, double w )
{
  using D = typename T::DataType;
  std::vector<unsigned> order;
  auto L = make<T>( c, g, order );
  auto n = g.names.size();
  auto M = aleph::topology::floydWarshall( L, D( w ) );
  std::map<unsigned, std::size_t> position;
  for( std::size_t i = 0; i < n; i++ )
    position[ g.names[i] ] = i;
  double infinity = std::numeric_limits<double>::infinity();
  // Bellman--Ford from every vertex
  bool disconnected = false, indirect = false;
  for( std::size_t a = 0; a < n; a++ )
  {
    std::vector<double> dist( n, infinity );
    auto source = position[ order[a] ];
    dist[ source ] = 0.0;
    for( std::size_t round = 0; round < n; round++ )
      for( std::size_t i = 0; i < n; i++ )
        for( std::size_t j = 0; j < n; j++ )
          if( g.adjacent[i][j] )
            dist[j] = std::min( dist[j], dist[i] + ( g.weight[i][j] != 0.0 ? g.weight[i][j] : w ) );
    for( std::size_t b = 0; b < n; b++ )
    {
      auto expected = dist[ position[ order[b] ] ];
      auto got = M( static_cast<typename T::VertexType>( a ), static_cast<typename T::VertexType>( b ) );
      auto what = "distance of " + pbt::str( order[a] ) + " and " + pbt::str( order[b] );
      if( std::isinf( expected ) )
      {
        disconnected = true;
        c.equal( got, std::numeric_limits<D>::has_infinity ? std::numeric_limits<D>::infinity() : std::numeric_limits<D>::max(), what );
      }
      else
      {
        c.close( double( got ), expected, std::numeric_limits<D>::is_integer ? 0.0 : sizeof( D ) == 4 ? 1e-4 : 1e-9, what );
        auto i = source, j = position[ order[b] ];
        indirect = indirect || ( g.adjacent[i][j] && expected < g.weight[i][j] );
      }
    }
  }
  if( disconnected )
    c.label( "disconnected" );
  c.nontrivial( indirect );
}

LAW( shortest_paths, 120000, 1200000, "weighted graphs with <=10 vertices, arbitrary ids and insertion order, zero weights and default weights, floating point and integral data: all-pairs distances against Bellman-Ford; non-trivial: some edge is longer than a detour" )
{
  auto type = c.size( 0, 3 );
  auto g = genGraph( c, c.chance( 1, 100 ) ? 40 : 10, type == 2 );
  auto w = c.boolean() ? 0.0 : double( c.size( 1, 3 ) );
  c.input( g.text + " default weight " + pbt::str( w ) + " type " + pbt::str( type ) );
  if( type == 1 )
    paths< aleph::topology::Simplex<float, unsigned short> >( c, g, w );
  else if( type == 2 )
    paths< aleph::topology::Simplex<int, unsigned> >( c, g, w );
  else
    paths<S>( c, g, w );
}
