#ifndef VERIF_BOTTLENECK_HH
#define VERIF_BOTTLENECK_HH

#include "diagrams.hh"

#include <boost/graph/adjacency_list.hpp>
#include <boost/graph/max_cardinality_matching.hpp>

// The bottleneck distance as computed by the library at the time of
// writing: most of the zero-cost edges between projections and all but the
// first projection of the second diagram are missing from its graph. Used
// solely to identify the known finding. Returns false if the library's
// search has no result.
namespace defect
{
using namespace dgm;

struct Edge { std::size_t s, t; double w; bool operator<( const Edge& o ) const { return w < o.w; } };
using Graph = boost::adjacency_list<boost::vecS, boost::vecS, boost::undirectedS>;

inline bool search( const Points& a, const Points& b, double& value, bool reversed )
{
  std::size_t n = a.size(), m = b.size(), N = n + m;
  std::vector<Edge> edges;
  for( std::size_t i = n; i < N; i++ )
    for( std::size_t j = N + i; j < 2 * N; j++ )
      edges.push_back( { i, j, 0.0 } );
  for( std::size_t i = 0; i < n; i++ )
    for( std::size_t j = 0; j < m; j++ )
      edges.push_back( { i, N + j, linf( a[i], b[j] ) } );
  for( std::size_t i = 0; i < n; i++ )
    edges.push_back( { i, N + m + i, toDiagonal( a[i], linf ) } );
  for( std::size_t j = 0; j < m; j++ )
    edges.push_back( { n, N, toDiagonal( b[j], linf ) } );
  if( reversed )
    std::reverse( edges.begin(), edges.end() );
  std::sort( edges.begin(), edges.end() );
  if( edges.size() < 2 )
    return false;

  Graph G( 2 * N );
  std::vector< boost::graph_traits<Graph>::vertex_descriptor > mates( 2 * N );
  std::size_t last = 0;
  boost::add_edge( edges[0].s, edges[0].t, G );
  auto check = [&] ( std::size_t it )
  {
    if( it > last )
      do { ++last; boost::add_edge( edges[last].s, edges[last].t, G ); } while( last != it );
    else
      do { boost::remove_edge( edges[last].s, edges[last].t, G ); --last; } while( last != it );
    boost::edmonds_maximum_cardinality_matching( G, &mates[0] );
    return boost::matching_size( G, &mates[0] ) == N;
  };
  // binary search for the first position that permits a perfect matching
  std::size_t first = 0, len = edges.size();
  while( len > 0 )
  {
    std::size_t half = len / 2, mid = first + half;
    if( check( mid ) )
      len = half;
    else
    {
      first = mid + 1;
      len   = len - half - 1;
    }
  }
  if( first >= edges.size() )
    return false;
  value = edges[first].w;
  return true;
}

// The search is sensitive to the order of edges of equal weight (removing an
// edge also removes its duplicates); such inputs are left out.
inline bool bottleneck( const Points& a, const Points& b, double& value )
{
  double other = 0;
  return search( a, b, value, false ) && search( a, b, other, true ) && value == other;
}
}

#endif
