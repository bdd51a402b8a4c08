#include "pbt.hh"

#include <aleph/topology/Mesh.hh>
#include <aleph/topology/MorseSmaleComplex.hh>

#include <algorithm>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <vector>

namespace
{

using Index = std::size_t;
using Face  = std::vector<Index>;
using Faces = std::vector<Face>;

// Surfaces -------------------------------------------------------------

Faces grid( std::size_t m, std::size_t n, bool wrapM, bool wrapN, bool quads, pbt::Ctx& c )
{
  auto id = [&] ( std::size_t i, std::size_t j )
  {
    return ( wrapM ? i % m : i ) * ( wrapN ? n : n + 1 ) + ( wrapN ? j % n : j );
  };

  Faces f;
  for( std::size_t i = 0; i < m; i++ )
  {
    for( std::size_t j = 0; j < n; j++ )
    {
      Index a = id(i,j), b = id(i+1,j), d = id(i+1,j+1), e = id(i,j+1);
      if( quads && c.boolean() )
        f.push_back( {a,b,d,e} );
      else if( c.boolean() )
      {
        f.push_back( {a,b,d} );
        f.push_back( {a,d,e} );
      }
      else
      {
        f.push_back( {a,b,e} );
        f.push_back( {b,d,e} );
      }
    }
  }
  return f;
}

Faces closed( pbt::Ctx& c )
{
  switch( c.draw( 4 ) )
  {
  case 0: // Tetrahedron
    return { {0,1,2}, {0,3,1}, {1,3,2}, {0,2,3} };
  case 1: // Octahedron
    return { {0,2,4}, {2,1,4}, {1,3,4}, {3,0,4}, {2,0,5}, {1,2,5}, {3,1,5}, {0,3,5} };
  case 2: // Prism
  {
    auto n = static_cast<std::size_t>( static_cast<int>( c.extent( 3, 6, 14 ) ) );
    Faces f;
    Face bottom, top;
    for( std::size_t i = 0; i < n; i++ )
    {
      f.push_back( { i, (i+1)%n, n + (i+1)%n, n + i } );
      top.push_back( n + i );
      bottom.push_back( n - 1 - i );
    }
    f.push_back( top );
    f.push_back( bottom );
    return f;
  }
  default:
    return grid( c.extent( 3, 5, 9 ), c.extent( 3, 5, 9 ), true, true, c.boolean(), c );
  }
}

Faces bounded( pbt::Ctx& c )
{
  switch( c.draw( 4 ) )
  {
  case 0: // Single polygon
  {
    Face f;
    auto n = static_cast<std::size_t>( static_cast<int>( c.extent( 3, 6, 14 ) ) );
    for( std::size_t i = 0; i < n; i++ )
      f.push_back( i );
    return { f };
  }
  case 1: // Open or closed fan
  {
    auto n = static_cast<std::size_t>( static_cast<int>( c.extent( 3, 7, 30 ) ) );
    Faces f;
    for( std::size_t i = 1; i < n; i++ )
      f.push_back( {0, i, i+1} );
    if( c.boolean() )
      f.push_back( {0, n, 1} );
    return f;
  }
  case 2: // Disc
    return grid( c.extent( 1, 4, 10 ), c.extent( 1, 4, 10 ), false, false, c.boolean(), c );
  default: // Annulus
    return grid( c.extent( 3, 5, 10 ), c.extent( 1, 3, 8 ), true, false, c.boolean(), c );
  }
}

// Oracle ---------------------------------------------------------------

std::set<Index> vertexSet( const Faces& faces )
{
  std::set<Index> v;
  for( auto&& f : faces )
    v.insert( f.begin(), f.end() );
  return v;
}

std::set< std::pair<Index, Index> > edgeSet( const Faces& faces )
{
  std::set< std::pair<Index, Index> > e;
  for( auto&& f : faces )
    for( std::size_t i = 0; i < f.size(); i++ )
    {
      auto u = f[i], v = f[ (i+1) % f.size() ];
      e.insert( {u,v} );
      e.insert( {v,u} );
    }
  return e;
}

// For every corner (u,v,w) of a face, v is the vertex; the face connects
// the edge from v to w with the edge from v to u, in this order.
std::map<Index, std::map<Index, Index> > corners( const Faces& faces )
{
  std::map<Index, std::map<Index, Index> > r;
  for( auto&& f : faces )
    for( std::size_t i = 0; i < f.size(); i++ )
    {
      auto u = f[ (i + f.size() - 1) % f.size() ], v = f[i], w = f[ (i+1) % f.size() ];
      r[v][w] = u;
    }
  return r;
}

// Order of the neighbours around a vertex; empty if the vertex has more
// than one fan of faces.
std::vector<Index> around( const std::map<Index, Index>& next )
{
  std::set<Index> targets;
  for( auto&& p : next )
    targets.insert( p.second );

  Index start = next.begin()->first;
  for( auto&& p : next )
    if( !targets.count( p.first ) )
      start = p.first;

  std::vector<Index> r = { start };
  while( true )
  {
    auto it = next.find( r.back() );
    if( it == next.end() || it->second == start )
      break;
    r.push_back( it->second );
  }

  std::set<Index> all = targets;
  for( auto&& p : next )
    all.insert( p.first );

  if( r.size() != all.size() )
    return {};
  return r;
}

bool manifold( const Faces& faces )
{
  std::set< std::pair<Index, Index> > directed;
  for( auto&& f : faces )
    for( std::size_t i = 0; i < f.size(); i++ )
      if( !directed.insert( { f[i], f[ (i+1) % f.size() ] } ).second )
        return false;

  for( auto&& p : corners( faces ) )
    if( around( p.second ).empty() )
      return false;
  return true;
}

std::size_t components( const std::set<Index>& vertices, const Faces& faces )
{
  std::map<Index, Index> parent;
  for( auto&& v : vertices )
    parent[v] = v;
  auto find = [&] ( Index v )
  {
    while( parent[v] != v )
      v = parent[v];
    return v;
  };
  for( auto&& e : edgeSet( faces ) )
    parent[ find( e.first ) ] = find( e.second );
  std::size_t n = 0;
  for( auto&& p : parent )
    n += p.first == p.second;
  return n;
}

Face rotated( Face f )
{
  std::rotate( f.begin(), std::min_element( f.begin(), f.end() ), f.end() );
  return f;
}

std::multiset<Face> normalized( const Faces& faces )
{
  std::multiset<Face> r;
  for( auto&& f : faces )
    r.insert( rotated( f ) );
  return r;
}

std::set<Index> asSet( const std::vector<Index>& v )
{
  return std::set<Index>( v.begin(), v.end() );
}

// Generator ------------------------------------------------------------

struct Surface
{
  std::vector<Index> vertices;       // order in which vertices are added
  std::map<Index, double> data;
  Faces faces;                       // order in which faces are added
  bool automatic = false;            // are vertex IDs assigned automatically?
};

Surface generate( pbt::Ctx& c )
{
  Faces all;
  Index offset = 0;

  auto parts = 1 + ( c.chance(1,3) ? c.draw(3) : 0 );
  for( std::size_t part = 0; part < parts; part++ )
  {
    auto f = c.boolean() ? bounded( c ) : closed( c );

    // Subdivide triangles
    if( c.chance(1,3) )
    {
      auto fresh = *vertexSet( f ).rbegin() + 1;
      auto n     = c.size(0,3);
      for( std::size_t k = 0; k < n; k++ )
      {
        auto i = c.draw( f.size() );
        auto t = f[i];
        f.erase( f.begin() + static_cast<std::ptrdiff_t>( i ) );
        for( std::size_t j = 0; j < t.size(); j++ )
          f.push_back( { t[j], t[ (j+1) % t.size() ], fresh } );
        ++fresh;
      }
    }

    // Orientation of the whole component
    if( c.boolean() )
      for( auto&& t : f )
        std::reverse( t.begin(), t.end() );

    auto last = *vertexSet( f ).rbegin();
    for( auto&& t : f )
    {
      for( auto&& v : t )
        v += offset;
      all.push_back( t );
    }
    offset += last + 1;
  }

  // Holes, as long as the surface remains a manifold
  auto vertices = vertexSet( all );
  auto holes    = c.chance(1,2) ? c.size( 0, all.size() / 2 ) : 0;
  for( std::size_t k = 0; k < holes && all.size() > 1; k++ )
  {
    auto i = static_cast<std::ptrdiff_t>( c.draw( all.size() ) );
    auto f = all[ static_cast<std::size_t>( i ) ];
    all.erase( all.begin() + i );
    if( !manifold( all ) )
      all.insert( all.begin() + i, f );
  }

  // Vertices that are not part of any face may be kept
  if( c.boolean() )
    vertices = vertexSet( all );

  Surface s;
  s.automatic = c.boolean();
  std::vector<Index> order( vertices.begin(), vertices.end() );
  c.shuffle( order );

  std::map<Index, Index> name;
  Index next = 0;
  for( auto&& v : order )
  {
    if( s.automatic )
      name[v] = next++;
    else
    {
      name[v] = next;
      next   += c.chance(1,4) ? 1 + c.draw(5) : 1;
    }
  }
  if( !s.automatic )
  {
    // IDs in arbitrary order
    c.shuffle( order );
  }

  for( auto&& v : order )
  {
    s.vertices.push_back( name[v] );
    s.data[ name[v] ] = static_cast<double>( c.integer( -4, 4 ) );
  }

  for( auto&& f : all )
  {
    for( auto&& v : f )
      v = name[v];
    std::rotate( f.begin(), f.begin() + static_cast<std::ptrdiff_t>( c.draw( f.size() ) ), f.end() );
    s.faces.push_back( f );
  }
  c.shuffle( s.faces );
  return s;
}

using Mesh = aleph::topology::Mesh<double, double>;

void addVertices( Mesh& M, const Surface& s )
{
  for( auto&& v : s.vertices )
  {
    auto d = s.data.at( v );
    if( s.automatic )
      M.addVertex( 0.25 * d, 1.0, 2.0, d );
    else
      M.addVertex( 0.25 * d, 1.0, 2.0, d, v );
  }
}

std::string show( const Surface& s )
{
  std::ostringstream o;
  o << ( s.automatic ? "automatic ids" : "given ids" ) << "; vertices " << pbt::str( s.vertices ) << "; faces";
  for( auto&& f : s.faces )
    o << " " << pbt::str( f );
  o << "; data";
  for( auto&& v : s.vertices )
    o << " " << v << ":" << s.data.at( v );
  return o.str();
}

void compare( pbt::Ctx& c, const Mesh& M, const std::set<Index>& vertices, const Faces& faces, const std::string& what )
{
  c.equal( M.numVertices(), vertices.size(), what + "number of vertices" );
  c.equal( asSet( M.vertices() ), vertices, what + "vertices" );
  c.equal( M.vertices().size(), vertices.size(), what + "number of reported vertices" );
  c.equal( M.numFaces(), faces.size(), what + "number of faces" );
  c.equal( normalized( M.faces() ), normalized( faces ), what + "faces" );

  auto edges = edgeSet( faces );
  for( auto&& u : vertices )
    for( auto&& v : vertices )
      c.check( M.hasEdge( u, v ) == ( edges.count( {u,v} ) > 0 ), what + "edge " + pbt::str( u ) + "-" + pbt::str( v ) + " reported as " + pbt::str( M.hasEdge( u, v ) ) );

  c.equal( M.numConnectedComponents(), components( vertices, faces ), what + "number of connected components" );
}

LAW( surfaces, 6000, 60000, "surface with at least four faces, among them a vertex all of whose faces surround it or a boundary vertex with at least two faces" )
{
  auto s = generate( c );
  c.input( show( s ) );

  Mesh M;
  addVertices( M, s );
  for( auto&& f : s.faces )
    M.addFace( f.begin(), f.end() );

  std::set<Index> vertices( s.vertices.begin(), s.vertices.end() );
  compare( c, M, vertices, s.faces, "" );

  // The faces are reported such that they start with the vertex they
  // were specified with.
  {
    auto f = M.faces();
    c.equal( std::multiset<Face>( f.begin(), f.end() ), std::multiset<Face>( s.faces.begin(), s.faces.end() ), "faces, starting from their first vertex" );
  }

  auto corner   = corners( s.faces );
  bool interior = false, boundary = false;

  for( auto&& v : vertices )
  {
    auto where = "vertex " + pbt::str( v ) + ": ";
    c.equal( M.data( v ), s.data.at( v ), where + "data" );

    if( !corner.count( v ) )
    {
      c.check( M.link( v ).empty(), where + "isolated vertex has neighbours" );
      c.check( M.getLowerNeighbours( v ).empty() && M.getHigherNeighbours( v ).empty(), where + "isolated vertex has neighbours" );
      c.label( "isolated vertex" );
      continue;
    }

    auto expected = around( corner.at( v ) );
    bool isClosed = corner.at( v ).size() == expected.size();

    interior = interior || isClosed;
    boundary = boundary || ( !isClosed && expected.size() > 2 );

    // Link, in the order that is induced by the orientation
    auto link = M.link( v );
    c.equal( asSet( link ), asSet( expected ), where + "link" );
    c.equal( link.size(), expected.size(), where + "size of link" );
    std::rotate( link.begin(), std::find( link.begin(), link.end(), expected.front() ), link.end() );
    c.equal( link, expected, where + "link, in the order of the orientation" );

    // Lower and higher neighbours
    std::multiset<Index> lower, higher;
    for( auto&& w : expected )
    {
      if( s.data.at( w ) < s.data.at( v ) )
        lower.insert( w );
      if( s.data.at( w ) > s.data.at( v ) )
        higher.insert( w );
    }
    auto l = M.getLowerNeighbours( v );
    auto h = M.getHigherNeighbours( v );
    c.equal( std::multiset<Index>( l.begin(), l.end() ), lower, where + "lower neighbours" );
    c.equal( std::multiset<Index>( h.begin(), h.end() ), higher, where + "higher neighbours" );

    // Star
    Faces incident;
    for( auto&& f : s.faces )
      if( std::find( f.begin(), f.end(), v ) != f.end() )
        incident.push_back( f );

    auto star = M.star( v );
    compare( c, star, vertexSet( incident ), incident, where + "star: " );
    for( auto&& w : vertexSet( incident ) )
      c.equal( star.data( w ), s.data.at( w ), where + "star: data of " + pbt::str( w ) );
  }

  c.label( interior ? ( boundary ? "interior and boundary" : "closed" ) : "boundary only" );
  c.nontrivial( s.faces.size() >= 4 && ( interior || boundary ) );

  // The critical points may be analysed for every mesh without isolated
  // vertices.
  if( corner.size() == vertices.size() )
  {
    std::ostringstream sink;
    auto old = std::cerr.rdbuf( sink.rdbuf() );
    std::string message;
    try
    {
      aleph::topology::MorseSmaleComplex<Mesh> msc;
      msc( M );
    }
    catch( std::exception& e )
    {
      message = e.what();
    }
    std::cerr.rdbuf( old );
    c.check( message.empty(), "analysis of critical points failed: " + message );
  }
}

// Every prefix of the list of faces is a mesh in its own right, even if
// its vertices have several fans.
LAW( histories, 4000, 40000, "surface with at least three faces, some prefix of which has a vertex with several fans" )
{
  auto s = generate( c );
  c.input( show( s ) );

  Mesh M;
  addVertices( M, s );
  std::set<Index> vertices( s.vertices.begin(), s.vertices.end() );

  bool fans = false;
  Faces faces;
  for( auto&& f : s.faces )
  {
    M.addFace( f.begin(), f.end() );
    faces.push_back( f );
    compare( c, M, vertices, faces, "after " + pbt::str( faces.size() ) + " faces: " );

    auto edges = edgeSet( faces );
    for( auto&& v : f )
    {
      std::multiset<Index> expected;
      for( auto&& w : vertices )
        if( edges.count( {v,w} ) )
          expected.insert( w );
      auto link = M.link( v );
      c.equal( std::multiset<Index>( link.begin(), link.end() ), expected, "after " + pbt::str( faces.size() ) + " faces: neighbours of " + pbt::str( v ) );
    }
    fans = fans || !manifold( faces );
  }

  c.label( fans ? "several fans" : "always one fan" );
  c.nontrivial( s.faces.size() >= 3 && fans );
}

// IDs are unique: specified IDs are used, unspecified ones are assigned
// such that no vertex is lost.
LAW( identifiers, 3000, 30000, "at least one specified and one assigned identifier" )
{
  Mesh M;
  std::map<Index, double> expected;
  std::set<Index> given;
  bool anyGiven = false, anyAssigned = false;

  auto n = c.extent( 1, 10, 80 );
  std::ostringstream o;
  for( std::size_t i = 0; i < n; i++ )
  {
    auto d = static_cast<double>( i ) + 0.5;
    if( c.boolean() )
    {
      o << " auto";
      M.addVertex( 0.0, 0.0, 0.0, d );
      anyAssigned = true;

      std::set<Index> fresh;
      for( auto&& v : M.vertices() )
        if( !expected.count( v ) )
          fresh.insert( v );
      c.equal( fresh.size(), std::size_t( 1 ), "number of new identifiers" );
      expected[ *fresh.begin() ] = d;
    }
    else
    {
      auto id = static_cast<Index>( c.draw( 12 ) );
      o << " " << id;
      bool thrown = false;
      try
      {
        M.addVertex( 0.0, 0.0, 0.0, d, id );
      }
      catch( std::runtime_error& )
      {
        thrown = true;
      }
      c.equal( thrown, expected.count( id ) > 0, "rejected identifier " + pbt::str( id ) );
      if( !thrown )
        expected[id] = d;
      else
        c.label( "rejected" );
      anyGiven = true;
    }
  }
  c.input( "identifiers" + o.str() );
  c.equal( M.numVertices(), expected.size(), "number of vertices" );
  for( auto&& p : expected )
    c.equal( M.data( p.first ), p.second, "data of " + pbt::str( p.first ) );
  c.nontrivial( anyGiven && anyAssigned );
}

}
