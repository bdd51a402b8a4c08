// Diagrams, point clouds and graphs survive writing and reading back.
#include "bridge.hh"
#include "values.hh"

#include <aleph/containers/PointCloud.hh>
#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>
#include <aleph/persistenceDiagrams/io/JSON.hh>

#include <rapidjson/document.h>
#include <aleph/persistenceDiagrams/io/Raw.hh>
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>
#include <aleph/topology/io/GML.hh>
#include <aleph/topology/io/LinesAndPoints.hh>

#include <fstream>
#include <iomanip>
#include <iterator>
#include <map>
#include <set>
#include <sstream>

using values::agree;

static std::string slurp( const std::string& file )
{
  std::ifstream in( file );
  return std::string( std::istreambuf_iterator<char>( in ), std::istreambuf_iterator<char>() );
}

template <class T> static aleph::PersistenceDiagram<T> genDiagram( pbt::Ctx& c, std::string& in )
{
  aleph::PersistenceDiagram<T> D;
  auto mode = static_cast<int>( c.size( 0, 3 ) );
  auto n = c.extent( 0, 8, 300 );
  D.setDimension( c.size( 0, 4 ) );
  in += " dimension " + pbt::str( D.dimension() ) + ":";
  for( std::size_t i = 0; i < n; i++ )
  {
    auto x = static_cast<T>( values::gen( c, mode ) );
    auto k = c.size( 0, 9 );
    auto y = static_cast<T>( values::gen( c, mode ) );
    if( k <= 1 )
      D.add( x );
    else if( k == 2 )
      D.add( -std::numeric_limits<T>::infinity(), y );
    else if( k == 3 )
      D.add( x, x );
    else
      D.add( x, y );
    auto p = *( D.end() - 1 );
    in += " (" + pbt::str( p.x() ) + "," + pbt::str( p.y() ) + ")";
  }
  return D;
}

template <class D> static void compare( pbt::Ctx& c, const D& got, const D& expected, int digits )
{
  c.equal( got.size(), expected.size(), "number of points" );
  c.equal( got.betti(), expected.betti(), "number of unpaired points" );
  auto it = expected.begin();
  for( auto&& p : got )
  {
    c.check( agree( p.x(), it->x(), digits ) && agree( p.y(), it->y(), digits ), "read (" + pbt::str( p.x() ) + "," + pbt::str( p.y() ) + ") instead of (" + pbt::str( it->x() ) + "," + pbt::str( it->y() ) + ")" );
    ++it;
  }
}

template <class T> static void json( pbt::Ctx& c )
{
  auto n = c.extent( 0, 3, 12 );
  int digits = c.boolean() ? 6 : std::numeric_limits<T>::max_digits10;
  std::vector< aleph::PersistenceDiagram<T> > Ds;
  std::string in = "precision " + pbt::str( digits );
  for( std::size_t i = 0; i < n; i++ )
    Ds.push_back( genDiagram<T>( c, in ) );
  bool viaFile = digits == 6 && c.boolean();
  c.input( in );
  std::ostringstream o;
  o << std::setprecision( digits );
  o << "{\n\"diagrams\": [\n";
  std::vector< std::map<std::string, std::string> > additional( n );
  for( std::size_t i = 0; i < n; i++ )
  {
    if( i > 0 )
      o << ",\n";
    std::string name = c.boolean() ? "name " + pbt::str( i ) : "";
    std::map<std::string, std::string> kvs;
    if( c.boolean() )
      kvs["key"] = "value";
    if( viaFile )
    {
      auto file = c.scratch() + "/part.json";
      aleph::io::writeJSON( file, Ds[i], name );
      o << slurp( file );
      if( !name.empty() )
        additional[i]["name"] = name;
    }
    else if( c.boolean() )
    {
      aleph::io::writeJSON( o, Ds[i], name, kvs );
      additional[i] = kvs;
      if( !name.empty() )
        additional[i]["name"] = name;
    }
    else
      aleph::io::writeJSON( o, Ds[i] );
  }
  o << "]\n}\n";
  {
    rapidjson::Document document;
    document.Parse( o.str().c_str() );
    c.check( !document.HasParseError(), "output is not valid" );
    for( std::size_t i = 0; i < n; i++ )
    {
      auto&& d = document["diagrams"][ static_cast<rapidjson::SizeType>( i ) ];
      for( auto&& key : { "name", "key" } )
      {
        c.equal( d.HasMember( key ), additional[i].count( key ) == 1, std::string( "presence of " ) + key );
        if( d.HasMember( key ) )
          c.equal( std::string( d[key].GetString() ), additional[i][key], key );
      }
    }
  }
  std::vector< aleph::PersistenceDiagram<T> > got;
  if( c.boolean() )
  {
    std::istringstream is( o.str() );
    got = aleph::io::readJSON<T>( is );
  }
  else
  {
    auto file = c.scratch() + "/diagrams.json";
    std::ofstream( file ) << o.str();
    got = aleph::io::readJSON<T>( file );
  }
  c.equal( got.size(), n, "number of diagrams" );
  std::size_t points = 0, infinite = 0;
  for( std::size_t i = 0; i < n; i++ )
  {
    c.equal( got[i].dimension(), Ds[i].dimension(), "dimension" );
    compare( c, got[i], Ds[i], digits );
    if( digits != 6 )
      c.check( got[i] == Ds[i], "diagram differs" );
    points += Ds[i].size();
    infinite += Ds[i].betti();
  }
  c.nontrivial( n >= 2 && points >= 3 && infinite >= 1 );
}

LAW( diagrams_json, 10200, 102000, "sequences of <=3 diagrams with values of any sign and magnitude, infinite values, empty diagrams, names and additional data, two precisions, streams and files; non-trivial: >=2 diagrams, >=3 points, one unpaired" )
{
  if( c.boolean() )
    json<double>( c );
  else
    json<float>( c );
}

template <class T> static void raw( pbt::Ctx& c )
{
  std::string in;
  auto D = genDiagram<T>( c, in );
  int digits = c.boolean() ? 6 : std::numeric_limits<T>::max_digits10;
  bool decorate = c.boolean();
  std::ostringstream o;
  o << std::setprecision( digits );
  auto noise = [&] ()
  {
    while( decorate && c.chance( 1, 4 ) )
      o << ( c.boolean() ? "# 1 2\n" : "\n" );
  };
  if( !decorate )
    o << D;
  else
  {
    noise();
    for( auto&& p : D )
    {
      if( c.chance( 1, 6 ) )
        o << "  ";
      o << p.x() << ( c.boolean() ? "\t" : c.boolean() ? " " : "   " ) << p.y() << ( c.chance( 1, 6 ) ? " \n" : "\n" );
      noise();
    }
  }
  c.input( in + "\n" + o.str() );
  auto text = o.str();
  if( !text.empty() && c.chance( 1, 4 ) )
    text.pop_back(); // no final line break
  auto file = c.scratch() + "/diagram.txt";
  std::ofstream( file ) << text;
  auto got = aleph::io::load<T>( file );
  compare( c, got, D, digits );
  c.nontrivial( D.size() >= 3 && D.betti() >= 1 );
}

LAW( diagrams_raw, 10200, 102000, "diagrams written as text, also with comments, blank lines, tabs and spaces, without final line break; non-trivial: >=3 points, one unpaired" )
{
  if( c.boolean() )
    raw<double>( c );
  else
    raw<float>( c );
}

template <class T> static void cloud( pbt::Ctx& c )
{
  auto n = c.extent( 0, 7, 200 ), d = c.extent( 1, 5, 40 );
  auto mode = static_cast<int>( c.size( 0, 3 ) );
  aleph::containers::PointCloud<T> P( n, d );
  std::string in = pbt::str( n ) + "x" + pbt::str( d );
  for( std::size_t i = 0; i < n; i++ )
  {
    std::vector<T> row;
    for( std::size_t j = 0; j < d; j++ )
    {
      row.push_back( static_cast<T>( values::gen( c, mode ) ) );
      if( c.chance( 1, 60 ) )
        row.back() = ( c.boolean() ? 1 : -1 ) * std::numeric_limits<T>::infinity();
    }
    P.set( i, row.begin(), row.end() );
  }
  int digits = c.boolean() ? 6 : std::numeric_limits<T>::max_digits10;
  std::ostringstream o;
  o << std::setprecision( digits );
  bool decorate = c.boolean();
  if( !decorate )
    o << P;
  else
  {
    const char* separators[] = { " ", "\t", ",", ";", ":", ", ", "  ", " ; " };
    auto noise = [&] ()
    {
      while( c.chance( 1, 4 ) )
        switch( c.size( 0, 3 ) )
        {
        case 0: o << "\n"; break;
        case 1: o << "# 1 2 3\n"; break;
        case 2: o << " \t \n"; break;
        case 3: o << "  #comment\n"; break;
        }
    };
    std::string separator = separators[ c.size( 0, 7 ) ];
    noise();
    for( std::size_t i = 0; i < n; i++ )
    {
      if( c.chance( 1, 5 ) )
        separator = separators[ c.size( 0, 7 ) ];
      if( c.chance( 1, 6 ) )
        o << "  ";
      auto row = P[i];
      for( std::size_t j = 0; j < d; j++ )
        o << ( j ? separator : "" ) << values::text( c, row[j], digits );
      o << ( c.chance( 1, 6 ) ? "\t\n" : c.chance( 1, 6 ) ? "\r\n" : "\n" );
      noise();
    }
  }
  auto text = o.str();
  if( !text.empty() && c.chance( 1, 4 ) )
    text.pop_back();
  c.input( in + ":\n" + text );
  aleph::containers::PointCloud<T> Q;
  if( c.boolean() )
  {
    std::istringstream is( text );
    Q = aleph::containers::load<T>( is );
  }
  else
  {
    auto file = c.scratch() + "/cloud.txt";
    std::ofstream( file ) << text;
    Q = aleph::containers::load<T>( file );
  }
  c.equal( Q.size(), n, "number of points" );
  if( n > 0 )
    c.equal( Q.dimension(), d, "dimension" );
  else
    c.check( Q.empty(), "point cloud is not empty" );
  for( std::size_t i = 0; i < n; i++ )
    for( std::size_t j = 0; j < d; j++ )
      c.check( agree( Q[i][j], P[i][j], digits ), "read " + pbt::str( Q[i][j] ) + " instead of " + pbt::str( P[i][j] ) );
  if( n > 0 && digits != 6 )
    c.check( Q == P, "point cloud differs" );
  c.nontrivial( n >= 2 && d >= 2 );
}

LAW( point_clouds, 13600, 136000, "point clouds written as text and in every documented layout (separators, comments, blank lines, line ends, missing final line break), values of any sign and magnitude; non-trivial: >=2 points in >=2 dimensions" )
{
  if( c.boolean() )
    cloud<double>( c );
  else
    cloud<float>( c );
}

template <class T> static void gml( pbt::Ctx& c )
{
  using S = aleph::topology::Simplex<T, unsigned>;
  using K = aleph::topology::SimplicialComplex<S>;
  auto n = c.extent( 0, 7, 40 );
  auto first = static_cast<unsigned>( c.size( 0, 2 ) );
  bool labels = c.chance( 1, 3 );
  if( labels )
    first = 1;
  std::vector<unsigned> ids;
  unsigned next = first;
  for( std::size_t i = 0; i < n; i++ )
  {
    ids.push_back( next );
    next += labels ? 1 : 1 + static_cast<unsigned>( c.chance( 1, 4 ) ? c.size( 0, 20 ) : 0 );
  }
  c.shuffle( ids );
  auto mode = static_cast<int>( c.size( 0, 3 ) );
  std::vector<S> simplices;
  std::string in;
  for( auto id : ids )
  {
    simplices.push_back( S( id, static_cast<T>( values::gen( c, mode ) ) ) );
    in += " " + pbt::str( id ) + "(" + pbt::str( simplices.back().data() ) + ")";
  }
  std::size_t edges = 0;
  for( std::size_t i = 0; i < n; i++ )
    for( std::size_t j = 0; j < i; j++ )
      if( c.chance( 1, 2 ) )
      {
        simplices.push_back( S( { ids[i], ids[j] }, static_cast<T>( values::gen( c, mode ) ) ) );
        in += " " + pbt::str( ids[i] ) + "-" + pbt::str( ids[j] ) + "(" + pbt::str( simplices.back().data() ) + ")";
        ++edges;
      }
  // higher-dimensional simplices are not part of a graph
  std::size_t triangles = 0;
  if( n >= 3 && c.chance( 1, 4 ) )
  {
    simplices.push_back( S( { ids[0], ids[1], ids[2] }, T( 1 ) ) );
    ++triangles;
  }
  K L( simplices.begin(), simplices.end() );
  aleph::topology::io::GMLWriter writer;
  bool data = c.boolean();
  if( data )
    writer.writeSimplexDataForVertices();
  std::vector<std::string> names;
  if( labels )
  {
    for( std::size_t i = 0; i < n; i++ )
      names.push_back( "Label " + pbt::str( c.size( 0, 3 ) ) + "_" + pbt::str( i ) );
    writer.setNodeLabels( names.begin(), names.end() );
  }
  c.input( in );
  auto file = c.scratch() + "/graph.gml";
  if( c.boolean() )
    writer( file, L );
  else
  {
    std::ofstream out( file );
    writer( out, L );
  }
  c.input( in + "\n" + slurp( file ) );
  aleph::topology::io::GMLReader reader;
  K M;
  reader( file, M );
  c.equal( M.size(), L.size() - triangles, "number of simplices" );
  std::vector<S> expected;
  for( std::size_t d = 0; d <= 1; d++ )
    for( auto&& s : L )
      if( s.dimension() == d )
        expected.push_back( s );
  auto it = expected.begin();
  for( auto&& s : M )
  {
    c.equal( bridge::vertices( s ), bridge::vertices( *it ), "simplex" );
    if( s.dimension() == 1 )
      c.check( agree( s.data(), it->data(), 6 ), "read weight " + pbt::str( s.data() ) + " instead of " + pbt::str( it->data() ) );
    ++it;
  }
  auto label = reader.getNodeAttribute( "label" );
  auto value = reader.getNodeAttribute( "data" );
  for( auto&& s : expected )
    if( s.dimension() == 0 )
    {
      auto id = pbt::str( s[0] );
      c.check( label.count( id ) == 1, "no node " + id );
      c.equal( label[id], labels ? names[ s[0] - 1 ] : std::string(), "label of node " + id );
      if( data )
        c.check( agree( std::stod( value[id] ), s.data(), 6 ), "read value '" + value[id] + "' instead of " + pbt::str( s.data() ) );
    }
    else
      c.check( agree( std::stod( reader.getEdgeAttribute( pbt::str( *s.begin() ), pbt::str( *( s.begin() + 1 ) ), "weight" ) ), s.data(), 6 ), "edge attribute" );
  c.nontrivial( edges >= 3 );
}

LAW( graphs_gml, 8500, 85000, "graphs with arbitrary ids, order and weights of any sign and magnitude, with and without labels and vertex data, with simplices that are not part of the graph; non-trivial: >=3 edges" )
{
  if( c.boolean() )
    gml<double>( c );
  else
    gml<float>( c );
}

// Vertices and edges with coordinates, as two blocks separated by two blank
// lines: a line per vertex, then two lines and a blank one per edge.
LAW( lines_and_points, 6800, 68000, "complexes whose vertices index <=12 points in 1 to 5 dimensions, with and without labels, to streams and files; non-trivial: >=2 vertices and >=2 edges" )
{
  using S = aleph::topology::Simplex<double, unsigned>;
  auto n = c.extent( 1, 12, 200 );
  auto d = c.size( 1, 5 );
  auto mode = static_cast<int>( c.size( 0, 3 ) );
  aleph::containers::PointCloud<double> cloud( n, d );
  std::vector< std::vector<double> > p( n );
  for( std::size_t i = 0; i < n; i++ )
  {
    for( std::size_t j = 0; j < d; j++ )
      p[i].push_back( values::gen( c, mode ) );
    cloud.set( i, p[i].begin(), p[i].end() );
  }
  std::vector<unsigned> ids( n );
  for( unsigned i = 0; i < n; i++ )
    ids[i] = i;
  c.shuffle( ids );
  ids.resize( c.size( 1, n ) );
  std::vector<S> simplices;
  for( auto u : ids )
    simplices.push_back( S( u, c.uniform( 0, 1 ) ) );
  if( ids.size() >= 2 )
  {
    std::set< std::vector<unsigned> > seen;
    for( auto m = c.size( 0, std::min<std::size_t>( 3 * ids.size(), 60 ) ); m > 0; m-- )
    {
      std::set<unsigned> v;
      for( auto k = c.chance( 1, 6 ) ? 3 : 2; k > 0; k-- )
        v.insert( c.pick( ids ) );
      if( v.size() >= 2 && seen.insert( std::vector<unsigned>( v.begin(), v.end() ) ).second )
        simplices.push_back( S( v.begin(), v.end(), c.uniform( 0, 1 ) ) );
    }
  }
  if( c.boolean() )
    c.shuffle( simplices );
  aleph::topology::SimplicialComplex<S> K( simplices.begin(), simplices.end() );
  bool labels = c.boolean();
  bool file   = c.chance( 1, 8 );
  std::string in = "dimension " + pbt::str( d ) + ( labels ? " labels" : "" ) + ( file ? " file" : "" ) + " points " + pbt::str( p );
  std::vector<unsigned> vertices;
  std::vector< std::pair<unsigned, unsigned> > edges;
  for( auto&& s : K )
  {
    in += " " + pbt::str( std::vector<unsigned>( s.begin(), s.end() ) );
    if( s.dimension() == 0 )
      vertices.push_back( s[0] );
    else if( s.dimension() == 1 )
      edges.push_back( { s[0], s[1] } );
  }
  c.input( in );
  c.nontrivial( vertices.size() >= 2 && edges.size() >= 2 && d >= 2 );
  aleph::topology::io::LinesAndPoints writer;
  c.check( !writer.addVertexLabels(), "labels are written by default" );
  writer.addVertexLabels( labels );
  c.check( writer.addVertexLabels() == labels, "labels" );
  std::string text;
  bool rejected = false;
  try
  {
    if( file )
    {
      auto name = c.scratch() + "/lines.txt";
      writer( name, K, cloud );
      text = slurp( name );
    }
    else
    {
      std::ostringstream out;
      writer( out, K, cloud );
      text = out.str();
    }
  }
  catch( const std::runtime_error& )
  {
    rejected = true;
  }
  // there is at least one vertex
  c.check( rejected == ( d < 2 ), "points in " + pbt::str( d ) + ( rejected ? " dimensions are rejected" : " dimensions are accepted" ) );
  if( rejected )
    return;
  std::vector<std::string> lines;
  {
    std::istringstream stream( text );
    for( std::string line; std::getline( stream, line ); )
      lines.push_back( line );
  }
  c.equal( lines.size(), vertices.size() + 2 + 3 * edges.size(), "number of lines" );
  auto point = [&] ( const std::string& line, unsigned u, bool label )
  {
    std::istringstream stream( line );
    std::vector<std::string> tokens{ std::istream_iterator<std::string>( stream ), std::istream_iterator<std::string>() };
    auto m = std::min<std::size_t>( d, 3 );
    c.equal( tokens.size(), m + label, "number of entries in " + line );
    for( std::size_t j = 0; j < m; j++ )
      c.check( agree( std::strtod( tokens[j].c_str(), nullptr ), p[u][j], 6 ), "coordinates of point " + pbt::str( u ) + ": " + line );
    if( label )
      c.equal( tokens.back(), pbt::str( u ), "label" );
  };
  std::size_t k = 0;
  for( auto u : vertices )
    point( lines[k++], u, labels );
  c.check( lines[k].empty() && lines[k+1].empty(), "blocks are not separated" );
  k += 2;
  for( auto&& e : edges )
  {
    point( lines[k], e.first, false );
    point( lines[k+1], e.second, false );
    c.check( lines[k+2].empty(), "edges are not separated" );
    k += 3;
  }
}
