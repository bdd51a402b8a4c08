// flags: -I/usr/include/hdf5/serial /usr/lib/x86_64-linux-gnu/libtinyxml2.so.10.0.0 -Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial /usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5_cpp.so /usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so
// Graph readers return exactly the graph that a file describes.
#include "bridge.hh"
#include "values.hh"

#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>
#include <aleph/topology/io/AdjacencyMatrix.hh>
#include <aleph/topology/io/BipartiteAdjacencyMatrix.hh>
#include <aleph/topology/io/EdgeLists.hh>
#include <aleph/topology/io/GML.hh>
#include <aleph/topology/io/GraphML.hh>
#include <aleph/topology/io/Pajek.hh>
#include <aleph/topology/io/SimplicialComplexReader.hh>
#include <aleph/topology/io/SparseAdjacencyMatrix.hh>

#include <cmath>
#include <cstdio>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>

namespace io = aleph::topology::io;

using S1 = aleph::topology::Simplex<double, unsigned>;
using S2 = aleph::topology::Simplex<float, unsigned short>;
template <class S> using Complex = aleph::topology::SimplicialComplex<S>;

using Map = std::map<model::V, double>;

static void put( const std::string& file, const std::string& text )
{
  std::ofstream out( file, std::ios::binary );
  out << text;
}

static std::string show( const Map& m )
{
  std::string s;
  for( auto&& p : m )
    s += pbt::str( p.first ) + ":" + pbt::str( p.second ) + " ";
  return s;
}

// The complex contains exactly these simplices, each once
template <class S> static void compare( pbt::Ctx& c, const Complex<S>& K, const Map& expected )
{
  auto got = bridge::asMap( K );
  auto digits = sizeof( typename S::DataType ) == 4 ? 6 : 14;
  auto text = " (got " + show( got ) + "expected " + show( expected ) + ")";
  c.check( K.size() == got.size(), "simplices are not distinct" + text );
  c.check( got.size() == expected.size(), "number of simplices" + text );
  for( auto&& p : expected )
  {
    auto it = got.find( p.first );
    c.check( it != got.end(), "missing simplex " + pbt::str( p.first ) + text );
    c.check( values::agree( it->second, p.second, digits ), "weight of " + pbt::str( p.first ) + text );
  }
}

template <class S> static void ordered( pbt::Ctx& c, const Complex<S>& K )
{
  const S* last = nullptr;
  for( auto&& s : K )
  {
    if( last )
      c.check( last->data() < s.data() || ( last->data() == s.data() && last->dimension() <= s.dimension() ), "complex is not in filtration order" );
    last = &s;
  }
}

// A graph whose vertices are positions in the list of identifiers
struct Graph
{
  std::size_t n;
  std::vector<std::pair<std::size_t, std::size_t>> edges;
};

static Graph genGraph( pbt::Ctx& c, std::size_t min, std::size_t max, std::size_t big = 90 )
{
  Graph g;
  g.n = c.extent( min, max, big, 60 );
  auto density = c.size( 0, 4 );
  for( std::size_t i = 0; i < g.n; i++ )
    for( std::size_t j = i + 1; j < g.n; j++ )
      if( c.chance( density, g.n > max ? 40 : 4 ) )
        g.edges.push_back( c.boolean() ? std::make_pair( i, j ) : std::make_pair( j, i ) );
  c.shuffle( g.edges );
  return g;
}

static std::vector<unsigned> genIds( pbt::Ctx& c, std::size_t n )
{
  std::set<unsigned> used;
  std::vector<unsigned> r;
  unsigned bound = static_cast<unsigned>( c.pick( std::vector<unsigned>{ static_cast<unsigned>( n ) + 1, 30, 200, 60000 } ) );
  if( bound < n + 1 )
    bound = static_cast<unsigned>( n ) + 1;
  while( r.size() < n )
  {
    auto x = static_cast<unsigned>( c.draw( bound ) );
    while( used.count( x ) )
      x = ( x + 1 ) % bound;
    used.insert( x );
    r.push_back( x );
  }
  return r;
}

static std::vector<std::string> genNames( pbt::Ctx& c, std::size_t n, const std::string& alphabet )
{
  std::set<std::string> used;
  std::vector<std::string> r;
  while( r.size() < n )
  {
    std::string s( 1, static_cast<char>( 'a' + c.draw( 26 ) ) );
    auto k = c.size( 0, 4 );
    for( std::size_t i = 0; i < k; i++ )
      s += alphabet[ c.draw( alphabet.size() ) ];
    while( used.count( s ) )
      s += 'x';
    used.insert( s );
    r.push_back( s );
  }
  return r;
}

static model::V sorted( unsigned u, unsigned v )
{
  return u < v ? model::V{ u, v } : model::V{ v, u };
}

static std::string noise( pbt::Ctx& c, const std::vector<std::string>& lines, const std::string& eol )
{
  std::string r;
  while( c.chance( 1, 6 ) )
    r += c.pick( lines ) + eol;
  return r;
}

static std::string blank( pbt::Ctx& c )
{
  static const std::vector<std::string> b = { "", " ", "\t", "  " };
  return c.chance( 1, 4 ) ? b[ c.draw( b.size() ) ] : "";
}

// Edge lists ----------------------------------------------------------------

// A setting that equals the documented default need not be made for the first file
template <class F> static void option( pbt::Ctx& c, std::size_t k, bool isDefault, F set )
{
  if( k != 0 || !isDefault || c.boolean() )
    set();
}

template <class S> static void edgeList( pbt::Ctx& c )
{
  io::EdgeListReader reader;
  std::string in;
  auto file = c.scratch() + "/graph.txt";
  auto reads = c.size( 1, 3 );
  std::size_t interesting = 0;

  for( std::size_t k = 0; k < reads; k++ )
  {
    auto g = genGraph( c, 2, 9 );
    auto labels = c.boolean();
    auto ids = genIds( c, g.n );
    auto names = genNames( c, g.n, "0123456789_-.xyzAB" );
    auto weights = static_cast<int>( c.size( 0, 2 ) ); // none, all, some
    auto readWeights = c.boolean();
    auto trim = c.boolean();
    auto mode = static_cast<int>( c.size( 0, 3 ) );
    auto separator = c.pick( std::vector<std::string>{ "[:space:]", "[:space:]", ",", ";", ":" } );
    std::string eol = trim && c.chance( 1, 4 ) ? "\r\n" : "\n";

    std::vector<std::string> comments = { "# comment", "% 1 2 3", "\"x\" y", "* z", "#", "" };
    if( trim )
    {
      comments.push_back( "  # indented 1 2" );
      comments.push_back( "   " );
    }

    std::string text;
    std::map<std::string, unsigned> seen;
    Map expected;

    auto edges = g.edges;
    // Repeated edges, possibly in the other direction, do not count
    for( std::size_t i = 0; i < g.edges.size(); i++ )
      if( c.chance( 1, 8 ) )
        edges.push_back( c.boolean() ? g.edges[i] : std::make_pair( g.edges[i].second, g.edges[i].first ) );

    for( std::size_t i = 0; i < edges.size(); i++ )
    {
      auto e = edges[i];
      text += noise( c, comments, eol );

      auto sep = [&] () -> std::string
      {
        if( separator != "[:space:]" )
          return separator;
        return c.pick( std::vector<std::string>{ " ", "\t", "  ", " \t" } );
      };

      auto id = [&] ( std::size_t x )
      {
        if( !labels )
          return ids[x];
        auto it = seen.find( names[x] );
        if( it == seen.end() )
          it = seen.insert( { names[x], static_cast<unsigned>( seen.size() ) } ).first;
        return it->second;
      };

      auto u = id( e.first );
      auto v = id( e.second );
      double w = 0;

      if( trim )
        text += blank( c );
      text += labels ? names[ e.first ] : std::to_string( ids[ e.first ] );
      text += sep();
      text += labels ? names[ e.second ] : std::to_string( ids[ e.second ] );
      if( weights == 1 || ( weights == 2 && c.boolean() ) )
      {
        w = values::gen( c, mode );
        text += sep() + values::text( c, w );
        if( c.chance( 1, 8 ) )
          text += sep() + "7";
      }
      if( trim )
        text += blank( c );
      if( i + 1 < edges.size() || c.boolean() )
        text += eol;

      expected.insert( { { u }, 0.0 } );
      expected.insert( { { v }, 0.0 } );
      expected.insert( { sorted( u, v ), readWeights ? w : 0.0 } );
    }

    put( file, text );
    in += "\n--- weights " + pbt::str( readWeights ) + " trim " + pbt::str( trim ) + " separator " + separator + "\n" + text;
    c.input( in );
    interesting += g.edges.size() >= 3;
    c.label( labels ? "labels" : "numbers" );

    option( c, k, readWeights, [&] { reader.setReadWeights( readWeights ); } );
    option( c, k, trim, [&] { reader.setTrimLines( trim ); } );
    reader.setSeparator( separator );
    c.equal( reader.readWeights(), readWeights, "weights option" );
    c.equal( reader.trimLines(), trim, "trim option" );

    Complex<S> K;
    reader( file, K );
    compare( c, K, expected );

    std::ifstream stream( file );
    Complex<S> L;
    reader( stream, L );
    compare( c, L, expected );

    if( trim && readWeights && separator == "[:space:]" )
    {
      io::SimplicialComplexReader dispatcher;
      Complex<S> M;
      dispatcher( file, M );
      compare( c, M, expected );
      c.check( dispatcher.labels().empty(), "edge lists do not have labels" );
    }
  }
  c.nontrivial( interesting >= 1 && reads >= 2 );
}

LAW( edge_lists, 3000, 30000, "sequences of <=3 edge lists read with one object: numeric ids up to 60000 or labels, separators, comments, blank lines, line ends, partial weights, repeated edges, every option; non-trivial: >=2 files, one with >=3 edges" )
{
  if( c.boolean() )
    edgeList<S1>( c );
  else
    edgeList<S2>( c );
}

// Pajek ---------------------------------------------------------------------

template <class S> static void pajek( pbt::Ctx& c )
{
  io::PajekReader reader;
  io::SimplicialComplexReader dispatcher;
  std::string in;
  auto file = c.scratch() + "/graph.net";
  auto reads = c.size( 1, 3 );
  bool interesting = false;

  for( std::size_t k = 0; k < reads; k++ )
  {
    auto g = genGraph( c, 0, 14 );
    auto labelled = c.boolean() && g.n > 0;
    std::vector<unsigned> ids;
    if( labelled && c.boolean() )
      ids = genIds( c, g.n );
    else
      for( unsigned i = 0; i < g.n; i++ )
        ids.push_back( i + 1 );
    if( labelled )
      c.shuffle( ids );

    std::string eol = c.chance( 1, 4 ) ? "\r\n" : "\n";
    std::vector<std::string> comments = { "% comment", "%", "  % 1 2 3", "", "   ", "\t" };
    auto mode = static_cast<int>( c.size( 0, 3 ) );
    auto weights = static_cast<int>( c.size( 0, 2 ) );

    std::string text;
    Map expected;
    std::map<std::string, std::string> labels;
    std::map<unsigned, std::string> ordered;

    if( c.chance( 1, 5 ) )
      text += "*Network some network 1 2" + eol;
    text += noise( c, comments, eol );
    text += c.pick( std::vector<std::string>{ "*Vertices ", "*vertices   ", "*VERTICES\t", "*Verts " } ) + std::to_string( g.n ) + eol;

    for( std::size_t i = 0; i < g.n; i++ )
      expected[ { ids[i] } ] = 0.0;

    if( labelled )
    {
      for( std::size_t i = 0; i < g.n; i++ )
      {
        text += noise( c, comments, eol );
        std::string label;
        auto length = c.size( 1, 6 );
        for( std::size_t j = 0; j < length; j++ )
          label += "abc XYZ0.9-_%*'"[ c.draw( 15 ) ];
        text += blank( c ) + std::to_string( ids[i] ) + c.pick( std::vector<std::string>{ " ", "  ", "\t" } ) + "\"" + label + "\"" + blank( c ) + eol;
        labels[ std::to_string( ids[i] ) ] = label;
        ordered[ ids[i] ] = label;
      }
    }

    std::size_t written = 0;
    auto sections = c.size( 1, 2 );
    for( std::size_t s = 0; s < sections; s++ )
    {
      text += c.pick( std::vector<std::string>{ "*Edges", "*edges", "*Arcs", "*ARCS" } ) + eol;
      auto stop = s + 1 == sections ? g.edges.size() : c.size( 0, g.edges.size() );
      for( ; written < stop; written++ )
      {
        text += noise( c, comments, eol );
        auto u = ids[ g.edges[written].first ], v = ids[ g.edges[written].second ];
        auto sep = c.pick( std::vector<std::string>{ " ", "  ", "\t" } );
        text += blank( c ) + std::to_string( u ) + sep + std::to_string( v );
        double w = 0;
        if( weights == 1 || ( weights == 2 && c.boolean() ) )
        {
          w = values::gen( c, mode );
          text += sep + values::text( c, w );
        }
        text += blank( c ) + eol;
        expected[ sorted( u, v ) ] = w;
      }
    }

    if( c.chance( 1, 4 ) && eol == "\n" )
      text.pop_back();

    put( file, text );
    in += "\n---\n" + text;
    c.input( in );
    interesting = interesting || ( g.n >= 4 && g.edges.size() >= 3 );
    c.label( labelled ? "labels" : "no labels" );
    if( g.n >= 11 && labelled )
      c.label( "labels with two digits" );

    Complex<S> K;
    reader( file, K );
    compare( c, K, expected );
    c.check( reader.getLabelMap() == labels, "label map " + pbt::str( reader.getLabelMap().size() ) );

    Complex<S> L;
    dispatcher( file, L );
    compare( c, L, expected );
    std::vector<std::string> order;
    for( auto&& p : ordered )
      order.push_back( p.second );
    c.equal( dispatcher.labels(), order, "labels in vertex order" );
  }
  c.nontrivial( interesting );
}

LAW( pajek, 3000, 30000, "sequences of <=3 Pajek files read with one object: <=14 vertices, labels or none, arbitrary ids, several edge sections, partial weights of any sign and magnitude, comments, blank lines; non-trivial: >=4 vertices and >=3 edges" )
{
  if( c.boolean() )
    pajek<S1>( c );
  else
    pajek<S2>( c );
}

// GML -----------------------------------------------------------------------

template <class S> static void gml( pbt::Ctx& c )
{
  using D = typename S::DataType;

  io::GMLReader reader;
  io::SimplicialComplexReader dispatcher;
  std::string in;
  auto file = c.scratch() + "/graph.gml";
  auto reads = c.size( 1, 3 );
  bool interesting = false;

  for( std::size_t k = 0; k < reads; k++ )
  {
    auto g = genGraph( c, 0, 13 );
    auto numeric = c.boolean();
    auto ids = genIds( c, g.n );
    auto names = genNames( c, g.n, "abcxyzXYZ0123456789" );
    auto mode = static_cast<int>( c.size( 0, 3 ) );
    auto nodeWeights = static_cast<int>( c.size( 0, 2 ) );
    auto edgeWeights = static_cast<int>( c.size( 0, 2 ) );
    auto functor = c.size( 0, 3 ); // default, max, min, sum

    if( !numeric )
    {
      auto sortedNames = names;
      std::sort( sortedNames.begin(), sortedNames.end() );
      for( std::size_t i = 0; i < g.n; i++ )
        ids[i] = static_cast<unsigned>( std::find( sortedNames.begin(), sortedNames.end(), names[i] ) - sortedNames.begin() );
    }
    else
      for( std::size_t i = 0; i < g.n; i++ )
        names[i] = std::to_string( ids[i] );

    std::string eol = c.chance( 1, 5 ) ? "\r\n" : "\n";
    std::vector<std::string> comments = { "comment hello world", "Creator \"me\" on Monday", "", "  ", "  comment indented" };

    auto inlineLevels = c.boolean();
    auto open = [&] ( const std::string& level )
    {
      return blank( c ) + level + ( inlineLevels ? " [" : eol + blank( c ) + "[" ) + eol;
    };

    std::string text;
    Map expected;
    text += noise( c, comments, eol ) + open( "graph" );
    if( c.boolean() )
      text += "directed 0" + eol;
    if( c.chance( 1, 4 ) )
      text += "label \"my graph\"" + eol;

    // Attributes in any order
    auto lines = [&] ( std::vector<std::string> l )
    {
      c.shuffle( l );
      std::string r;
      for( auto&& x : l )
        r += noise( c, comments, eol ) + blank( c ) + x + blank( c ) + eol;
      return r;
    };

    std::vector<double> weights( g.n, 0.0 );
    std::map<std::string, std::string> labels, colours;
    std::map<unsigned, std::string> ordered;
    std::set<std::string> nodeNames, edgeNames;
    std::map<std::pair<std::string, std::string>, std::string> kinds;
    std::vector<std::string> blocks;

    for( std::size_t i = 0; i < g.n; i++ )
    {
      std::vector<std::string> l = { "id " + names[i] };
      auto form = nodeWeights == 0 ? 0 : nodeWeights == 1 ? 1 + c.size( 0, 1 ) : c.size( 0, 3 );
      if( form >= 1 )
      {
        weights[i] = static_cast<D>( values::gen( c, mode ) );
        l.push_back( ( form == 2 ? "value " : "weight " ) + values::text( c, weights[i] ) );
        nodeNames.insert( form == 2 ? "value" : "weight" );
        if( form == 3 )
        {
          l.push_back( "value 77" );
          nodeNames.insert( "value" );
        }
      }
      labels[ names[i] ];
      colours[ names[i] ];
      ordered[ ids[i] ];
      if( c.boolean() )
      {
        std::string label;
        auto length = c.size( 1, 5 );
        for( std::size_t j = 0; j < length; j++ )
          label += "abc XYZ0.9-_[]"[ c.draw( 14 ) ];
        l.push_back( "label \"" + label + "\"" );
        labels[ names[i] ] = label;
        ordered[ ids[i] ] = label;
        nodeNames.insert( "label" );
      }
      if( c.chance( 1, 4 ) )
      {
        auto colour = c.pick( std::vector<std::string>{ "red", "7", "1.5", "b2" } );
        l.push_back( "colour " + colour );
        colours[ names[i] ] = colour;
        nodeNames.insert( "colour" );
      }
      blocks.push_back( open( "node" ) + lines( l ) + blank( c ) + "]" + eol );
      expected[ { ids[i] } ] = weights[i];
    }

    auto nodes = blocks.size();
    for( auto&& e : g.edges )
    {
      auto u = ids[ e.first ], v = ids[ e.second ];
      auto wu = weights[ e.first ], wv = weights[ e.second ];
      double w = functor <= 1 ? std::max( wu, wv ) : functor == 2 ? std::min( wu, wv ) : static_cast<double>( static_cast<D>( wu ) + static_cast<D>( wv ) );
      std::vector<std::string> l = { "source " + names[ e.first ], "target " + names[ e.second ] };
      auto form = edgeWeights == 0 ? 0 : edgeWeights == 1 ? 1 + c.size( 0, 1 ) : c.size( 0, 3 );
      if( form >= 1 )
      {
        w = values::gen( c, mode );
        l.push_back( ( form == 2 ? "value " : "weight " ) + values::text( c, w ) );
        edgeNames.insert( form == 2 ? "value" : "weight" );
        if( form == 3 )
        {
          l.push_back( "value 55" );
          edgeNames.insert( "value" );
        }
      }
      if( c.chance( 1, 4 ) )
      {
        l.push_back( "kind x" + std::to_string( u ) );
        kinds[ { names[ e.first ], names[ e.second ] } ] = "x" + std::to_string( u );
        edgeNames.insert( "kind" );
      }
      blocks.push_back( open( "edge" ) + lines( l ) + blank( c ) + "]" + eol );
      expected[ sorted( u, v ) ] = w;
    }

    // Nodes and edges may appear in any order
    if( c.chance( 1, 4 ) )
      c.shuffle( blocks );
    for( auto&& b : blocks )
      text += noise( c, comments, eol ) + b;
    text += "]" + ( c.boolean() ? eol : "" );
    (void) nodes;

    put( file, text );
    in += "\n--- functor " + pbt::str( functor ) + "\n" + text;
    c.input( in );
    interesting = interesting || ( g.n >= 4 && g.edges.size() >= 3 );
    c.label( numeric ? "numeric ids" : "textual ids" );

    Complex<S> K, L;
    auto sum = [] ( D a, D b ) { return a + b; };
    auto min = [] ( D a, D b ) { return std::min( a, b ); };
    auto max = [] ( D a, D b ) { return std::max( a, b ); };
    switch( functor )
    {
    case 0: reader( file, K ); dispatcher( file, L ); break;
    case 1: reader( file, K, max ); dispatcher( file, L, max ); break;
    case 2: reader( file, K, min ); dispatcher( file, L, min ); break;
    default: reader( file, K, sum ); dispatcher( file, L, sum );
    }
    compare( c, K, expected );
    compare( c, L, expected );

    c.check( reader.getNodeAttribute( "label" ) == labels, "node labels" );
    c.check( reader.getNodeAttribute( "colour" ) == colours, "additional node attribute" );
    c.equal( reader.getNodeAttributeNames(), std::vector<std::string>( nodeNames.begin(), nodeNames.end() ), "names of node attributes" );
    c.equal( reader.getEdgeAttributeNames(), std::vector<std::string>( edgeNames.begin(), edgeNames.end() ), "names of edge attributes" );
    for( auto&& e : g.edges )
    {
      auto p = std::make_pair( names[ e.first ], names[ e.second ] );
      c.equal( reader.getEdgeAttribute( p.first, p.second, "kind" ), kinds.count( p ) ? kinds[p] : std::string(), "edge attribute" );
    }

    auto index = reader.template id_to_index<unsigned>();
    c.equal( index.size(), g.n, "number of indices" );
    std::size_t rank = 0;
    std::vector<std::string> order;
    for( auto&& p : ordered )
    {
      auto name = numeric ? std::to_string( p.first ) : names[ static_cast<std::size_t>( std::find( ids.begin(), ids.end(), p.first ) - ids.begin() ) ];
      c.equal( static_cast<std::size_t>( index.at( name ) ), rank, "index of node " + name );
      rank++;
      order.push_back( p.second );
    }
    c.equal( dispatcher.labels(), order, "labels in vertex order" );
  }
  c.nontrivial( interesting );
}

LAW( gml, 1500, 15000, "sequences of <=3 GML files read with one object: <=13 nodes, numeric or textual ids, weights or values on some nodes and edges, additional attributes, comments, both bracket styles, any order, functors max, min, sum; non-trivial: >=4 vertices and >=3 edges" )
{
  if( c.boolean() )
    gml<S1>( c );
  else
    gml<S2>( c );
}

// GraphML -------------------------------------------------------------------

static std::string escape( const std::string& s )
{
  std::string r;
  for( auto&& x : s )
    r += x == '<' ? "&lt;" : x == '&' ? "&amp;" : x == '"' ? "&quot;" : std::string( 1, x );
  return r;
}

template <class S> static void graphml( pbt::Ctx& c )
{
  using D = typename S::DataType;

  io::GraphMLReader reader;
  std::string in;
  auto file = c.scratch() + "/graph.xml";
  auto reads = c.size( 1, 3 );
  bool interesting = false;

  for( std::size_t k = 0; k < reads; k++ )
  {
    auto g = genGraph( c, 0, 12 );
    auto names = genNames( c, g.n, "ab<&10 9.Z" );
    if( c.boolean() )
    {
      auto ids = genIds( c, g.n );
      for( std::size_t i = 0; i < g.n; i++ )
        names[i] = std::to_string( ids[i] );
    }
    auto mode = static_cast<int>( c.size( 0, 3 ) );
    auto functor = c.size( 0, 3 );
    auto readNodes = !c.chance( 1, 4 );
    auto readEdges = c.boolean();
    auto nodeAttribute = c.pick( std::vector<std::string>{ "weight", "mass", "absent", "" } );
    auto edgeAttribute = c.pick( std::vector<std::string>{ "weight", "length", "absent", "" } );
    // Without edge weights, every node needs to have one
    auto complete = c.boolean() || !( readEdges && !edgeAttribute.empty() );

    auto sortedNames = names;
    std::sort( sortedNames.begin(), sortedNames.end() );
    auto id = [&] ( std::size_t i )
    {
      return static_cast<unsigned>( std::find( sortedNames.begin(), sortedNames.end(), names[i] ) - sortedNames.begin() );
    };

    // Two attributes per node and edge; the ids of their keys are arbitrary
    auto keys = genNames( c, 4, "0123456789d" );
    std::vector<std::string> keyNames = { "weight", "mass", "weight", "length" };
    std::string text;
    if( c.boolean() )
      text += "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
    if( c.chance( 1, 4 ) )
      text += "<!-- a graph -->\n";
    text += c.boolean() ? "<graphml>\n" : "<graphml xmlns=\"http://graphml.graphdrawing.org/xmlns\">\n";
    std::vector<std::string> keyLines;
    for( std::size_t i = 0; i < 4; i++ )
      keyLines.push_back( "  <key id=\"" + keys[i] + "\" for=\"" + ( i < 2 ? "node" : "edge" ) + "\" attr.name=\"" + keyNames[i] + "\" attr.type=\"double\"" + ( c.boolean() ? "/>\n" : ">\n<desc>x</desc></key>\n" ) );
    c.shuffle( keyLines );
    for( auto&& l : keyLines )
      text += l;
    text += "<graph id=\"G\" edgedefault=\"" + std::string( c.boolean() ? "directed" : "undirected" ) + "\">\n";

    Map expected;
    std::vector<double> weights( g.n, 0.0 );
    std::set<std::string> nodeKeys, edgeKeys;
    std::vector<std::string> blocks;

    auto data = [&] ( std::size_t first, const std::string& attribute, bool all, std::set<std::string>& used, double& w )
    {
      std::vector<std::string> l;
      for( std::size_t i = first; i < first + 2; i++ )
      {
        if( !all && c.chance( 1, 3 ) )
          continue;
        auto x = values::gen( c, mode );
        l.push_back( "<data key=\"" + keys[i] + "\">" + values::text( c, x ) + "</data>" );
        used.insert( keys[i] );
        if( attribute == keyNames[i] )
          w = x;
      }
      c.shuffle( l );
      std::string r;
      for( auto&& x : l )
        r += x + ( c.boolean() ? "\n" : "" );
      return r;
    };

    for( std::size_t i = 0; i < g.n; i++ )
    {
      double w = 0;
      auto body = data( 0, nodeAttribute, complete, nodeKeys, w );
      if( readNodes )
        weights[i] = static_cast<D>( w );
      blocks.push_back( "  <node id=\"" + escape( names[i] ) + "\"" + ( body.empty() ? "/>\n" : ">" + body + "</node>\n" ) );
      expected[ { id( i ) } ] = weights[i];
    }

    std::size_t counter = 0;
    for( auto&& e : g.edges )
    {
      double w = 0;
      auto body = data( 2, edgeAttribute, c.boolean(), edgeKeys, w );
      if( !( readEdges && !edgeAttribute.empty() ) )
      {
        auto wu = weights[ e.first ], wv = weights[ e.second ];
        // The functor is only used if node weights are available
        if( readNodes && ( nodeAttribute == "weight" || nodeAttribute == "mass" ) )
          w = functor <= 1 ? std::max( wu, wv ) : functor == 2 ? std::min( wu, wv ) : static_cast<double>( static_cast<D>( wu ) + static_cast<D>( wv ) );
        else
          w = 0;
      }
      blocks.push_back( "  <edge id=\"e" + std::to_string( counter++ ) + "\" source=\"" + escape( names[ e.first ] ) + "\" target=\"" + escape( names[ e.second ] ) + "\"" + ( body.empty() ? "/>\n" : ">" + body + "</edge>\n" ) );
      expected[ sorted( id( e.first ), id( e.second ) ) ] = w;
    }
    if( c.chance( 1, 3 ) )
      c.shuffle( blocks );
    for( auto&& b : blocks )
      text += b + ( c.chance( 1, 8 ) ? "<!-- <node id=\"zzz\"/> -->\n" : "" );
    text += "</graph>\n</graphml>\n";

    put( file, text );
    in += "\n--- functor " + pbt::str( functor ) + " nodes " + pbt::str( readNodes ) + " " + nodeAttribute + " edges " + pbt::str( readEdges ) + " " + edgeAttribute + "\n" + text;
    c.input( in );
    interesting = interesting || ( g.n >= 4 && g.edges.size() >= 3 );

    option( c, k, readNodes, [&] { reader.setReadNodeWeights( readNodes ); } );
    option( c, k, readEdges, [&] { reader.setReadEdgeWeights( readEdges ); } );
    option( c, k, nodeAttribute == "weight", [&] { reader.setNodeWeightAttribute( nodeAttribute ); } );
    option( c, k, edgeAttribute == "weight", [&] { reader.setEdgeWeightAttribute( edgeAttribute ); } );

    Complex<S> K;
    switch( functor )
    {
    case 0: reader( file, K ); break;
    case 1: reader( file, K, [] ( D a, D b ) { return std::max( a, b ); } ); break;
    case 2: reader( file, K, [] ( D a, D b ) { return std::min( a, b ); } ); break;
    default: reader( file, K, [] ( D a, D b ) { return a + b; } );
    }
    compare( c, K, expected );

    c.equal( reader.getNodeAttributeNames(), std::vector<std::string>( nodeKeys.begin(), nodeKeys.end() ), "keys of node attributes" );
    c.equal( reader.getEdgeAttributeNames(), std::vector<std::string>( edgeKeys.begin(), edgeKeys.end() ), "keys of edge attributes" );
    auto index = reader.template id_to_index<unsigned>();
    c.equal( index.size(), g.n, "number of indices" );
    for( std::size_t i = 0; i < g.n; i++ )
      c.equal( index.at( names[i] ), id( i ), "index of node" );
  }
  c.nontrivial( interesting );
}

LAW( graphml, 2500, 25000, "sequences of <=3 GraphML files read with one object: <=12 nodes, arbitrary ids, keys in any order, partial data, escapes, comments, with and without declaration, every combination of the weight options and attribute names (including absent ones), functors; non-trivial: >=4 vertices and >=3 edges" )
{
  if( c.boolean() )
    graphml<S1>( c );
  else
    graphml<S2>( c );
}

// Adjacency matrices --------------------------------------------------------

static std::string matrixText( pbt::Ctx& c, const std::vector<std::vector<double>>& m )
{
  std::string eol = c.chance( 1, 5 ) ? "\r\n" : "\n";
  std::vector<std::string> comments = { "# comment", "#", "# 1 2 3", "", "", "  ", "  # indented" };
  std::string text;
  for( std::size_t i = 0; i < m.size(); i++ )
  {
    text += noise( c, comments, eol ) + blank( c );
    for( std::size_t j = 0; j < m[i].size(); j++ )
      text += ( j ? c.pick( std::vector<std::string>{ " ", "\t", "  " } ) : "" ) + ( std::isnan( m[i][j] ) ? "nan" : values::text( c, m[i][j] ) );
    text += blank( c );
    if( i + 1 < m.size() || c.boolean() )
      text += eol;
  }
  return text;
}

template <class S> static void adjacency( pbt::Ctx& c )
{
  using D = typename S::DataType;
  using Strategy = io::AdjacencyMatrixReader::VertexWeightAssignmentStrategy;

  io::AdjacencyMatrixReader reader;
  std::string in;
  auto file = c.scratch() + "/graph.txt";
  auto reads = c.size( 1, 3 );
  bool interesting = false;

  for( std::size_t k = 0; k < reads; k++ )
  {
    auto n = c.extent( 1, 8, 48, 30 );
    auto mode = static_cast<int>( c.size( 0, 3 ) );
    auto zeros = c.size( 0, 3 );
    auto symmetric = c.boolean();
    auto ignoreNaNs = c.boolean();
    auto ignoreZeros = c.boolean();
    auto nans = ignoreNaNs && c.boolean();
    auto strategy = c.pick( std::vector<Strategy>{ Strategy::AssignGlobalMinimum, Strategy::AssignGlobalMaximum, Strategy::AssignZero } );
    auto functor = c.size( 0, 3 );

    std::vector<std::vector<double>> m( n, std::vector<double>( n, 0.0 ) );
    for( std::size_t i = 0; i < n; i++ )
      for( std::size_t j = 0; j < n; j++ )
      {
        if( symmetric && j < i )
        {
          m[i][j] = m[j][i];
          continue;
        }
        m[i][j] = c.chance( zeros, 4 ) ? 0.0 : static_cast<double>( static_cast<D>( values::gen( c, mode ) ) );
        if( nans && c.chance( 1, 5 ) )
          m[i][j] = std::numeric_limits<double>::quiet_NaN();
      }

    D min = 0, max = 0;
    bool first = true;
    for( auto&& r : m )
      for( auto&& x : r )
      {
        if( std::isnan( x ) )
          continue;
        min = first ? static_cast<D>( x ) : std::min( min, static_cast<D>( x ) );
        max = first ? static_cast<D>( x ) : std::max( max, static_cast<D>( x ) );
        first = false;
      }

    auto apply = [&] ( D a, D b, D x ) -> D
    {
      switch( functor )
      {
      case 0: return x;
      case 1: return -x;
      case 2: return a - x;
      default: return x - b;
      }
    };

    Map expected;
    std::size_t edges = 0;
    for( std::size_t i = 0; i < n; i++ )
    {
      D w = strategy == Strategy::AssignZero ? D( 0 ) : apply( max, min, strategy == Strategy::AssignGlobalMinimum ? min : max );
      expected[ { static_cast<unsigned>( i ) } ] = w;
      for( std::size_t j = i + 1; j < n; j++ )
      {
        if( ( ignoreNaNs && std::isnan( m[i][j] ) ) || ( ignoreZeros && m[i][j] == 0 ) )
          continue;
        edges++;
        expected[ { static_cast<unsigned>( i ), static_cast<unsigned>( j ) } ] = apply( max, min, static_cast<D>( m[i][j] ) );
      }
    }

    auto text = matrixText( c, m );
    put( file, text );
    in += "\n--- nans " + pbt::str( ignoreNaNs ) + " zeros " + pbt::str( ignoreZeros ) + " strategy " + pbt::str( static_cast<int>( strategy ) ) + " functor " + pbt::str( functor ) + "\n" + text;
    c.input( in );
    interesting = interesting || edges >= 3;

    option( c, k, !ignoreNaNs, [&] { reader.setIgnoreNaNs( ignoreNaNs ); } );
    option( c, k, !ignoreZeros, [&] { reader.setIgnoreZeroWeights( ignoreZeros ); } );
    reader.setVertexWeightAssignmentStrategy( strategy );

    Complex<S> K, L;
    std::istringstream stream( text );
    if( functor == 0 && c.boolean() )
    {
      reader( file, K );
      reader( stream, L );
    }
    else
    {
      reader( file, K, apply );
      reader( stream, L, apply );
    }
    c.equal( reader.dimension(), n, "dimension" );
    compare( c, K, expected );
    compare( c, L, expected );
    ordered( c, K );
    ordered( c, L );
  }
  c.nontrivial( interesting );
}

LAW( adjacency_matrices, 3000, 30000, "sequences of <=3 square matrices up to 48x48 read with one object: symmetric or not, zeros, NaNs, values of any sign and magnitude, comments, blank lines, all strategies, flags and four functors; non-trivial: >=3 edges" )
{
  if( c.boolean() )
    adjacency<S1>( c );
  else
    adjacency<S2>( c );
}

template <class S> static void bipartite( pbt::Ctx& c )
{
  using D = typename S::DataType;

  io::BipartiteAdjacencyMatrixReader reader;
  std::string in;
  auto file = c.scratch() + "/graph.txt";
  auto reads = c.size( 1, 3 );
  bool interesting = false;

  for( std::size_t k = 0; k < reads; k++ )
  {
    auto h = c.extent( 1, 7, 30 ), w = c.extent( 1, 7, 30 );
    if( c.chance( 1, 10 ) )
      w = c.size( 10, 40 );
    auto mode = static_cast<int>( c.size( 0, 3 ) );
    auto minimum = c.boolean();
    auto absolute = c.boolean();
    // Signs of absolute minima are ambiguous if both occur
    std::vector<std::vector<double>> m( h, std::vector<double>( w, 0.0 ) );
    for( auto&& r : m )
      for( auto&& x : r )
        x = static_cast<D>( values::gen( c, mode ) );

    double min = m[0][0];
    for( auto&& r : m )
      for( auto&& x : r )
        min = std::min( min, x );

    Map expected;
    for( std::size_t i = 0; i < h + w; i++ )
    {
      std::vector<double> row;
      for( std::size_t j = 0; j < ( i < h ? w : h ); j++ )
        row.push_back( i < h ? m[i][j] : m[j][ i - h ] );
      double x = min;
      if( absolute )
      {
        x = row[0];
        for( auto&& y : row )
          if( std::abs( y ) < std::abs( x ) )
            x = y;
      }
      else if( minimum )
        x = *std::min_element( row.begin(), row.end() );
      expected[ { static_cast<unsigned>( i ) } ] = x;
    }
    for( std::size_t i = 0; i < h; i++ )
      for( std::size_t j = 0; j < w; j++ )
        expected[ { static_cast<unsigned>( i ), static_cast<unsigned>( h + j ) } ] = m[i][j];

    auto text = matrixText( c, m );
    put( file, text );
    in += "\n--- minimum " + pbt::str( minimum ) + " absolute " + pbt::str( absolute ) + "\n" + text;
    c.input( in );
    interesting = interesting || ( h >= 2 && w >= 2 && h != w );

    option( c, k, !minimum, [&] { reader.setAssignMinimumVertexWeight( minimum ); } );
    option( c, k, !absolute, [&] { reader.setAssignMinimumAbsoluteVertexWeight( absolute ); } );
    c.equal( reader.assignMinimumVertexWeight(), minimum, "option" );
    c.equal( reader.assignMinimumAbsoluteVertexWeight(), absolute, "option" );

    Complex<S> K, L;
    std::istringstream stream( text );
    reader( file, K );
    c.equal( reader.height(), h, "height" );
    c.equal( reader.width(), w, "width" );
    reader( stream, L );

    auto both = [&] ( const Complex<S>& X )
    {
      // Both signs of an absolute minimum are acceptable
      auto e = expected;
      if( absolute )
        for( auto&& s : X )
          if( s.dimension() == 0 )
          {
            auto it = e.find( bridge::vertices( s ) );
            if( it != e.end() && static_cast<double>( s.data() ) == -it->second )
            {
              auto i = it->first[0];
              for( std::size_t j = 0; j < ( i < h ? w : h ); j++ )
                if( ( i < h ? m[i][j] : m[j][ i - h ] ) == -it->second )
                {
                  it->second = -it->second;
                  break;
                }
            }
          }
      compare( c, X, e );
      ordered( c, X );
    };
    both( K );
    both( L );
  }
  c.nontrivial( interesting );
}

LAW( bipartite_matrices, 3000, 30000, "sequences of <=3 matrices up to 7x40 read with one object: any shape, values of any sign and magnitude, comments, blank lines, all vertex weight options; non-trivial: >=2 rows and columns, not square" )
{
  if( c.boolean() )
    bipartite<S1>( c );
  else
    bipartite<S2>( c );
}

// Sparse adjacency matrices ---------------------------------------------------

template <class S> static void sparse( pbt::Ctx& c )
{
  using D = typename S::DataType;

  io::SparseAdjacencyMatrixReader reader;
  std::string in;
  auto reads = c.size( 1, 3 );
  bool interesting = false;
  bool trimmed = true;

  for( std::size_t k = 0; k < reads; k++ )
  {
    auto prefix = c.scratch() + "/set" + std::to_string( k );
    auto graphs = c.extent( 1, 5, 25 );
    auto n = graphs > 5 ? c.size( graphs, 100 ) : c.size( graphs, 16 );
    auto mode = static_cast<int>( c.size( 0, 3 ) );

    // Graph ids are arbitrary
    auto ids = genIds( c, graphs );
    std::vector<std::size_t> owner;
    for( std::size_t i = 0; i < n; i++ )
      owner.push_back( i < graphs ? i : c.draw( graphs ) );
    if( c.boolean() )
      c.shuffle( owner );
    else
      std::sort( owner.begin(), owner.end() );

    auto rank = ids;
    std::sort( rank.begin(), rank.end() );
    auto index = [&] ( std::size_t graph )
    {
      return static_cast<std::size_t>( std::find( rank.begin(), rank.end(), ids[graph] ) - rank.begin() );
    };

    auto separator = c.pick( std::vector<std::string>{ ",", ";", ", " } );
    auto graphLabels = c.boolean();
    auto nodeLabels = c.boolean();
    auto nodeLabelFile = c.boolean();
    auto nodeAttributes = c.boolean();
    auto edgeAttributes = c.boolean();
    trimmed = c.boolean();
    auto columns = c.size( 1, 3 );
    const auto none = std::numeric_limits<std::size_t>::max();
    auto nodeColumn = c.chance( 1, 4 ) ? none : c.draw( columns );
    auto edgeColumn = c.chance( 1, 4 ) ? none : c.draw( columns );

    std::string text, indicator, labels, nlabels, nattributes, eattributes;
    std::vector<std::string> expectedLabels, expectedNodeLabels;
    std::vector<Map> expected( graphs );

    for( std::size_t i = 0; i < n; i++ )
      indicator += ( i % 3 == 2 ? blank( c ) : "" ) + std::to_string( ids[ owner[i] ] ) + ( i % 3 == 1 ? blank( c ) : "" ) + "\n";

    for( std::size_t i = 0; i < graphs; i++ )
    {
      auto l = c.pick( std::vector<std::string>{ "1", "-1", "0", "class a", "b" } );
      auto around = c.pick( std::vector<std::string>{ "", "", " ", "\t" } );
      labels += around + l + around + "\n";
      expectedLabels.push_back( trimmed ? l : around + l + around );
    }
    // Labels of graphs without any nodes are not reported
    for( std::size_t i = c.chance( 1, 6 ) ? c.size( 1, 2 ) : 0; i > 0; i-- )
      labels += "surplus\n";

    auto attributes = [&] ( std::string& target, std::size_t column, double& w )
    {
      for( std::size_t j = 0; j < columns; j++ )
      {
        auto x = values::gen( c, mode );
        if( j == column )
          w = x;
        target += ( j ? separator : "" ) + values::text( c, x );
      }
      target += "\n";
    };

    for( std::size_t i = 0; i < n; i++ )
    {
      auto l = c.pick( std::vector<std::string>{ "1", "2", "C", "H" } );
      auto around = c.pick( std::vector<std::string>{ "", "", " ", "\t" } );
      nlabels += around + l + around + "\n";
      expectedNodeLabels.push_back( trimmed ? l : around + l + around );
      double w = 0;
      attributes( nattributes, nodeColumn, w );
      expected[ index( owner[i] ) ][ { static_cast<unsigned>( i + 1 ) } ] = nodeAttributes && nodeColumn != none ? w : 0.0;
    }

    std::vector<std::pair<std::size_t, std::size_t>> edges;
    auto density = c.size( 0, 3 );
    for( std::size_t i = 0; i < n; i++ )
      for( std::size_t j = i + 1; j < n; j++ )
        if( owner[i] == owner[j] && c.chance( density, 3 ) )
        {
          edges.push_back( { i, j } );
          if( c.boolean() )
            edges.push_back( { j, i } );
          if( c.chance( 1, 10 ) )
            edges.push_back( { i, j } );
        }
    if( c.boolean() )
      c.shuffle( edges );
    for( auto&& e : edges )
    {
      text += std::to_string( e.first + 1 ) + separator + std::to_string( e.second + 1 ) + "\n";
      double w = 0;
      attributes( eattributes, edgeColumn, w );
      expected[ index( owner[ e.first ] ) ].insert( { sorted( static_cast<unsigned>( e.first + 1 ), static_cast<unsigned>( e.second + 1 ) ), edgeAttributes && edgeColumn != none ? w : 0.0 } );
    }

    put( prefix + "_A.txt", text );
    put( prefix + "_graph_indicator.txt", indicator );
    put( prefix + "_graph_labels.txt", labels );
    if( nodeLabelFile )
      put( prefix + "_node_labels.txt", nlabels );
    else
      std::remove( ( prefix + "_node_labels.txt" ).c_str() );
    put( prefix + "_node_attributes.txt", nattributes );
    put( prefix + "_edge_attributes.txt", eattributes );

    in += "\n--- A:\n" + text + "indicator:\n" + indicator + "labels: " + pbt::str( graphLabels ) + "\n" + labels + "node labels: " + pbt::str( nodeLabels ) + " file " + pbt::str( nodeLabelFile ) + "\n" + nlabels + "node attributes: " + pbt::str( nodeAttributes ) + " column " + pbt::str( nodeColumn ) + "\n" + nattributes + "edge attributes: " + pbt::str( edgeAttributes ) + " column " + pbt::str( edgeColumn ) + "\n" + eattributes;
    c.input( in );
    interesting = interesting || ( graphs >= 2 && edges.size() >= 3 );

    reader.setSeparator( separator );
    option( c, k, graphLabels, [&] { reader.setReadGraphLabels( graphLabels ); } );
    option( c, k, !nodeLabels, [&] { reader.setReadNodeLabels( nodeLabels ); } );
    option( c, k, !nodeAttributes, [&] { reader.setReadNodeAttributes( nodeAttributes ); } );
    option( c, k, !edgeAttributes, [&] { reader.setReadEdgeAttributes( edgeAttributes ); } );
    option( c, k, nodeColumn == none, [&] { reader.setNodeAttributeIndex( nodeColumn ); } );
    option( c, k, edgeColumn == none, [&] { reader.setEdgeAttributeIndex( edgeColumn ); } );
    option( c, k, trimmed, [&] { reader.setTrimLines( trimmed ); } );

    std::vector<Complex<S>> complexes( c.draw( 3 ) );
    reader( prefix + "_A.txt", complexes );

    c.equal( complexes.size(), graphs, "number of graphs" );
    for( std::size_t i = 0; i < graphs; i++ )
    {
      compare( c, complexes[i], expected[i] );
      ordered( c, complexes[i] );
    }

    std::vector<std::string> got;
    reader.graphLabels( std::back_inserter( got ) );
    c.equal( got, graphLabels ? expectedLabels : std::vector<std::string>(), "graph labels" );
    got.clear();
    reader.nodeLabels( std::back_inserter( got ) );
    c.equal( got, nodeLabels && nodeLabelFile ? expectedNodeLabels : std::vector<std::string>(), "node labels" );
  }
  c.nontrivial( interesting );
}

LAW( sparse_matrices, 1200, 12000, "sequences of <=3 collections of <=5 graphs with <=16 nodes read with one object: arbitrary graph ids, isolated nodes, repeated edges, labels and attributes read or not, three separators; non-trivial: >=2 graphs and >=3 edges" )
{
  if( c.boolean() )
    sparse<S1>( c );
  else
    sparse<S2>( c );
}

// Dispatcher reuse ------------------------------------------------------------

LAW( dispatcher, 1500, 15000, "sequences of 2 to 4 small files of different formats read with one generic reader, compared with a fresh reader for each; non-trivial: >=2 formats" )
{
  using S = S1;
  io::SimplicialComplexReader reader;
  auto n = c.size( 2, 4 );
  std::set<std::size_t> formats;
  std::string in;
  std::string attribute = "label";
  for( std::size_t k = 0; k < n; k++ )
  {
    auto g = genGraph( c, 2, 4, 4 );
    auto format = c.size( 0, 2 );
    formats.insert( format );
    std::string text;
    Map expected;
    std::vector<std::string> labels;
    auto labelled = c.boolean();
    auto named = c.boolean();
    if( c.chance( 1, 3 ) )
    {
      attribute = c.boolean() ? "label" : "value";
      reader.setLabelAttribute( attribute );
    }
    c.equal( reader.labelAttribute(), attribute, "attribute for labels" );
    if( format == 0 )
    {
      for( auto&& e : g.edges )
      {
        auto weight = static_cast<double>( c.size( 0, 3 ) );
        text += blank( c ) + std::to_string( e.first ) + " " + std::to_string( e.second ) + ( weight > 0 ? " " + std::to_string( static_cast<int>( weight ) ) : "" ) + blank( c ) + "\n";
        expected[ { static_cast<unsigned>( e.first ) } ] = 0;
        expected[ { static_cast<unsigned>( e.second ) } ] = 0;
        expected[ sorted( static_cast<unsigned>( e.first ), static_cast<unsigned>( e.second ) ) ] = weight;
      }
    }
    else if( format == 1 )
    {
      text = "graph [\n";
      for( std::size_t i = 0; i < g.n; i++ )
      {
        text += "node [\nid " + std::to_string( i ) + "\n" + ( labelled ? "label \"v" + std::to_string( i ) + "\"\n" : "" ) + ( named ? "value " + std::to_string( i + 1 ) + "\n" : "" ) + "]\n";
        expected[ { static_cast<unsigned>( i ) } ] = named ? static_cast<double>( i + 1 ) : 0.0;
        if( attribute == "label" )
          labels.push_back( labelled ? "v" + std::to_string( i ) : "" );
        else
          labels.push_back( named ? std::to_string( i + 1 ) : "" );
      }
      for( auto&& e : g.edges )
      {
        text += "edge [\nsource " + std::to_string( e.first ) + "\ntarget " + std::to_string( e.second ) + "\n]\n";
        expected[ sorted( static_cast<unsigned>( e.first ), static_cast<unsigned>( e.second ) ) ] = named ? static_cast<double>( std::max( e.first, e.second ) + 1 ) : 0.0;
      }
      text += "]\n";
    }
    else
    {
      text = "*Vertices " + std::to_string( g.n ) + "\n";
      for( std::size_t i = 0; i < g.n; i++ )
      {
        if( labelled )
        {
          text += std::to_string( i + 1 ) + " \"w" + std::to_string( i ) + "\"\n";
          labels.push_back( "w" + std::to_string( i ) );
        }
        expected[ { static_cast<unsigned>( i + 1 ) } ] = 0;
      }
      text += "*Edges\n";
      for( auto&& e : g.edges )
      {
        text += std::to_string( e.first + 1 ) + " " + std::to_string( e.second + 1 ) + " 2\n";
        expected[ sorted( static_cast<unsigned>( e.first + 1 ), static_cast<unsigned>( e.second + 1 ) ) ] = 2;
      }
    }

    auto file = c.scratch() + "/file" + ( format == 0 ? ".txt" : format == 1 ? ".gml" : ".net" );
    put( file, text );
    in += "\n--- " + attribute + "\n" + text;
    c.input( in );
    c.nontrivial( formats.size() >= 2 );

    Complex<S> K;
    reader( file, K );
    compare( c, K, expected );
    c.equal( reader.labels(), labels, "labels" );
  }
}
