// flags: -I/usr/include/hdf5/serial /usr/lib/x86_64-linux-gnu/libtinyxml2.so.10.0.0 -Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial /usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5_cpp.so /usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so
// Readers terminate for every input: they either throw a standard exception
// or return an object that is consistent with its own queries. Memory errors,
// failed assertions, aborts and hangs are reported by the harness.
#include "bridge.hh"
#include "corrupt.hh"

#include <aleph/containers/PointCloud.hh>

#include <aleph/math/StepFunction.hh>

#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>
#include <aleph/persistenceDiagrams/io/JSON.hh>
#include <aleph/persistenceDiagrams/io/Raw.hh>

#include <aleph/topology/BoundaryMatrix.hh>
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>

#include <aleph/topology/io/AdjacencyMatrix.hh>
#include <aleph/topology/io/BipartiteAdjacencyMatrix.hh>
#include <aleph/topology/io/EdgeLists.hh>
#include <aleph/topology/io/FlexSpectrum.hh>
#include <aleph/topology/io/Function.hh>
#include <aleph/topology/io/GML.hh>
#include <aleph/topology/io/GraphML.hh>
#include <aleph/topology/io/HDF5.hh>
#include <aleph/topology/io/LexicographicTriangulation.hh>
#include <aleph/topology/io/Matrix.hh>
#include <aleph/topology/io/PLY.hh>
#include <aleph/topology/io/Pajek.hh>
#include <aleph/topology/io/SimplicialComplexReader.hh>
#include <aleph/topology/io/SparseAdjacencyMatrix.hh>
#include <aleph/topology/io/VTK.hh>

#include <aleph/topology/representations/List.hh>
#include <aleph/topology/representations/Set.hh>
#include <aleph/topology/representations/Vector.hh>

#include <cstdio>
#include <fstream>
#include <functional>
#include <sstream>

#include <sys/wait.h>
#include <unistd.h>


namespace io = aleph::topology::io;

using S = aleph::topology::Simplex<double, unsigned>;
using T = aleph::topology::Simplex<float, unsigned short>;
template <class S> using Complex = aleph::topology::SimplicialComplex<S>;

static void put( const std::string& file, const std::string& text )
{
  std::ofstream out( file, std::ios::binary );
  out.write( text.data(), static_cast<std::streamsize>( text.size() ) );
}

// Everything that can be asked about a complex has an answer
template <class S> static void consistent( pbt::Ctx& c, const Complex<S>& K )
{
  std::size_t n = 0;
  for( auto&& s : K )
  {
    ++n;
    std::size_t vertices = 0;
    for( auto&& v : s )
    {
      (void) v;
      ++vertices;
    }
    c.check( vertices > 0 && s.dimension() + 1 == vertices, "simplex whose dimension does not match its vertices" );
    c.check( K.contains( s ), "complex does not contain its own simplex" );
    c.check( K.find( s ) != K.end(), "complex does not find its own simplex" );
  }
  c.equal( n, K.size(), "number of simplices" );
  c.equal( K.empty(), n == 0, "emptiness" );
  if( n )
    (void) K.dimension();
  Complex<S> copy = K;
  c.equal( copy.size(), n, "size of copy" );
}

// Runs a reader; returns whether it accepted the input
static bool attempt( pbt::Ctx& c, const std::function<void()>& f )
{
  bool accepted = false;
  try
  {
    f();
    accepted = true;
  }
  catch( const pbt::Failure& )
  {
    throw;
  }
  catch( const std::exception& )
  {
  }
  catch( ... )
  {
    c.fail( "exception that is not a standard exception" );
  }
  c.label( accepted ? "accepted" : "rejected" );
  c.nontrivial( accepted );
  return accepted;
}

// --- one law per reader -----------------------------------------------

static const std::vector<std::string> edgeLists = { "1 2\n2 3\n3 1\n", "# comment\n1 2 0.5\n2 3 -1.5\n\n3 4 1e3\n", "a b 1\nb c 2\n", "1,2,3\n2,3,4\n", "1:2\n" };
static const std::vector<std::string> edgeWords = { "1 2\n", "a b\n", "#", "%", "\"", "*" };

LAW( edge_lists, 16000, 240000, "the file is accepted" )
{
  auto text = corrupt::file( c, edgeLists, edgeWords );
  auto mode = c.draw( 8 );
  c.input( corrupt::show( text ) );
  put( c.scratch() + "/e.txt", text );
  attempt( c, [&]
  {
    io::EdgeListReader reader;
    reader.setReadWeights( mode & 1 );
    reader.setTrimLines( mode & 2 );
    if( mode & 4 )
      reader.setSeparator( c.pick( std::vector<std::string>{ ",", ":", "[:space:]" } ) );
    Complex<S> K;
    reader( c.scratch() + "/e.txt", K );
    consistent( c, K );
    Complex<T> L;
    std::ifstream in( c.scratch() + "/e.txt" );
    reader( in, L );
    consistent( c, L );
  } );
}

static const std::vector<std::string> pajekFiles = { "*Vertices 3\n1 \"a\"\n2 \"b\"\n3 \"c\"\n*Edges\n1 2 0.5\n2 3 1.5\n", "*vertices 4\n*arcs\n1 2\n3 4 -2e-3\n", "% comment\n\n*Vertices 2\n" };
static const std::vector<std::string> pajekWords = { "*Vertices 2\n", "*Edges\n", "*Arcs\n", "*Network x\n", "1 2 3333333333333333333333333333333x\n", "%", "1 \"a\"\n" };

LAW( pajek, 12000, 160000, "the file is accepted" )
{
  auto text = corrupt::file( c, pajekFiles, pajekWords );
  // A file may announce any number of vertices, all of which are created
  std::string shortened;
  std::istringstream lines( text );
  std::string line;
  while( std::getline( lines, line ) )
    shortened += ( line.find( '*' ) != std::string::npos ? corrupt::shorten( line, 4 ) : line ) + "\n";
  text = shortened;
  c.input( corrupt::show( text ) );
  put( c.scratch() + "/p.net", text );
  attempt( c, [&]
  {
    io::PajekReader reader;
    Complex<S> K;
    reader( c.scratch() + "/p.net", K );
    consistent( c, K );
    (void) reader.getLabelMap();
    io::SimplicialComplexReader other;
    Complex<T> L;
    other( c.scratch() + "/p.net", L );
    consistent( c, L );
    (void) other.labels();
  } );
}

static const std::vector<std::string> gmlFiles = {
  "graph [\n  node [\n    id 1\n    label \"a\"\n    value 0.5\n  ]\n  node [\n    id 2\n    weight 2\n  ]\n  edge [\n    source 1\n    target 2\n    weight 3\n  ]\n]\n",
  "graph\n[\nnode\n[\nid x\n]\nnode\n[\nid y\n]\nedge\n[\nsource x\ntarget y\n]\n]\n",
  "Creator \"me\"\ngraph [\n directed 0\n comment hello\n node [\n id 0\n foo 7\n ]\n]\n" };
static const std::vector<std::string> gmlWords = { "graph [\n", "node [\n", "edge [\n", "]\n", "[\n", "graph\n", "node\n", "id 1\n", "id\n", "label \"x\"\n", "label\n", "source 1\n", "target 9\n", "value x\n", "weight 1\n" };

LAW( gml, 12000, 160000, "the file is accepted" )
{
  auto text = corrupt::file( c, gmlFiles, gmlWords );
  c.input( corrupt::show( text ) );
  put( c.scratch() + "/g.gml", text );
  attempt( c, [&]
  {
    io::GMLReader reader;
    Complex<S> K;
    reader( c.scratch() + "/g.gml", K );
    consistent( c, K );
    auto nodes = reader.getNodeAttributeNames();
    auto edges = reader.getEdgeAttributeNames();
    for( auto&& a : nodes )
      (void) reader.getNodeAttribute( a );
    for( auto&& a : edges )
      (void) reader.getEdgeAttribute( "1", "2", a );
    (void) reader.id_to_index<unsigned>();
    io::SimplicialComplexReader other;
    Complex<T> L;
    other( c.scratch() + "/g.gml", L );
    consistent( c, L );
    (void) other.labels();
  } );
}

static const std::vector<std::string> graphmlFiles = {
  "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<graphml xmlns=\"http://graphml.graphdrawing.org/xmlns\">\n<key id=\"d0\" for=\"node\" attr.name=\"weight\" attr.type=\"double\"/>\n<key id=\"d1\" for=\"edge\" attr.name=\"weight\" attr.type=\"double\"/>\n<graph id=\"G\" edgedefault=\"undirected\">\n<node id=\"n0\"><data key=\"d0\">1.5</data></node>\n<node id=\"n1\"><data key=\"d0\">2</data></node>\n<edge id=\"e0\" source=\"n0\" target=\"n1\"><data key=\"d1\">3</data></edge>\n</graph>\n</graphml>\n",
  "<graphml><graph><node id=\"a\"/><node id=\"b\"/><edge id=\"x\" source=\"a\" target=\"b\"/></graph></graphml>" };
static const std::vector<std::string> graphmlWords = { "<node id=\"n0\"/>", "<node/>", "<key/>", "<key id=\"x\" for=\"graph\"/>", "<key for=\"node\"/>", "<data key=\"d0\"/>", "<data/>", "<edge/>", "<edge id=\"q\" source=\"n0\" target=\"zz\"/>", "<![CDATA[", "<!--", "&amp;", "&#x0;", "</graph>" };

LAW( graphml, 12000, 160000, "the file is accepted" )
{
  auto text = corrupt::file( c, graphmlFiles, graphmlWords );
  auto mode = c.draw( 4 );
  c.input( corrupt::show( text ) );
  put( c.scratch() + "/g.graphml", text );
  attempt( c, [&]
  {
    io::GraphMLReader reader;
    reader.setReadNodeWeights( mode & 1 );
    reader.setReadEdgeWeights( mode & 2 );
    Complex<S> K;
    reader( c.scratch() + "/g.graphml", K );
    consistent( c, K );
    (void) reader.getNodeAttributeNames();
    (void) reader.getEdgeAttributeNames();
    (void) reader.id_to_index<unsigned>();
  } );
}

static const std::vector<std::string> matrices = { "1 2 3\n4 5 6\n7 8 9\n", "0 1\n1 0\n", "# comment\n0.5 nan\n\nnan -0.5\n", "1 2 3 4\n5 6 7 8\n", "7\n" };

LAW( matrix_files, 24000, 320000, "the file is accepted" )
{
  auto text = corrupt::file( c, matrices, { "1 2\n", "\n", "# x\n", "1\t2 3" } );
  auto mode = c.draw( 16 );
  c.input( corrupt::show( text ) );
  auto file = c.scratch() + "/m.txt";
  put( file, text );
  attempt( c, [&]
  {
    Complex<S> K;
    switch( mode & 3 )
    {
    case 0:
    {
      io::AdjacencyMatrixReader reader;
      reader.setIgnoreNaNs( mode & 4 );
      reader.setIgnoreZeroWeights( mode & 8 );
      reader( file, K );
      consistent( c, K );
      break;
    }
    case 1:
    {
      io::BipartiteAdjacencyMatrixReader reader;
      reader.setAssignMinimumVertexWeight( mode & 4 );
      reader.setAssignMinimumAbsoluteVertexWeight( mode & 8 );
      reader( file, K );
      consistent( c, K );
      break;
    }
    default:
    {
      io::MatrixReader reader;
      reader.addTriangles( mode & 4 );
      if( mode & 8 )
      {
        std::istringstream in( text );
        reader( in, K );
      }
      else
        reader( file, K );
      consistent( c, K );
      std::size_t vertices = 0;
      for( auto&& s : K )
        vertices += s.dimension() == 0;
      c.equal( vertices, reader.width() * reader.height(), "number of vertices of matrix" );
    }
    }
  } );
}

LAW( functions, 12000, 160000, "the file is accepted" )
{
  auto text = corrupt::file( c, { "0 1 2 3\n3 1 6 4\n", "1\n2\n3\n", "0.5 -1e3 7\n" }, { "1 2\n", "\n" } );
  c.input( corrupt::show( text ) );
  auto file = c.scratch() + "/f.txt";
  put( file, text );
  attempt( c, [&]
  {
    for( auto&& K : io::loadFunctions< Complex<S> >( file ) )
      consistent( c, K );
    aleph::topology::BoundaryMatrix< aleph::topology::representations::Vector<unsigned> > M;
    std::vector<double> values;
    io::loadFunction( file, M, values );
    c.equal( static_cast<std::size_t>( M.getNumColumns() ), values.size(), "columns of function" );
    for( unsigned j = 0; j < M.getNumColumns(); j++ )
      for( auto&& i : M.getColumn( j ) )
        c.check( i < j, "column refers to a later one" );
  } );
}

static const std::vector<std::string> vtkFiles = {
  "# vtk DataFile Version 3.0\nvtk output\nASCII\nDATASET STRUCTURED_GRID\nDIMENSIONS 3 2 1\nPOINTS 6 float\n0 0 0 1 0 0 2 0 0\n0 1 0 1 1 0 2 1 0\nPOINT_DATA 6\nSCALARS scalars float\nLOOKUP_TABLE default\n1 2 3 4 5 6\n",
  "# vtk DataFile Version 2.0\n\nASCII\nDATASET STRUCTURED_GRID\nDIMENSIONS 2 2 2\nPOINTS 8 double\n0 0 0\n1 0 0\n0 1 0\n1 1 0\n0 0 1\n1 0 1\n0 1 1\n1 1 1\nPOINT_DATA 8\nSCALARS f double 1\nLOOKUP_TABLE default\n1 2\n3 4\n5 6\n7 8\n" };

LAW( structured_grids, 12000, 160000, "the file is accepted" )
{
  auto text = corrupt::file( c, vtkFiles, { "BINARY\n", "DIMENSIONS 4294967296 4294967296 1\n", "DIMENSIONS 0 0 0\n", "DIMENSIONS 2 1 1\n", "POINTS 0 float\n", "POINTS 18446744073709551615 int\n", "POINT_DATA 2\n", "SCALARS x int 3\n", "LOOKUP_TABLE none\n", "1 2 3\n" } );
  c.input( corrupt::show( text ) );
  put( c.scratch() + "/v.vtk", text );
  attempt( c, [&]
  {
    io::VTKStructuredGridReader reader;
    Complex<S> K;
    reader( c.scratch() + "/v.vtk", K );
    consistent( c, K );
    (void) reader.scalarsName();
    (void) reader.scalarsType();
    (void) reader.dataTypeSize();
  } );
}

static const std::vector<std::string> plyFiles = {
  "ply\nformat ascii 1.0\ncomment test\nelement vertex 4\nproperty float x\nproperty float y\nproperty float z\nproperty float quality\nelement face 2\nproperty list uchar int vertex_index\nend_header\n0 0 0 1\n1 0 0 2\n0 1 0 3\n1 1 1 4\n3 0 1 2\n3 1 2 3\n",
  std::string( "ply\nformat binary_little_endian 1.0\nelement vertex 1\nproperty double x\nproperty float y\nproperty short z\nelement face 1\nproperty list uchar int vertex_index\nend_header\n" ) + "abcdefghijklmnop",
  "ply\nformat binary_big_endian 1.0\nelement vertex 1\nproperty double x\nproperty char y\nelement face 1\nproperty list uchar int vertex_index\nend_header\nabcdefghij" };

LAW( meshes, 12000, 160000, "the file is accepted" )
{
  auto text = corrupt::file( c, plyFiles, { "element vertex 99999999999\n", "element face 0\n", "element edge 2\n", "property", "property list\n", "property quux z\n", "format", "end_header\n", "3 0 1 9\n", "3 1 1 1\n", "4 0 1 2 3\n" } );
  auto property = c.pick( std::vector<std::string>{ "z", "quality", "", "vertex_index" } );
  c.input( "property '" + property + "'\n" + corrupt::show( text ) );
  put( c.scratch() + "/m.ply", text );
  attempt( c, [&]
  {
    io::PLYReader reader;
    reader.setDataProperty( property );
    Complex<S> K;
    reader( c.scratch() + "/m.ply", K );
    consistent( c, K );
  } );
}

LAW( triangulations, 16000, 240000, "the file is accepted" )
{
  auto text = corrupt::file( c, { "manifold_2_4_1=[[1,2,3],[1,2,4],[1,3,4],[2,3,4]]\n", "a=\n[[1,2],\n[2,3]]\n# comment\nb=[[1]]\n" }, { "=", "a=", "[[", "]]", "[1,2]", "],[", "[]" } );
  c.input( corrupt::show( text ) );
  put( c.scratch() + "/t.txt", text );
  attempt( c, [&]
  {
    io::LexicographicTriangulationReader reader;
    std::vector< Complex<S> > Ks;
    reader( c.scratch() + "/t.txt", Ks );
    for( auto&& K : Ks )
      consistent( c, K );
  } );
}

LAW( spectra, 12000, 160000, "the file is accepted" )
{
  auto text = corrupt::file( c, { "# m/z\n100.5 2\n101 4\n102 1\n", "1 2\n" }, { "1 2\n", "\n", "1\n" } );
  auto normalise = c.boolean();
  c.input( corrupt::show( text ) );
  put( c.scratch() + "/s.txt", text );
  attempt( c, [&]
  {
    io::FlexSpectrumReader reader;
    reader.normalize( normalise );
    Complex<S> K;
    reader( c.scratch() + "/s.txt", K );
    consistent( c, K );
    c.equal( reader.getIndexToValueMap().size(), reader.getIndexToIntensityMap().size(), "positions and intensities" );
  } );
}

LAW( sparse_matrices, 12000, 160000, "the files are accepted" )
{
  auto corruptible = [&] ( const std::string& base ) { return c.chance( 1, 3 ) ? corrupt::file( c, { base }, { "1", "2\n", "1,2\n", "9,9\n" } ) : base; };
  auto A = corruptible( "1,2\n2,3\n4,5\n" );
  auto indicator = corruptible( "1\n1\n1\n2\n2\n" );
  auto labels = corruptible( "0\n1\n" );
  auto nodeLabels = corruptible( "a\nb\nc\nd\ne\n" );
  auto nodes = corruptible( "1,2\n2,3\n3,4\n4,5\n5,6\n" );
  auto edges = corruptible( "1\n2\n3\n" );
  auto mode = c.draw( 64 );
  c.input( corrupt::show( A ) + "--\n" + corrupt::show( indicator ) + "--\n" + corrupt::show( labels ) + "--\n" + corrupt::show( nodeLabels ) + "--\n" + corrupt::show( nodes ) + "--\n" + corrupt::show( edges ) );
  auto prefix = c.scratch() + "/X";
  put( prefix + "_A.txt", A );
  put( prefix + "_graph_indicator.txt", indicator );
  put( prefix + "_graph_labels.txt", labels );
  put( prefix + "_node_labels.txt", nodeLabels );
  put( prefix + "_node_attributes.txt", nodes );
  put( prefix + "_edge_attributes.txt", edges );
  attempt( c, [&]
  {
    io::SparseAdjacencyMatrixReader reader;
    reader.setReadGraphLabels( mode & 1 );
    reader.setReadNodeLabels( mode & 2 );
    reader.setReadNodeAttributes( mode & 4 );
    reader.setReadEdgeAttributes( mode & 8 );
    if( mode & 16 )
    {
      reader.setNodeAttributeIndex( 1 );
      reader.setEdgeAttributeIndex( 0 );
    }
    reader.setTrimLines( mode & 32 );
    std::vector< Complex<S> > Ks;
    reader( prefix + "_A.txt", Ks );
    for( auto&& K : Ks )
      consistent( c, K );
    std::vector<std::string> graphLabels;
    reader.graphLabels( std::back_inserter( graphLabels ) );
    std::vector<std::string> labelsOfNodes;
    reader.nodeLabels( std::back_inserter( labelsOfNodes ) );
  } );
}

static const std::vector<std::string> jsonFiles = {
  "{\n\"diagrams\": [\n{ \"betti\": 1, \"dimension\": 0, \"size\": 2, \"diagram\": [ [\"0\",\"1\"], [\"0\",\"inf\"] ] },\n{ \"betti\": 0, \"dimension\": 1, \"name\": \"x\", \"size\": 0, \"diagram\": [] }\n]\n}\n" };

LAW( json, 24000, 320000, "the file is accepted" )
{
  auto text = corrupt::file( c, jsonFiles, { "[1,2]", "{}", "[]", "null", "\"diagrams\":", "\"size\": -1", "[\"0\"]", "1.5", "\"1\"" } );
  c.input( corrupt::show( text ) );
  put( c.scratch() + "/d.json", text );
  attempt( c, [&]
  {
    auto Ds = aleph::io::readJSON<double>( c.scratch() + "/d.json" );
    for( auto&& D : Ds )
    {
      std::size_t n = 0;
      for( auto&& p : D )
      {
        (void) p;
        ++n;
      }
      c.equal( n, D.size(), "number of points" );
      c.check( D.betti() <= n, "Betti number" );
    }
  } );
}

LAW( diagrams, 16000, 240000, "the file is accepted" )
{
  auto text = corrupt::file( c, { "0 1\n0 inf\n# comment\n0.5 -1e3\n", "\n1\t2\n" }, { "1 2\n", "inf inf\n", " \n", "1\n" } );
  c.input( corrupt::show( text ) );
  put( c.scratch() + "/d.txt", text );
  attempt( c, [&]
  {
    auto D = aleph::io::load<double>( c.scratch() + "/d.txt" );
    std::size_t n = 0;
    for( auto&& p : D )
    {
      (void) p;
      ++n;
    }
    c.equal( n, D.size(), "number of points" );
    c.check( D.betti() <= n, "Betti number" );
  } );
}

LAW( point_clouds, 16000, 240000, "the file is accepted" )
{
  auto text = corrupt::file( c, { "0 1 2\n3 4 5\n", "1,2\n3,4\n# comment\n\n5,6\n", "1;2:3\n" }, { "1 2\n", "1 2 3\n", ",", "#\n", ",1\n" } );
  c.input( corrupt::show( text ) );
  put( c.scratch() + "/c.txt", text );
  attempt( c, [&]
  {
    auto P = aleph::containers::load<double>( c.scratch() + "/c.txt" );
    c.equal( P.empty(), P.size() == 0, "emptiness" );
    for( std::size_t i = 0; i < P.size(); i++ )
      c.equal( P[i].size(), P.dimension(), "coordinates of point" );
    std::istringstream in( text );
    auto Q = aleph::containers::load<float>( in );
    c.equal( P.size(), Q.size(), "number of points in different precision" );
  } );
}

template <class R> static void boundary( pbt::Ctx& c, const std::string& file )
{
  auto M = aleph::topology::BoundaryMatrix<R>::load( file );
  for( typename R::Index j = 0; j < M.getNumColumns(); j++ )
  {
    auto column = M.getColumn( j );
    auto maximum = M.getMaximumIndex( j );
    c.equal( maximum.second, !column.empty(), "column with a maximum index" );
    if( maximum.second )
      c.equal( maximum.first, *std::max_element( column.begin(), column.end() ), "maximum index" );
    (void) M.getDimension( j );
  }
  (void) M.getDimension();
}

LAW( boundary_matrices, 16000, 240000, "the file is accepted" )
{
  auto text = corrupt::file( c, { "0\n0\n1 0 1\n", "# comment\n0\n0\n0\n1 0 1\n1 0 2\n1 1 2\n2 3 4 5\n", " 0 \n\n 0\n 1 1 0\n" }, { "1 0 1\n", "0\n", "#\n", " #\n" } );
  c.input( corrupt::show( text ) );
  auto file = c.scratch() + "/b.txt";
  put( file, text );
  auto which = c.draw( 3 );
  attempt( c, [&]
  {
    if( which == 0 )
      boundary< aleph::topology::representations::Vector<unsigned> >( c, file );
    else if( which == 1 )
      boundary< aleph::topology::representations::List<unsigned> >( c, file );
    else
      boundary< aleph::topology::representations::Set<unsigned> >( c, file );
  } );
}

LAW( step_functions, 16000, 240000, "a function is not empty" )
{
  auto text = corrupt::file( c, { "0\t1\n1\t1\n\n1\t2\n3\t2\n", "0 1\n2 1\n" }, { "0 1\n1 1\n", "5 2\n3 2\n", "\n" } );
  c.input( corrupt::show( text ) );
  attempt( c, [&]
  {
    aleph::math::StepFunction<double> f;
    std::istringstream in( text );
    in >> f;
    std::vector<double> D;
    f.domain( std::back_inserter( D ) );
    for( auto&& x : D )
      (void) f( x );
    (void) f.max();
    (void) f.sup();
    (void) f.integral();
    c.nontrivial( !D.empty() );
  } );
}

// --- paths that cannot be opened, directories and empty files ----------

LAW( paths, 2400, 12000, "a path that does not exist or that is a directory" )
{
  auto kind = c.draw( 3 );
  auto reader = c.draw( 18 );
  static const std::vector<std::string> extensions = { ".txt", ".net", ".gml", ".graphml", ".vtk", ".ply", ".h5", "" };
  auto extension = c.pick( extensions );
  auto path = c.scratch() + "/path" + std::to_string( kind ) + extension;
  std::remove( path.c_str() );
  if( kind == 0 )
    put( path, "" );
  else if( kind == 1 )
  {
    if( ::system( ( "mkdir -p '" + path + "'" ).c_str() ) != 0 )
      return;
  }
  c.input( "kind " + std::to_string( kind ) + ", reader " + std::to_string( reader ) + ", " + extension );
  auto accepted = attempt( c, [&]
  {
    Complex<S> K;
    std::vector< Complex<S> > Ks;
    switch( reader )
    {
    case 0: io::EdgeListReader()( path, K ); break;
    case 1: io::PajekReader()( path, K ); break;
    case 2: io::GMLReader()( path, K ); break;
    case 3: io::GraphMLReader()( path, K ); break;
    case 4: io::AdjacencyMatrixReader()( path, K ); break;
    case 5: io::BipartiteAdjacencyMatrixReader()( path, K ); break;
    case 6: io::MatrixReader()( path, K ); break;
    case 7: io::VTKStructuredGridReader()( path, K ); break;
    case 8: io::PLYReader()( path, K ); break;
    case 9: io::LexicographicTriangulationReader()( path, Ks ); break;
    case 10: io::FlexSpectrumReader()( path, K ); break;
    case 11: io::SparseAdjacencyMatrixReader()( path, Ks ); break;
    case 12: io::HDF5SimpleDataSpaceReader()( path, K ); break;
    case 13: io::SimplicialComplexReader()( path, K ); break;
    case 14: Ks = io::loadFunctions< Complex<S> >( path ); break;
    case 15: (void) aleph::io::readJSON<double>( path ); break;
    case 16: (void) aleph::io::load<double>( path ); break;
    default: c.check( aleph::containers::load<double>( path ).empty(), "points of a missing file" );
    }
    // Nothing can be read from any of these
    c.check( K.empty() && Ks.empty(), "simplices of a missing or empty file" );
  } );
  if( kind == 2 )
    c.check( !accepted, "missing file is not reported" );
  c.nontrivial( kind != 0 );
}

// --- files that contradict themselves ----------------------------------

namespace
{

struct Wrong
{
  std::string name;
  std::string text;
  std::function<void( const std::string& )> read; // expects the name of a file
};

std::string join( const std::vector<std::string>& lines )
{
  std::string text;
  for( auto&& l : lines )
    text += l + "\n";
  return text;
}

template <class Reader> std::function<void( const std::string& )> with()
{
  return [] ( const std::string& file ) { Complex<S> K; Reader()( file, K ); };
}

std::string number( pbt::Ctx& c )
{
  return std::to_string( c.size( 0, 9 ) ) + ( c.boolean() ? "" : "." + std::to_string( c.draw( 10 ) ) );
}

std::vector<std::string> rows( pbt::Ctx& c, std::size_t h, std::size_t w )
{
  std::vector<std::string> lines;
  for( std::size_t i = 0; i < h; i++ )
  {
    std::string l;
    for( std::size_t j = 0; j < w; j++ )
      l += ( j ? " " : "" ) + number( c );
    lines.push_back( l );
  }
  return lines;
}

Wrong wrongMatrix( pbt::Ctx& c )
{
  auto reader = c.draw( 3 );
  auto h = c.size( 2, 5 );
  auto w = reader == 0 ? h : c.size( 1, 5 );
  auto lines = rows( c, h, w );
  auto i = c.draw( h );
  Wrong result;
  switch( c.draw( 3 ) )
  {
  case 0:
    result.name = "row with an additional entry";
    lines[i] += " " + number( c );
    break;
  case 1:
    result.name = "row with a missing entry";
    if( w > 1 )
      lines[i] = lines[i].substr( 0, lines[i].rfind( ' ' ) );
    else
      lines[i] += " 1";
    break;
  default:
    result.name = "entry that is not a number";
    lines[i] = ( w > 1 ? lines[i].substr( 0, lines[i].rfind( ' ' ) + 1 ) : std::string() ) + c.pick( std::vector<std::string>{ "x", "one", "--", "=" } );
  }
  result.text = join( lines );
  result.read = reader == 0 ? with<io::AdjacencyMatrixReader>() : reader == 1 ? with<io::BipartiteAdjacencyMatrixReader>() : with<io::MatrixReader>();
  return result;
}

Wrong wrongEdgeList( pbt::Ctx& c )
{
  std::vector<std::string> lines;
  auto n = c.size( 1, 6 );
  for( std::size_t i = 0; i < n; i++ )
    lines.push_back( std::to_string( i ) + " " + std::to_string( i + 1 ) );
  lines[ c.draw( n ) ] = std::to_string( c.draw( 10 ) );
  return { "edge with a single vertex", join( lines ), with<io::EdgeListReader>() };
}

Wrong wrongGML( pbt::Ctx& c )
{
  auto n = c.size( 2, 5 );
  std::vector<std::string> lines = { "graph [" };
  std::vector<std::size_t> nodes;
  for( std::size_t i = 0; i < n; i++ )
  {
    nodes.push_back( lines.size() );
    lines.insert( lines.end(), { "node [", "id " + std::to_string( i ), "]" } );
  }
  auto edge = lines.size();
  lines.insert( lines.end(), { "edge [", "source 0", "target " + std::to_string( n - 1 ), "]", "]" } );
  std::string name;
  auto i = c.draw( n );
  switch( c.draw( 4 ) )
  {
  case 0:
    name = "more closing than opening brackets";
    lines.push_back( "]" );
    break;
  case 1:
    name = "duplicate identifier of a node";
    lines[ nodes[i] + 1 ] = "id " + std::to_string( ( i + 1 ) % n );
    break;
  case 2:
    name = "edge with an unknown source";
    lines[ edge + 1 ] = "source " + std::to_string( n + c.draw( 5 ) );
    break;
  default:
    name = "edge with an unknown target";
    lines[ edge + 2 ] = "target " + std::to_string( n + c.draw( 5 ) );
  }
  return { name, join( lines ), with<io::GMLReader>() };
}

Wrong wrongGraphML( pbt::Ctx& c )
{
  auto n = c.size( 2, 5 );
  std::vector<std::string> head = { "<?xml version=\"1.0\"?>", "<graphml>", "<key id=\"d0\" for=\"node\" attr.name=\"weight\" attr.type=\"double\"/>", "<key id=\"d1\" for=\"edge\" attr.name=\"weight\" attr.type=\"double\"/>", "<graph id=\"G\" edgedefault=\"undirected\">" };
  std::vector<std::string> nodes, edges;
  for( std::size_t i = 0; i < n; i++ )
    nodes.push_back( "<node id=\"n" + std::to_string( i ) + "\"><data key=\"d0\">" + number( c ) + "</data></node>" );
  for( std::size_t i = 0; i + 1 < n; i++ )
    edges.push_back( "<edge id=\"e" + std::to_string( i ) + "\" source=\"n" + std::to_string( i ) + "\" target=\"n" + std::to_string( i + 1 ) + "\"><data key=\"d1\">" + number( c ) + "</data></edge>" );
  std::vector<std::string> tail = { "</graph>", "</graphml>" };
  std::string name;
  auto& node = nodes[ c.draw( nodes.size() ) ];
  auto& edge = edges[ c.draw( edges.size() ) ];
  switch( c.draw( 12 ) )
  {
  case 0: name = "other root element"; head[1] = "<graphs>"; tail[1] = "</graphs>"; break;
  case 1: name = "no graph"; head[4] = ""; tail[0] = ""; nodes.clear(); edges.clear(); break;
  case 2: name = "key without identifier"; head[2] = "<key for=\"node\" attr.name=\"weight\" attr.type=\"double\"/>"; break;
  case 3: name = "key without name"; head[2] = "<key id=\"d0\" for=\"node\" attr.type=\"double\"/>"; break;
  case 4: name = "node without identifier"; node = "<node/>"; break;
  case 5: name = "edge without source"; edge = "<edge id=\"e\" target=\"n0\"/>"; break;
  case 6: name = "edge without target"; edge = "<edge id=\"e\" source=\"n0\"/>"; break;
  case 7: name = "edge with an unknown source"; edge = "<edge id=\"e\" source=\"m0\" target=\"n0\"/>"; break;
  case 8: name = "edge with an unknown target"; edge = "<edge id=\"e\" source=\"n0\" target=\"m0\"/>"; break;
  case 9: name = "data without key"; node = "<node id=\"z\"><data>1</data></node>"; break;
  case 10: name = "weight of a node that is not a number"; node = "<node id=\"n0\"><data key=\"d0\">heavy</data></node>"; break;
  default: name = "weight of an edge that is not a number"; edge = "<edge id=\"e\" source=\"n0\" target=\"n1\"><data key=\"d1\">heavy</data></edge>"; break;
  }
  if( name == "weight of a node that is not a number" )
    nodes = { node, "<node id=\"n1\"/>" }, edges.clear();
  return { name, join( head ) + join( nodes ) + join( edges ) + join( tail ), with<io::GraphMLReader>() };
}

Wrong wrongPajek( pbt::Ctx& c )
{
  auto n = c.size( 2, 5 );
  std::vector<std::string> lines = { "*Vertices " + std::to_string( n ) };
  for( std::size_t i = 1; i <= n; i++ )
    lines.push_back( std::to_string( i ) + " \"v" + std::to_string( i ) + "\"" );
  lines.push_back( "*Edges" );
  for( std::size_t i = 1; i < n; i++ )
    lines.push_back( std::to_string( i ) + " " + std::to_string( i + 1 ) );
  std::string name;
  auto i = c.draw( n );
  auto& edge = lines[ n + 2 + c.draw( n - 1 ) ];
  switch( c.draw( 4 ) )
  {
  case 0: name = "number of vertices that is not a number"; lines[0] = "*Vertices many"; break;
  case 1: name = "duplicate identifier of a vertex"; lines[ 1 + i ] = std::to_string( 1 + ( i + 1 ) % n ) + " \"w\""; break;
  case 2: name = "identifier that is not a number"; lines[ 1 + i ] = "v \"w\""; break;
  default: name = "edge with a single vertex"; edge = "1"; break;
  }
  return { name, join( lines ), with<io::PajekReader>() };
}

Wrong wrongMesh( pbt::Ctx& c )
{
  auto n = c.size( 3, 6 );
  auto m = c.size( 1, 4 );
  std::vector<std::string> head = { "ply", "format ascii 1.0", "element vertex " + std::to_string( n ), "property float x", "property float y", "property float z", "element face " + std::to_string( m ), "property list uchar int vertex_index", "end_header" };
  auto vertices = rows( c, n, 3 );
  std::vector<std::string> faces;
  for( std::size_t i = 0; i < m; i++ )
    faces.push_back( "3 " + std::to_string( i % n ) + " " + std::to_string( ( i + 1 ) % n ) + " " + std::to_string( ( i + 2 ) % n ) );
  std::vector<std::string> indices = { std::to_string( c.draw( n ) ), "", "" };
  std::string name;
  auto& face = faces[ c.draw( m ) ];
  auto beyond = std::to_string( n + c.draw( 3 ) );
  std::vector<std::string> entries = { "0", "1", "2" };
  auto at = c.draw( 3 );
  switch( c.draw( 12 ) )
  {
  case 0: name = "other magic number"; head[0] = "plx"; break;
  case 1: name = "unknown format"; head[1] = "format ascii 2.0"; break;
  case 2: name = "missing format"; head[1] = "comment"; break;
  case 3: name = "face that refers to a missing vertex"; entries[at] = beyond; face = "3 " + entries[0] + " " + entries[1] + " " + entries[2]; break;
  case 4: name = "face with a repeated vertex"; entries[at] = entries[ ( at + 1 ) % 3 ]; face = "3 " + entries[0] + " " + entries[1] + " " + entries[2]; break;
  case 5: name = "face with too few entries"; face = "3 0 1"; break;
  case 6: name = "more faces announced than present"; faces.pop_back(); break;
  case 7: name = "face that is not a triangle"; face = "4 0 1 2 0"; break;
  case 8: name = "no faces announced"; head[6] = "element face 0"; faces.clear(); break;
  case 9: name = "number of vertices that is not a number"; head[2] = "element vertex many"; break;
  case 10: name = "property of an unknown type"; head[4] = "property colour y"; break;
  default: name = "missing coordinate"; vertices[ c.draw( n ) ] = "1 2"; break;
  }
  return { name, join( head ) + join( vertices ) + join( faces ), with<io::PLYReader>() };
}

Wrong wrongGrid( pbt::Ctx& c )
{
  auto nx = c.size( 2, 3 ), ny = c.size( 1, 3 ), nz = c.size( 1, 2 );
  auto n = nx * ny * nz;
  std::vector<std::string> head = { "# vtk DataFile Version 3.0", "title", "ASCII", "DATASET STRUCTURED_GRID", "DIMENSIONS " + std::to_string( nx ) + " " + std::to_string( ny ) + " " + std::to_string( nz ), "POINTS " + std::to_string( n ) + " float" };
  auto points = rows( c, n, 3 );
  std::vector<std::string> attributes = { "POINT_DATA " + std::to_string( n ), "SCALARS f float 1", "LOOKUP_TABLE default" };
  auto values = rows( c, n, 1 );
  std::string name;
  switch( c.draw( 8 ) )
  {
  case 0: name = "number of points that contradicts the dimensions"; head[5] = "POINTS " + std::to_string( n + 1 ) + " float"; points.push_back( "0 0 0" ); break;
  case 1: name = "number of attributes that contradicts the number of points"; attributes[0] = "POINT_DATA " + std::to_string( n + 1 ); values.push_back( "0" ); break;
  case 2: name = "missing value"; values.pop_back(); break;
  case 3: name = "additional value"; values.push_back( number( c ) ); break;
  case 4: name = "several components"; attributes[1] = "SCALARS f float 2"; break;
  case 5: name = "other lookup table"; attributes[2] = "LOOKUP_TABLE rainbow"; break;
  case 6: name = "binary format"; head[2] = "BINARY"; break;
  default: name = "dimensions that contradict the number of points"; head[4] = "DIMENSIONS " + std::to_string( nx + 1 ) + " " + std::to_string( ny ) + " " + std::to_string( nz ); break;
  }
  return { name, join( head ) + join( points ) + join( attributes ) + join( values ), with<io::VTKStructuredGridReader>() };
}

Wrong wrongSparse( pbt::Ctx& c )
{
  auto n = c.size( 2, 4 ); // nodes of each of two graphs
  std::vector<std::string> edges, indicator, labels = { "1", "-1" }, attributes;
  for( std::size_t g = 0; g < 2; g++ )
    for( std::size_t i = 1; i <= n; i++ )
    {
      indicator.push_back( std::to_string( g + 1 ) );
      attributes.push_back( number( c ) );
      if( i < n )
        edges.push_back( std::to_string( g * n + i ) + ", " + std::to_string( g * n + i + 1 ) );
    }
  std::string name;
  bool withIndicator = true, withLabels = true, withAttributes = true, readAttributes = c.boolean();
  auto& edge = edges[ c.draw( edges.size() ) ];
  switch( c.draw( 9 ) )
  {
  case 0: name = "missing indicator file"; withIndicator = false; break;
  case 1: name = "missing graph labels"; withLabels = false; break;
  case 2: name = "missing node attributes"; withAttributes = false; readAttributes = true; break;
  case 3: name = "edge between different graphs"; edge = "1, " + std::to_string( n + 1 ); break;
  case 4: name = "edge with a single node"; edge = "1"; break;
  case 5: name = "edge with three nodes"; edge = "1, 2, 3"; break;
  case 6: name = "node without a graph"; indicator.pop_back(); break;
  case 7: name = "graph that is not a number"; indicator[ c.draw( indicator.size() ) ] = "first"; break;
  default: name = "fewer attributes than nodes"; attributes.pop_back(); readAttributes = true; break;
  }
  auto prefix = c.scratch() + "/wrong";
  return { name, join( edges ) + "--- indicator\n" + join( indicator ) + "--- attributes\n" + join( attributes ),
    [=] ( const std::string& )
    {
      auto file = [&] ( const std::string& suffix, bool present, const std::vector<std::string>& lines )
      {
        if( present )
          put( prefix + suffix, join( lines ) );
        else
          std::remove( ( prefix + suffix ).c_str() );
      };
      file( "_A.txt", true, edges );
      file( "_graph_indicator.txt", withIndicator, indicator );
      file( "_graph_labels.txt", withLabels, labels );
      file( "_node_attributes.txt", withAttributes, attributes );
      io::SparseAdjacencyMatrixReader reader;
      reader.setReadNodeAttributes( readAttributes );
      reader.setNodeAttributeIndex( 0 );
      std::vector< Complex<S> > Ks;
      reader( prefix + "_A.txt", Ks );
    } };
}

Wrong wrongJSON( pbt::Ctx& c )
{
  auto n = c.size( 1, 4 );
  std::string points;
  for( std::size_t i = 0; i < n; i++ )
    points += std::string( i ? ", " : "" ) + "[\"" + number( c ) + "\", \"1" + number( c ) + "\"]";
  std::string betti = "0", size = std::to_string( n ), key = "diagrams", array = "diagram";
  std::string name;
  bool truncated = false;
  switch( c.draw( 7 ) )
  {
  case 0: name = "other number of points"; size = std::to_string( c.boolean() ? n + 1 : n - 1 ); break;
  case 1: name = "other Betti number"; betti = "1"; break;
  case 2: name = "no array of diagrams"; key = "diagram"; break;
  case 3: name = "no points"; array = "points"; break;
  case 4: name = "point with a single coordinate"; points += ", [\"1\"]"; size = std::to_string( n + 1 ); break;
  case 5: name = "point that is not an array"; points += ", 7"; size = std::to_string( n + 1 ); break;
  default: name = "truncated file"; truncated = true;
  }
  auto text = "{ \"" + key + "\": [ { \"betti\": " + betti + ", \"dimension\": 0, \"size\": " + size + ", \"" + array + "\": [" + points + "] } ] }\n";
  if( truncated )
    text = text.substr( 0, c.draw( text.size() - 2 ) );
  return { name, text, [] ( const std::string& file ) { (void) aleph::io::readJSON<double>( file ); } };
}

Wrong wrongDiagram( pbt::Ctx& c )
{
  auto lines = rows( c, c.size( 1, 5 ), 2 );
  lines[ c.draw( lines.size() ) ] = number( c );
  return { "point with a single coordinate", join( lines ), [] ( const std::string& file ) { (void) aleph::io::load<double>( file ); } };
}

} // namespace

LAW( contradictions, 12000, 120000, "files that are well-formed except for one contradiction between their header, their contents and their references, or one entry that is not a number, in ten formats; non-trivial: more than one line" )
{
  Wrong w;
  switch( c.draw( 10 ) )
  {
  case 0: w = wrongMatrix( c ); break;
  case 1: w = wrongEdgeList( c ); break;
  case 2: w = wrongGML( c ); break;
  case 3: w = wrongGraphML( c ); break;
  case 4: w = wrongPajek( c ); break;
  case 5: w = wrongMesh( c ); break;
  case 6: w = wrongGrid( c ); break;
  case 7: w = wrongSparse( c ); break;
  case 8: w = wrongJSON( c ); break;
  default: w = wrongDiagram( c ); break;
  }
  c.input( w.name + "\n" + w.text );
  auto file = c.scratch() + "/wrong";
  put( file, w.text );
  auto accepted = attempt( c, [&] { w.read( file ); } );
  c.check( !accepted, "the file is accepted: " + w.name );
  c.label( w.name );
  c.nontrivial( std::count( w.text.begin(), w.text.end(), '\n' ) > 1 );
}

// --- HDF5 files ---------------------------------------------------------

LAW( hierarchical_data, 2400, 16000, "the file has the right structure" )
{
  auto file = c.scratch() + "/h.h5";
  std::remove( file.c_str() );
  auto rank = static_cast<int>( c.size( 0, 3 ) );
  auto type = c.draw( 4 );
  auto name = c.pick( std::vector<std::string>{ "YField", "other" } );
  auto bytes = c.chance( 1, 4 );
  std::vector<hsize_t> extents;
  std::size_t n = 1;
  for( int i = 0; i < rank; i++ )
  {
    extents.push_back( static_cast<hsize_t>( c.size( 0, 4 ) ) );
    n *= extents.back();
  }
  if( bytes )
    put( file, corrupt::bytes( c, { "\x89HDF\r\n\x1a\n" } ) );
  else
  {
    H5::H5File f( file, H5F_ACC_TRUNC );
    auto space = rank == 0 ? H5::DataSpace( H5S_SCALAR ) : H5::DataSpace( rank, extents.data() );
    std::vector<double> values( n + 1, 1.0 );
    const H5::PredType* types[] = { &H5::PredType::NATIVE_DOUBLE, &H5::PredType::NATIVE_FLOAT, &H5::PredType::NATIVE_INT, &H5::PredType::STD_U8BE };
    auto d = f.createDataSet( name, *types[type], space );
    if( n )
      d.write( values.data(), H5::PredType::NATIVE_DOUBLE );
  }
  c.input( "rank " + pbt::str( rank ) + ", extents " + pbt::str( extents ) + ", type " + pbt::str( type ) + ", name " + name + ( bytes ? ", bytes" : "" ) );
  H5::Exception::dontPrint();
  attempt( c, [&]
  {
    io::HDF5SimpleDataSpaceReader reader;
    Complex<S> K;
    reader( file, K );
    consistent( c, K );
    c.check( !bytes, "arbitrary bytes are accepted" );
  } );
}

// --- long lines ----------------------------------------------------------

// Runs a function in a process of its own and returns whether that process
// survives.
static bool survives( const std::function<void()>& f )
{
  std::fflush( nullptr );
  auto pid = fork();
  if( pid == 0 )
  {
    alarm( 120 );
    if( !std::freopen( "/dev/null", "w", stderr ) )
      _exit( 3 );
    try
    {
      f();
    }
    catch( const std::exception& )
    {
    }
    _exit( 0 );
  }
  int status = 0;
  waitpid( pid, &status, 0 );
  return WIFEXITED( status ) && WEXITSTATUS( status ) == 0;
}

LAW( long_lines, 160, 1200, "a line of at least four thousand characters" )
{
  auto length = c.chance( 1, 2 ) ? c.size( 100, 3000 ) : c.size( 4000, 30000 );
  auto reader = c.draw( 7 );
  auto filler = c.pick( std::vector<std::string>{ "x", "1", " x", " 1", "\xff", "1." } );
  std::string line;
  while( line.size() < length )
    line += filler;
  c.input( "reader " + pbt::str( reader ) + ", " + pbt::str( length ) + " characters of '" + corrupt::show( filler ) + "'" );
  auto file = c.scratch() + "/l.txt";
  std::string text;
  switch( reader )
  {
  case 0: text = "1 2\n" + line + " " + line + "\n"; break;
  case 1: text = "*Vertices 1\n1 \"" + line + "\"\n"; break;
  case 2: text = "graph [\nnode [\nid 1\nlabel \"" + line + "\"\nfoo " + line + "\n]\n]\n"; break;
  case 3: text = line + "\n"; break;
  case 4: text = "a=[[" + line + ",1]]\n"; break;
  case 5: text = line + "\n"; break;
  default: text = "*Vertices 2\n*Edges\n1 2 " + line + "\n";
  }
  put( file, text );
  auto read = [&]
  {
    Complex<S> K;
    std::vector< Complex<S> > Ks;
    switch( reader )
    {
    case 0: io::EdgeListReader()( file, K ); break;
    case 1: case 6: io::PajekReader()( file, K ); break;
    case 2: io::GMLReader()( file, K ); break;
    case 3: io::MatrixReader()( file, K ); break;
    case 4: io::LexicographicTriangulationReader()( file, Ks ); break;
    default: (void) aleph::containers::load<double>( file );
    }
    consistent( c, K );
  };

  // Regular expressions of these two formats consume the stack in proportion
  // to the length of a line
  if( ( reader == 1 || reader == 2 || reader == 6 ) && length >= 4000 )
  {
    if( !survives( read ) )
      c.known( "REGEX-LONG-LINES", "line of " + pbt::str( length ) + " characters" );
  }
  else
    attempt( c, read );
  c.nontrivial( length >= 4000 );
}
