// flags: -I/usr/include/hdf5/serial /usr/lib/x86_64-linux-gnu/libtinyxml2.so.10.0.0 -Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial /usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5_cpp.so /usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so
// Readers of grids, functions, meshes, triangulations, and spectra build
// exactly the complex that a file describes.
#include "bridge.hh"
#include "values.hh"

#include <aleph/persistentHomology/Calculation.hh>
#include <aleph/persistentHomology/ConnectedComponents.hh>
#include <aleph/persistenceDiagrams/Calculation.hh>

#include <aleph/topology/BoundaryMatrix.hh>
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>

#include <aleph/topology/filtrations/Data.hh>

#include <aleph/topology/io/FlexSpectrum.hh>
#include <aleph/topology/io/Function.hh>
#include <aleph/topology/io/HDF5.hh>
#include <aleph/topology/io/LexicographicTriangulation.hh>
#include <aleph/topology/io/Matrix.hh>
#include <aleph/topology/io/PLY.hh>
#include <aleph/topology/io/SimplicialComplexReader.hh>
#include <aleph/topology/io/VTK.hh>

#include <aleph/topology/representations/List.hh>
#include <aleph/topology/representations/Set.hh>
#include <aleph/topology/representations/Vector.hh>

#include <H5Cpp.h>

#include <cmath>
#include <fstream>
#include <map>
#include <set>
#include <sstream>

namespace io = aleph::topology::io;

using S1 = aleph::topology::Simplex<double, unsigned>;
using S2 = aleph::topology::Simplex<float, unsigned short>;
template <class S> using Complex = aleph::topology::SimplicialComplex<S>;

using Map = std::map<model::V, double>;

static void put( const std::string& file, const std::string& text )
{
  std::ofstream out( file, std::ios::binary );
  out << text;
}

static std::string show( const Map& m )
{
  std::string s;
  for( auto&& p : m )
    s += pbt::str( p.first ) + ":" + pbt::str( p.second ) + " ";
  return s;
}

template <class S> static void compare( pbt::Ctx& c, const Complex<S>& K, const Map& expected )
{
  auto got = bridge::asMap( K );
  auto digits = sizeof( typename S::DataType ) == 4 ? 6 : 14;
  auto text = " (got " + show( got ) + "expected " + show( expected ) + ")";
  c.check( K.size() == got.size(), "simplices are not distinct" + text );
  c.check( got.size() == expected.size(), "number of simplices" + text );
  for( auto&& p : expected )
  {
    auto it = got.find( p.first );
    c.check( it != got.end(), "missing simplex " + pbt::str( p.first ) + text );
    c.check( values::agree( it->second, p.second, digits ), "weight of " + pbt::str( p.first ) + text );
  }
}

// Which extreme the higher simplices carry
enum Extreme { Maximum, Minimum };

static double extreme( Extreme e, double a, double b ) { return e == Maximum ? std::max( a, b ) : std::min( a, b ); }

// Sub- or superlevel set persistence according to the reference algorithm
static std::map<std::size_t, model::Diagram> persistence( const Map& m, Extreme e )
{
  model::Complex K;
  for( auto&& p : m )
    K.push_back( { p.first, e == Maximum ? p.second : -p.second } );
  std::stable_sort( K.begin(), K.end(), [] ( const model::Cell& a, const model::Cell& b )
  {
    return a.w != b.w ? a.w < b.w : a.v.size() < b.v.size();
  } );
  auto result = model::diagrams( K, false );
  if( e == Minimum )
  {
    for( auto& d : result )
    {
      for( auto& p : d.second )
      {
        p.first = -p.first;
        if( std::isfinite( p.second ) )
          p.second = -p.second;
      }
      std::sort( d.second.begin(), d.second.end() );
    }
  }
  return result;
}

static void sameDiagrams( pbt::Ctx& c, std::map<std::size_t, model::Diagram> got, std::map<std::size_t, model::Diagram> expected, int digits )
{
  for( auto&& p : expected )
    got[ p.first ];
  for( auto&& p : got )
  {
    auto e = expected[ p.first ];
    auto text = " in dimension " + pbt::str( p.first ) + " (got " + pbt::str( p.second ) + ", expected " + pbt::str( e ) + ")";
    c.check( p.second.size() == e.size(), "number of points" + text );
    for( std::size_t i = 0; i < e.size(); i++ )
      c.check( values::agree( p.second[i].first, e[i].first, digits ) && values::agree( p.second[i].second, e[i].second, digits ), "persistence" + text );
  }
}

template <class S> static void persistent( pbt::Ctx& c, Complex<S> K, const Map& m, Extreme e )
{
  using D = typename S::DataType;
  if( e == Maximum )
    K.sort( aleph::topology::filtrations::Data<S>() );
  else
    K.sort( aleph::topology::filtrations::Data<S, std::greater<D> >() );
  auto digits = sizeof( D ) == 4 ? 6 : 14;
  auto expected = persistence( m, e );
  sameDiagrams( c, bridge::diagrams( aleph::calculatePersistenceDiagrams( K ) ), expected, digits );
}

static std::string eol( pbt::Ctx& c ) { return c.chance( 1, 8 ) ? "\r\n" : "\n"; }

template <class S> static double stored( double x ) { return static_cast<double>( static_cast<typename S::DataType>( x ) ); }

template <class S> static std::vector<double> numbers( pbt::Ctx& c, std::size_t n )
{
  auto mode = static_cast<int>( c.size( 0, 2 ) );
  std::vector<double> r;
  for( std::size_t i = 0; i < n; i++ )
    r.push_back( stored<S>( values::gen( c, mode ) ) );
  return r;
}

template <class S> static std::function<typename S::DataType( typename S::DataType, typename S::DataType )> functor( Extreme e )
{
  using D = typename S::DataType;
  if( e == Maximum )
    return [] ( D a, D b ) { return std::max( a, b ); };
  return [] ( D a, D b ) { return std::min( a, b ); };
}

static unsigned u( std::size_t x ) { return static_cast<unsigned>( x ); }

// --- matrices ---------------------------------------------------------

template <class S> static void matrix( pbt::Ctx& c )
{
  auto h = c.extent( 1, 6, 30 ), w = c.extent( 1, 6, 30 );
  auto v = numbers<S>( c, h * w );
  auto e = c.boolean() ? Maximum : Minimum;
  auto triangles = c.chance( 2, 3 );
  auto decorated = c.chance( 1, 3 );
  std::string text;
  for( std::size_t y = 0; y < h; y++ )
  {
    if( decorated && c.chance( 1, 4 ) )
      text += c.pick( std::vector<std::string>{ "# 1 2 3", "", "   ", "#", " # comment" } ) + "\n";
    for( std::size_t x = 0; x < w; x++ )
      text += ( x ? c.pick( std::vector<std::string>{ " ", "  ", "\t" } ) : c.chance( 1, 6 ) ? " " : "" ) + values::text( c, v[ y * w + x ] );
    text += ( c.chance( 1, 8 ) ? " " : "" ) + eol( c );
  }
  c.input( text );
  c.nontrivial( h != w && h > 1 && w > 1 );
  c.label( h == 1 || w == 1 ? "single row or column" : h == w ? "square" : "rectangle" );

  Map expected;
  auto f = [&] ( std::vector<std::size_t> s )
  {
    model::V vertices;
    auto weight = v[ s.front() ];
    for( auto&& i : s )
    {
      vertices.push_back( u( i ) );
      weight = extreme( e, weight, v[i] );
    }
    std::sort( vertices.begin(), vertices.end() );
    expected[ vertices ] = weight;
  };
  for( std::size_t y = 0; y < h; y++ )
    for( std::size_t x = 0; x < w; x++ )
    {
      auto i = y * w + x;
      f( { i } );
      if( x + 1 < w ) f( { i, i + 1 } );
      if( y + 1 < h ) f( { i, i + w } );
      if( x + 1 < w && y + 1 < h )
      {
        f( { i, i + w + 1 } );
        if( triangles )
        {
          f( { i, i + 1, i + w + 1 } );
          f( { i, i + w, i + w + 1 } );
        }
      }
    }

  io::MatrixReader reader;
  if( !triangles || c.boolean() )
    reader.addTriangles( triangles );
  Complex<S> K;
  auto route = c.size( 0, 3 );
  if( route == 0 )
  {
    put( c.scratch() + "/m.txt", text );
    reader( c.scratch() + "/m.txt", K, functor<S>( e ) );
  }
  else if( route == 1 )
  {
    put( c.scratch() + "/m.txt", text );
    if( e == Maximum )
      reader( c.scratch() + "/m.txt", K );
    else
      reader( c.scratch() + "/m.txt", K, functor<S>( e ) );
  }
  else
  {
    std::istringstream in( text );
    if( e == Maximum && route == 2 )
      reader( in, K );
    else
      reader( in, K, functor<S>( e ) );
  }
  c.equal( reader.height(), h, "height" );
  c.equal( reader.width(), w, "width" );
  compare( c, K, expected );
  persistent( c, K, expected, e );
}

LAW( matrices, 4500, 36000, "a matrix with several rows and columns that is not square" )
{
  if( c.boolean() ) matrix<S1>( c ); else matrix<S2>( c );
}

// --- functions --------------------------------------------------------

template <class S> static Map path( const std::vector<double>& v, Extreme e )
{
  Map m;
  for( std::size_t i = 0; i < v.size(); i++ )
  {
    m[ { u( i ) } ] = v[i];
    if( i + 1 < v.size() )
      m[ { u( i ), u( i + 1 ) } ] = extreme( e, v[i], v[i + 1] );
  }
  return m;
}

template <class R> static void functionMatrix( pbt::Ctx& c, const std::string& file, const Map& m )
{
  aleph::topology::BoundaryMatrix<R> M;
  std::vector<double> v( 3, 7.0 );
  io::loadFunction( file, M, v );
  c.equal( static_cast<std::size_t>( M.getNumColumns() ), m.size(), "columns of function" );
  c.equal( v.size(), m.size(), "values of function" );
  c.check( std::is_sorted( v.begin(), v.end() ), "values of function are not in filtration order" );

  // Columns describe the path with the vertices renamed, so that each edge
  // carries the maximum of its end points
  std::map<unsigned, unsigned> degree;
  for( std::size_t j = 0; j < m.size(); j++ )
  {
    auto column = M.getColumn( static_cast<typename R::Index>( j ) );
    c.check( column.empty() || column.size() == 2, "column that is neither a vertex nor an edge" );
    if( column.size() == 2 )
    {
      c.check( column[0] < j && column[1] < j, "edge precedes its end points" );
      c.check( v[j] == std::max( v[ column[0] ], v[ column[1] ] ), "edge does not carry the maximum of its end points" );
      degree[ u( column[0] ) ]++;
      degree[ u( column[1] ) ]++;
    }
  }
  for( auto&& d : degree )
    c.check( d.second <= 2, "function does not describe a path" );

  auto pairing = aleph::calculatePersistencePairing( M );
  model::Diagram got;
  for( auto&& p : pairing )
  {
    if( p.second < m.size() )
      got.push_back( { v[ p.first ], v[ p.second ] } );
    else
      got.push_back( { v[ p.first ], std::numeric_limits<double>::infinity() } );
  }
  std::sort( got.begin(), got.end() );
  sameDiagrams( c, { { 0, got } }, persistence( m, Maximum ), 14 );
}

LAW( functions, 4500, 36000, "several functions of different lengths with at least three values" )
{
  auto n = c.size( 1, 4 );
  std::vector< std::vector<double> > fs;
  std::string text;
  for( std::size_t i = 0; i < n; i++ )
  {
    fs.push_back( numbers<S1>( c, c.size( 1, 12 ) ) );
    for( std::size_t k = 0; k < fs.back().size(); k++ )
      text += ( k ? c.pick( std::vector<std::string>{ " ", "  ", "\t" } ) : "" ) + values::text( c, fs.back()[k] );
    if( i + 1 < n || c.boolean() )
      text += eol( c );
  }
  c.input( text );
  c.nontrivial( n > 1 && fs[0].size() != fs[1].size() && fs[0].size() > 2 );
  auto file = c.scratch() + "/f.txt";
  put( file, text );
  auto e = c.boolean() ? Maximum : Minimum;
  auto Ks = e == Maximum && c.boolean() ? io::loadFunctions< Complex<S1> >( file ) : io::loadFunctions< Complex<S1> >( file, functor<S1>( e ) );
  c.equal( Ks.size(), n, "number of functions" );
  for( std::size_t i = 0; i < n; i++ )
  {
    auto expected = path<S1>( fs[i], e );
    compare( c, Ks[i], expected );
    persistent( c, Ks[i], expected, e );
    auto K = io::loadFunction< Complex<S1> >( fs[i].begin(), fs[i].end(), functor<S1>( e ) );
    compare( c, K, expected );
  }

  std::string single;
  for( auto&& x : fs[0] )
    single += values::text( c, x ) + ( c.boolean() ? " " : "\n" );
  put( file, single );
  functionMatrix< aleph::topology::representations::Vector<unsigned> >( c, file, path<S1>( fs[0], Maximum ) );
  functionMatrix< aleph::topology::representations::List<unsigned> >( c, file, path<S1>( fs[0], Maximum ) );
  functionMatrix< aleph::topology::representations::Set<unsigned> >( c, file, path<S1>( fs[0], Maximum ) );
}

// --- structured grids -------------------------------------------------

template <class S> static void grid( pbt::Ctx& c )
{
  auto nx = c.extent( 1, 5, 15 ), ny = c.extent( 1, 5, 15 ), nz = c.extent( 1, 4, 8 );
  auto n = nx * ny * nz;
  auto v = numbers<S>( c, n );
  auto e = c.boolean() ? Maximum : Minimum;
  auto gap = [&] { return c.pick( std::vector<std::string>{ " ", " ", "  ", "\t" } ); };
  auto end = c.chance( 1, 8 ) ? std::string( "\r\n" ) : std::string( "\n" );
  static const std::vector<std::pair<std::string, std::size_t>> types = {
    { "float", sizeof( float ) }, { "double", sizeof( double ) }, { "int", sizeof( int ) }, { "long", sizeof( long ) }, { "short", sizeof( short ) },
    { "char", sizeof( char ) }, { "unsigned_int", sizeof( unsigned ) }, { "unsigned_long", sizeof( unsigned long ) },
    { "unsigned_short", sizeof( unsigned short ) }, { "unsigned_char", sizeof( unsigned char ) } };
  auto type = c.pick( types );
  auto name = c.pick( std::vector<std::string>{ "scalars", "Y", "pressure2", "wind_speed", "a.b-c" } );
  auto scalarType = c.pick( types ).first;
  std::string text = "#" + gap() + "vtk" + gap() + "DataFile" + gap() + "Version" + gap() + c.pick( std::vector<std::string>{ "3.0", "2.0", "10.25" } ) + end;
  text += c.pick( std::vector<std::string>{ "vtk output", "", "POINTS 3 float" } ) + end;
  text += "ASCII" + end;
  text += "DATASET" + gap() + "STRUCTURED_GRID" + end;
  text += "DIMENSIONS" + gap() + std::to_string( nx ) + gap() + std::to_string( ny ) + gap() + std::to_string( nz ) + end;
  text += "POINTS" + gap() + std::to_string( n ) + gap() + type.first + end;
  auto perLine = c.size( 1, 4 );
  for( std::size_t i = 0; i < n; i++ )
  {
    auto x = i % nx, y = ( i / nx ) % ny, z = i / ( nx * ny );
    text += std::to_string( x ) + " " + std::to_string( y ) + " " + std::to_string( z );
    text += i + 1 == n || ( i + 1 ) % perLine == 0 ? end : " ";
  }
  if( c.chance( 1, 3 ) )
    text += end;
  text += "POINT_DATA" + gap() + std::to_string( n ) + end;
  text += "SCALARS" + gap() + name + gap() + scalarType + ( c.boolean() ? gap() + "1" : "" ) + end;
  text += "LOOKUP_TABLE" + gap() + "default" + end;
  perLine = c.size( 1, 9 );
  for( std::size_t i = 0; i < n; i++ )
    text += values::text( c, v[i] ) + ( i + 1 == n || ( i + 1 ) % perLine == 0 ? end : " " );
  c.input( text );
  c.nontrivial( nx > 1 && ny > 1 && nz > 1 && ( nx != ny || ny != nz ) );
  c.label( nz == 1 ? "plane" : "solid" );

  Map expected;
  for( std::size_t z = 0; z < nz; z++ )
    for( std::size_t y = 0; y < ny; y++ )
      for( std::size_t x = 0; x < nx; x++ )
      {
        auto i = ( z * ny + y ) * nx + x;
        expected[ { u( i ) } ] = v[i];
        auto edge = [&] ( std::size_t j ) { expected[ { u( i ), u( j ) } ] = extreme( e, v[i], v[j] ); };
        if( x + 1 < nx ) edge( i + 1 );
        if( y + 1 < ny ) edge( i + nx );
        if( z + 1 < nz ) edge( i + nx * ny );
      }

  auto file = c.scratch() + "/g.vtk";
  put( file, text );
  Complex<S> K;
  auto route = c.size( 0, 3 );
  if( route == 3 )
  {
    io::SimplicialComplexReader reader;
    if( e == Maximum && c.boolean() )
      reader( file, K );
    else
      reader( file, K, functor<S>( e ) );
  }
  else
  {
    io::VTKStructuredGridReader reader;
    if( route == 0 && e == Maximum )
      reader( file, K );
    else if( route == 1 )
    {
      std::ifstream in( file );
      if( e == Maximum && c.boolean() )
        reader( in, K );
      else
        reader( in, K, functor<S>( e ) );
    }
    else
      reader( file, K, functor<S>( e ) );
    c.equal( reader.scalarsName(), name, "name of scalars" );
    c.equal( reader.scalarsType(), scalarType, "type of scalars" );
    c.equal( reader.dataTypeSize(), type.second, "size of data type" );
  }
  compare( c, K, expected );
  persistent( c, K, expected, e );
}

LAW( structured_grids, 3600, 30000, "a solid grid whose extents differ" )
{
  if( c.boolean() ) grid<S1>( c ); else grid< aleph::topology::Simplex<float, unsigned> >( c );
}

// --- meshes -----------------------------------------------------------

template <class S> static void mesh( pbt::Ctx& c )
{
  auto n = c.extent( 3, 10, 80 );
  auto faces = n > 10 ? c.size( 1, 120 ) : c.size( 1, 12 );
  std::vector<model::V> triangles;
  for( std::size_t i = 0; i < faces; i++ )
  {
    std::vector<unsigned> all;
    for( unsigned k = 0; k < n; k++ )
      all.push_back( k );
    c.shuffle( all );
    all.resize( 3 );
    // Every polygon is listed once, in any orientation
    auto key = all;
    std::sort( key.begin(), key.end() );
    bool known = false;
    for( auto t : triangles )
    {
      std::sort( t.begin(), t.end() );
      known = known || t == key;
    }
    if( !known )
      triangles.push_back( all );
  }
  std::vector<std::string> properties = { "x", "y", "z" };
  auto extra = c.size( 0, 3 );
  for( std::size_t i = 0; i < extra; i++ )
    properties.push_back( std::vector<std::string>{ "quality", "nx", "red" }[i] );
  if( c.boolean() )
    c.shuffle( properties );
  auto property = c.boolean() ? std::string( "z" ) : c.pick( std::vector<std::string>{ "x", "y", "z", "quality", "nx", "red", "absent", "" } );
  static const std::vector<std::string> types = { "float", "double", "int", "int32", "uint", "uint32", "short", "ushort", "char", "uchar", "uint8" };

  std::string text = "ply" + eol( c ) + "format ascii 1.0" + eol( c );
  auto remark = [&] { if( c.chance( 1, 4 ) ) text += c.pick( std::vector<std::string>{ "comment made by hand", "comment element vertex 7", "comment", "obj_info num_cols 512" } ) + eol( c ); };
  remark();
  text += "element vertex " + std::to_string( n ) + eol( c );
  for( auto&& p : properties )
  {
    text += "property " + c.pick( types ) + " " + p + eol( c );
    remark();
  }
  text += "element face " + std::to_string( triangles.size() ) + eol( c );
  text += "property list " + c.pick( std::vector<std::string>{ "uchar", "uint8", "int" } ) + " " + c.pick( std::vector<std::string>{ "int", "uint", "int32" } ) + " " + c.pick( std::vector<std::string>{ "vertex_index", "vertex_indices" } ) + eol( c );
  remark();
  text += "end_header" + eol( c );
  std::vector<double> v;
  for( std::size_t i = 0; i < n; i++ )
  {
    auto row = numbers<S>( c, properties.size() );
    auto at = std::find( properties.begin(), properties.end(), property );
    v.push_back( at == properties.end() ? 0.0 : row[ static_cast<std::size_t>( at - properties.begin() ) ] );
    for( std::size_t k = 0; k < row.size(); k++ )
      text += ( k ? " " : c.chance( 1, 10 ) ? "  " : "" ) + values::text( c, row[k] );
    text += ( c.chance( 1, 6 ) ? " " : "" ) + eol( c );
  }
  for( auto&& t : triangles )
    text += "3 " + std::to_string( t[0] ) + " " + std::to_string( t[1] ) + " " + std::to_string( t[2] ) + ( c.chance( 1, 6 ) ? " " : "" ) + eol( c );
  c.input( "property '" + property + "'\n" + text );

  Map expected;
  for( std::size_t i = 0; i < n; i++ )
    expected[ { u( i ) } ] = v[i];
  std::size_t shared = 0;
  for( auto t : triangles )
  {
    std::sort( t.begin(), t.end() );
    expected[t] = std::max( v[ t[0] ], std::max( v[ t[1] ], v[ t[2] ] ) );
    for( auto&& f : model::facets( t ) )
    {
      shared += expected.count( f );
      expected[f] = std::max( v[ f[0] ], v[ f[1] ] );
    }
  }
  c.nontrivial( triangles.size() > 1 && shared );

  auto file = c.scratch() + "/m.ply";
  put( file, text );
  Complex<S> K;
  if( !property.empty() && c.chance( 1, 3 ) )
  {
    io::SimplicialComplexReader reader;
    if( property != "z" || c.boolean() )
      reader.setDataAttribute( property );
    reader( file, K );
  }
  else
  {
    io::PLYReader reader;
    if( property != "z" || c.boolean() )
      reader.setDataProperty( property );
    if( c.boolean() )
      reader( file, K );
    else
    {
      std::ifstream in( file );
      reader( in, K );
    }
  }
  compare( c, K, expected );
  const S* last = nullptr;
  for( auto&& s : K )
  {
    if( last )
      c.check( last->data() < s.data() || ( last->data() == s.data() && last->dimension() <= s.dimension() ), "complex is not in filtration order" );
    last = &s;
  }
  sameDiagrams( c, bridge::diagrams( aleph::calculatePersistenceDiagrams( K ) ), persistence( expected, Maximum ), sizeof( typename S::DataType ) == 4 ? 6 : 14 );
}

LAW( meshes, 4500, 36000, "a mesh with several triangles that share an edge" )
{
  if( c.boolean() ) mesh<S1>( c ); else mesh<S2>( c );
}

// --- hierarchical data ------------------------------------------------

template <class S> static void hierarchical( pbt::Ctx& c )
{
  auto h = c.extent( 1, 6, 30 ), w = c.extent( 1, 6, 30 );
  auto v = numbers<S>( c, h * w );
  auto e = c.boolean() ? Maximum : Minimum;
  auto type = c.size( 0, 5 );
  auto group = c.pick( std::vector<std::string>{ "/", "/", "/fields" } );
  auto set = c.pick( std::vector<std::string>{ "YField", "YField", "other" } );
  if( type >= 3 )
    for( auto& x : v )
      x = static_cast<double>( static_cast<float>( x ) );
  auto file = c.scratch() + "/d.h5";
  std::remove( file.c_str() );
  {
    const H5::PredType* types[] = { &H5::PredType::NATIVE_DOUBLE, &H5::PredType::IEEE_F64LE, &H5::PredType::IEEE_F64BE,
                                    &H5::PredType::NATIVE_FLOAT, &H5::PredType::IEEE_F32LE, &H5::PredType::IEEE_F32BE };
    H5::H5File f( file, H5F_ACC_TRUNC );
    hsize_t extents[2] = { h, w };
    H5::DataSpace space( 2, extents );
    H5::Group g = group == "/" ? f.openGroup( "/" ) : f.createGroup( group );
    auto d = g.createDataSet( set, *types[type], space );
    d.write( v.data(), H5::PredType::NATIVE_DOUBLE );
  }
  c.input( pbt::str( h ) + " rows and " + pbt::str( w ) + " columns, type " + pbt::str( type ) + ", values " + pbt::str( v ) );
  c.nontrivial( h > 1 && w > 1 && h != w );
  c.label( "type " + pbt::str( type ) );

  Map expected;
  auto f = [&] ( std::vector<std::size_t> s )
  {
    model::V vertices;
    auto weight = v[ s.front() ];
    for( auto&& i : s )
    {
      vertices.push_back( u( i ) );
      weight = extreme( e, weight, v[i] );
    }
    std::sort( vertices.begin(), vertices.end() );
    expected[ vertices ] = weight;
  };
  for( std::size_t y = 0; y < h; y++ )
    for( std::size_t x = 0; x < w; x++ )
    {
      auto i = y * w + x;
      f( { i } );
      if( x + 1 < w ) f( { i, i + 1 } );
      if( y + 1 < h ) f( { i, i + w } );
      if( x + 1 < w && y + 1 < h )
      {
        // The diagonal joins the upper right and the lower left corner
        f( { i + 1, i + w } );
        f( { i, i + 1, i + w } );
        f( { i + 1, i + w, i + w + 1 } );
      }
    }

  Complex<S> K;
  if( group == "/" && set == "YField" && c.boolean() )
  {
    io::SimplicialComplexReader reader;
    if( e == Maximum && c.boolean() )
      reader( file, K );
    else
      reader( file, K, functor<S>( e ) );
  }
  else
  {
    io::HDF5SimpleDataSpaceReader reader;
    if( group != "/" || c.boolean() )
      reader.setGroupName( group );
    if( set != "YField" || c.boolean() )
      reader.setDataSetName( set );
    c.equal( reader.groupName(), group, "group name" );
    c.equal( reader.dataSetName(), set, "data set name" );
    if( e == Maximum && c.boolean() )
      reader( file, K );
    else
      reader( file, K, functor<S>( e ) );
  }
  compare( c, K, expected );
  persistent( c, K, expected, e );
}

LAW( hierarchical_data, 2400, 18000, "a data set with several rows and columns that is not square" )
{
  if( c.boolean() ) hierarchical<S1>( c ); else hierarchical< aleph::topology::Simplex<float, unsigned> >( c );
}

// --- triangulations ---------------------------------------------------

LAW( triangulations, 6000, 48000, "several triangulations, one of them spread over several lines" )
{
  auto n = c.size( 1, 4 );
  std::vector< std::set<model::V> > expected;
  std::string text;
  bool spread = false;
  auto gap = [&] () -> std::string
  {
    if( !c.chance( 1, 10 ) )
      return "";
    auto s = c.pick( std::vector<std::string>{ " ", "  ", "\t", "\n", "\n  ", "\n\n" } );
    spread = spread || s.find( '\n' ) != std::string::npos;
    return s;
  };
  for( std::size_t i = 0; i < n; i++ )
  {
    if( c.chance( 1, 4 ) )
      text += c.pick( std::vector<std::string>{ "# comment\n", "\n", "  \n", "#name=[[1,2]]\n" } );
    std::set<model::V> simplices;
    auto m = c.extent( 1, 8, 60 );
    auto dimension = c.size( 0, 3 );
    auto pure = c.boolean();
    text += c.pick( std::vector<std::string>{ "manifold_2_4_", "M", "lex_" } ) + std::to_string( i ) + ( c.chance( 1, 8 ) ? " " : "" ) + "=" + gap() + "[" + gap();
    bool first = true;
    for( std::size_t k = 0; k < m; k++ )
    {
      std::set<unsigned> s;
      auto size = pure ? dimension + 1 : c.size( 1, 4 );
      while( s.size() < size )
        s.insert( static_cast<unsigned>( c.size( 1, c.chance( 1, 4 ) ? 200 : 9 ) ) );
      model::V v( s.begin(), s.end() );
      if( !simplices.insert( v ).second )
        continue;
      if( c.chance( 1, 4 ) )
        c.shuffle( v );
      if( !first )
        text += gap() + "," + gap();
      first = false;
      text += "[" + gap();
      for( std::size_t j = 0; j < v.size(); j++ )
        text += ( j ? gap() + "," + gap() : "" ) + std::to_string( v[j] );
      text += gap() + "]";
    }
    text += gap() + "]" + ( c.chance( 1, 8 ) ? " " : "" ) + "\n";
    expected.push_back( simplices );
  }
  c.input( text );
  c.nontrivial( n > 1 && spread );
  std::vector< Complex<S1> > Ks( 2 );
  io::LexicographicTriangulationReader reader;
  if( c.boolean() )
  {
    put( c.scratch() + "/t.txt", text );
    reader( c.scratch() + "/t.txt", Ks );
  }
  else
  {
    std::istringstream in( text );
    reader( in, Ks );
  }
  c.equal( Ks.size(), n, "number of triangulations" );
  for( std::size_t i = 0; i < n; i++ )
  {
    Map m;
    for( auto&& s : expected[i] )
      m[s] = 0;
    compare( c, Ks[i], m );
  }
}

// --- spectra ----------------------------------------------------------

template <class S> static void spectrum( pbt::Ctx& c )
{
  io::FlexSpectrumReader reader;
  auto rounds = c.size( 1, 2 );
  std::string all;
  for( std::size_t round = 0; round < rounds; round++ )
  {
    auto n = c.extent( 0, 14, 200 );
    auto normalise = c.boolean();
    std::vector<double> x, y;
    std::string text;
    double total = 0;
    for( std::size_t i = 0; i < n; i++ )
    {
      if( c.chance( 1, 6 ) )
        text += c.pick( std::vector<std::string>{ "# x y", "", "m/z intensity", "\"1\" 2" } ) + "\n";
      x.push_back( c.uniform( 0, 1000 ) );
      y.push_back( stored<S>( c.boolean() ? static_cast<double>( c.size( 0, 20 ) ) : c.uniform( 0, 100 ) ) );
      if( i == 0 && y[0] == 0 )
        y[0] = 1;
      total += y.back();
      std::ostringstream o;
      o << std::setprecision( 17 ) << x.back();
      text += o.str() + c.pick( std::vector<std::string>{ " ", "\t", "  " } ) + values::text( c, y.back() ) + eol( c );
    }
    all += ( normalise ? "normalised\n" : "" ) + text + "---\n";
    c.input( all );
    c.nontrivial( n > 2 && normalise );
    reader.normalize( normalise );
    c.equal( static_cast<const io::FlexSpectrumReader&>( reader ).normalize(), normalise, "normalisation" );
    auto file = c.scratch() + "/s.txt";
    put( file, text );
    Complex<S> K;
    reader( file, K );
    if( normalise )
      for( auto& value : y )
        value /= total;
    Map expected;
    for( std::size_t i = 0; i < n; i++ )
    {
      expected[ { u( i ) } ] = y[i];
      if( i + 1 < n )
        expected[ { u( i ), u( i + 1 ) } ] = std::min( y[i], y[i + 1] );
    }

    // Sums are accumulated in the data type of the complex
    auto got = bridge::asMap( K );
    auto digits = sizeof( typename S::DataType ) == 4 ? 5 : 12;
    c.check( K.size() == got.size() && got.size() == expected.size(), "number of simplices" );
    for( auto&& p : expected )
      c.check( got.count( p.first ) && values::agree( got[ p.first ], p.second, digits ), "weight of " + pbt::str( p.first ) + " (got " + show( got ) + "expected " + show( expected ) + ")" );
    const S* last = nullptr;
    for( auto&& s : K )
    {
      if( last )
        c.check( last->data() > s.data() || ( last->data() == s.data() && last->dimension() <= s.dimension() ), "complex is not in descending order" );
      last = &s;
    }
    auto positions = reader.getIndexToValueMap();
    auto intensities = reader.getIndexToIntensityMap();
    c.equal( positions.size(), n, "number of positions" );
    c.equal( intensities.size(), n, "number of intensities" );
    for( std::size_t i = 0; i < n; i++ )
    {
      c.check( positions.count( i ) && values::agree( positions[i], x[i], 14 ), "position of value" );
      c.check( intensities.count( i ) && values::agree( intensities[i], y[i], digits ), "intensity of value" );
    }
    if( n )
      sameDiagrams( c, bridge::diagrams( aleph::calculatePersistenceDiagrams( K ) ), persistence( expected, Minimum ), digits );
  }
}

LAW( spectra, 4500, 36000, "a normalised spectrum of at least three values" )
{
  if( c.boolean() ) spectrum<S1>( c ); else spectrum<S2>( c );
}
