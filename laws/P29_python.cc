// flags: -I/usr/include/eigen3 -I/usr/include/python3.12 -I/usr/include/hdf5/serial /usr/lib/x86_64-linux-gnu/libtinyxml2.so.10.0.0 -Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial /usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5_cpp.so /usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so -llz4 -lpython3.12
// The Python module, imported into an embedded interpreter and driven through
// the object protocol only. Results are compared with the reference model and
// with the native operations.
#include "pbt.hh"
#include "model.hh"
#include "bridge.hh"
#include "clouds.hh"

#include <bindings/python/aleph.cc>

#include <pybind11/embed.h>

#include <algorithm>
#include <cmath>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <vector>

// All names of the laws take precedence over the ones of the module
namespace laws
{

namespace py = pybind11;

using S = aleph::topology::Simplex<double, unsigned>;
using Complex = aleph::topology::SimplicialComplex<S>;
using V = model::V;
using D = aleph::PersistenceDiagram<double>;
using F = aleph::math::StepFunction<double>;
using P = aleph::PersistencePairing<unsigned>;

// The interpreter belongs to the process that evaluates the case
struct Python
{
  Python()
  {
    PyImport_AppendInittab( "aleph", PyInit_aleph );
    interpreter = new py::scoped_interpreter( false );
    aleph = new py::module( py::module::import( "aleph" ) );
    numpy = new py::module( py::module::import( "numpy" ) );
    builtins = new py::module( py::module::import( "builtins" ) );
  }

  py::scoped_interpreter* interpreter;
  py::module* aleph;
  py::module* numpy;
  py::module* builtins;
};

Python& python()
{
  static Python* p = new Python;
  return *p;
}

py::object al( const char* name ) { return python().aleph->attr( name ); }
py::object np( const char* name ) { return python().numpy->attr( name ); }

py::list list( const V& v )
{
  python();
  py::list l;
  for( auto&& x : v )
    l.append( x );
  return l;
}

template <class Action> void raises( pbt::Ctx& c, Action f, const std::string& what )
{
  bool raised = false;
  try { f(); }
  catch( py::error_already_set& e )
  {
    raised = e.matches( PyExc_Exception );
  }
  c.check( raised, what + " does not raise an exception" );
}

py::object operation( const char* name, py::object a, py::object b )
{
  return py::module::import( "operator" ).attr( name )( a, b );
}

bool truth( py::object o ) { return PyObject_IsTrue( o.ptr() ) == 1; }

std::size_t length( py::object o ) { return static_cast<std::size_t>( py::len( o ) ); }

std::vector<unsigned> numbers( py::object iterable )
{
  std::vector<unsigned> r;
  for( auto&& h : iterable )
    r.push_back( py::cast<unsigned>( h ) );
  return r;
}

V vertices( py::object simplex )
{
  V v = numbers( simplex );
  std::sort( v.begin(), v.end() );
  return v;
}

model::Complex complexOf( py::object k )
{
  model::Complex r;
  for( auto&& h : k )
  {
    py::object s = py::reinterpret_borrow<py::object>( h );
    r.push_back( { vertices( s ), py::cast<double>( s.attr( "data" ) ) } );
  }
  return r;
}

model::Diagram points( pbt::Ctx& c, py::object d )
{
  model::Diagram r;
  for( auto&& h : d )
  {
    py::object p = py::reinterpret_borrow<py::object>( h );
    auto x = py::cast<double>( p.attr( "x" ) );
    auto y = py::cast<double>( p.attr( "y" ) );
    c.equal( py::cast<bool>( p.attr( "unpaired" ) ), !std::isfinite( y ), "unpaired point" );
    c.equal( py::cast<double>( p.attr( "persistence" ) ), y - x, "persistence of point" );
    r.push_back( { x, y } );
  }
  std::sort( r.begin(), r.end() );
  return r;
}

std::map<std::size_t, model::Diagram> diagramsOf( pbt::Ctx& c, const py::list& l )
{
  std::map<std::size_t, model::Diagram> r;
  for( auto&& h : l )
  {
    py::object d = py::reinterpret_borrow<py::object>( h );
    auto dim = py::cast<std::size_t>( d.attr( "dimension" ) );
    c.check( r.count( dim ) == 0, "two diagrams of the same dimension" );
    r[ dim ] = points( c, d );
  }
  return r;
}

void same( pbt::Ctx& c, std::map<std::size_t, model::Diagram> got, std::map<std::size_t, model::Diagram> expected, const std::string& what )
{
  for( std::size_t d = 0; d < 8; d++ )
    c.equal( got[d], expected[d], what + " in dimension " + pbt::str( d ) );
}

// Builds a Python complex, using the different kinds of elements
py::object build( pbt::Ctx& c, const model::Complex& M )
{
  auto element = [&] ( const model::Cell& x ) -> py::object
  {
    auto v = x.v;
    if( c.boolean() )
      c.shuffle( v );
    switch( c.draw( x.w == 0 ? 3 : 2 ) )
    {
    case 0:  return al( "Simplex" )( list( v ), x.w );
    case 1:  return py::make_tuple( list( v ), x.w );
    default: return list( v );
    }
  };
  if( c.boolean() )
  {
    py::list l;
    for( auto&& x : M )
      l.append( element( x ) );
    return al( "SimplicialComplex" )( l );
  }
  auto k = al( "SimplicialComplex" )();
  for( auto&& x : M )
  {
    auto v = x.v;
    if( c.boolean() )
      c.shuffle( v );
    if( x.w == 0 && c.boolean() )
      k.attr( "append" )( list( v ) );
    else
      k.attr( "append" )( al( "Simplex" )( list( v ), x.w ) );
  }
  return k;
}

// Array with the given entries in some memory layout
py::object layout( pbt::Ctx& c, const std::vector< std::vector<double> >& M, std::size_t columns, std::string& name )
{
  python();
  py::list rows;
  for( auto&& r : M )
  {
    py::list row;
    for( auto&& x : r )
      row.append( x );
    rows.append( row );
  }
  auto n = M.size();
  py::object a = np( "array" )( rows, py::arg( "dtype" ) = "float64" ).attr( "reshape" )( n, columns );
  auto slice = [] ( py::object step ) { return py::reinterpret_steal<py::object>( PySlice_New( Py_None, Py_None, step.ptr() ) ); };
  auto none  = py::none();
  switch( c.draw( 7 ) )
  {
  case 0:
    name = "row by row";
    return a;
  case 1:
    name = "column by column";
    return np( "asfortranarray" )( a );
  case 2:
  {
    name = "transposed view";
    py::object t = np( "ascontiguousarray" )( a.attr( "T" ) );
    return t.attr( "T" );
  }
  case 3:
  {
    name = "every second row and third column";
    py::object big = np( "full" )( py::make_tuple( 2 * n, 3 * columns ), -77.0 );
    auto index = py::make_tuple( slice( py::int_( 2 ) ), slice( py::int_( 3 ) ) );
    big[index] = a;
    return big[index];
  }
  case 4:
  {
    name = "reversed rows";
    auto index = py::make_tuple( slice( py::int_( -1 ) ), slice( none ) );
    py::object r = np( "ascontiguousarray" )( py::object( a[index] ) );
    return r[index];
  }
  case 5:
  {
    name = "reversed columns";
    auto index = py::make_tuple( slice( none ), slice( py::int_( -1 ) ) );
    py::object r = np( "ascontiguousarray" )( py::object( a[index] ) );
    return r[index];
  }
  default:
  {
    name = "part of a larger array";
    py::object big = np( "full" )( py::make_tuple( n + 2, columns + 3 ), 99.0 );
    auto part = [] ( std::size_t from, std::size_t to )
    {
      return py::reinterpret_steal<py::object>( PySlice_New( py::int_( from ).ptr(), py::int_( to ).ptr(), Py_None ) );
    };
    auto index = py::make_tuple( part( 1, 1 + n ), part( 2, 2 + columns ) );
    big[index] = a;
    return big[index];
  }
  }
}

// Distance matrix with ties
std::vector< std::vector<double> > distances( pbt::Ctx& c, std::size_t lo, std::size_t hi, std::string& text )
{
  auto n = c.extent( lo, hi, hi + 8, 80 );
  auto m = c.pick( std::vector<long>{ 2, 5, 50, 4000 } );
  std::vector< std::vector<double> > M( n, std::vector<double>( n, 0 ) );
  for( std::size_t i = 0; i < n; i++ )
    for( std::size_t j = 0; j < i; j++ )
      M[i][j] = M[j][i] = static_cast<double>( c.integer( 1, m ) ) / 8.0;
  std::ostringstream o;
  for( auto&& r : M )
    o << pbt::str( r );
  text = o.str();
  c.input( text );
  return M;
}

// Flag complex of a distance matrix, in filtration order
model::Complex flag( const std::vector< std::vector<double> >& M, std::size_t dimension, double epsilon )
{
  model::Complex r;
  std::function< void( V, double, unsigned ) > extend = [&] ( V v, double w, unsigned next )
  {
    if( !v.empty() )
      r.push_back( { v, w } );
    if( v.size() == dimension + 1 )
      return;
    for( auto i = next; i < M.size(); i++ )
    {
      auto x = w;
      for( auto&& u : v )
        x = std::max( x, M[u][i] );
      if( x <= epsilon )
      {
        auto t = v;
        t.push_back( i );
        extend( t, x, i + 1 );
      }
    }
  };
  extend( {}, 0, 0 );
  std::stable_sort( r.begin(), r.end(), [] ( const model::Cell& a, const model::Cell& b ) { return a.w != b.w ? a.w < b.w : a.v.size() < b.v.size(); } );
  return r;
}

std::string pathTo( pbt::Ctx& c, const std::string& name ) { return c.scratch() + "/" + name; }

// A diagram obtained by a calculation
py::list someDiagrams( pbt::Ctx& c, model::Complex& M, const std::string& prefix = "" )
{
  python();
  model::Options o;
  o.bulk( 30, 200, 80 ).solid( 8 );
  o.maxVertices  = 7;
  o.maxDimension = 2;
  M = model::genFiltered( c, o );
  c.input( prefix + model::show( M ) );
  return al( "calculatePersistenceDiagrams" )( build( c, M ) );
}

D native( py::object d ) { return py::cast<D>( d ); }

LAW( simplices, 12240, 204000, "at least three vertices" )
{
  auto n = c.size( 0, 6 );
  std::set<unsigned> ids;
  while( ids.size() < n )
    ids.insert( static_cast<unsigned>( c.draw( 12 ) ) + ( c.chance( 1, 8 ) ? 100000u : 0u ) );
  V v( ids.begin(), ids.end() );
  auto w = static_cast<double>( c.around( 40 ) ) / 8.0;
  if( c.chance( 1, 4 ) )
    w *= 1.0 + std::ldexp( 1.0, -30 );
  auto order = v;
  c.shuffle( order );
  c.input( pbt::str( order ) + " with data " + pbt::str( w ) );
  c.nontrivial( n >= 3 );

  py::object s;
  switch( c.draw( 3 ) )
  {
  case 0:
    s = al( "Simplex" )( list( order ), w );
    break;
  case 1:
    s = al( "Simplex" )( list( order ) );
    c.equal( py::cast<double>( s.attr( "weight" ) ), 0.0, "default weight" );
    s.attr( "weight" ) = w;
    break;
  default:
    s = al( "Simplex" )( al( "Simplex" )( list( order ), w + 1 ), w );
    break;
  }
  if( n == 1 && c.boolean() )
    s = al( "Simplex" )( v.front(), w );
  if( n == 0 && w == 0 && c.boolean() )
    s = al( "Simplex" )();

  c.equal( vertices( s ), v, "vertices" );
  auto forward  = numbers( s );
  auto backward = numbers( (*python().builtins).attr( "reversed" )( s ) );
  std::reverse( backward.begin(), backward.end() );
  c.equal( backward, forward, "vertices in reverse order" );
  c.equal( length( s ), n, "length" );
  c.equal( truth( s ), n > 0, "truth value" );
  c.equal( py::cast<bool>( s.attr( "empty" ) ), n == 0, "emptiness" );
  if( n > 0 )
    c.equal( py::cast<std::size_t>( s.attr( "dimension" ) ), n - 1, "dimension" );
  c.equal( py::cast<double>( s.attr( "data" ) ), w, "data" );
  c.equal( py::cast<double>( s.attr( "weight" ) ), w, "weight" );
  for( std::size_t i = 0; i < n; i++ )
    c.equal( py::cast<unsigned>( py::object( s[ py::int_( i ) ] ) ), forward[i], "vertex by index" );
  raises( c, [&] { py::object x = s[ py::int_( n ) ]; }, "index behind the last vertex" );
  raises( c, [&] { py::object x = s[ py::int_( -1 - long( n ) ) ]; }, "negative index" );
  for( unsigned i = 0; i < 13; i++ )
    c.equal( s.contains( i ), ids.count( i ) > 0, "containment of " + pbt::str( i ) );

  // the boundary of a simplex that is not referenced otherwise
  {
    py::object it = al( "Simplex" )( list( order ), w ).attr( "boundary" );
    std::vector<V> got;
    for( auto&& h : it )
      got.push_back( vertices( py::reinterpret_borrow<py::object>( h ) ) );
    std::sort( got.begin(), got.end() );
    auto expected = n > 1 ? model::facets( v ) : std::vector<V>();
    std::sort( expected.begin(), expected.end() );
    c.equal( got, expected, "boundary" );
  }
  {
    py::object it = (*python().builtins).attr( "iter" )( al( "Simplex" )( list( order ), w ) );
    c.equal( vertices( it ), v, "vertices of a temporary simplex" );
  }

  // comparisons with another simplex
  auto other = v;
  if( !other.empty() && c.boolean() )
    other.erase( other.begin() + static_cast<long>( c.draw( other.size() ) ) );
  if( c.boolean() && std::find( other.begin(), other.end(), 50u ) == other.end() )
    other.push_back( 50u );
  py::object t = al( "Simplex" )( list( other ), 3.0 );
  c.equal( py::cast<bool>( operation( "eq", s, t ) ), v == other, "equality" );
  c.equal( py::cast<bool>( operation( "ne", s, t ) ), v != other, "inequality" );
  S a( v.begin(), v.end(), w ), b( other.begin(), other.end(), 3.0 );
  c.equal( py::cast<bool>( operation( "lt", s, t ) ), a < b, "order" );
  c.equal( py::cast<bool>( operation( "lt", t, s ) ), b < a, "order" );

  std::ostringstream o;
  o << a;
  c.equal( py::cast<std::string>( py::repr( s ) ), o.str(), "text" );

  raises( c, [&] { al( "Simplex" )( py::make_tuple( "a" ) ); }, "tuple of text" );
  {
    py::list l = list( v );
    l.append( c.boolean() ? py::object( py::int_( -1 ) ) : py::object( py::str( "x" ) ) );
    raises( c, [&] { al( "Simplex" )( l ); }, "invalid vertex" );
    raises( c, [&] { al( "Simplex" )( l, 1.0 ); }, "invalid vertex with data" );
  }
  raises( c, [&] { s.attr( "data" ) = py::str( "x" ); }, "invalid data" );
}

LAW( complexes, 8160, 122400, "at least five simplices" )
{
  model::Options o;
  o.bulk( 30, 200, 80 ).solid( 8 );
  o.maxVertices = 7;
  o.empty = true;
  auto M = model::genFiltered( c, o );
  c.input( model::show( M ) );
  c.nontrivial( M.size() >= 5 );
  auto k = build( c, M );

  auto equal = [&] ( const model::Complex& expected, const std::string& what )
  {
    auto got = complexOf( k );
    c.equal( got.size(), expected.size(), what + ": size" );
    for( std::size_t i = 0; i < got.size(); i++ )
    {
      c.equal( got[i].v, expected[i].v, what + ": simplex " + pbt::str( i ) );
      c.equal( got[i].w, expected[i].w, what + ": weight of simplex " + pbt::str( i ) );
    }
  };
  equal( M, "complex" );
  c.equal( length( k ), M.size(), "length" );
  c.equal( truth( k ), !M.empty(), "truth value" );
  if( !M.empty() )
    c.equal( py::cast<std::size_t>( k.attr( "dimension" ) ), model::dimension( M ), "dimension" );
  for( std::size_t i = 0; i < M.size(); i++ )
  {
    py::object s = k[ py::int_( i ) ];
    c.equal( vertices( s ), M[i].v, "simplex by index" );
    c.equal( py::cast<double>( s.attr( "data" ) ), M[i].w, "weight of simplex by index" );
    // changing a simplex does not change the complex
    s.attr( "data" ) = 1234.5;
  }
  equal( M, "after changing single simplices" );
  raises( c, [&] { py::object x = k[ py::int_( M.size() + c.draw( 3 ) ) ]; }, "index behind the last simplex" );
  raises( c, [&] { py::object x = k[ py::int_( -1 - long( M.size() ) ) ]; }, "negative index" );
  std::set<V> all;
  for( auto&& x : M )
    all.insert( x.v );
  for( auto&& x : M )
  {
    c.check( k.contains( al( "Simplex" )( list( x.v ), 77.0 ) ), "simplex is not found" );
    auto v = x.v;
    v.push_back( 99 );
    c.check( !k.contains( al( "Simplex" )( list( v ) ) ), "simplex should not be found" );
  }
  // a simplex is only added once
  if( !M.empty() )
  {
    k.attr( "append" )( al( "Simplex" )( list( c.pick( M ).v ), 5.0 ) );
    equal( M, "after adding a simplex twice" );
  }

  // sorting in place, by the given predicate
  auto L = bridge::complex<S>( M );
  std::ostringstream text;
  text << L;
  c.equal( py::cast<std::string>( py::repr( k ) ), text.str(), "text" );
  {
    py::object sorted = k.attr( "sort" )();
    L.sort();
    equal( bridge::back( L ), "sorted" );
    auto got = complexOf( sorted );
    c.equal( got.size(), M.size(), "size of returned complex" );
    for( std::size_t i = 0; i < got.size(); i++ )
      c.equal( got[i].v, bridge::vertices( L[i] ), "returned complex" );
  }
  bool reverse = c.boolean();
  py::cpp_function predicate( [&] ( const S& a, const S& b )
  {
    if( a.data() != b.data() )
      return reverse ? a.data() > b.data() : a.data() < b.data();
    if( a.dimension() != b.dimension() )
      return a.dimension() < b.dimension();
    return a < b;
  } );
  auto expected = M;
  std::sort( expected.begin(), expected.end(), [&] ( const model::Cell& a, const model::Cell& b )
  {
    if( a.w != b.w )
      return reverse ? a.w > b.w : a.w < b.w;
    if( a.v.size() != b.v.size() )
      return a.v.size() < b.v.size();
    return bridge::simplex<S>( a.v ) < bridge::simplex<S>( b.v );
  } );
  {
    py::object sorted = k.attr( "sort" )( predicate );
    equal( expected, "sorted by function" );
    c.equal( complexOf( sorted ).size(), M.size(), "size of sorted complex" );
  }
  if( M.size() > 2 )
    raises( c, [&] { k.attr( "sort" )( py::cpp_function( [] ( py::object ) { return true; } ) ); }, "function with the wrong number of arguments" );
  py::list broken;
  broken.append( list( V{ 0 } ) );
  switch( c.draw( 4 ) )
  {
  case 0: broken.append( py::str( "x" ) ); break;
  case 1: broken.append( py::make_tuple( list( V{ 1 } ), 1.0, 2.0 ) ); break;
  case 2: broken.append( py::make_tuple( list( V{ 1 } ), "x" ) ); break;
  case 3: { py::list l; l.append( -4 ); broken.append( l ); } break;
  }
  raises( c, [&] { al( "SimplicialComplex" )( broken ); }, "invalid list of simplices" );

  // a complex that is only referenced by an iterator
  py::object it = (*python().builtins).attr( "iter" )( build( c, M ) );
  std::size_t i = 0;
  for( auto&& h : it )
  {
    c.check( i < M.size(), "iterator runs past the last simplex" );
    c.equal( vertices( py::reinterpret_borrow<py::object>( h ) ), M[i++].v, "simplex of an iterator" );
  }
  c.equal( i, M.size(), "simplices of an iterator" );
}

LAW( diagrams, 8160, 122400, "some interval with positive persistence" )
{
  model::Complex M;
  auto l = someDiagrams( c, M );
  auto expected = model::diagrams( M, false );
  same( c, diagramsOf( c, l ), expected, "diagram" );
  bool positive = false;
  for( auto&& d : expected )
    for( auto&& p : d.second )
      positive = positive || ( p.first < p.second && std::isfinite( p.second ) );
  c.nontrivial( positive );

  for( auto&& h : l )
  {
    py::object d = py::reinterpret_borrow<py::object>( h );
    auto dim = py::cast<std::size_t>( d.attr( "dimension" ) );
    auto e   = expected[dim];
    std::size_t unpaired = 0;
    for( auto&& p : e )
      unpaired += !std::isfinite( p.second );
    c.equal( length( d ), e.size(), "length" );
    c.equal( truth( d ), !e.empty(), "truth value" );
    c.equal( py::cast<std::size_t>( d.attr( "betti" ) ), unpaired, "Betti number" );
    std::ostringstream text;
    text << native( d );
    c.equal( py::cast<std::string>( py::repr( d ) ), text.str(), "text" );

    // array: same order as iterating
    py::object array = np( "asarray" )( d );
    auto shape = py::cast< std::vector<std::size_t> >( array.attr( "shape" ) );
    c.equal( shape, std::vector<std::size_t>{ e.size(), 2 }, "shape of array" );
    std::size_t i = 0;
    for( auto&& q : d )
    {
      py::object p = py::reinterpret_borrow<py::object>( q );
      c.equal( py::cast<double>( py::object( array[ py::make_tuple( i, 0 ) ] ) ), py::cast<double>( p.attr( "x" ) ), "first column of array" );
      c.equal( py::cast<double>( py::object( array[ py::make_tuple( i, 1 ) ] ) ), py::cast<double>( p.attr( "y" ) ), "second column of array" );
      i++;
    }

    // equality: as native, compared with all other diagrams
    for( auto&& g : l )
    {
      py::object o = py::reinterpret_borrow<py::object>( g );
      c.equal( py::cast<bool>( operation( "eq", d, o ) ), native( d ) == native( o ), "equality" );
      c.equal( py::cast<bool>( operation( "ne", d, o ) ), native( d ) != native( o ), "inequality" );
    }

    // norms
    auto k = c.uniform( 0.25, 4.0 );
    bool weighted = c.boolean();
    auto norms = al( "norms" );
    auto close = [&] ( py::object got, double want, const std::string& what )
    {
      auto g = py::cast<double>( got );
      c.check( g == want || ( std::isnan( g ) && std::isnan( want ) ), what + ": " + pbt::str( g ) + " instead of " + pbt::str( want ) );
    };
    close( norms.attr( "totalPersistence" )( d, k, weighted ), aleph::totalPersistence( native( d ), k, weighted ), "total persistence" );
    close( norms.attr( "totalPersistence" )( d ), aleph::totalPersistence( native( d ), 2.0, false ), "default total persistence" );
    close( norms.attr( "pNorm" )( d, k, weighted ), aleph::pNorm( native( d ), k, weighted ), "p-norm" );
    close( norms.attr( "pNorm" )( d, py::arg( "weighted" ) = weighted ), aleph::pNorm( native( d ), 2.0, weighted ), "2-norm" );
    close( norms.attr( "infinityNorm" )( d ), aleph::infinityNorm( native( d ) ), "maximum norm" );

    // modifications
    auto finite = e;
    d.attr( "removeUnpaired" )();
    finite.erase( std::remove_if( finite.begin(), finite.end(), [] ( const std::pair<double,double>& p ) { return !std::isfinite( p.second ); } ), finite.end() );
    c.equal( points( c, d ), finite, "without unpaired points" );
    d.attr( "removeDiagonal" )();
    finite.erase( std::remove_if( finite.begin(), finite.end(), [] ( const std::pair<double,double>& p ) { return p.first == p.second; } ), finite.end() );
    c.equal( points( c, d ), finite, "without diagonal" );
    d.attr( "dimension" ) = dim + 3;
    c.equal( py::cast<std::size_t>( d.attr( "dimension" ) ), dim + 3, "modified dimension" );
  }
  py::object empty = al( "PersistenceDiagram" )();
  c.check( !truth( empty ) && length( empty ) == 0, "empty diagram" );
  // Iterators keep what they iterate over alive
  if( l.size() )
  {
    auto dim = c.draw( l.size() );
    auto before = points( c, py::reinterpret_borrow<py::object>( l[dim] ) );
    py::object it = (*python().builtins).attr( "iter" )( l[dim] );
    l = py::list();
    model::Diagram after;
    for( auto&& h : it )
    {
      py::object p = py::reinterpret_borrow<py::object>( h );
      after.push_back( { py::cast<double>( p.attr( "x" ) ), py::cast<double>( p.attr( "y" ) ) } );
    }
    std::sort( after.begin(), after.end() );
    c.equal( after, before, "points of a diagram that is only referenced by an iterator" );
  }
}

LAW( clouds, 4080, 61200, "the array is not stored row by row, and an interval of positive length ends" )
{
  auto d = c.size( 1, 3 );
  auto p = cloud::gen( c, 1, 8, d, 1 );
  auto epsilon = c.pick( std::vector<double>{ 0.5, 3.5, 10.25, 25.125, 40.5, 100.0 } );
  auto dimension = static_cast<unsigned>( c.draw( 4 ) );
  std::string name;
  auto array = layout( c, p, d, name );
  c.input( cloud::show( p ) + " epsilon " + pbt::str( epsilon ) + " dimension " + pbt::str( dimension ) + ", " + name );
  c.label( name );
  py::list l = dimension == 0 && c.boolean() ? py::list( al( "calculatePersistenceDiagrams" )( array, epsilon ) )
                                             : py::list( al( "calculatePersistenceDiagrams" )( array, py::arg( "epsilon" ) = epsilon, py::arg( "dimension" ) = dimension ) );
  std::vector< std::vector<double> > M( p.size(), std::vector<double>( p.size(), 0 ) );
  for( std::size_t i = 0; i < p.size(); i++ )
    for( std::size_t j = 0; j < p.size(); j++ )
    {
      M[i][j] = cloud::euclidean( p[i], p[j] );
      if( std::abs( M[i][j] - epsilon ) < 1e-9 && M[i][j] != epsilon )
        throw pbt::Discard();
      // neighbours at exactly this distance are subject to rounding
      if( M[i][j] == epsilon )
        throw pbt::Discard();
    }
  auto expected = model::diagrams( flag( M, dimension ? dimension : d + 1, epsilon ), false );
  auto got = diagramsOf( c, l );
  bool higher = false;
  for( std::size_t k = 0; k < 6; k++ )
  {
    auto a = got[k], b = expected[k];
    // the number of points on the diagonal is part of the diagram
    c.equal( a.size(), b.size(), "number of points in dimension " + pbt::str( k ) );
    for( std::size_t i = 0; i < a.size(); i++ )
    {
      higher = higher || ( std::isfinite( b[i].second ) && b[i].second > b[i].first + 1e-6 );
      c.close( a[i].first, b[i].first, 1e-9, "creation in dimension " + pbt::str( k ) );
      if( std::isfinite( b[i].second ) || std::isfinite( a[i].second ) )
        c.close( a[i].second, b[i].second, 1e-9, "destruction in dimension " + pbt::str( k ) );
    }
  }
  c.nontrivial( higher && name != "row by row" );

  switch( c.draw( 4 ) )
  {
  case 0: raises( c, [&] { al( "calculatePersistenceDiagrams" )( array.attr( "astype" )( "float32" ), 1.0 ); }, "single precision" ); break;
  case 1: raises( c, [&] { al( "calculatePersistenceDiagrams" )( array.attr( "astype" )( "int64" ), 1.0 ); }, "integers" ); break;
  case 2: raises( c, [&] { al( "calculatePersistenceDiagrams" )( array.attr( "ravel" )(), 1.0 ); }, "one-dimensional array" ); break;
  case 3: raises( c, [&] { al( "calculatePersistenceDiagrams" )( list( V{ 1, 2 } ), 1.0 ); }, "list" ); break;
  }
}

LAW( distance_matrices, 5100, 81600, "at least four points, and the array is not stored row by row" )
{
  std::string text, name;
  auto M = distances( c, 1, 8, text );
  auto n = M.size();
  auto array = layout( c, M, n, name );
  if( c.chance( 1, 6 ) )
  {
    // other types are converted
    for( auto& r : M )
      for( auto& x : r )
        x = std::ceil( x );
    array = np( "ceil" )( array ).attr( "astype" )( "int32" );
    name += " (integers)";
  }
  c.input( text + " " + name );
  c.label( name );
  c.nontrivial( n >= 4 && name != "row by row" );
  auto inf = std::numeric_limits<double>::infinity();

  auto dimension = static_cast<unsigned>( c.draw( 4 ) );
  py::list l = dimension == 0 && c.boolean() ? py::list( al( "vietoris_rips_from_matrix" )( array ) ) : py::list( al( "vietoris_rips_from_matrix" )( array, dimension ) );
  same( c, diagramsOf( c, l ), model::diagrams( flag( M, std::max( dimension, 1u ), inf ), false ), "diagram" );

  // edges of a minimum spanning tree
  auto flagged = flag( M, 2, inf );
  auto spanning = [&] ( py::object edges )
  {
    std::vector<unsigned> parent( n );
    for( unsigned i = 0; i < n; i++ )
      parent[i] = i;
    std::vector<double> weights;
    for( auto&& h : edges )
    {
      auto e = py::cast< std::pair<unsigned, unsigned> >( h );
      c.check( e.first < n && e.second < n && e.first != e.second, "edge is not valid" );
      auto a = parent[e.first], b = parent[e.second];
      c.check( a != b, "edges contain a cycle" );
      for( auto& x : parent )
        if( x == a )
          x = b;
      weights.push_back( M[e.first][e.second] );
    }
    c.equal( weights.size(), n - 1, "number of edges" );
    std::sort( weights.begin(), weights.end() );
    std::vector<double> expected;
    auto D = model::diagrams( flagged, false )[0];
    for( auto&& p : D )
      if( std::isfinite( p.second ) )
        expected.push_back( p.second );
    std::sort( expected.begin(), expected.end() );
    c.equal( weights, expected, "weights of edges" );
  };
  spanning( al( "vietoris_rips_from_matrix_1d" )( array ) );

  py::tuple both = al( "vietoris_rips_from_matrix_2d" )( array );
  c.equal( both.size(), std::size_t( 2 ), "number of lists" );
  spanning( both[0] );
  model::Diagram got;
  std::set< std::pair<unsigned,unsigned> > creators;
  for( auto&& h : py::reinterpret_borrow<py::object>( both[1] ) )
  {
    auto q = py::cast< std::vector<unsigned> >( h );
    c.equal( q.size(), std::size_t( 4 ), "number of indices" );
    for( auto&& x : q )
      c.check( x < n, "index is not valid" );
    c.check( q[0] != q[1] && q[2] != q[3], "edge is not valid" );
    c.check( creators.insert( std::minmax( { q[0], q[1] } ) ).second, "cycle is reported twice" );
    got.push_back( { M[q[0]][q[1]], M[q[2]][q[3]] } );
  }
  std::sort( got.begin(), got.end() );
  auto one = model::diagrams( flagged, false )[1];
  c.equal( got, one, "weights of edges that create and destroy cycles" );

  switch( c.draw( 3 ) )
  {
  case 0: raises( c, [&] { al( "vietoris_rips_from_matrix_1d" )( np( "zeros" )( py::make_tuple( 2, 3 ) ) ); }, "rectangular matrix" ); break;
  case 1: raises( c, [&] { al( "vietoris_rips_from_matrix" )( np( "zeros" )( py::make_tuple( 3, 2 ) ), 1 ); }, "rectangular matrix" ); break;
  case 2: raises( c, [&] { al( "vietoris_rips_from_matrix_2d" )( np( "zeros" )( 4 ) ); }, "vector" ); break;
  }
}

LAW( bipartite_matrices, 5100, 81600, "at least two rows and columns, and the array is not stored row by row" )
{
  auto n = c.size( 1, 5 ), m = c.size( 1, 5 );
  bool reverse = c.boolean();
  std::vector< std::vector<double> > M( n, std::vector<double>( m, 0 ) );
  auto vertex = static_cast<double>( c.integer( 0, 8 ) ) / 4.0;
  for( auto& r : M )
    for( auto& x : r )
      x = vertex + ( reverse ? -1 : 1 ) * static_cast<double>( c.integer( 0, c.boolean() ? 3 : 200 ) ) / 16.0;
  std::string name;
  auto array = layout( c, M, m, name );
  std::ostringstream o;
  for( auto&& r : M )
    o << pbt::str( r );
  bool replace = c.boolean();
  auto unpaired = replace ? static_cast<double>( c.around( 20 ) ) : std::numeric_limits<double>::infinity();
  c.input( o.str() + ", vertices " + pbt::str( vertex ) + ( reverse ? ", reverse, " : ", " ) + name + ", unpaired " + pbt::str( unpaired ) );
  c.label( name );
  c.nontrivial( n >= 2 && m >= 2 && name != "row by row" );
  py::object d;
  auto f = al( "calculateZeroDimensionalPersistenceDiagramOfMatrix" );
  if( reverse && !replace && vertex == 1.0 && c.boolean() )
    d = f( array );
  else
    d = f( array, py::arg( "reverseFiltration" ) = reverse, py::arg( "vertexWeight" ) = vertex, py::arg( "unpairedData" ) = unpaired );

  model::Complex K;
  for( unsigned i = 0; i < n + m; i++ )
    K.push_back( { { i }, reverse ? -vertex : vertex } );
  for( unsigned i = 0; i < n; i++ )
    for( unsigned j = 0; j < m; j++ )
      K.push_back( { { i, unsigned( n + j ) }, reverse ? -M[i][j] : M[i][j] } );
  std::stable_sort( K.begin(), K.end(), [] ( const model::Cell& a, const model::Cell& b ) { return a.w != b.w ? a.w < b.w : a.v.size() < b.v.size(); } );
  model::Diagram expected;
  auto components = model::diagrams( K, false )[0];
  for( auto&& p : components )
    if( std::isfinite( p.second ) )
    {
      // components that are merged immediately are not part of the diagram
      if( p.first != p.second )
        expected.push_back( { vertex, reverse ? -p.second : p.second } );
    }
    else
      expected.push_back( { vertex, unpaired } );
  std::sort( expected.begin(), expected.end() );
  model::Diagram got;
  for( auto&& h : d )
  {
    py::object p = py::reinterpret_borrow<py::object>( h );
    got.push_back( { py::cast<double>( p.attr( "x" ) ), py::cast<double>( p.attr( "y" ) ) } );
  }
  // points on the diagonal may or may not be part of the diagram
  auto offDiagonal = [&] ( model::Diagram D )
  {
    D.erase( std::remove_if( D.begin(), D.end(), [] ( const std::pair<double,double>& p ) { return p.first == p.second; } ), D.end() );
    std::sort( D.begin(), D.end() );
    return D;
  };
  c.equal( offDiagonal( got ), offDiagonal( expected ), "diagram" );
  raises( c, [&] { f( np( "zeros" )( 3 ) ); }, "vector" );
}

LAW( components, 5100, 81600, "at least two edges" )
{
  model::Options o;
  o.bulk( 30, 200, 80 ).solid( 8 );
  o.maxVertices  = 8;
  o.maxDimension = 2;
  auto M = model::genFiltered( c, o );
  c.input( model::show( M ) );
  std::size_t edges = 0;
  for( auto&& x : M )
    edges += x.v.size() == 2;
  c.nontrivial( edges >= 2 );
  bool replace = c.boolean();
  auto unpaired = static_cast<double>( c.around( 50 ) );
  auto k = build( c, M );
  auto f = al( "calculateZeroDimensionalPersistenceDiagramAndPairing" );
  py::tuple t = replace ? py::tuple( f( k, unpaired ) ) : py::tuple( f( k ) );
  c.equal( t.size(), std::size_t( 2 ), "number of results" );

  using Traits = aleph::traits::PersistencePairingCalculation<P>;
  auto expected = aleph::calculateZeroDimensionalPersistenceDiagram<S, Traits>( bridge::complex<S>( M ) );
  auto pairing  = std::get<1>( expected );
  model::Diagram want;
  for( auto&& p : std::get<0>( expected ) )
    want.push_back( { p.x(), p.isUnpaired() && replace ? unpaired : p.isUnpaired() ? std::numeric_limits<double>::infinity() : p.y() } );
  model::Diagram got;
  for( auto&& h : py::reinterpret_borrow<py::object>( t[0] ) )
  {
    py::object p = py::reinterpret_borrow<py::object>( h );
    got.push_back( { py::cast<double>( p.attr( "x" ) ), py::cast<double>( p.attr( "y" ) ) } );
  }
  c.equal( got, want, "diagram" );

  py::object p = t[1];
  c.equal( length( p ), pairing.size(), "size of pairing" );
  c.equal( truth( p ), !pairing.empty(), "truth value of pairing" );
  std::vector< std::pair<unsigned,unsigned> > a, b( pairing.begin(), pairing.end() );
  for( auto&& h : p )
    a.push_back( py::cast< std::pair<unsigned,unsigned> >( h ) );
  c.check( a == b, "pairing" );
  py::object array = np( "asarray" )( p );
  c.equal( py::cast< std::vector<std::size_t> >( array.attr( "shape" ) ), std::vector<std::size_t>{ pairing.size(), 2 }, "shape of pairing" );
  for( std::size_t i = 0; i < b.size(); i++ )
  {
    c.equal( py::cast<double>( py::object( array[ py::make_tuple( i, 0 ) ] ) ), double( b[i].first ), "array of pairing" );
    c.equal( py::cast<double>( py::object( array[ py::make_tuple( i, 1 ) ] ) ), double( b[i].second ), "array of pairing" );
  }
  py::object none = al( "PersistencePairing" )();
  c.equal( py::cast<bool>( operation( "eq", p, none ) ), pairing.empty(), "equality of pairings" );
  c.equal( py::cast<bool>( operation( "ne", p, none ) ), !pairing.empty(), "inequality of pairings" );
  c.check( py::cast<bool>( operation( "eq", p, p ) ), "pairing differs from itself" );
  // a pairing that is only referenced by an iterator
  py::object it = (*python().builtins).attr( "iter" )( p );
  p = py::none();
  t = py::tuple();
  a.clear();
  for( auto&& h : it )
    a.push_back( py::cast< std::pair<unsigned,unsigned> >( h ) );
  c.check( a == b, "pairing of an iterator" );
}

LAW( expansions, 4080, 61200, "a triangle is added" )
{
  std::string text;
  auto M = distances( c, 1, 7, text );
  auto bound = static_cast<double>( c.integer( 1, 40 ) ) / 8.0;
  model::Complex graph = flag( M, 1, bound );
  for( auto& x : graph )
    if( x.v.size() == 1 )
      x.w = 0;
  auto dimension = static_cast<unsigned>( c.integer( 0, 4 ) );
  c.input( text + " bound " + pbt::str( bound ) + " dimension " + pbt::str( dimension ) );
  py::object expander = al( "RipsExpander" )();
  py::object k = expander( build( c, graph ), dimension );
  k = expander.attr( "assignMaximumWeight" )( k, 1 );
  std::map<V, double> expected, got;
  for( auto&& x : flag( M, dimension, bound ) )
    expected[x.v] = x.w;
  for( auto&& x : complexOf( k ) )
    got[x.v] = x.w;
  c.equal( length( k ), expected.size(), "size of expansion" );
  c.check( got == expected, "expansion" );
  c.nontrivial( expected.size() > graph.size() );
}

LAW( functions, 15300, 81600, "both diagrams have an interval of positive length" )
{
  model::Complex M, N;
  auto l = someDiagrams( c, M );
  auto r = someDiagrams( c, N, model::show( M ) + " and " );
  c.assume( length( l ) > 0 && length( r ) > 0 );
  py::object d = l[0], e = r[ c.draw( length( r ) ) ];
  for( auto&& x : { d, e } )
  {
    x.attr( "removeUnpaired" )();
    x.attr( "removeDiagonal" )();
  }
  auto f = aleph::persistenceIndicatorFunction( native( d ) );
  auto g = aleph::persistenceIndicatorFunction( native( e ) );
  py::object A = c.boolean() ? al( "StepFunction" )( d ) : al( "make_persistence_indicator_function" )( d );
  py::object B = al( "StepFunction" )( e );
  c.nontrivial( length( d ) > 0 && length( e ) > 0 );

  std::set<double> where;
  for( auto&& diagram : { native( d ), native( e ) } )
    for( auto&& p : diagram )
      for( auto x : { p.x(), p.y(), ( p.x() + p.y() ) / 2, p.x() - 1, p.y() + 1 } )
        where.insert( x );
  auto equal = [&] ( py::object a, const F& b, const std::string& what )
  {
    for( auto&& x : where )
      c.equal( py::cast<double>( a( x ) ), double( b( x ) ), what + " at " + pbt::str( x ) );
    c.equal( py::cast<double>( a.attr( "max" ) ), double( b.max() ), what + ": maximum" );
    c.equal( py::cast<double>( a.attr( "sup" ) ), double( b.sup() ), what + ": supremum" );
    c.equal( py::cast<double>( a.attr( "integral" ) ), double( b.integral() ), what + ": integral" );
  };
  equal( A, f, "indicator function" );
  py::object difference = operation( "sub", A, B );
  auto h = f - g;
  equal( operation( "add", A, B ), f + g, "sum" );
  equal( difference, h, "difference" );
  equal( python().builtins->attr( "abs" )( difference ), F( h ).abs(), "absolute value" );
  equal( difference, h, "difference after taking its absolute value" );
  equal( py::module::import( "operator" ).attr( "neg" )( A ), -f, "negation" );
  equal( A, f, "indicator function afterwards" );
  auto p = c.uniform( 1.0, 3.0 );
  py::object R = al( "StepFunction" )( d );
  auto fp = f;
  equal( R.attr( "pow" )( p ), fp.pow( p ), "power" );
  equal( operation( "iadd", A, B ), f + g, "sum in place" );
  py::object Q = al( "StepFunction" )( d );
  equal( operation( "isub", Q, B ), f - g, "difference in place" );
  equal( al( "StepFunction" )(), F(), "zero function" );
}

LAW( comparisons, 11900, 61200, "both diagrams have an interval of positive length" )
{
  model::Complex M, N;
  auto l = someDiagrams( c, M );
  auto r = someDiagrams( c, N, model::show( M ) + " and " );
  c.assume( length( l ) > 0 && length( r ) > 0 );
  py::object d = l[0], e = r[ c.draw( length( r ) ) ];
  for( auto&& x : { d, e } )
  {
    x.attr( "removeUnpaired" )();
    x.attr( "removeDiagonal" )();
  }
  c.nontrivial( length( d ) > 0 && length( e ) > 0 );
  e.attr( "dimension" ) = d.attr( "dimension" );
  auto x = native( d ), y = native( e );
  auto equal = [&] ( py::object got, double want, const std::string& what )
  {
    auto g = py::cast<double>( got );
    c.check( g == want || ( std::isnan( g ) && std::isnan( want ) ), what + ": " + pbt::str( g ) + " instead of " + pbt::str( want ) );
  };
  auto p = static_cast<double>( c.integer( 1, 4 ) );
  auto sigma = c.uniform( 0.25, 4.0 );
  if( length( d ) > 0 && length( e ) > 0 )
  {
    equal( al( "bottleneckDistance" )( d, e ), aleph::distances::bottleneckDistance( x, y ), "bottleneck distance" );
    equal( al( "hausdorffDistances" )( d, e ), aleph::distances::hausdorffDistance( x, y ), "Hausdorff distance" );
    equal( al( "wassersteinDistance" )( d, e, p ), aleph::distances::wassersteinDistance( x, y, p ), "Wasserstein distance" );
    equal( al( "wassersteinDistance" )( d, e ), aleph::distances::wassersteinDistance( x, y, 1.0 ), "default Wasserstein distance" );
  }
  equal( al( "multiScaleKernel" )( d, e, sigma ), aleph::multiScaleKernel( x, y, sigma ), "kernel" );
  equal( al( "multiScalePseudoMetric" )( d, e, sigma ), aleph::multiScalePseudoMetric( x, y, sigma ), "pseudo-metric" );
  raises( c, [&] { al( "bottleneckDistance" )( d, 1.0 ); }, "number instead of a diagram" );
}

LAW( files, 3060, 40800, "at least three vertices, two edges, or two points of a diagram" )
{
  python();
  if( c.boolean() )
  {
    Complex L;
    aleph::topology::io::SimplicialComplexReader reader;
    py::object k;
    if( c.boolean() )
    {
      // grid; simplices take the combined value of their vertices
      auto nx = c.size( 1, 3 ), ny = c.size( 1, 3 );
      auto path = pathTo( c, "grid.vtk" );
      std::ostringstream text;
      text << "# vtk DataFile Version 3.0\nvtk output\nASCII\nDATASET STRUCTURED_GRID\nDIMENSIONS " << nx << " " << ny << " 1\n";
      text << "POINTS " << nx * ny << " float\n";
      for( std::size_t y = 0; y < ny; y++ )
        for( std::size_t x = 0; x < nx; x++ )
          text << x << " " << y << " 0\n";
      text << "POINT_DATA " << nx * ny << "\nSCALARS s float\nLOOKUP_TABLE default\n";
      std::vector<double> w;
      for( std::size_t i = 0; i < nx * ny; i++ )
      {
        w.push_back( static_cast<double>( c.integer( 0, 30 ) ) );
        text << w.back() << "\n";
      }
      std::ofstream( path ) << text.str();
      auto which = c.draw( 4 );
      c.input( text.str() + " " + pbt::str( which ) );
      c.nontrivial( nx * ny >= 3 );
      std::function< double( double, double ) > f;
      switch( which )
      {
      case 0:
      case 1: f = [] ( double a, double b ) { return std::max( a, b ); }; break;
      case 2: f = [] ( double a, double b ) { return std::min( a, b ); }; break;
      case 3: f = [] ( double a, double b ) { return std::max( a, b ) + 0.25; }; break;
      }
      switch( which )
      {
      case 0: k = al( "load" )( path ); break;
      case 1: k = al( "load" )( path, (*python().builtins).attr( "max" ) ); break;
      case 2: k = al( "load" )( path, (*python().builtins).attr( "min" ) ); break;
      case 3: k = al( "load" )( path, py::cpp_function( f ) ); break;
      }
      reader( path, L, f );
      c.check( !k.is_none(), "nothing has been loaded" );
      for( auto&& x : complexOf( k ) )
        if( x.v.size() == 2 && x.v[0] < w.size() && x.v[1] < w.size() )
          c.equal( x.w, f( w[ x.v[0] ], w[ x.v[1] ] ), "weight of edge" );
    }
    else
    {
      // edges with weights
      auto path = pathTo( c, "edges.txt" );
      std::ostringstream text;
      auto n = c.size( 0, 6 );
      std::set< std::pair<unsigned,unsigned> > edges;
      for( std::size_t i = 0; i < n; i++ )
      {
        auto u = static_cast<unsigned>( c.draw( 6 ) ), v = static_cast<unsigned>( c.draw( 6 ) );
        if( u != v && edges.insert( std::make_pair( std::min( u, v ), std::max( u, v ) ) ).second )
          text << u << " " << v << " " << c.integer( 1, 20 ) << "\n";
      }
      std::ofstream( path ) << text.str();
      c.input( text.str() );
      c.nontrivial( edges.size() >= 2 );
      k = al( "load" )( path );
      reader( path, L );
      std::set< std::pair<unsigned,unsigned> > found;
      for( auto&& x : complexOf( k ) )
        if( x.v.size() == 2 )
          found.insert( std::make_pair( x.v[0], x.v[1] ) );
      c.check( found == edges, "edges" );
    }
    auto got = complexOf( k ), expected = bridge::back( L );
    c.equal( got.size(), expected.size(), "number of simplices" );
    for( std::size_t i = 0; i < got.size(); i++ )
    {
      c.equal( got[i].v, expected[i].v, "simplex" );
      c.equal( got[i].w, expected[i].w, "weight" );
    }
  }
  else
  {
    auto path = pathTo( c, "diagram.txt" );
    model::Diagram D;
    auto n = c.size( 0, 6 );
    for( std::size_t i = 0; i < n; i++ )
    {
      auto x = static_cast<double>( c.around( 30 ) ) / 4.0;
      D.push_back( { x, c.chance( 1, 5 ) ? std::numeric_limits<double>::infinity() : x + static_cast<double>( c.integer( 0, 30 ) ) / 4.0 } );
    }
    {
      std::ofstream out( path );
      for( auto&& p : D )
        out << p.first << "\t" << p.second << "\n";
    }
    c.nontrivial( n >= 2 );
    std::ostringstream o;
    for( auto&& p : D )
      o << p.first << " " << p.second << "; ";
    c.input( o.str() );
    py::object d = al( "load_persistence_diagram" )( path );
    std::sort( D.begin(), D.end() );
    c.equal( points( c, d ), D, "diagram" );
  }
  raises( c, [&] { al( "load" )( 7 ); }, "number instead of a file name" );
  raises( c, [&] { al( "load" )( pathTo( c, "missing.txt" ) ); }, "missing file" );
  raises( c, [&] { al( "load_persistence_diagram" )( pathTo( c, "missing.txt" ) ); }, "missing diagram" );
}

} // namespace laws
