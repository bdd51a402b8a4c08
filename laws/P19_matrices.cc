// Boundary matrices are faithful chain complexes and survive transformations.
#include "bridge.hh"

#include <aleph/topology/BoundaryMatrix.hh>
#include <aleph/topology/Conversions.hh>
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>
#include <aleph/topology/representations/Heap.hh>
#include <aleph/topology/representations/List.hh>
#include <aleph/topology/representations/Set.hh>
#include <aleph/topology/representations/Vector.hh>

#include <algorithm>
#include <fstream>
#include <map>
#include <set>
#include <sstream>

using S = aleph::topology::Simplex<double, unsigned>;
using K = aleph::topology::SimplicialComplex<S>;
using model::V;

template <class I> using Vector = aleph::topology::representations::Vector<I>;
template <class I> using Heap   = aleph::topology::representations::Heap<I>;
template <class I> using List   = aleph::topology::representations::List<I>;
template <class I> using Set    = aleph::topology::representations::Set<I>;
template <class R> using Matrix = aleph::topology::BoundaryMatrix<R>;

using Columns = std::vector< std::set<std::size_t> >;

template <class R> static void same( pbt::Ctx& c, const Matrix<R>& M, const Columns& columns, const std::vector<std::size_t>& dims, const std::string& what )
{
  using I = typename R::Index;
  c.equal( std::size_t( M.getNumColumns() ), columns.size(), what + ": number of columns" );
  std::size_t top = 0;
  for( std::size_t j = 0; j < columns.size(); j++ )
  {
    auto col = M.getColumn( I( j ) );
    c.equal( std::vector<std::size_t>( col.begin(), col.end() ), std::vector<std::size_t>( columns[j].begin(), columns[j].end() ), what + ": column " + pbt::str( j ) );
    c.equal( std::size_t( M.getDimension( I( j ) ) ), dims[j], what + ": dimension of column " + pbt::str( j ) );
    auto low = M.getMaximumIndex( I( j ) );
    c.equal( low.second, !columns[j].empty(), what + ": column " + pbt::str( j ) + " is non-zero" );
    if( low.second )
      c.equal( std::size_t( low.first ), *columns[j].rbegin(), what + ": lowest one of column " + pbt::str( j ) );
    top = std::max( top, dims[j] );
  }
  c.equal( std::size_t( M.getDimension() ), top, what + ": dimension" );
}

static Columns columnsOf( const model::Complex& m, std::vector<std::size_t>& dims )
{
  Columns r;
  for( auto&& x : model::columnsOf( m ) )
    r.push_back( std::set<std::size_t>( x.begin(), x.end() ) );
  for( auto&& x : m )
    dims.push_back( x.v.size() - 1 );
  return r;
}

template <class R> static void fromComplex( pbt::Ctx& c, const model::Complex& m )
{
  using I = typename R::Index;
  std::vector<std::size_t> dims;
  auto columns = columnsOf( m, dims );
  auto L = bridge::complex<S>( m );
  auto M = aleph::topology::makeBoundaryMatrix<R>( L );
  same( c, M, columns, dims, "matrix" );
  c.check( !M.isDualized(), "matrix is reported as dualised" );
  // boundary of boundary
  for( std::size_t j = 0; j < columns.size(); j++ )
  {
    std::map<std::size_t, std::size_t> n;
    for( auto i : M.getColumn( I( j ) ) )
      for( auto k : M.getColumn( i ) )
        n[ std::size_t( k ) ]++;
    for( auto&& x : n )
      c.check( x.second % 2 == 0, "boundary of the boundary of column " + pbt::str( j ) );
  }
  // dual matrix
  auto N = M.dualize();
  auto n = columns.size();
  Columns dual( n );
  std::vector<std::size_t> dualDims( n );
  for( std::size_t j = 0; j < n; j++ )
  {
    for( auto i : columns[j] )
      dual[ n - 1 - i ].insert( n - 1 - j );
    dualDims[ n - 1 - j ] = model::dimension( m ) - dims[j];
  }
  same( c, N, dual, dualDims, "dual matrix" );
  c.check( N.isDualized(), "dual matrix is not reported as dualised" );
  if( n > 0 )
    c.check( !( M == N ) && M != N, "matrix and its dual are equal" );
  auto P = N.dualize();
  same( c, P, columns, dims, "twice dualised matrix" );
  c.check( P == M && !( P != M ), "twice dualised matrix differs from matrix" );
  // partial conversion: columns beyond the maximum are empty but keep their dimension
  if( n > 1 )
  {
    auto max = c.size( 1, n );
    auto Q = aleph::topology::makeBoundaryMatrix<R>( L, max );
    auto partial = columns;
    for( std::size_t j = max; j < n; j++ )
      partial[j].clear();
    same( c, Q, partial, dims, "partial matrix" );
  }
}

LAW( complexes, 80000, 800000, "filtered complexes, all representations and index types: columns, dimensions, dual, double dual, square of the boundary, partial conversion; non-trivial: dimension >=2" )
{
  auto m = model::genFiltered( c, model::Options().bulk( 50, 700, 100 ).solid( 9 ), true );
  auto r = c.size( 0, 5 );
  c.input( model::show( m ) + " representation " + pbt::str( r ) );
  switch( r )
  {
  case 0: fromComplex< Vector<unsigned> >( c, m ); break;
  case 1: fromComplex< List<unsigned> >( c, m ); break;
  case 2: fromComplex< Set<unsigned> >( c, m ); break;
  case 3: fromComplex< Vector<std::size_t> >( c, m ); break;
  case 4: fromComplex< Set<unsigned short> >( c, m ); break;
  case 5: fromComplex< Heap<unsigned> >( c, m ); break;
  }
  c.nontrivial( !m.empty() && model::dimension( m ) >= 2 );
}

template <class R> static void history( pbt::Ctx& c )
{
  using I = typename R::Index;
  auto n = c.extent( 1, 8, 90 );
  Matrix<R> M;
  M.setNumColumns( I( n ) );
  Columns columns( n );
  std::vector<std::size_t> dims( n, 0 );
  auto steps = c.extent( 1, 25, 250 );
  std::string in = pbt::str( n ) + " columns:";
  std::size_t additions = 0;
  for( std::size_t s = 0; s < steps; s++ )
  {
    auto j = c.size( 0, n - 1 );
    auto op = c.size( 0, 9 );
    if( op <= 3 )
    {
      auto i = c.size( 0, n - 1 );
      in += " add " + pbt::str( i ) + "->" + pbt::str( j );
      c.input( in );
      auto source = columns[i];
      for( auto x : source )
        if( !columns[j].insert( x ).second )
          columns[j].erase( x );
      M.addColumns( I( i ), I( j ) );
      additions += !source.empty();
    }
    else if( op <= 6 )
    {
      std::set<std::size_t> col;
      auto k = c.size( 0, 5 );
      for( std::size_t i = 0; i < k; i++ )
        col.insert( c.size( 0, n - 1 ) );
      std::vector<I> v( col.begin(), col.end() );
      c.shuffle( v );
      in += " set " + pbt::str( j ) + "=" + pbt::str( v );
      c.input( in );
      M.setColumn( I( j ), v.begin(), v.end() );
      columns[j] = col;
      dims[j]    = col.empty() ? 0 : col.size() - 1;
    }
    else if( op == 7 )
    {
      in += " clear " + pbt::str( j );
      c.input( in );
      M.clearColumn( I( j ) );
      columns[j].clear();
    }
    else if( op == 8 )
    {
      auto d = c.size( 0, 4 );
      in += " dimension " + pbt::str( j ) + "=" + pbt::str( d );
      c.input( in );
      M.setDimension( I( j ), I( d ) );
      dims[j] = d;
    }
    else
    {
      // copies are independent
      in += " copy";
      c.input( in );
      auto N = M;
      c.check( N == M, "copy differs" );
      N.setDimension( I( j ), I( dims[j] + 1 ) );
      c.check( N != M, "matrices with different dimensions are equal" );
      N = M;
      std::vector<I> v;
      if( columns[j].empty() )
        v.push_back( I( 0 ) );
      N.setColumn( I( j ), v.begin(), v.end() );
      N.setDimension( I( j ), I( dims[j] ) );
      c.check( N != M, "matrices with different columns are equal" );
    }
    same( c, M, columns, dims, "after step " + pbt::str( s ) );
  }
  c.nontrivial( additions >= 2 );
}

LAW( histories, 80000, 800000, "sequences of <=25 column operations (addition, also to itself, assignment in any order, clearing, dimensions, copies) on every representation, compared with sets mod 2 after every step; non-trivial: >=2 additions of non-zero columns" )
{
  switch( c.size( 0, 3 ) )
  {
  case 3: history< Heap<unsigned> >( c ); c.label( "heap" ); break;
  case 0: history< Vector<unsigned> >( c ); c.label( "vector" ); break;
  case 1: history< List<unsigned> >( c ); c.label( "list" ); break;
  case 2: history< Set<unsigned> >( c ); c.label( "set" ); break;
  }
}

template <class R> static void text( pbt::Ctx& c, const model::Complex& m )
{
  std::vector<std::size_t> dims;
  auto columns = columnsOf( m, dims );
  std::ostringstream o;
  auto noise = [&] ()
  {
    while( c.chance( 1, 5 ) )
    {
      switch( c.size( 0, 4 ) )
      {
      case 0: o << "\n"; break;
      case 1: o << "# comment\n"; break;
      case 2: o << "#2 0 1\n"; break;
      case 3: o << "  \t \n"; break;
      case 4: o << "  # 1 0\n"; break;
      }
    }
  };
  auto space = [&] () { return c.chance( 1, 6 ) ? "\t" : c.chance( 1, 6 ) ? "  " : " "; };
  noise();
  bool last = c.boolean();
  for( std::size_t j = 0; j < columns.size(); j++ )
  {
    if( c.chance( 1, 8 ) )
      o << space();
    o << dims[j];
    std::vector<std::size_t> v( columns[j].begin(), columns[j].end() );
    c.shuffle( v );
    for( auto i : v )
      o << space() << i;
    if( c.chance( 1, 8 ) )
      o << space();
    if( j + 1 < columns.size() || last )
    {
      o << "\n";
      noise();
    }
  }
  c.input( o.str() );
  Matrix<R> M;
  if( c.boolean() )
  {
    std::istringstream in( o.str() );
    M = Matrix<R>::load( in );
  }
  else
  {
    auto file = c.scratch() + "/matrix.txt";
    std::ofstream( file ) << o.str();
    M = Matrix<R>::load( file );
  }
  same( c, M, columns, dims, "loaded matrix" );
  c.check( M == aleph::topology::makeBoundaryMatrix<R>( bridge::complex<S>( m ) ), "loaded matrix differs" );
  c.nontrivial( !m.empty() && model::dimension( m ) >= 1 );
}

LAW( text_form, 60000, 600000, "matrices in text form with comments (also indented), blank lines, tabs, unsorted indices and optional final line break, from streams and files; non-trivial: dimension >=1" )
{
  model::Options o;
  o.maxVertices = 6;
  o.bulk( 50, 700, 100 );
  auto m = model::genFiltered( c, o, true );
  switch( c.size( 0, 3 ) )
  {
  case 3: text< Heap<unsigned> >( c, m ); break;
  case 0: text< Vector<unsigned> >( c, m ); break;
  case 1: text< List<unsigned> >( c, m ); break;
  case 2: text< Set<unsigned> >( c, m ); break;
  }
}

LAW( inconsistent_text, 16000, 160000, "text forms in which the dimension of a column contradicts its number of indices are rejected; non-trivial: all" )
{
  model::Options o;
  o.maxVertices = 5;
  o.empty = false;
  auto m = model::genFiltered( c, o, true );
  c.assume( !m.empty() );
  std::vector<std::size_t> dims;
  auto columns = columnsOf( m, dims );
  auto bad = c.size( 0, m.size() - 1 );
  dims[bad] += 1 + c.size( 0, 2 );
  std::ostringstream out;
  for( std::size_t j = 0; j < columns.size(); j++ )
  {
    out << dims[j];
    for( auto i : columns[j] )
      out << " " << i;
    out << "\n";
  }
  c.input( out.str() );
  bool thrown = false;
  try
  {
    std::istringstream in( out.str() );
    Matrix< Vector<unsigned> >::load( in );
  }
  catch( std::runtime_error& )
  {
    thrown = true;
  }
  c.check( thrown, "no exception" );
  c.nontrivial( true );
}
