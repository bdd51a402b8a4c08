// flags: -I/usr/include/eigen3 -fext-numeric-literals
#include "pbt.hh"

#include <functional>
#include <type_traits>

#include <aleph/math/AlgebraicSphere.hh>
#include <aleph/math/Bootstrap.hh>
#include <aleph/math/Combinations.hh>
#include <aleph/math/KahanSummation.hh>
#include <aleph/math/KernelDensityEstimator.hh>
#include <aleph/math/PrincipalComponentAnalysis.hh>
#include <aleph/math/Quantiles.hh>
#include <aleph/math/SparseMatrix.hh>
#include <aleph/math/Statistics.hh>
#include <aleph/math/SymmetricMatrix.hh>

#include <aleph/utilities/ContainerOperators.hh>
#include <aleph/utilities/Filesystem.hh>
#include <aleph/utilities/Format.hh>
#include <aleph/utilities/String.hh>
#include <aleph/utilities/UnorderedSetOperations.hh>
#include <aleph/utilities/Values.hh>

#include <algorithm>
#include <cmath>
#include <fstream>
#include <limits>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

#include <sys/stat.h>
#include <unistd.h>

namespace
{

using Quad = __float128;

Quad absolute( Quad x )
{
  return x < 0 ? -x : x;
}

// Values of very different magnitude, of which short prefixes or sums may
// cancel
template <class T> std::vector<T> magnitudes( pbt::Ctx& c, std::size_t n )
{
  std::vector<T> v;
  v.reserve( n );

  auto style = c.draw( 5 );
  auto low   = sizeof(T) == 4 ? -8  : -18;
  auto high  = sizeof(T) == 4 ?  8  :  18;

  for( std::size_t i = 0; i < n; i++ )
  {
    switch( style )
    {
    case 0: // small integers
      v.push_back( static_cast<T>( c.integer( -9, 9 ) ) );
      break;
    case 1: // arbitrary magnitudes
      v.push_back( static_cast<T>( c.uniform( -1, 1 ) * std::pow( 10.0, static_cast<double>( c.integer( low, high ) ) ) ) );
      break;
    case 2: // one large value, followed by small values
      v.push_back( i == 0 ? T(1) : static_cast<T>( c.uniform( 0.2, 0.45 ) ) * std::numeric_limits<T>::epsilon() );
      break;
    case 3: // cancellation
      if( i % 2 && c.chance( 3, 4 ) )
        v.push_back( -v.back() );
      else
        v.push_back( static_cast<T>( c.uniform( -1e6, 1e6 ) ) );
      break;
    default: // same sign, similar magnitude
      v.push_back( static_cast<T>( c.uniform( 0.1, 0.2 ) ) );
    }
  }

  c.label( style == 0 ? "integers" : style == 1 ? "magnitudes" : style == 2 ? "absorption" : style == 3 ? "cancellation" : "similar" );
  return v;
}

template <class T> void summation( pbt::Ctx& c )
{
  auto n = c.chance( 1, 6 ) ? 200 + c.draw( c.thorough() ? 20000 : 4000 ) : c.size( 0, 40 );
  auto v = magnitudes<T>( c, n );
  if( n < 60 )
    c.input( pbt::str( v ) );
  else
    c.input( pbt::str( n ) + " values, starting with " + pbt::str( v[0] ) + ", " + pbt::str( v[1] ) );

  auto initial = c.chance( 1, 3 ) ? static_cast<T>( c.uniform( -100, 100 ) ) : T();

  Quad sum       = initial;
  Quad magnitude = absolute( Quad( initial ) );
  for( auto&& x : v )
  {
    sum       += Quad( x );
    magnitude += absolute( Quad( x ) );
  }

  Quad u     = std::numeric_limits<T>::epsilon() / 2;
  Quad bound = ( 4 * u + Quad( 4.0 * double( n ) ) * u * u ) * magnitude;

  auto check = [&] ( T result, const std::string& what )
  {
    auto error = absolute( Quad( result ) - sum );
    c.check( error <= bound, what + ": " + pbt::str( double( result ) ) + " instead of " + pbt::str( double( sum ) ) + " (error " + pbt::str( double( error ) ) + ", permitted " + pbt::str( double( bound ) ) + ")" );
  };

  check( aleph::math::accumulate_kahan( v.begin(), v.end(), initial ), "compensated sum" );
  check( aleph::math::accumulate_kahan_sorted( v.begin(), v.end(), initial ), "sorted compensated sum" );

  aleph::math::KahanSummation<T> s = initial;
  for( auto&& x : v )
  {
    if( x < T() )
      s -= -x;
    else
      s += x;
  }
  check( s, "sum with subtractions" );

  // The order of values does not matter for the sorted variant
  auto w = v;
  c.shuffle( w );
  c.equal( aleph::math::accumulate_kahan_sorted( w.begin(), w.end(), initial ), aleph::math::accumulate_kahan_sorted( v.begin(), v.end(), initial ), "sorted compensated sum of permuted values" );

  c.nontrivial( n >= 3 );
}

LAW( sums, 18000, 120000, "at least three values" )
{
  if( c.boolean() )
    summation<float>( c );
  else
    summation<double>( c );
}

// Histories of operations on a sum
LAW( sum_histories, 12000, 120000, "at least one scaling operation between two additions" )
{
  aleph::math::KahanSummation<double> s;

  Quad sum       = 0;
  Quad magnitude = 0;

  auto n = c.size( 1, 25 );
  std::ostringstream o;
  bool added = false, scaled = false, nontrivial = false;

  for( std::size_t i = 0; i < n; i++ )
  {
    switch( c.draw( 4 ) )
    {
    case 0:
    case 1:
    {
      auto x = c.uniform( -1, 1 ) * std::pow( 10.0, static_cast<double>( c.integer( -12, 12 ) ) );
      if( c.boolean() )
      {
        o << " += " << pbt::str( x );
        s   += x;
        sum += Quad( x );
      }
      else
      {
        o << " -= " << pbt::str( x );
        s   -= x;
        sum -= Quad( x );
      }
      magnitude += absolute( Quad( x ) );
      nontrivial = nontrivial || scaled;
      added      = true;
      break;
    }
    default:
    {
      auto x = c.uniform( 0.1, 1 ) * std::pow( 10.0, static_cast<double>( c.integer( -12, 12 ) ) );
      if( c.boolean() )
        x = -x;
      if( c.boolean() )
      {
        o << " *= " << pbt::str( x );
        s         *= x;
        sum       *= Quad( x );
        magnitude *= absolute( Quad( x ) );
      }
      else
      {
        o << " /= " << pbt::str( x );
        s         /= x;
        sum       /= Quad( x );
        magnitude /= absolute( Quad( x ) );
      }
      scaled = scaled || added;
    }
    }
  }
  c.input( o.str() );

  double result = s;
  auto error    = absolute( Quad( result ) - sum );
  Quad bound    = Quad( 8.0 * double( n ) ) * std::numeric_limits<double>::epsilon() * magnitude;
  c.check( error <= bound, "sum is " + pbt::str( result ) + " instead of " + pbt::str( double( sum ) ) );
  c.nontrivial( nontrivial );
}

// Sample statistics ------------------------------------------------------

LAW( statistics, 18000, 180000, "at least three values, not all of them the same" )
{
  auto n = c.extent( 0, 30, 1500 );

  std::vector<double> x, y;
  auto integral = c.boolean();
  auto shift    = c.chance( 1, 3 ) ? std::pow( 10.0, static_cast<double>( c.integer( 0, 6 ) ) ) : 0.0;
  for( std::size_t i = 0; i < n; i++ )
  {
    x.push_back( shift + ( integral ? static_cast<double>( c.integer( -9, 9 ) ) : c.uniform( -10, 10 ) ) );
    y.push_back( integral ? static_cast<double>( c.integer( -9, 9 ) ) : c.uniform( -10, 10 ) );
  }
  c.input( pbt::str( x ) + " " + pbt::str( y ) );

  using namespace aleph::math;

  if( n == 0 )
  {
    c.check( std::isnan( sampleMean( x.begin(), x.end() ) ), "mean of empty sample" );
    c.check( std::isnan( sampleVariance( x.begin(), x.end() ) ), "variance of empty sample" );
    c.check( std::isnan( sampleCovariance( x.begin(), x.end(), y.begin(), y.end() ) ), "covariance of empty sample" );
    c.check( std::isnan( sampleSkewness( x.begin(), x.end() ) ), "skewness of empty sample" );
    c.check( std::isnan( sampleKurtosis( x.begin(), x.end() ) ), "kurtosis of empty sample" );
    return;
  }

  auto N = static_cast<double>( n );

  Quad mx = 0, my = 0;
  for( std::size_t i = 0; i < n; i++ )
  {
    mx += Quad( x[i] );
    my += Quad( y[i] );
  }
  mx /= Quad( N );
  my /= Quad( N );

  Quad xx = 0, xy = 0, xxx = 0, xxxx = 0, yy = 0;
  for( std::size_t i = 0; i < n; i++ )
  {
    auto dx = Quad( x[i] ) - mx;
    auto dy = Quad( y[i] ) - my;
    xx   += dx * dx;
    xy   += dx * dy;
    yy   += dy * dy;
    xxx  += dx * dx * dx;
    xxxx += dx * dx * dx * dx;
  }

  auto scale = 10.0 + shift;
  auto tiny  = 1e-13 * N * scale;

  c.close( sampleMean( x.begin(), x.end() ), double( mx ), tiny, "mean" );

  // Ranges may be traversed more than once but they may be lists as well
  std::list<double> l( x.begin(), x.end() );
  c.close( sampleMean( l.begin(), l.end() ), double( mx ), tiny, "mean of list" );

  if( n == 1 )
  {
    c.check( std::isnan( sampleVariance( x.begin(), x.end() ) ), "variance of single value" );
    c.check( std::isnan( sampleCovariance( x.begin(), x.end(), y.begin(), y.end() ) ), "covariance of single value" );
    return;
  }

  // Errors of the mean are of second order only
  auto tolerance = 1e-12 * N * 20.0 * 20.0 + 20.0 * tiny;

  auto variance = double( xx ) / ( N - 1 );
  c.close( sampleVariance( x.begin(), x.end() ), variance, tolerance, "variance" );
  c.close( sampleVariance( l.begin(), l.end() ), variance, tolerance, "variance of list" );
  c.close( std::pow( sampleStandardDeviation( x.begin(), x.end() ), 2.0 ), variance, tolerance, "squared standard deviation" );
  c.check( sampleStandardDeviation( x.begin(), x.end() ) >= 0, "negative standard deviation" );

  auto covariance = double( xy ) / ( N - 1 );
  c.close( sampleCovariance( x.begin(), x.end(), y.begin(), y.end() ), covariance, tolerance, "covariance" );
  c.close( sampleCovariance( y.begin(), y.end(), x.begin(), x.end() ), covariance, tolerance, "covariance, swapped" );
  c.close( sampleCovariance( l.begin(), l.end(), y.begin(), y.end() ), covariance, tolerance, "covariance, different ranges" );
  c.close( sampleCovariance( x.begin(), x.end(), x.begin(), x.end() ), variance, tolerance, "covariance with itself" );

  if( n > 2 )
  {
    bool thrown = false;
    try
    {
      sampleCovariance( x.begin(), x.end(), y.begin(), y.end() - 1 );
    }
    catch( std::runtime_error& )
    {
      thrown = true;
    }
    c.check( thrown, "covariance of samples of different size" );
  }

  auto s2 = double( xx ) / N;
  if( s2 > 0.1 )
  {
    auto skewness = double( xxx ) / N / std::pow( s2, 1.5 );
    auto kurtosis = double( xxxx ) / N / ( s2 * s2 ) - 3.0;
    auto relative = 1e-9 * ( 1.0 + scale * 1e-3 );

    c.close( sampleSkewness( x.begin(), x.end() ), skewness, relative * ( 10 + std::abs( skewness ) ), "skewness" );
    c.close( sampleKurtosis( x.begin(), x.end() ), kurtosis, relative * ( 100 + std::abs( kurtosis ) ), "kurtosis" );
  }

  // Integral samples have to be treated like all others
  if( integral && shift == 0.0 )
  {
    std::vector<int> i( x.begin(), x.end() );
    c.close( sampleMean( i.begin(), i.end() ), double( mx ), tiny, "mean of integers" );
    c.close( sampleVariance( i.begin(), i.end() ), variance, tolerance, "variance of integers" );
    c.close( sampleCovariance( i.begin(), i.end(), y.begin(), y.end() ), covariance, tolerance, "covariance of integers" );
  }

  c.nontrivial( n >= 3 && xx > 0 );
}

LAW( medians, 12000, 120000, "at least three values" )
{
  auto n = c.extent( 1, 25, 600 );
  auto m = 1 + c.draw( 12 );

  std::vector<double> v;
  for( std::size_t i = 0; i < n; i++ )
    v.push_back( static_cast<double>( c.integer( -static_cast<long>( m ), static_cast<long>( m ) ) ) / 2.0 );
  c.input( pbt::str( v ) );

  auto s = v;
  std::sort( s.begin(), s.end() );
  auto expected = n % 2 ? s[ n / 2 ] : ( s[ n / 2 - 1 ] + s[ n / 2 ] ) / 2.0;
  auto copy     = v;

  c.equal( aleph::math::median( v.begin(), v.end() ), expected, "median" );
  c.equal( v, copy, "input after calculating its median" );

  std::list<double> l( v.begin(), v.end() );
  c.equal( aleph::math::median( l.begin(), l.end() ), expected, "median of list" );
  c.equal( aleph::math::median( s.rbegin(), s.rend() ), expected, "median of reversed range" );

  c.label( n % 2 ? "odd" : "even" );
  c.nontrivial( n >= 3 );
}

// Matrices ---------------------------------------------------------------

LAW( symmetric_matrices, 9000, 90000, "at least two rows and two assignments" )
{
  using Matrix = aleph::math::SymmetricMatrix<double>;

  auto n = c.extent( 0, 7, 60 );
  Matrix M( n );
  std::vector< std::vector<double> > R( n, std::vector<double>( n, 0.0 ) );

  std::ostringstream o;
  o << n << " rows;";

  auto same = [&] ( const Matrix& A, const std::vector< std::vector<double> >& B, const std::string& what )
  {
    c.equal( A.numRows(), B.size(), what + ": number of rows" );
    c.equal( A.empty(), B.empty(), what + ": emptiness" );
    c.equal( A.size(), B.size() * ( B.size() + 1 ) / 2, what + ": size" );
    for( std::size_t i = 0; i < B.size(); i++ )
      for( std::size_t j = 0; j < B.size(); j++ )
        c.equal( A(i,j), B[i][j], what + ": entry " + pbt::str( i ) + "," + pbt::str( j ) );
  };

  same( M, R, "new matrix" );
  c.check( Matrix().empty() && Matrix().numRows() == 0, "default matrix is not empty" );

  auto k = n ? c.size( 0, 20 ) : 0;
  for( std::size_t a = 0; a < k; a++ )
  {
    auto i = c.draw( n );
    auto j = c.draw( n );
    auto x = static_cast<double>( c.integer( -99, 99 ) );
    o << " " << i << "," << j << "=" << x;
    M(i,j)  = x;
    R[i][j] = x;
    R[j][i] = x;

    if( c.chance( 1, 5 ) )
    {
      // Copies are independent
      Matrix N = M;
      same( N, R, "copy" );
      N(i,j) += 1.0;
      same( M, R, "original after changing its copy" );

      Matrix P( c.draw( 4 ) );
      P = M;
      same( P, R, "assigned matrix" );
      P = P;
      same( P, R, "self-assigned matrix" );
      P(j,i) -= 1.0;
      same( M, R, "original after changing an assigned matrix" );

      Matrix Q;
      Q.swap( N );
      c.check( N.empty(), "swapped matrix is not empty" );
      c.equal( Q.numRows(), n, "rows of swapped matrix" );
    }
  }
  c.input( o.str() );
  same( M, R, "matrix" );

  Matrix E;
  Matrix F = E;
  c.check( F.empty(), "copy of empty matrix is not empty" );

  for( auto&& p : std::vector< std::pair<std::size_t, std::size_t> >{ {n,0}, {0,n}, {n,n}, {n+3,1} } )
  {
    bool thrown = false;
    try
    {
      M( p.first, p.second );
    }
    catch( std::out_of_range& )
    {
      thrown = true;
    }
    c.check( thrown, "access of " + pbt::str( p.first ) + "," + pbt::str( p.second ) + " is not rejected" );
  }

  std::ostringstream text;
  text << M;
  std::istringstream in( text.str() );
  for( std::size_t i = 0; i < n * n; i++ )
  {
    double x = 0;
    c.check( static_cast<bool>( in >> x ), "text has too few entries" );
    c.equal( x, R[ i / n ][ i % n ], "text entry " + pbt::str( i ) );
  }

  // Small index types
  n = std::min( n, std::size_t( 22 ) );
  aleph::math::SymmetricMatrix<int, unsigned char> S( static_cast<unsigned char>( n ) );
  for( std::size_t i = 0; i < n; i++ )
    for( std::size_t j = i; j < n; j++ )
      S( static_cast<unsigned char>( j ), static_cast<unsigned char>( i ) ) = static_cast<int>( 10 * i + j );
  for( std::size_t i = 0; i < n; i++ )
    for( std::size_t j = 0; j < n; j++ )
      c.equal( S( static_cast<unsigned char>( i ), static_cast<unsigned char>( j ) ), static_cast<int>( 10 * std::min(i,j) + std::max(i,j) ), "entry of small matrix" );

  c.nontrivial( n >= 2 && k >= 2 );
}

LAW( sparse_matrices, 9000, 90000, "at least two columns and three entries" )
{
  using Matrix = aleph::math::SparseBinaryMatrix<unsigned>;

  auto n = 1 + c.extent( 0, 7, 60 );
  Matrix M( static_cast<unsigned>( n ) );
  std::vector< std::set<unsigned> > R( n );

  std::ostringstream o;
  o << n << " columns;";
  auto k = c.extent( 0, 25, 300 );
  for( std::size_t a = 0; a < k; a++ )
  {
    auto row    = static_cast<unsigned>( c.draw( 10 ) );
    auto column = static_cast<unsigned>( c.draw( n ) );
    o << " " << row << "," << column;
    M.set( row, column );
    R[column].insert( row );
  }
  c.input( o.str() );

  c.equal( M.numColumns(), n, "number of columns" );
  for( unsigned j = 0; j < n; j++ )
  {
    c.equal( M.numEntries( j ), R[j].size(), "number of entries" );
    std::vector<unsigned> entries;
    M.get( j, std::back_inserter( entries ) );
    c.equal( std::multiset<unsigned>( entries.begin(), entries.end() ), std::multiset<unsigned>( R[j].begin(), R[j].end() ), "entries of column " + pbt::str( j ) );
    for( unsigned i = 0; i < 12; i++ )
      c.equal( M.get( i, j ), R[j].count( i ) > 0, "entry " + pbt::str( i ) + "," + pbt::str( j ) );
    c.equal( M.getIndex( j ), j, "default index" );
  }

  std::vector<unsigned> indices;
  for( unsigned j = 0; j < n; j++ )
    indices.push_back( 100 + static_cast<unsigned>( c.draw( 50 ) ) );

  M.setIndices( indices.begin(), indices.end() );
  for( unsigned j = 0; j < n; j++ )
    c.equal( M.getIndex( j ), indices[j], "index of column" );

  auto rejects = [&] ( std::function<void()> f, const std::string& what )
  {
    bool thrown = false;
    try
    {
      f();
    }
    catch( std::exception& )
    {
      thrown = true;
    }
    c.check( thrown, what + " is not rejected" );
  };

  rejects( [&] { M.get( 0u, static_cast<unsigned>( n ) ); }, "reading an invalid column" );
  rejects( [&] { M.set( 0u, static_cast<unsigned>( n ) ); }, "writing an invalid column" );
  rejects( [&] { M.numEntries( static_cast<unsigned>( n ) ); }, "counting an invalid column" );
  rejects( [&] { indices.push_back( 3 ); M.setIndices( indices.begin(), indices.end() ); }, "wrong number of indices" );

  c.nontrivial( n >= 2 && k >= 3 );
}

// Combinatorics ----------------------------------------------------------

using Sequence = std::vector<int>;

Sequence canonical( Sequence s, int kind )
{
  auto smallest = [] ( Sequence t )
  {
    if( !t.empty() )
      std::rotate( t.begin(), std::min_element( t.begin(), t.end() ), t.end() );
    return t;
  };

  auto r = s;
  std::reverse( r.begin(), r.end() );

  switch( kind )
  {
  case 0:
    std::sort( s.begin(), s.end() );
    return s;
  case 1:
    return s;
  case 2:
    return smallest( s );
  case 3:
    return std::min( s, r );
  default:
    return std::min( smallest( s ), smallest( r ) );
  }
}

template <class Iterator, class F> void enumerate( int kind, Iterator first, Iterator mid, Iterator last, F& f )
{
  using namespace aleph::math;
  switch( kind )
  {
  case 0:  for_each_combination                    ( first, mid, last, std::ref( f ) ); break;
  case 1:  for_each_permutation                    ( first, mid, last, std::ref( f ) ); break;
  case 2:  for_each_circular_permutation           ( first, mid, last, std::ref( f ) ); break;
  case 3:  for_each_reversible_permutation         ( first, mid, last, std::ref( f ) ); break;
  default: for_each_reversible_circular_permutation( first, mid, last, std::ref( f ) ); break;
  }
}

const char* kinds[] = { "combinations", "permutations", "circular permutations", "reversible permutations", "reversible circular permutations" };

template <class Container> void enumeration( pbt::Ctx& c )
{
  auto kind = static_cast<int>( c.draw( 5 ) );
  auto n    = c.size( 1, kind == 0 ? 9 : 6 );
  auto k    = static_cast<std::size_t>( kind < 2 ? c.draw( n + 1 ) : 1 + c.draw( n ) );

  Sequence values;
  for( std::size_t i = 0; i < n; i++ )
    values.push_back( static_cast<int>( 3 * i ) );
  c.shuffle( values );

  // All objects, by brute force
  std::set<Sequence> expected;
  auto p = values;
  std::sort( p.begin(), p.end() );
  do
    expected.insert( canonical( Sequence( p.begin(), p.begin() + static_cast<std::ptrdiff_t>( k ) ), kind ) );
  while( std::next_permutation( p.begin(), p.end() ) );

  auto stop = c.chance( 1, 3 ) ? 1 + c.draw( expected.size() ) : 0;
  c.input( std::string( kinds[kind] ) + " of " + pbt::str( k ) + " of " + pbt::str( values ) + ( stop ? ", stopping after " + pbt::str( stop ) : std::string() ) );
  c.label( kinds[kind] );

  Container container( values.begin(), values.end() );
  auto mid = std::next( container.begin(), static_cast<std::ptrdiff_t>( k ) );

  std::multiset<Sequence> visited;
  using Iterator = typename Container::iterator;
  std::function< bool( Iterator, Iterator ) > f = [&] ( Iterator a, Iterator b )
  {
    visited.insert( canonical( Sequence( a, b ), kind ) );
    return stop != 0 && visited.size() == stop;
  };

  enumerate( kind, container.begin(), mid, container.end(), f );

  std::set<Sequence> distinct( visited.begin(), visited.end() );
  c.equal( visited.size(), distinct.size(), "number of different objects that are visited" );
  for( auto&& v : distinct )
    c.check( expected.count( v ) > 0, "unexpected object " + pbt::str( v ) );

  c.equal( visited.size(), stop ? static_cast<std::size_t>( stop ) : expected.size(), "number of visited objects" );

  if( !stop )
    c.equal( Sequence( container.begin(), container.end() ), values, "range after visiting all objects" );
  else
  {
    Sequence rest( container.begin(), container.end() );
    std::sort( rest.begin(), rest.end() );
    auto all = values;
    std::sort( all.begin(), all.end() );
    c.equal( rest, all, "elements of range after stopping" );
  }

  c.nontrivial( k >= 2 && n > k );
}

LAW( enumerations, 9000, 60000, "at least two elements out of a larger range" )
{
  if( c.boolean() )
    enumeration< std::vector<int> >( c );
  else
    enumeration< std::list<int> >( c );
}

LAW( long_enumerations, 180, 1200, "permutations of at least seven elements" )
{
  auto kind = 1 + static_cast<int>( c.draw( 4 ) );
  auto n    = c.size( 7, 9 );
  auto k    = n == 9 ? 7 : c.chance( 3, 4 ) ? n : c.size( 6, n );

  Sequence values;
  for( std::size_t i = 0; i < n; i++ )
    values.push_back( static_cast<int>( i ) );
  c.shuffle( values );

  std::size_t expected = 1;
  for( std::size_t i = n - k + 1; i <= n; i++ )
    expected *= i;
  expected /= kind == 1 ? 1 : kind == 2 ? k : kind == 3 ? 2 : 2 * k;

  auto stop = c.chance( 1, 3 ) ? 1 + c.draw( expected ) : 0;
  c.input( std::string( kinds[kind] ) + " of " + pbt::str( k ) + " of " + pbt::str( values ) + ( stop ? ", stopping after " + pbt::str( stop ) : std::string() ) );

  auto range = values;
  std::set<Sequence> visited;
  std::size_t calls = 0;
  using Iterator = Sequence::iterator;
  std::function< bool( Iterator, Iterator ) > f = [&] ( Iterator a, Iterator b )
  {
    Sequence s( a, b );
    c.equal( std::set<int>( a, b ).size(), k, "number of different elements" );
    visited.insert( canonical( s, kind ) );
    return ++calls == stop;
  };
  enumerate( kind, range.begin(), range.begin() + static_cast<std::ptrdiff_t>( k ), range.end(), f );

  c.equal( calls, stop ? static_cast<std::size_t>( stop ) : expected, "number of visited objects" );
  c.equal( visited.size(), calls, "number of different objects that are visited" );
  if( !stop )
    c.equal( range, values, "range after visiting all objects" );
  c.nontrivial( k >= 7 );
}

template <class U> void counting( pbt::Ctx& c )
{
  using namespace aleph::math;

  auto kind  = static_cast<int>( c.draw( 5 ) );
  auto limit = static_cast<long>( sizeof(U) == 1 ? 14 : sizeof(U) == 2 ? 20 : sizeof(U) == 4 ? 36 : 70 );
  auto d1    = static_cast<U>( c.integer( kind == 4 ? 1 : 0, kind == 0 ? limit : limit / 2 ) );
  auto d2    = static_cast<U>( c.integer( 0, kind == 0 ? limit : limit / 2 ) );
  // Ranges whose size cannot be represented
  bool huge = c.chance( 1, 8 );
  if( huge )
  {
    d1 = static_cast<U>( 1 + c.draw( 4 ) );
    d2 = static_cast<U>( std::numeric_limits<U>::max() - static_cast<U>( c.draw( 6 ) ) );
    if( c.boolean() && kind == 0 )
      std::swap( d1, d2 );
  }
  c.input( std::string( kinds[kind] ) + " " + pbt::str( +d1 ) + " " + pbt::str( +d2 ) + " with " + pbt::str( sizeof(U) ) + " bytes" );

  // Long double would not be sufficient here
  __int128 expected = 1;
  bool overflow     = false;
  __int128 maximum  = std::numeric_limits<U>::max();
  __int128 ceiling  = __int128(1) << 100;

  auto multiply = [&] ( __int128 x )
  {
    if( expected < ceiling )
      expected = x > ceiling / expected ? ceiling : expected * x;
  };

  if( kind == 0 && huge )
  {
    __int128 a = std::min( d1, d2 ), b = std::max( d1, d2 ), factorial = 1;
    for( __int128 i = 1; i <= a; i++ )
    {
      multiply( b + i );
      factorial *= i;
    }
    expected = expected < ceiling ? expected / factorial : expected;
  }
  else if( kind == 0 )
  {
    // Pascal's triangle; values above the maximum are clamped
    auto n = static_cast<std::size_t>( d1 ) + static_cast<std::size_t>( d2 );
    std::vector<__int128> row = { 1 };
    for( std::size_t i = 1; i <= n; i++ )
    {
      std::vector<__int128> next( i + 1, 1 );
      for( std::size_t j = 1; j < i; j++ )
        next[j] = std::min( ceiling, row[j-1] + row[j] );
      row = next;
    }
    expected = row[ static_cast<std::size_t>( d1 ) ];
  }
  else
  {
    for( __int128 i = 1; i <= static_cast<__int128>( d1 ); i++ )
      multiply( static_cast<__int128>( d2 ) + i );
    if( kind == 2 && d1 > 0 )
      expected = expected < ceiling ? expected / d1 : expected;
    if( kind == 3 && d1 > 1 )
      expected = expected < ceiling ? expected / 2 : expected;
    if( kind == 4 )
      expected = expected < ceiling ? expected / ( d1 <= 2 ? d1 : 2 * __int128( d1 ) ) : expected;
  }
  overflow = expected > maximum;

  bool thrown = false;
  U result    = U();
  try
  {
    switch( kind )
    {
    case 0:  result = count_each_combination                    ( d1, d2 ); break;
    case 1:  result = count_each_permutation                    ( d1, d2 ); break;
    case 2:  result = count_each_circular_permutation           ( d1, d2 ); break;
    case 3:  result = count_each_reversible_permutation         ( d1, d2 ); break;
    default: result = count_each_reversible_circular_permutation( d1, d2 );
    }
  }
  catch( std::overflow_error& )
  {
    thrown = true;
  }

  c.check( !overflow || thrown, "overflow is not reported, result is " + pbt::str( static_cast<double>( result ) ) );
  if( !overflow )
  {
    // Intermediate results may be larger than the final one, but not for
    // combinations
    c.check( !thrown || kind >= 2, "spurious overflow" );
    if( !thrown )
      c.check( static_cast<__int128>( result ) == expected, "result is " + pbt::str( static_cast<double>( result ) ) + " instead of " + pbt::str( static_cast<double>( expected ) ) );
  }
  if( std::is_signed<U>::value )
  {
    bool rejected = false;
    try
    {
      auto x = static_cast<U>( c.boolean() ? -1 : 1 ), y = static_cast<U>( x > 0 ? -2 : 3 );
      switch( kind )
      {
      case 0:  result = count_each_combination                    ( x, y ); break;
      case 1:  result = count_each_permutation                    ( x, y ); break;
      case 2:  result = count_each_circular_permutation           ( x, y ); break;
      case 3:  result = count_each_reversible_permutation         ( x, y ); break;
      default: result = count_each_reversible_circular_permutation( x, y );
      }
    }
    catch( std::invalid_argument& )
    {
      rejected = true;
    }
    c.check( rejected, "negative number of elements is not rejected" );
  }
  c.label( overflow ? "overflow" : kinds[kind] );
  c.nontrivial( !overflow && d1 >= 2 && d2 >= 2 );
}

LAW( counts, 18000, 180000, "at least two elements out of at least four, without overflow" )
{
  switch( c.draw( 4 ) )
  {
  case 0:  counting<std::uint16_t>( c ); break;
  case 1:  counting<std::uint32_t>( c ); break;
  case 2:  counting<std::uint64_t>( c ); break;
  default: counting<std::int64_t> ( c ); break;
  }
}

// Principal components ---------------------------------------------------

LAW( principal_components, 4500, 30000, "at least two dimensions and three samples" )
{
  auto n = static_cast<std::size_t>( c.integer( 1, 9 ) );
  auto d = static_cast<std::size_t>( c.integer( 1, 5 ) );

  std::vector< std::vector<double> > data( n, std::vector<double>( d ) );
  auto rank = 1 + c.draw( d );
  std::vector< std::vector<double> > directions( rank, std::vector<double>( d ) );
  for( auto&& v : directions )
    for( auto&& x : v )
      x = static_cast<double>( c.integer( -4, 4 ) );

  for( auto&& row : data )
  {
    for( std::size_t j = 0; j < d; j++ )
      row[j] = static_cast<double>( j ) - 1.5;
    for( auto&& v : directions )
    {
      auto lambda = c.uniform( -2, 2 );
      for( std::size_t j = 0; j < d; j++ )
        row[j] += lambda * v[j];
    }
  }
  std::string text;
  for( auto&& row : data )
    text += pbt::str( row ) + " ";
  c.input( text );

  aleph::math::PrincipalComponentAnalysis pca;
  auto result = pca( data );
  auto k      = std::min( n, d );

  c.equal( result.singularValues.size(), k, "number of singular values" );
  c.equal( result.components.size(), k, "number of components" );

  // Covariance matrix
  std::vector<double> mean( d, 0.0 );
  for( auto&& row : data )
    for( std::size_t j = 0; j < d; j++ )
      mean[j] += row[j] / static_cast<double>( n );

  std::vector< std::vector<double> > C( d, std::vector<double>( d, 0.0 ) );
  double trace = 0.0;
  if( n > 1 )
  {
    for( std::size_t i = 0; i < d; i++ )
      for( std::size_t j = 0; j < d; j++ )
      {
        for( auto&& row : data )
          C[i][j] += ( row[i] - mean[i] ) * ( row[j] - mean[j] );
        C[i][j] /= static_cast<double>( n - 1 );
      }
    for( std::size_t i = 0; i < d; i++ )
      trace += C[i][i];
  }

  auto tolerance = 1e-9 * ( 1.0 + trace );
  double sum     = 0.0;

  for( std::size_t i = 0; i < k; i++ )
  {
    auto s = result.singularValues[i];
    auto v = result.components[i];
    sum   += s * s;

    c.check( s >= 0, "negative singular value" );
    c.check( i == 0 || s <= result.singularValues[i-1] + 1e-12, "singular values are not sorted" );
    c.equal( v.size(), d, "dimension of component" );

    for( std::size_t j = 0; j <= i; j++ )
    {
      double product = 0.0;
      for( std::size_t l = 0; l < d; l++ )
        product += v[l] * result.components[j][l];
      c.close( product, i == j ? 1.0 : 0.0, 1e-9, "product of components " + pbt::str( i ) + " and " + pbt::str( j ) );
    }

    // Squared singular values are eigenvalues of the covariance matrix
    for( std::size_t a = 0; a < d; a++ )
    {
      double x = 0.0;
      for( std::size_t b = 0; b < d; b++ )
        x += C[a][b] * v[b];
      c.close( x, s * s * v[a], tolerance, "covariance matrix applied to component " + pbt::str( i ) );
    }
  }
  c.close( sum, trace, tolerance, "total variance" );

  c.check( pca( std::vector< std::vector<double> >() ).components.empty(), "components of empty data" );
  c.nontrivial( d >= 2 && n >= 3 );
}

// Densities --------------------------------------------------------------

LAW( densities, 6000, 60000, "at least two values" )
{
  using namespace aleph::math;

  auto n         = 1 + c.size( 0, 12 );
  auto bandwidth = c.uniform( 0.2, 3.0 );
  auto dimension = static_cast<unsigned>( 1 + c.draw( 3 ) );

  std::vector< std::vector<double> > data;
  std::vector<double> first;
  for( std::size_t i = 0; i < n; i++ )
  {
    std::vector<double> p;
    for( unsigned j = 0; j < dimension; j++ )
      p.push_back( c.uniform( -3, 3 ) );
    data.push_back( p );
    first.push_back( p.front() );
  }
  std::vector<double> x;
  for( unsigned j = 0; j < dimension; j++ )
    x.push_back( c.uniform( -4, 4 ) );

  auto text = pbt::str( x ) + " with bandwidth " + pbt::str( bandwidth ) + " for";
  for( auto&& p : data )
    text += " " + pbt::str( p );
  c.input( text );

  auto sigma = c.boolean() ? 1.0 : c.uniform( 0.5, 2.0 );

  auto gaussian = [&] ( double r )
  {
    return std::exp( -r * r / ( 2.0 * sigma * sigma ) ) / ( sigma * std::sqrt( 2.0 * M_PI ) );
  };
  auto epanechnikov = [] ( double r )
  {
    return r * r <= 1.0 ? 0.75 * ( 1.0 - r * r ) : 0.0;
  };

  KernelDensityEstimator univariate( bandwidth, 1 );
  double g = 0.0, e = 0.0;
  for( auto&& y : first )
  {
    g += gaussian( ( y - x[0] ) / bandwidth );
    e += epanechnikov( ( y - x[0] ) / bandwidth );
  }
  g /= bandwidth * static_cast<double>( n );
  e /= bandwidth * static_cast<double>( n );

  c.close( univariate( first.begin(), first.end(), x[0], kernels::Gaussian( sigma ) ), g, 1e-12, "univariate Gaussian density" );
  c.close( univariate( first.begin(), first.end(), x[0], kernels::Epanechnikov() ), e, 1e-12, "univariate Epanechnikov density" );

  KernelDensityEstimator multivariate( bandwidth, dimension );
  auto difference = [] ( const std::vector<double>& a, const std::vector<double>& b )
  {
    std::vector<double> r;
    for( std::size_t i = 0; i < a.size(); i++ )
      r.push_back( a[i] - b[i] );
    return r;
  };

  g = 0.0;
  e = 0.0;
  for( auto&& y : data )
  {
    double r = 0.0;
    for( unsigned j = 0; j < dimension; j++ )
      r += ( y[j] - x[j] ) * ( y[j] - x[j] );
    r  = std::sqrt( r );
    g += gaussian( r / bandwidth );
    e += epanechnikov( r / bandwidth );
  }
  g /= std::pow( bandwidth, static_cast<double>( dimension ) ) * static_cast<double>( n );
  e /= std::pow( bandwidth, static_cast<double>( dimension ) ) * static_cast<double>( n );

  c.close( multivariate( data.begin(), data.end(), x, kernels::Gaussian( sigma ), norms::Euclidean(), difference ), g, 1e-12 * ( 1 + g ), "multivariate Gaussian density" );
  c.close( multivariate( data.begin(), data.end(), x, kernels::Epanechnikov(), norms::Euclidean(), difference ), e, 1e-12 * ( 1 + e ), "multivariate Epanechnikov density" );

  c.label( "dimension " + pbt::str( dimension ) );
  c.nontrivial( n >= 2 );
}

// Bootstrap --------------------------------------------------------------

LAW( bootstrap, 1800, 12000, "at least two different values" )
{
  aleph::math::Bootstrap bootstrap;

  auto n = 1 + c.size( 0, 8 );
  std::vector<double> data;
  for( std::size_t i = 0; i < n; i++ )
    data.push_back( static_cast<double>( i ) + 0.25 * static_cast<double>( c.draw( 4 ) ) );
  c.shuffle( data );

  auto replicates = static_cast<unsigned>( 2 + c.draw( 300 ) );
  c.input( pbt::str( replicates ) + " replicates of " + pbt::str( data ) );

  using Iterator = std::vector<double>::iterator;

  // Every replicate is a sample of the same size, drawn from the data
  std::vector< std::vector<double> > samples;
  auto identity = [&] ( Iterator a, Iterator b )
  {
    return std::vector<double>( a, b );
  };
  bootstrap.makeReplicates( replicates, data.begin(), data.end(), identity, std::back_inserter( samples ) );
  c.equal( samples.size(), static_cast<std::size_t>( replicates ), "number of replicates" );

  std::set<double> values( data.begin(), data.end() );
  std::vector< std::set<double> > seen( n );
  for( auto&& s : samples )
  {
    c.equal( s.size(), n, "size of replicate" );
    for( std::size_t i = 0; i < n; i++ )
    {
      c.check( values.count( s[i] ) > 0, "replicate contains a value that is not in the data" );
      seen[i].insert( s[i] );
    }
  }

  // The probability for missing a value is less than 1e-13, even for all
  // cases taken together.
  if( replicates * 1.0 > 45.0 * static_cast<double>( n ) )
  {
    for( std::size_t i = 0; i < n; i++ )
      c.equal( seen[i], values, "values that have been drawn at position " + pbt::str( i ) );
    c.label( "all values" );
  }

  // The estimates that are derived from replicates
  std::vector<double> estimates;
  auto mean = [&] ( Iterator a, Iterator b )
  {
    double sum = 0.0;
    double w   = 1.0;
    for( auto it = a; it != b; ++it, w *= 0.75 )
      sum += *it * w;

    if( a != data.begin() )
      estimates.push_back( sum );
    return sum;
  };

  auto theta = mean( data.begin(), data.end() );

  estimates.clear();
  auto se = bootstrap.standardError( replicates, data.begin(), data.end(), mean );
  {
    c.equal( estimates.size(), static_cast<std::size_t>( replicates ), "number of estimates" );
    double m = 0.0, s = 0.0;
    for( auto&& e : estimates )
      m += e / replicates;
    for( auto&& e : estimates )
      s += ( e - m ) * ( e - m ) / ( replicates - 1.0 );
    c.close( se, std::sqrt( s ), 1e-9 * ( 1 + std::sqrt( s ) ) + 1e-7 * ( s < 1e-12 ), "standard error" );
  }

  // Percentiles that are multiples of the number of replicates may be
  // affected by rounding; those are avoided.
  auto position = [&] ( double a )
  {
    return static_cast<std::size_t>( std::ceil( replicates * a ) ) - 1;
  };
  auto alpha = 2.0 * ( static_cast<double>( c.draw( replicates ) ) + 0.5 ) / replicates;
  if( alpha < 1.0 )
  {
    estimates.clear();
    auto interval = bootstrap.percentileConfidenceInterval( replicates, alpha, data.begin(), data.end(), mean );
    auto sorted   = estimates;
    std::sort( sorted.begin(), sorted.end() );
    c.equal( interval.first , sorted.at( position( alpha / 2 ) ), "lower bound of percentile interval" );
    c.equal( interval.second, sorted.at( position( 1 - alpha / 2 ) ), "upper bound of percentile interval" );

    estimates.clear();
    interval = bootstrap.basicConfidenceInterval( replicates, alpha, data.begin(), data.end(), mean );
    sorted   = estimates;
    std::sort( sorted.begin(), sorted.end() );
    c.close( interval.first , 2 * theta - sorted.at( position( 1 - alpha / 2 ) ), 1e-12, "lower bound of basic interval" );
    c.close( interval.second, 2 * theta - sorted.at( position( alpha / 2 ) ), 1e-12, "upper bound of basic interval" );

    if( n > 1 )
    {
      auto student = bootstrap.studentConfidenceInterval( replicates, 0.05, data.begin(), data.end(), mean );
      c.check( student.first <= theta && theta <= student.second, "interval does not contain the estimate" );
      c.close( ( student.first + student.second ) / 2, theta, 1e-9 * ( 1 + std::abs( theta ) + std::abs( student.second ) ), "centre of Student interval" );
    }
    c.label( "intervals" );
  }

  std::vector<double> nothing;
  std::vector<double> none;
  bootstrap.makeReplicates( replicates, nothing.begin(), nothing.end(), mean, std::back_inserter( none ) );
  c.check( none.empty(), "replicates of empty data" );

  // Indices
  auto total = static_cast<unsigned>( 1 + c.draw( 1000 ) );
  auto i     = static_cast<unsigned>( c.draw( total ) );
  c.equal( bootstrap.index( total, ( i + 0.5 ) / total ), i, "index of percentile" );
  c.equal( bootstrap.index( total, 1.0 ), total - 1, "index of last percentile" );

  c.nontrivial( values.size() >= 2 );
}

// Spheres ----------------------------------------------------------------

LAW( spheres, 6000, 60000, "at least two dimensions" )
{
  auto d = 1 + c.draw( 4 );
  std::vector<double> centre;
  for( std::size_t i = 0; i < d; i++ )
    centre.push_back( c.uniform( -3, 3 ) );
  auto radius = c.uniform( 0.2, 4 );
  auto scale  = c.uniform( 0.5, 2 ) * ( c.boolean() ? 1 : -1 );

  // scale * ( |x - centre|^2 - radius^2 )
  std::vector<double> u;
  double norm = 0.0;
  for( auto&& x : centre )
    norm += x * x;
  u.push_back( scale * ( norm - radius * radius ) );
  for( auto&& x : centre )
    u.push_back( -2.0 * scale * x );
  u.push_back( scale );
  c.input( pbt::str( centre ) + " radius " + pbt::str( radius ) + " scale " + pbt::str( scale ) );

  aleph::math::AlgebraicSphere<double> S( u.begin(), u.end() );

  auto verify = [&] ()
  {
    auto m = S.centre();
    c.equal( m.size(), centre.size(), "dimension of centre" );
    for( std::size_t i = 0; i < d; i++ )
      c.close( m[i], centre[i], 1e-9, "centre" );
    c.close( S.radius(), radius, 1e-7, "radius" );
    c.close( S.meanCurvature() * radius, 1.0, 1e-6, "mean curvature times radius" );
    c.close( S.gaussianCurvature() * radius * radius, 1.0, 1e-6, "Gaussian curvature times squared radius" );
  };

  if( c.boolean() )
    c.close( S.radius(), radius, 1e-7, "radius" );
  verify();
  verify();
  c.nontrivial( d >= 2 );
}

// Strings ----------------------------------------------------------------

std::string randomString( pbt::Ctx& c, const std::string& alphabet, std::size_t n )
{
  std::string s;
  auto l = c.size( 0, n );
  for( std::size_t i = 0; i < l; i++ )
    s += alphabet[ c.draw( alphabet.size() ) ];
  return s;
}

bool space( char x )
{
  return x == ' ' || x == '\t' || x == '\n' || x == '\r' || x == '\v' || x == '\f';
}

LAW( strings, 18000, 180000, "at least one separator and one other character" )
{
  using namespace aleph::utilities;

  auto s = randomString( c, " \t\n\r ab0,;.", 16 );
  c.input( pbt::str( s ) );

  std::size_t first = 0, last = s.size();
  while( first < last && space( s[first] ) )
    ++first;
  auto left = s.substr( first );
  while( last > first && space( s[last-1] ) )
    --last;
  std::size_t end = s.size();
  while( end > 0 && space( s[end-1] ) )
    --end;

  c.equal( ltrim( s ), left, "trimmed on the left" );
  c.equal( rtrim( s ), s.substr( 0, end ), "trimmed on the right" );
  c.equal( trim( s ), s.substr( first, last - first ), "trimmed" );

  // Tokens
  std::vector<std::string> words;
  std::string word;
  for( auto&& x : s )
  {
    if( space( x ) )
    {
      if( !word.empty() )
        words.push_back( word );
      word.clear();
    }
    else
      word += x;
  }
  if( !word.empty() )
    words.push_back( word );

  c.equal( splitByWhitespace( s ), words, "words" );
  c.equal( countTokens( s ), words.size(), "number of words" );

  if( !trim( s ).empty() )
    c.equal( split( trim( s ) ), words, "words by regular expression" );

  for( char separator : { ',', ';' } )
  {
    // The string ends at its last separator if there is nothing left
    std::vector<std::string> parts;
    std::string part;
    for( auto&& x : s )
    {
      if( x == separator )
      {
        parts.push_back( part );
        part.clear();
      }
      else
        part += x;
    }
    if( !part.empty() )
      parts.push_back( part );

    if( !s.empty() )
      c.equal( split( s, std::string( 1, separator ) ), parts, std::string( "parts, separated by " ) + separator );
  }

  bool some = words.size() >= 1 && words.front().size() < s.size();
  c.nontrivial( some );
}

template <class T> void conversion( pbt::Ctx& c )
{
  using namespace aleph::utilities;

  T x = T();
  switch( c.draw( 4 ) )
  {
  case 0:
    x = static_cast<T>( c.integer( -1000, 1000 ) );
    break;
  case 1:
    x = static_cast<T>( c.uniform( -1, 1 ) * std::pow( 10.0, static_cast<double>( c.integer( -6, 6 ) ) ) );
    break;
  case 2:
    x = std::numeric_limits<T>::max();
    break;
  default:
    x = std::numeric_limits<T>::lowest();
  }

  std::ostringstream o;
  o.precision( std::numeric_limits<T>::max_digits10 );
  o << x;
  auto text = o.str();
  c.input( text );

  bool success = false;
  c.equal( convert<T>( text, success ), x, "converted number" );
  c.check( success, "conversion is not successful" );
  c.equal( convert<T>( text ), x, "converted number, without flag" );
  c.equal( convert<T>( " " + text, success ), x, "converted number with leading space" );
  c.check( success, "conversion with leading space is not successful" );

  for( auto&& invalid : { "", " ", "x", "--1", "#12" } )
  {
    success = true;
    c.check( convert<T>( std::string( invalid ), success ) == T(), std::string( "result of converting '" ) + invalid + "'" );
    c.check( !success, std::string( "conversion of '" ) + invalid + "' is successful" );
  }
  c.nontrivial( x != T() );
}

LAW( conversions, 12000, 120000, "number is not zero" )
{
  using namespace aleph::utilities;
  switch( c.draw( 4 ) )
  {
  case 0:  conversion<int>( c ); break;
  case 1:  conversion<long>( c ); break;
  case 2:  conversion<float>( c ); break;
  default: conversion<double>( c );
  }

  auto random = [&] ( std::string s )
  {
    for( auto&& x : s )
      if( c.boolean() )
        x = static_cast<char>( std::toupper( x ) );
    return s;
  };

  bool success = false;
  for( auto&& s : { "inf", "+inf", "infinity", "+infinity" } )
  {
    auto t  = random( s );
    success = false;
    c.check( convert<double>( t, success ) == std::numeric_limits<double>::infinity() && success, "conversion of " + t );
  }
  for( auto&& s : { "-inf", "-infinity" } )
  {
    auto t  = random( s );
    success = false;
    c.check( convert<double>( t, success ) == -std::numeric_limits<double>::infinity() && success, "conversion of " + t );
  }
  auto t  = random( "nan" );
  success = false;
  c.check( std::isnan( convert<float>( t, success ) ) && success, "conversion of " + t );
}

// Paths and containers ---------------------------------------------------

LAW( paths, 6000, 60000, "path with at least one separator and one dot" )
{
  using namespace aleph::utilities;

  auto path = randomString( c, "ab/.", 12 );
  c.input( pbt::str( path ) );

  // Name: last component, without trailing separators
  auto name = path;
  while( name.size() > 1 && name.back() == '/' )
    name.pop_back();
  if( name != "/" )
  {
    auto position = name.rfind( '/' );
    if( position != std::string::npos )
      name = name.substr( position + 1 );
  }

  c.equal( aleph::utilities::basename( path ), name, "name" );

  auto dot = name == "." || name == ".." ? std::string::npos : name.rfind( '.' );
  c.equal( stem( path ), dot == std::string::npos ? name : name.substr( 0, dot ), "stem" );
  c.equal( extension( path ), dot == std::string::npos ? std::string() : name.substr( dot ), "extension" );

  c.nontrivial( path.find( '/' ) != std::string::npos && path.find( '.' ) != std::string::npos );
}

LAW( files, 120, 1200, "every case" )
{
  using namespace aleph::utilities;

  auto base  = c.scratch() + "/P25_files";
  auto file  = base + ".file";
  auto link  = base + ".link";
  auto fifo  = base + ".fifo";
  auto dir   = base + ".dir";

  ::unlink( file.c_str() );
  ::unlink( link.c_str() );
  ::unlink( fifo.c_str() );
  ::rmdir( dir.c_str() );

  bool present = c.boolean();
  c.input( present ? "existing files" : "missing files" );
  if( present )
  {
    std::ofstream( file ) << "x";
    if( ::symlink( file.c_str(), link.c_str() ) != 0 || ::mkdir( dir.c_str(), 0700 ) != 0 || ::mkfifo( fifo.c_str(), 0600 ) != 0 )
      c.assume( false );
  }

  c.equal( fileType( file ) == FileType::RegularFile , present, "type of regular file" );
  c.equal( fileType( link ) == FileType::SymbolicLink, present, "type of symbolic link" );
  c.equal( fileType( fifo ) == FileType::NamedPipe   , present, "type of named pipe" );
  c.equal( fileType( dir )  == FileType::Directory   , present, "type of directory" );
  if( !present )
    c.check( fileType( file ) == FileType::Undefined, "type of missing file" );

  c.equal( isRegularFile( file ), present, "regular file" );
  c.check( !isRegularFile( dir ) && !isRegularFile( link ), "something else is a regular file" );
  c.equal( isDirectory( dir ), present, "directory" );
  c.check( !isDirectory( file ) && !isDirectory( link ) && !isSocket( file ), "file is a directory or a socket" );
  c.equal( exists( file ), present, "existence of file" );
  c.equal( exists( dir ) , present, "existence of directory" );
  c.equal( exists( link ), present, "existence of link" );

  ::unlink( file.c_str() );
  ::unlink( link.c_str() );
  ::unlink( fifo.c_str() );
  ::rmdir( dir.c_str() );
  c.nontrivial( true );
}

LAW( containers, 12000, 120000, "ranges of the same size with at least two elements" )
{
  using namespace aleph::utilities;

  auto n = c.extent( 0, 8, 200 );
  auto m = c.chance( 1, 8 ) ? n + 1 : n;

  std::vector<double> a, b;
  for( std::size_t i = 0; i < n; i++ )
    a.push_back( c.uniform( -10, 10 ) );
  b = a;
  b.resize( m );

  auto kind = c.draw( 6 );
  auto inf  = std::numeric_limits<double>::infinity();
  auto nan  = std::numeric_limits<double>::quiet_NaN();
  bool near = n == m;
  if( n > 0 )
  {
    auto i = c.draw( n );
    switch( kind )
    {
    case 1: b[i] += 1e-9;                   break;
    case 2: b[i] += 1.0;         near = false; break;
    case 3: b[i]  = nan;         near = false; break;
    case 4: b[i]  = inf; a[i] = c.boolean() ? inf : -inf; near = near && a[i] == b[i]; break;
    case 5: b[i]  = inf; a[i] = c.uniform( -1, 1 ); near = false; break;
    default: break;
    }
  }
  c.input( pbt::str( a ) + " " + pbt::str( b ) );
  c.equal( allclose( a.begin(), a.end(), b.begin(), b.end() ), near, "closeness" );

  if( n == m && kind <= 2 )
  {
    auto sum        = aleph::utilities::operator+( a, b );
    auto difference = aleph::utilities::operator-( a, b );
    auto scaled     = aleph::utilities::operator*( 2.5, a );
    c.equal( sum.size(), n, "size of sum" );
    c.equal( difference.size(), n, "size of difference" );
    c.equal( scaled.size(), n, "size of multiple" );
    for( std::size_t i = 0; i < n; i++ )
    {
      c.equal( sum[i], a[i] + b[i], "sum" );
      c.equal( difference[i], a[i] - b[i], "difference" );
      c.equal( scaled[i], 2.5 * a[i], "multiple" );
    }
  }

  std::unordered_set<int> A, B, C;
  std::set<int> expected;
  for( std::size_t i = 0; i < n; i++ )
    A.insert( static_cast<int>( c.draw( 12 ) ) );
  for( std::size_t i = 0; i < c.draw( 10 ); i++ )
    B.insert( static_cast<int>( c.draw( 12 ) ) );
  for( auto&& x : A )
    if( B.count( x ) )
      expected.insert( x );
  set_intersection( A, B, C );
  c.equal( std::set<int>( C.begin(), C.end() ), expected, "intersection" );

  // Numbers for file names have the same width
  auto N = 1 + c.draw( 100000 );
  auto k = c.draw( N + 1 );
  auto f = format( static_cast<unsigned>( k ), static_cast<unsigned>( N ) );
  c.equal( f.size(), std::to_string( N ).size(), "width of formatted number" );
  c.equal( std::stoul( f ), static_cast<unsigned long>( k ), "formatted number" );

  auto throws = [&] ( std::function<void()> g )
  {
    try
    {
      g();
    }
    catch( std::out_of_range& )
    {
      return true;
    }
    return false;
  };
  auto x = static_cast<double>( c.integer( -3, 3 ) ), l = static_cast<double>( c.integer( -2, 0 ) ), u = static_cast<double>( c.integer( 0, 2 ) );
  c.equal( throws( [&] { ensureRange( x, l, u ); } ), x < l || x > u, "range" );
  c.equal( throws( [&] { ensureLarger( x, l ); } ), x <= l, "bound" );
  c.check( throws( [&] { ensureRange( nan, l, u ); } ), "undefined value is in range" );

  c.nontrivial( n == m && n >= 2 );
}

}
