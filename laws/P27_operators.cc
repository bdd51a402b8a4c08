// flags: -I/usr/include/eigen3 -DALEPH_WITH_EIGEN
// Graph operators, heat diffusion, bisection, and combinatorial curvature are
// compared with dense linear algebra and incidence counts of their own.
#include "pbt.hh"
#include "model.hh"
#include "bridge.hh"

#include <aleph/math/KahanSummation.hh>

#include <aleph/geometry/HeatKernel.hh>

#include <aleph/topology/CombinatorialCurvature.hh>
#include <aleph/topology/Partitions.hh>
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>

#include <aleph/topology/filtrations/Degree.hh>

#include <algorithm>
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <vector>

namespace
{

using Dense = std::vector< std::vector<long double> >;

template <class T> using S = aleph::topology::Simplex<T, unsigned>;
template <class T> using K = aleph::topology::SimplicialComplex< S<T> >;

Dense zero( std::size_t n ) { return Dense( n, std::vector<long double>( n, 0 ) ); }

Dense multiply( const Dense& a, const Dense& b )
{
  auto r = zero( a.size() );
  for( std::size_t i = 0; i < a.size(); i++ )
    for( std::size_t k = 0; k < a.size(); k++ )
      for( std::size_t j = 0; j < a.size(); j++ )
        r[i][j] += a[i][k] * b[k][j];
  return r;
}

long double norm( const Dense& a )
{
  long double m = 0;
  for( auto&& row : a )
  {
    long double s = 0;
    for( auto&& x : row )
      s += std::abs( x );
    m = std::max( m, s );
  }
  return m;
}

// exp( -t L ) by scaling and squaring of the Taylor series. L is positive
// semi-definite, so that the result is bounded and squaring does not blow up
// the errors.
Dense heat( Dense L, long double t )
{
  auto n = L.size();
  int  k = 0;
  auto s = norm( L ) * t;
  while( s > 0.25L )
  {
    s /= 2;
    k++;
  }
  for( auto& row : L )
    for( auto& x : row )
      x *= -std::ldexp( t, -k );
  auto r    = zero( n );
  auto term = zero( n );
  for( std::size_t i = 0; i < n; i++ )
    r[i][i] = term[i][i] = 1;
  for( int i = 1; i < 24; i++ )
  {
    term = multiply( term, L );
    for( auto& row : term )
      for( auto& x : row )
        x /= i;
    for( std::size_t a = 0; a < n; a++ )
      for( std::size_t b = 0; b < n; b++ )
        r[a][b] += term[a][b];
  }
  while( k-- )
    r = multiply( r, r );
  return r;
}

// Cyclic Jacobi iteration; eigenpairs in ascending order
std::vector< std::pair< long double, std::vector<long double> > > eigen( Dense A )
{
  auto n = A.size();
  auto Q = zero( n );
  for( std::size_t i = 0; i < n; i++ )
    Q[i][i] = 1;
  for( int sweep = 0; sweep < 60; sweep++ )
  {
    long double off = 0;
    for( std::size_t i = 0; i < n; i++ )
      for( std::size_t j = 0; j < i; j++ )
        off += A[i][j] * A[i][j];
    if( off < 1e-34L * ( 1 + norm( A ) ) )
      break;
    for( std::size_t p = 0; p < n; p++ )
      for( std::size_t q = p + 1; q < n; q++ )
      {
        if( A[p][q] == 0 )
          continue;
        auto theta = ( A[q][q] - A[p][p] ) / ( 2 * A[p][q] );
        auto t     = ( theta >= 0 ? 1 : -1 ) / ( std::abs( theta ) + std::sqrt( theta * theta + 1 ) );
        auto cs    = 1 / std::sqrt( t * t + 1 );
        auto sn    = t * cs;
        for( std::size_t k = 0; k < n; k++ )
        {
          auto x = A[k][p], y = A[k][q];
          A[k][p] = cs * x - sn * y;
          A[k][q] = sn * x + cs * y;
        }
        for( std::size_t k = 0; k < n; k++ )
        {
          auto x = A[p][k], y = A[q][k];
          A[p][k] = cs * x - sn * y;
          A[q][k] = sn * x + cs * y;
        }
        for( std::size_t k = 0; k < n; k++ )
        {
          auto x = Q[k][p], y = Q[k][q];
          Q[k][p] = cs * x - sn * y;
          Q[k][q] = sn * x + cs * y;
        }
      }
  }
  std::vector< std::pair< long double, std::vector<long double> > > r;
  for( std::size_t i = 0; i < n; i++ )
  {
    std::vector<long double> v;
    for( std::size_t k = 0; k < n; k++ )
      v.push_back( Q[k][i] );
    r.push_back( { A[i][i], v } );
  }
  std::sort( r.begin(), r.end() );
  return r;
}

// Complex with positive weights on all of its simplices, exactly representable
// in single precision. Weights are not necessarily monotone: none of the
// operators refers to a filtration.
model::Complex weighted( pbt::Ctx& c, bool unit, unsigned maxDimension = 3, std::size_t big = 30 )
{
  model::Options o;
  o.bulk( big, 6 * big );
  o.maxVertices  = 9;
  o.maxFacets    = 10;
  o.maxDimension = maxDimension;
  auto L = model::genClosed( c, o );
  model::Complex r;
  for( auto&& v : L )
    r.push_back( { v, unit ? 1.0 : static_cast<double>( c.integer( 1, 64 ) ) / 16.0 } );
  if( c.boolean() )
    c.shuffle( r ); // the order of simplices carries no meaning here
  c.input( model::show( r ) );
  return r;
}

// Connected weighted graph: spanning tree plus some edges; optional triangles
model::Complex connected( pbt::Ctx& c, std::size_t maxVertices, bool generic )
{
  auto n = c.extent( 2, maxVertices, 20 );
  std::vector<unsigned> ids;
  unsigned x = 0;
  for( std::size_t i = 0; i < n; i++ )
  {
    x += 1 + static_cast<unsigned>( c.chance( 1, 4 ) ? c.draw( 5 ) : 0 );
    ids.push_back( x - 1 );
  }
  c.shuffle( ids );
  std::set<model::V> gens;
  for( std::size_t i = 1; i < n; i++ )
    gens.insert( { ids[i], ids[ c.draw( i ) ] } );
  auto extra = c.size( 0, 2 * n );
  for( std::size_t i = 0; i < extra; i++ )
  {
    auto a = c.draw( n ), b = c.draw( n ), d = c.draw( n );
    if( a == b )
      continue;
    if( d != a && d != b && c.chance( 1, 4 ) )
      gens.insert( { ids[a], ids[b], ids[d] } );
    else
      gens.insert( { ids[a], ids[b] } );
  }
  std::vector<model::V> sorted;
  for( auto v : gens )
  {
    std::sort( v.begin(), v.end() );
    sorted.push_back( v );
  }
  model::Complex r;
  for( auto&& v : model::closure( sorted ) )
    r.push_back( { v, generic ? static_cast<double>( c.integer( 1000, 9000 ) ) / 1024.0 : 1.0 } );
  c.input( model::show( r ) );
  return r;
}

std::vector<unsigned> vertexOrder( const model::Complex& M )
{
  std::vector<unsigned> v;
  for( auto&& x : M )
    if( x.v.size() == 1 )
      v.push_back( x.v.front() );
  return v;
}

template <class T> std::vector<unsigned> vertices( const K<T>& C )
{
  std::vector<unsigned> v;
  C.vertices( std::back_inserter( v ) );
  return v;
}

// Laplacian with respect to the given order
Dense laplacian( const model::Complex& M, const std::vector<unsigned>& order )
{
  std::map<unsigned, std::size_t> index;
  for( std::size_t i = 0; i < order.size(); i++ )
    index[ order[i] ] = i;
  auto L = zero( order.size() );
  for( auto&& x : M )
    if( x.v.size() == 2 )
    {
      auto i = index.at( x.v[0] ), j = index.at( x.v[1] );
      L[i][j] -= x.w;
      L[j][i] -= x.w;
      L[i][i] += x.w;
      L[j][j] += x.w;
    }
  return L;
}

template <class T> void matrices( pbt::Ctx& c, const model::Complex& M )
{
  auto C     = bridge::complex< S<T> >( M );
  auto order = vertices( C );
  c.equal( std::set<unsigned>( order.begin(), order.end() ).size(), vertexOrder( M ).size(), "number of vertices" );
  auto L = laplacian( M, order );
  auto A = aleph::geometry::weightedAdjacencyMatrix( C );
  auto B = aleph::geometry::weightedLaplacianMatrix( C );
  auto n = order.size();
  c.equal( std::size_t( A.rows() ), n, "rows of adjacency matrix" );
  c.equal( std::size_t( A.cols() ), n, "columns of adjacency matrix" );
  c.equal( std::size_t( B.rows() ), n, "rows of Laplacian matrix" );
  c.equal( std::size_t( B.cols() ), n, "columns of Laplacian matrix" );
  using I = Eigen::Index;
  for( std::size_t i = 0; i < n; i++ )
  {
    double sum = 0;
    for( std::size_t j = 0; j < n; j++ )
    {
      auto a = static_cast<double>( A( I(i), I(j) ) );
      auto b = static_cast<double>( B( I(i), I(j) ) );
      auto where = " at (" + pbt::str( order[i] ) + "," + pbt::str( order[j] ) + ")";
      c.equal( a, i == j ? 0.0 : static_cast<double>( 0 - L[i][j] ), "adjacency" + where );
      c.equal( b, static_cast<double>( L[i][j] ), "Laplacian" + where );
      sum += b;
    }
    c.equal( sum, 0.0, "row sum of the Laplacian" );
  }
}

template <class T> void kernel( pbt::Ctx& c, const model::Complex& M, double t, double s )
{
  auto C     = bridge::complex< S<T> >( M );
  auto order = vertices( C );
  auto L     = laplacian( M, order );
  auto n     = order.size();
  auto H     = heat( L, t );
  // errors of the eigenvalues are proportional to the norm of the matrix
  double eps = std::is_same<T, float>::value ? 1e-6 : 1e-14;
  double tol = 100 * eps * double(n) * ( 1 + t * double( norm( L ) ) );
  using I = Eigen::Index;
  aleph::geometry::HeatKernel hk( C );
  long double trace = 0;
  for( std::size_t i = 0; i < n; i++ )
  {
    long double sum = 0;
    for( std::size_t j = 0; j < n; j++ )
    {
      auto h = hk( I(i), I(j), t );
      auto where = " at (" + pbt::str( order[i] ) + "," + pbt::str( order[j] ) + ") for t = " + pbt::str( t );
      c.close( h, double( H[i][j] ), tol, "heat kernel" + where );
      sum += h;
    }
    c.close( double( sum ), 1.0, tol * double(n), "total heat" );
    c.close( hk( I(i), t ), double( H[i][i] ), tol, "auto-diffusion" );
    trace += H[i][i];
  }
  auto all = hk( t );
  c.equal( all.size(), n * n, "number of values for all vertices" );
  for( std::size_t i = 0; i < n; i++ )
    for( std::size_t j = 0; j < n; j++ )
      c.close( all[ i * n + j ], double( H[i][j] ), tol, "heat kernel for all vertices" );
  c.close( hk.trace( t ), double( trace ), tol * double(n), "trace" );
  long double lt = 0;
  for( std::size_t i = 0; i < n; i++ )
    lt += L[i][i];
  auto det = std::exp( double( -t * lt ) );
  c.close( hk.determinant( t ), det, det * std::expm1( tol * double(n) ) + 1e-300, "determinant" );

  // without the first eigenvalue, i.e. without the constant part of the first
  // component; only unique for connected complexes
  auto spectrum = eigen( L );
  if( n >= 2 && spectrum[1].first > 0.05L )
  {
    c.label( "connected" );
    hk.setSkip();
    c.check( hk.skip(), "first eigenvalue is supposed to be skipped" );
    for( std::size_t i = 0; i < n; i++ )
      for( std::size_t j = 0; j < n; j++ )
        c.close( hk( I(i), I(j), s ), double( heat( L, s )[i][j] - 1.0L / n ), 100 * eps * double(n) * ( 1 + s * double( norm( L ) ) ), "heat kernel without constant part" );
    c.close( hk.trace( t ), double( trace - 1 ), tol * double(n), "trace without first eigenvalue" );
    auto m = static_cast<unsigned>( c.integer( 2, 12 ) );
    for( auto skip : { true, false } )
    {
      hk.setSkip( skip );
      auto samples = hk.logarithmicSamplingInterval( m );
      c.equal( samples.size(), std::size_t( m ), "number of samples" );
      auto lo = 4 * std::log( 10.0L ) / spectrum.back().first;
      auto hi = 4 * std::log( 10.0L ) / spectrum[1].first;
      for( unsigned i = 0; i < m; i++ )
      {
        auto e = std::exp( std::log( lo ) + ( std::log( hi ) - std::log( lo ) ) * i / ( m - 1 ) );
        c.close( samples[i], double( e ), double( e ) * 100 * eps * double( n * norm( L ) / spectrum[1].first ), "sampling interval" );
      }
    }
  }
}

template <class T> void pseudoInverse( pbt::Ctx& c, const model::Complex& M )
{
  auto C     = bridge::complex< S<T> >( M );
  auto order = vertices( C );
  auto L     = laplacian( M, order );
  auto n     = order.size();
  auto P     = aleph::geometry::pinvWeightedLaplacianMatrix( C );
  c.equal( std::size_t( P.rows() ), n, "rows of the pseudo-inverse" );
  auto spectrum = eigen( L );
  auto X = zero( n );
  for( std::size_t k = 1; k < n; k++ )
    for( std::size_t i = 0; i < n; i++ )
      for( std::size_t j = 0; j < n; j++ )
        X[i][j] += spectrum[k].second[i] * spectrum[k].second[j] / spectrum[k].first;
  double eps  = std::is_same<T, float>::value ? 1e-6 : 1e-14;
  auto   size = double( norm( L ) + 1 ), inverse = double( 1 / spectrum[1].first + 1 );
  for( std::size_t i = 0; i < n; i++ )
    for( std::size_t j = 0; j < n; j++ )
      c.close( double( P( Eigen::Index(i), Eigen::Index(j) ) ), double( X[i][j] ), 100 * eps * double(n) * size * inverse * inverse, "pseudo-inverse" );
}

template <class T> void bisection( pbt::Ctx& c, const model::Complex& M )
{
  auto C     = bridge::complex< S<T> >( M );
  auto order = vertices( C );
  if( order.size() < 2 )
  {
    bool thrown = false;
    try { aleph::topology::bisect( C ); }
    catch( const pbt::Failure& ) { throw; }
    catch( std::runtime_error& ) { thrown = true; }
    c.check( thrown, "a single vertex cannot be divided" );
    return;
  }
  auto parts = aleph::topology::bisect( C );
  c.equal( parts.size(), std::size_t(2), "number of parts" );
  std::vector< std::set<unsigned> > sides;
  for( auto&& p : parts )
  {
    std::set<unsigned> side;
    for( auto&& s : p )
      if( s.dimension() == 0 )
        side.insert( s[0] );
    sides.push_back( side );
  }
  c.equal( sides[0].size() + sides[1].size(), order.size(), "number of vertices in both parts" );
  for( auto&& v : order )
    c.check( sides[0].count( v ) + sides[1].count( v ) == 1, "vertex " + pbt::str( v ) + " is not part of exactly one part" );
  c.check( sides[0].size() <= sides[1].size(), "fewer vertices below the median than above" );
  for( std::size_t k = 0; k < 2; k++ )
  {
    std::map<model::V, double> expected;
    for( auto&& x : M )
      if( std::all_of( x.v.begin(), x.v.end(), [&] ( unsigned v ) { return sides[k].count( v ); } ) )
        expected[x.v] = x.w;
    c.equal( parts[k].size(), expected.size(), "number of simplices in part" );
    auto got = bridge::asMap( parts[k] );
    c.check( got == expected, "part is not the complex induced by its vertices" );
  }

  // If the second eigenvector is unique, the division is given by the median
  // of its entries, up to the sign.
  auto spectrum = eigen( laplacian( M, order ) );
  auto n        = order.size();
  auto gap      = std::min( spectrum[1].first - spectrum[0].first, n > 2 ? spectrum[2].first - spectrum[1].first : spectrum[1].first );
  auto f        = spectrum[1].second;
  auto sorted   = f;
  std::sort( sorted.begin(), sorted.end() );
  // distance of the values around the median
  long double margin = 1;
  if( n % 2 == 0 )
    margin = sorted[n/2] - sorted[n/2-1];
  else
    margin = std::min( sorted[n/2] - sorted[n/2-1], sorted[n/2+1] - sorted[n/2] );
  if( gap > 0.05L && margin > 0.01L )
  {
    c.label( "unique division" );
    c.nontrivial( n >= 4 );
    std::set<unsigned> below, above;
    for( std::size_t i = 0; i < n; i++ )
    {
      if( f[i] < sorted[n/2] - margin / 2 )
        below.insert( order[i] );
      if( f[i] > sorted[ ( n - 1 ) / 2 ] + margin / 2 )
        above.insert( order[i] );
    }
    c.check( sides[0] == below || sides[0] == above, "parts are not separated by the second eigenvector" );
  }
  else
    c.label( "ambiguous division" );
}

// Incidence counts, by vertex sets
bool contains( const model::V& big, const model::V& small )
{
  return std::includes( big.begin(), big.end(), small.begin(), small.end() );
}

model::V intersect( const model::V& a, const model::V& b )
{
  model::V r;
  std::set_intersection( a.begin(), a.end(), b.begin(), b.end(), std::back_inserter( r ) );
  return r;
}

template <class T> std::vector<model::V> slice( const K<T>& C, unsigned p )
{
  std::vector<model::V> r;
  auto pair = C.range( p );
  for( auto it = pair.first; it != pair.second; ++it )
    r.push_back( bridge::vertices( *it ) );
  return r;
}

template <class T, class VT> void curvatures( pbt::Ctx& c, const model::Complex& M, unsigned p )
{
  using Simplex = aleph::topology::Simplex<T, VT>;
  std::vector<Simplex> simplices;
  for( auto&& x : M )
    simplices.push_back( Simplex( x.v.begin(), x.v.end(), T( x.w ) ) );
  aleph::topology::SimplicialComplex<Simplex> C( simplices.begin(), simplices.end() );
  std::vector<model::V> cells;
  {
    auto pair = C.range( p );
    for( auto it = pair.first; it != pair.second; ++it )
      cells.push_back( bridge::vertices( *it ) );
  }
  std::vector<long> k;
  aleph::topology::curvature( C, std::back_inserter( k ), p );
  c.equal( k.size(), cells.size(), "number of curvature values" );
  bool negative = false;
  for( std::size_t i = 0; i < cells.size(); i++ )
  {
    long cofaces = 0, parallel = 0;
    for( auto&& x : M )
    {
      if( x.v.size() == p + 2 && contains( x.v, cells[i] ) )
        cofaces++;
      if( x.v.size() != p + 1 || x.v == cells[i] )
        continue;
      bool face   = intersect( x.v, cells[i] ).size() == p;
      bool coface = false;
      for( auto&& y : M )
        coface = coface || ( y.v.size() == p + 2 && contains( y.v, x.v ) && contains( y.v, cells[i] ) );
      if( face != coface )
        parallel++;
    }
    auto expected = cofaces + long( p ) + 1 - parallel;
    negative = negative || expected < 0;
    c.equal( k[i], expected, "curvature of " + model::show( cells[i] ) );
  }
  if( negative )
    c.label( "negative curvature" );
  c.nontrivial( cells.size() >= 3 );
}

template <class T> void weightedCurvatures( pbt::Ctx& c, const model::Complex& M, unsigned p )
{
  auto C     = bridge::complex< S<T> >( M );
  auto cells = slice<T>( C, p );
  std::map<model::V, double> w;
  for( auto&& x : M )
    w[x.v] = x.w;
  std::vector<double> k;
  aleph::topology::weightedCurvature( C, std::back_inserter( k ), p );
  c.equal( k.size(), cells.size(), "number of weighted curvature values" );
  for( std::size_t i = 0; i < cells.size(); i++ )
  {
    auto&& s = cells[i];
    double sum = 0, scale = 1;
    for( auto&& x : M )
      if( x.v.size() == p + 2 && contains( x.v, s ) )
        sum += w[s] / x.w;
    for( auto&& f : model::facets( s ) )
      sum += w.at( f ) / w[s];
    scale += sum;
    for( auto&& x : M )
    {
      if( x.v.size() != p + 1 || x.v == s )
        continue;
      double a = 0, b = 0;
      for( auto&& y : M )
        if( y.v.size() == p + 2 && contains( y.v, s ) && contains( y.v, x.v ) )
          a += std::sqrt( w[s] * x.w ) / y.w;
      auto f = intersect( x.v, s );
      if( f.size() == p )
        b += w.at( f ) / std::sqrt( w[s] * x.w );
      sum   -= std::abs( a - b );
      scale += a + b;
    }
    double eps = std::is_same<T, float>::value ? 1e-5 : 1e-12;
    c.close( k[i], w[s] * sum, eps * w[s] * scale, "weighted curvature of " + model::show( s ) );
  }
}

} // namespace

LAW( matrices, 5600, 84000, "the complex has at least two edges" )
{
  auto M = weighted( c, c.chance( 1, 4 ) );
  std::size_t edges = 0;
  for( auto&& x : M )
    edges += x.v.size() == 2;
  c.nontrivial( edges >= 2 );
  if( c.boolean() )
    ::matrices<double>( c, M );
  else
    ::matrices<float>( c, M );
}

LAW( diffusion, 2100, 28000, "the complex has at least two edges and some time passes" )
{
  auto M = c.boolean() ? weighted( c, c.chance( 1, 4 ), 2 ) : connected( c, 8, c.boolean() );
  auto t = c.chance( 1, 10 ) ? 0.0 : std::ldexp( c.uniform( 0.5, 1.0 ), static_cast<int>( c.integer( -8, 4 ) ) );
  auto s = std::ldexp( c.uniform( 0.5, 1.0 ), static_cast<int>( c.integer( -8, 4 ) ) );
  std::size_t edges = 0;
  for( auto&& x : M )
    edges += x.v.size() == 2;
  c.nontrivial( edges >= 2 && t > 0 );
  c.input( "t = " + pbt::str( t ) + ", s = " + pbt::str( s ) );
  if( c.chance( 2, 3 ) )
    kernel<double>( c, M, t, s );
  else
    kernel<float>( c, M, t, s );
}

LAW( pseudo_inverses, 2800, 42000, "the complex is connected with at least three vertices" )
{
  auto M = connected( c, 9, c.boolean() );
  c.nontrivial( vertexOrder( M ).size() >= 3 );
  if( c.boolean() )
    pseudoInverse<double>( c, M );
  else
    pseudoInverse<float>( c, M );
}

LAW( bisections, 4200, 56000, "the division is determined by a unique eigenvector with at least four entries" )
{
  c.nontrivial( false );
  auto M = c.chance( 1, 4 ) ? weighted( c, c.boolean(), 3 ) : connected( c, 12, c.chance( 3, 4 ) );
  if( c.chance( 2, 3 ) )
    bisection<double>( c, M );
  else
    bisection<float>( c, M );
}

LAW( curvature, 3500, 42000, "at least three simplices of the given dimension" )
{
  auto M = weighted( c, true );
  auto p = static_cast<unsigned>( c.integer( 1, 3 ) );
  if( c.boolean() )
    p = 1;
  if( c.boolean() )
    curvatures<double, unsigned>( c, M, p );
  else
    curvatures<float, unsigned short>( c, M, p );
}

LAW( weighted_curvature, 2800, 42000, "at least three edges" )
{
  bool unit = c.chance( 1, 6 );
  auto M = weighted( c, unit );
  auto p = static_cast<unsigned>( c.integer( 1, 2 ) );
  std::size_t edges = 0;
  for( auto&& x : M )
    edges += x.v.size() == p + 1;
  c.nontrivial( edges >= 3 );
  if( c.boolean() )
    weightedCurvatures<double>( c, M, p );
  else
    weightedCurvatures<float>( c, M, p );
}

LAW( angle_defects, 3500, 42000, "the complex has dimension two or three" )
{
  auto M = weighted( c, true );
  auto n = model::dimension( M );
  auto C = bridge::complex< S<double> >( M );
  // degrees of arbitrary simplices
  auto i = static_cast<std::size_t>( c.draw( M.size() ) );
  auto degree = [&] ( const model::V& v )
  {
    unsigned d = 0;
    for( auto&& x : M )
      if( x.v.size() == n + 1 && contains( x.v, v ) )
        d++;
    return d;
  };
  c.equal( aleph::topology::filtrations::n_degree( C, bridge::simplex< S<double> >( M[i].v ) ), degree( M[i].v ), "degree of " + model::show( M[i].v ) );
  std::map<unsigned, unsigned> expected;
  for( auto&& x : M )
    for( auto&& v : x.v )
      expected[v] += x.v.size() > 1;
  std::vector<unsigned> got, want;
  aleph::topology::filtrations::degrees( C, std::back_inserter( got ) );
  for( auto&& e : expected )
    want.push_back( e.second );
  c.check( got == want, "degrees of vertices: " + pbt::str( got ) + " instead of " + pbt::str( want ) );
  c.nontrivial( n >= 2 );
  if( n < 2 )
    return;
  std::vector<double> defects;
  aleph::topology::angleDefectCurvature( C, std::back_inserter( defects ) );
  auto cells = slice<double>( C, unsigned( n - 2 ) );
  c.equal( defects.size(), cells.size(), "number of angle defects" );
  for( std::size_t k = 0; k < cells.size(); k++ )
    c.close( defects[k], 2 * M_PI - degree( cells[k] ) * std::acos( 1.0 / double( n ) ), 1e-12 * 1000, "angle defect of " + model::show( cells[k] ) );
}
