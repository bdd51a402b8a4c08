// Distances between diagrams equal optimal matchings / set-theoretic definitions.
#include "bottleneck.hh"
#include "diagrams.hh"

#include <aleph/persistenceDiagrams/distances/Bottleneck.hh>
#include <aleph/persistenceDiagrams/distances/Hausdorff.hh>
#include <aleph/persistenceDiagrams/distances/NearestNeighbour.hh>
#include <aleph/persistenceDiagrams/distances/PointSet.hh>
#include <aleph/persistenceDiagrams/distances/Wasserstein.hh>


using namespace dgm;

// Ground metrics supplied by a caller
struct L1 { template <class Q> auto operator()( const Q& p, const Q& q ) const -> decltype( p.x() ) { return std::abs( p.x() - q.x() ) + std::abs( p.y() - q.y() ); } };
struct L2 { template <class Q> auto operator()( const Q& p, const Q& q ) const -> decltype( p.x() ) { return std::sqrt( ( p.x() - q.x() ) * ( p.x() - q.x() ) + ( p.y() - q.y() ) * ( p.y() - q.y() ) ); } };

static Points rounded( Points p ) // to float
{
  for( auto&& x : p )
    x = { static_cast<float>( x.first ), static_cast<float>( x.second ) };
  return p;
}

static void genPair( pbt::Ctx& c, Points& a, Points& b, std::size_t maximum, std::size_t big = 0 )
{
  auto mode = static_cast<int>( c.draw( 4 ) );
  a = genPoints( c, maximum, mode, true, 0, big );
  if( c.chance( 1, 3 ) )
    b = genRelated( c, a, maximum );
  else
    b = genPoints( c, maximum, c.chance( 1, 4 ) ? -1 : mode, true, 0, big );
}

static bool nontrivialPair( const Points& a, const Points& b )
{
  return a.size() + b.size() >= 3 && !a.empty() && !b.empty();
}

template <class T> void wassersteinLaw( pbt::Ctx& c, std::size_t maximum )
{
  Points a, b;
  genPair( c, a, b, maximum, maximum > 6 ? 50 : 0 );
  if( sizeof( T ) == sizeof( float ) ) { a = rounded( a ); b = rounded( b ); }
  auto power  = c.pick( std::vector<double>{ 1, 2, 3, 1.5 } );
  auto metric = c.draw( 3 );
  c.input( show( a ) + " " + show( b ) + " power " + pbt::str( power ) + " metric " + pbt::str( metric ) );
  c.label( metric == 0 ? "Linf" : metric == 1 ? "L1" : "L2" );
  auto dim = c.size( 0, 2 );
  auto A = make<T>( a, dim ), B = make<T>( b, dim );
  T got = metric == 0 ? ( power == 1 && c.boolean() ? aleph::distances::wassersteinDistance( A, B ) : aleph::distances::wassersteinDistance( A, B, static_cast<T>( power ) ) )
        : metric == 1 ? aleph::distances::wassersteinDistance<T, L1>( A, B, static_cast<T>( power ) )
                      : aleph::distances::wassersteinDistance<T, L2>( A, B, static_cast<T>( power ) );
  Metric d = metric == 0 ? Metric( linf ) : metric == 1 ? Metric( l1 ) : Metric( l2 );
  double e = b.size() <= 9 ? optimal( a, b, d, power, false ) : optimalSum( a, b, d, power );
  double largest = 1;
  for( auto&& p : a ) largest = std::max( largest, std::pow( toDiagonal( p, d ), power ) );
  for( auto&& p : b ) largest = std::max( largest, std::pow( toDiagonal( p, d ), power ) );
  for( auto&& p : a )
    for( auto&& q : b )
      largest = std::max( largest, std::pow( d( p, q ), power ) );
  double eps = sizeof( T ) == sizeof( float ) ? 2e-5 : 1e-11;
  c.check( std::isfinite( static_cast<double>( got ) ), "distance is not finite" );
  c.close( std::pow( static_cast<double>( got ), power ), e, eps * largest * static_cast<double>( a.size() + b.size() + 1 ), "Wasserstein distance to its power" );
  c.nontrivial( nontrivialPair( a, b ) );
}

LAW( wasserstein_small, 120000, 1800000, "pairs of diagrams with <=6 points (integers, ties, duplicates, both sides of the diagonal, related pairs), powers 1-3, three ground metrics, against subset dynamic programming; non-trivial: both diagrams non-empty, >=3 points" ) { wassersteinLaw<double>( c, 6 ); }
LAW( wasserstein_large, 9000, 120000, "as wasserstein_small with <=25 points against an independent assignment solver" ) { wassersteinLaw<double>( c, 25 ); }
LAW( wasserstein_float, 45000, 600000, "as wasserstein_small in single precision" ) { wassersteinLaw<float>( c, 6 ); }

LAW( wasserstein_dimensions, 6000, 15000, "diagrams of different dimension are rejected; non-trivial: both non-empty" )
{
  Points a, b;
  genPair( c, a, b, 4 );
  auto i = c.size( 0, 3 ), j = c.size( 0, 3 );
  c.input( show( a ) + show( b ) + pbt::str( i ) + " " + pbt::str( j ) );
  bool thrown = false;
  try { aleph::distances::wassersteinDistance( make<double>( a, i ), make<double>( b, j ) ); } catch( std::runtime_error& ) { thrown = true; }
  c.equal( thrown, i != j, "rejection" );
  c.nontrivial( !a.empty() && !b.empty() && i != j );
}

// ---------------------------------------------------------------------

template <class T> void munkresLaw( pbt::Ctx& c, std::size_t maximum )
{
  auto n    = c.size( 0, maximum );
  auto mode = c.draw( 5 );
  std::vector< std::vector<double> > a( n, std::vector<double>( n ) );
  double largest = 1;
  for( auto&& row : a )
    for( auto&& x : row )
    {
      x = mode == 0 ? static_cast<double>( c.size( 0, 2 ) )
        : mode == 1 ? static_cast<double>( c.size( 0, 50 ) )
        : mode == 2 ? static_cast<double>( c.around( 30 ) )
        : mode == 3 ? c.uniform( 0, 1 )
                    : c.uniform( -100, 100 );
      x = static_cast<double>( static_cast<T>( x ) );
      largest = std::max( largest, std::fabs( x ) );
    }
  c.input( pbt::str( a ) );
  aleph::distances::detail::Matrix<T> M( n );
  for( std::size_t i = 0; i < n; i++ )
    for( std::size_t j = 0; j < n; j++ )
      M( i, j ) = static_cast<T>( a[i][j] );
  aleph::distances::detail::Munkres<T> solver( M );
  auto R = solver();
  c.equal( R.n(), n, "size of the result" );
  std::vector< std::pair<std::size_t,std::size_t> > matching;
  solver.matching( std::back_inserter( matching ) );
  std::set<std::size_t> rows, cols;
  double sum = 0;
  for( auto&& p : matching )
  {
    rows.insert( p.first );
    cols.insert( p.second );
    sum += a[p.first][p.second];
  }
  c.check( matching.size() == n && rows.size() == n && cols.size() == n, "not a perfect matching" );
  for( std::size_t i = 0; i < n; i++ )
    for( std::size_t j = 0; j < n; j++ )
      c.equal( R( i, j ) == T(), std::find( matching.begin(), matching.end(), std::make_pair( i, j ) ) != matching.end(), "reduced matrix disagrees with the matching" );
  double tol = ( std::numeric_limits<T>::is_integer ? 0 : sizeof( T ) == sizeof( float ) ? 1e-5 : 1e-11 ) * largest * static_cast<double>( n + 1 );
  c.close( static_cast<double>( solver.cost( M ) ), sum, tol, "reported costs" );
  // reference: all permutations for small matrices
  double e = 0;
  if( n <= 5 )
  {
    std::vector<std::size_t> p( n );
    for( std::size_t i = 0; i < n; i++ ) p[i] = i;
    e = std::numeric_limits<double>::infinity();
    do
    {
      double s = 0;
      for( std::size_t i = 0; i < n; i++ )
        s += a[i][p[i]];
      e = std::min( e, s );
    }
    while( std::next_permutation( p.begin(), p.end() ) );
  }
  else
    e = assignment( a );
  c.close( sum, e, tol, "costs of the matching" );
  c.nontrivial( n >= 3 );
}

LAW( munkres_double, 90000, 1200000, "square cost matrices up to 8x8 with ties, zeros, negative entries, against all permutations or an independent solver; non-trivial: n >= 3" ) { munkresLaw<double>( c, 8 ); }
LAW( munkres_int, 60000, 600000, "as munkres_double with integer costs" ) { munkresLaw<int>( c, 8 ); }
LAW( munkres_float, 30000, 600000, "as munkres_double with single precision" ) { munkresLaw<float>( c, 7 ); }
LAW( munkres_large, 4500, 90000, "as munkres_double, up to 30x30" ) { munkresLaw<double>( c, 30 ); }

// ---------------------------------------------------------------------

static void bottleneckLaw( pbt::Ctx& c, std::size_t maximum )
{
  Points a, b;
  genPair( c, a, b, maximum );
  c.input( show( a ) + " " + show( b ) );
  double defective = 0;
  c.assume( defect::bottleneck( a, b, defective ) );
  double e   = b.size() <= 9 ? optimal( a, b, linf, 1, true ) : bottleneck( a, b, linf );
  double got = aleph::distances::bottleneckDistance( make<double>( a ), make<double>( b ) );
  c.nontrivial( nontrivialPair( a, b ) );
  if( std::fabs( got - e ) <= 1e-12 * ( 1 + e ) )
  {
    c.label( "correct" );
    return;
  }
  std::ostringstream o;
  o << std::setprecision( 17 ) << "bottleneck distance: got " << got << ", expected " << e;
  if( std::fabs( got - defective ) <= 1e-12 * ( 1 + defective ) )
    c.known( "BOTTLENECK-PROJECTIONS", o.str() );
  else
    c.fail( o.str() );
}

LAW( bottleneck_small, 90000, 1200000, "pairs of diagrams with <=5 points against subset dynamic programming; values of the recorded incomplete matching graph are counted as the known finding; non-trivial: both non-empty, >=3 points" ) { bottleneckLaw( c, 5 ); }
LAW( bottleneck_empty, 6000, 15000, "two diagrams without points of any dimension have distance zero; non-trivial: all" )
{
  auto i = c.size( 0, 3 );
  c.input( "dimension " + std::to_string( i ) );
  c.nontrivial( true );
  c.equal( aleph::distances::bottleneckDistance( make<double>( {}, i ), make<double>( {}, i ) ), 0.0, "bottleneck distance of empty diagrams" );
}
LAW( bottleneck_large, 6000, 90000, "as bottleneck_small with <=15 points" ) { bottleneckLaw( c, 15 ); }

// ---------------------------------------------------------------------

template <class T> void setLaw( pbt::Ctx& c )
{
  Points a, b;
  genPair( c, a, b, 8, 120 );
  if( sizeof( T ) == sizeof( float ) ) { a = rounded( a ); b = rounded( b ); }
  bool manhattan = c.boolean();
  c.input( show( a ) + " " + show( b ) + ( manhattan ? " L1" : " Linf" ) );
  auto A = make<T>( a ), B = make<T>( b );
  Metric d = manhattan ? Metric( l1 ) : Metric( linf );
  std::vector<double> da, db;
  for( auto&& p : a )
  {
    double x = std::numeric_limits<double>::infinity();
    for( auto&& q : b ) x = std::min( x, d( p, q ) );
    da.push_back( x );
  }
  for( auto&& p : b )
  {
    double x = std::numeric_limits<double>::infinity();
    for( auto&& q : a ) x = std::min( x, d( p, q ) );
    db.push_back( x );
  }
  double h = 0, s = 0;
  for( auto x : da ) { h = std::max( h, x ); s += x; }
  for( auto x : db ) { h = std::max( h, x ); s += x; }
  double tol = sizeof( T ) == sizeof( float ) ? 1e-4 : 1e-11;
  double gh  = manhattan ? aleph::distances::hausdorffDistance( A, B, L1() ) : aleph::distances::hausdorffDistance( A, B );
  double gm  = manhattan ? aleph::distances::sumOfMinimumDistances( A, B, L1() ) : aleph::distances::sumOfMinimumDistances( A, B );
  if( a.empty() != b.empty() )
  {
    c.check( std::isinf( gh ) && gh > 0, "Hausdorff distance to the empty diagram" );
    c.check( !std::isfinite( gm ), "sum of minimum distances to the empty diagram" );
    return;
  }
  double gn = manhattan ? aleph::distances::nearestNeighbourDistance( A, B, L1() ) : aleph::distances::nearestNeighbourDistance( A, B );
  c.close( gh, h, tol * ( 1 + h ), "Hausdorff distance" );
  c.close( gm, s / 2, tol * ( 1 + s ), "sum of minimum distances" );
  c.close( gn, s / 2, tol * ( 1 + s ), "nearest-neighbour distance" );
  c.nontrivial( nontrivialPair( a, b ) );
}

LAW( point_sets, 90000, 1200000, "Hausdorff, nearest-neighbour and sum-of-minimum distances against their definitions, two metrics, empty diagrams included; non-trivial: both non-empty, >=3 points" ) { setLaw<double>( c ); }
LAW( point_sets_float, 30000, 300000, "as point_sets in single precision" ) { setLaw<float>( c ); }

// ---------------------------------------------------------------------

LAW( units, 30000, 300000, "pairs of diagrams with <=7 points in units that differ by a power of two (2^-40 to 2^40): all distances scale accordingly, Wasserstein distances for powers 1 and 2 and three metrics; non-trivial: both non-empty, >=3 points" )
{
  Points a, b;
  genPair( c, a, b, 7, 40 );
  auto exponent = c.pick( std::vector<int>{ -40, -24, -10, 10, 24, 40 } );
  double s = std::ldexp( 1.0, exponent );
  auto scaled = [s] ( Points p ) { for( auto&& x : p ) x = { s * x.first, s * x.second }; return p; };
  double power = c.boolean() ? 1 : 2;
  c.input( show( a ) + " " + show( b ) + " power " + pbt::str( power ) + " units 2^" + pbt::str( exponent ) );
  c.label( exponent < 0 ? "smaller" : "larger" );
  auto A = make<double>( a ), B = make<double>( b ), C = make<double>( scaled( a ) ), D = make<double>( scaled( b ) );
  double top = 0;
  for( auto&& x : a ) top = std::max( { top, std::fabs( x.first ), std::fabs( x.second ) } );
  for( auto&& x : b ) top = std::max( { top, std::fabs( x.first ), std::fabs( x.second ) } );
  // distances below the rounding errors of coordinates are not compared
  auto same = [&] ( double small, double large, const std::string& what )
  {
    if( !std::isfinite( small ) )
      c.check( std::isnan( small ) ? std::isnan( large ) : small == large, what + " stops being infinite" );
    else
      c.close( large / s, small, 1e-6 * top + 1e-9 * small, what + " in other units" );
  };
  using namespace aleph::distances;
  same( wassersteinDistance( A, B, power ), wassersteinDistance( C, D, power ), "Wasserstein distance" );
  same( wassersteinDistance<double, L1>( A, B, power ), wassersteinDistance<double, L1>( C, D, power ), "Wasserstein distance (L1)" );
  same( wassersteinDistance<double, L2>( A, B, power ), wassersteinDistance<double, L2>( C, D, power ), "Wasserstein distance (L2)" );
  same( hausdorffDistance( A, B ), hausdorffDistance( C, D ), "Hausdorff distance" );
  same( sumOfMinimumDistances( A, B ), sumOfMinimumDistances( C, D ), "sum of minimum distances" );
  if( a.empty() == b.empty() )
    same( nearestNeighbourDistance( A, B ), nearestNeighbourDistance( C, D ), "nearest-neighbour distance" );
  double ignored = 0;
  if( a.size() + b.size() <= 12 && defect::bottleneck( a, b, ignored ) )
    same( bottleneckDistance( A, B ), bottleneckDistance( C, D ), "bottleneck distance" );
  c.nontrivial( nontrivialPair( a, b ) );
}
