// Dowker, witness and beta-skeleton constructions match their definitions.
#include "bridge.hh"
#include "clouds.hh"

#include <aleph/geometry/BetaSkeleton.hh>
#include <aleph/geometry/DowkerComplex.hh>
#include <aleph/geometry/WitnessComplex.hh>
#include <aleph/geometry/distances/Euclidean.hh>
#include <aleph/geometry/distances/Manhattan.hh>

using namespace model;
using Map    = std::map<V, double>;
using Matrix = std::vector< std::vector<double> >;

static const double inf = std::numeric_limits<double>::infinity();

static void compare( pbt::Ctx& c, const Map& got, const Map& expected, double tolerance, const std::string& what )
{
  for( auto&& x : expected )
    c.check( got.count( x.first ), what + ": simplex " + pbt::str( x.first ) + " is missing" );
  for( auto&& x : got )
    c.check( expected.count( x.first ), what + ": simplex " + pbt::str( x.first ) + " does not belong to the complex" );
  for( auto&& x : expected )
    c.close( got.at( x.first ), x.second, tolerance * ( 1 + std::fabs( x.second ) ), what + ": weight of " + pbt::str( x.first ) );
}

template <class C> void filtration( pbt::Ctx& c, const C& K, const std::string& what )
{
  std::set<V> seen;
  double last = -inf;
  for( auto&& s : K )
  {
    auto v = bridge::vertices( s );
    c.check( static_cast<double>( s.data() ) >= last, what + ": weights are not sorted" );
    last = static_cast<double>( s.data() );
    if( v.size() > 1 )
      for( auto&& f : facets( v ) )
        c.check( seen.count( f ), what + ": face " + pbt::str( f ) + " does not precede " + pbt::str( v ) );
    c.check( seen.insert( v ).second, what + ": duplicate simplex" );
  }
}

static std::string show( const Matrix& m )
{
  std::string r;
  for( auto&& x : m )
    r += pbt::str( x );
  return r;
}

// Dowker complexes ----------------------------------------------------

static Matrix genRelation( pbt::Ctx& c )
{
  auto n = c.extent( 1, 7, 12 );
  Matrix W( n, std::vector<double>( n ) );
  auto density = c.size( 1, 5 );
  for( std::size_t i = 0; i < n; i++ )
    for( std::size_t j = 0; j < n; j++ )
      if( ( i != j || c.chance( 1, 4 ) ) && c.chance( density, 6 ) )
        W[i][j] = static_cast<double>( c.size( 1, 9 ) ) / 2;
  return W;
}

static Matrix complete( const Matrix& W )
{
  auto n = W.size();
  Matrix D( n, std::vector<double>( n, inf ) );
  for( std::size_t i = 0; i < n; i++ )
  {
    for( std::size_t j = 0; j < n; j++ )
      if( W[i][j] > 0 )
        D[i][j] = W[i][j];
    D[i][i] = 0;
  }
  // repeated relaxation
  for( std::size_t round = 0; round < n; round++ )
    for( std::size_t i = 0; i < n; i++ )
      for( std::size_t j = 0; j < n; j++ )
        for( std::size_t k = 0; k < n; k++ )
          D[i][j] = std::min( D[i][j], D[i][k] + D[k][j] );
  return D;
}

// simplices are sets of vertices related to a common base point
static Map dowker( const Matrix& D, double R, std::size_t dimension, bool source )
{
  auto n = D.size();
  Map r;
  for( std::size_t m = 1; m < ( std::size_t( 1 ) << n ); m++ )
  {
    V v;
    for( unsigned i = 0; i < n; i++ )
      if( m >> i & 1 )
        v.push_back( i );
    if( dimension && v.size() > dimension + 1 )
      continue;
    double best = inf;
    for( std::size_t b = 0; b < n; b++ )
    {
      double worst = 0;
      for( auto x : v )
        worst = std::max( worst, source ? D[b][x] : D[x][b] );
      best = std::min( best, worst );
    }
    if( best <= R )
      r[v] = best;
  }
  return r;
}

LAW( dowker_complexes, 36000, 360000, "weighted directed relations on <=7 vertices (sparse and dense, self loops), thresholds at or between path lengths, dimension bounds: admissible pairs, source and sink complexes, weights, order; non-trivial: some pair is only admissible via a longer path and source and sink complexes differ" )
{
  auto W = genRelation( c );
  auto D = complete( W );
  auto n = W.size();
  double R = static_cast<double>( c.size( 0, 24 ) ) / 4;
  auto dimension = c.size( n > 7 ? 1 : 0, 3 );
  c.input( show( W ) + " threshold " + pbt::str( R ) + " dimension " + pbt::str( dimension ) );
  auto pairs = aleph::geometry::admissiblePairs( W, R );
  std::map< std::pair<std::size_t,std::size_t>, double > got, expected;
  for( auto&& p : pairs )
    c.check( got.insert( { { p.p, p.q }, p.w } ).second, "admissible pair is repeated" );
  bool detour = false;
  for( std::size_t i = 0; i < n; i++ )
    for( std::size_t j = 0; j < n; j++ )
      if( D[i][j] <= R )
      {
        expected[ { i, j } ] = D[i][j];
        detour = detour || ( i != j && D[i][j] != W[i][j] );
      }
  c.equal( got, expected, "admissible pairs" );
  auto source = dowker( D, R, dimension, true ), sink = dowker( D, R, dimension, false );
  c.shuffle( pairs );
  auto complexes = aleph::geometry::buildDowkerSinkSourceComplexes<unsigned, double>( pairs, static_cast<unsigned>( dimension ) );
  compare( c, bridge::asMap( complexes.first ), source, 0, "source complex" );
  compare( c, bridge::asMap( complexes.second ), sink, 0, "sink complex" );
  filtration( c, complexes.first, "source complex" );
  filtration( c, complexes.second, "sink complex" );
  auto K = aleph::geometry::buildDowkerSourceCompplex<Matrix, unsigned, double>( W, R, static_cast<unsigned>( dimension ) );
  compare( c, bridge::asMap( K ), source, 0, "source complex built directly" );
  filtration( c, K, "source complex built directly" );
  c.nontrivial( detour && source != sink );
}

// Witness complexes ---------------------------------------------------

template <class Distance> void witnessLaw( pbt::Ctx& c, double ( *metric )( const cloud::Row&, const cloud::Row& ) )
{
  auto d = c.size( 1, 3 );
  auto p = cloud::gen( c, 1, 14, d, -1, 200 );
  std::vector<unsigned> landmarks;
  {
    std::vector<unsigned> all( p.size() );
    for( unsigned i = 0; i < p.size(); i++ )
      all[i] = i;
    c.shuffle( all );
    auto k = c.size( 1, std::min<std::size_t>( p.size() > 14 ? 10 : 7, p.size() ) );
    landmarks.assign( all.begin(), all.begin() + static_cast<long>( k ) );
  }
  auto exact = [] ( double x ) { return std::floor( x * 1024 ) == x * 1024; };
  auto n  = landmarks.size();
  auto nu = c.size( 0, std::min<std::size_t>( 3, n ) );
  // small integers meet the distances of points on a grid exactly
  double R = c.chance( 1, 3 ) ? 0.0 : c.boolean() ? static_cast<double>( c.integer( 1, 6 ) ) / 2 : c.uniform( 0, 4 );
  auto dimension = c.size( 0, 4 );
  c.input( cloud::show( p ) + " landmarks " + pbt::str( landmarks ) + " nu " + pbt::str( nu ) + " R " + pbt::str( R ) + " dimension " + pbt::str( dimension ) );
  Matrix D;
  for( auto&& x : p )
  {
    std::vector<double> row;
    for( auto l : landmarks )
      row.push_back( metric( p[l], x ) );
    D.push_back( row );
  }
  Matrix w( n, std::vector<double>( n, inf ) );
  bool missing = false;
  for( std::size_t i = 0; i < n; i++ )
  {
    w[i][i] = 0;
    for( std::size_t j = i + 1; j < n; j++ )
    {
      for( auto&& row : D )
      {
        auto sorted = row;
        std::sort( sorted.begin(), sorted.end() );
        auto bound = R + ( nu ? sorted[ nu - 1 ] : 0.0 );
        auto value = std::max( row[i], row[j] );
        // decisions within rounding errors
        c.assume( ( exact( value ) && exact( bound ) && exact( R ) ) || std::fabs( value - bound ) > 1e-9 || R == 0 );
        if( R > 0 && value == bound )
          c.label( "relaxation attained" );
        if( value <= bound )
          w[i][j] = w[j][i] = std::min( w[i][j], value );
      }
      missing = missing || w[i][j] == inf;
    }
  }
  Map expected;
  std::size_t bound = dimension == 0 ? d + 1 : dimension;
  bool clique = false;
  for( std::size_t m = 1; m < ( std::size_t( 1 ) << n ); m++ )
  {
    V v;
    for( unsigned i = 0; i < n; i++ )
      if( m >> i & 1 )
        v.push_back( i );
    double x = 0;
    for( auto i : v )
      for( auto j : v )
        x = std::max( x, w[i][j] );
    if( v.size() <= bound + 1 && x < inf )
    {
      expected[v] = x;
      clique = clique || v.size() >= 3;
    }
  }
  auto container = cloud::make<double>( p, d );
  auto K = aleph::geometry::buildWitnessComplex<Distance>( container, landmarks.begin(), landmarks.end(), static_cast<unsigned>( dimension ), static_cast<unsigned>( nu ), R );
  compare( c, bridge::asMap( K ), expected, 1e-12, "witness complex" );
  filtration( c, K, "witness complex" );
  if( nu == 2 && R == 0 && dimension == 0 )
  {
    auto L = aleph::geometry::buildWitnessComplex<Distance>( container, landmarks.begin(), landmarks.end() );
    compare( c, bridge::asMap( L ), expected, 1e-12, "witness complex with default parameters" );
  }
  c.nontrivial( clique && missing );
}

LAW( witness_euclidean, 36000, 360000, "clouds of <=14 points, <=7 landmarks, nu <=3, relaxation, dimension bounds: simplices, weights, order; non-trivial: a triangle exists and an edge is missing" ) { witnessLaw< aleph::geometry::distances::Euclidean<double> >( c, cloud::euclidean ); }
LAW( witness_manhattan, 15000, 180000, "as witness_euclidean with the Manhattan metric" ) { witnessLaw< aleph::geometry::distances::Manhattan<double> >( c, cloud::manhattan ); }

LAW( landmarks, 24000, 240000, "landmarks selected at random or by the max-min strategy from <=12 points (duplicates, ties): number, range, distinctness, every max-min landmark is farthest from its predecessors, too many landmarks are rejected; non-trivial: >=3 landmarks and fewer than points" )
{
  auto d = c.size( 1, 3 );
  auto p = cloud::gen( c, 1, 12, d, -1, 120 );
  auto k = c.size( 0, p.size() );
  c.input( cloud::show( p ) + " landmarks " + pbt::str( k ) );
  auto container = cloud::make<double>( p, d );
  using Distance = aleph::geometry::distances::Euclidean<double>;
  std::vector<std::size_t> a, b;
  aleph::geometry::generateRandomLandmarks( p.size(), k, std::back_inserter( a ) );
  aleph::geometry::generateMaxMinLandmarks( container, k, std::back_inserter( b ), Distance() );
  for( auto&& l : { a, b } )
  {
    c.equal( l.size(), k, "number of landmarks" );
    std::set<std::size_t> distinct( l.begin(), l.end() );
    c.equal( distinct.size(), k, "number of distinct landmarks" );
    c.check( distinct.empty() || *distinct.rbegin() < p.size(), "range of landmarks" );
  }
  for( std::size_t i = 1; i < b.size(); i++ )
  {
    auto gap = [&] ( std::size_t x )
    {
      double m = inf;
      for( std::size_t j = 0; j < i; j++ )
        m = std::min( m, cloud::squared( p[x], p[ b[j] ] ) );
      return m;
    };
    double best = 0;
    for( std::size_t x = 0; x < p.size(); x++ )
      best = std::max( best, gap( x ) );
    c.check( gap( b[i] ) >= best * ( 1 - 1e-12 ), "landmark " + pbt::str( i ) + " is not farthest from its predecessors" );
  }
  bool thrown = false;
  try { aleph::geometry::generateMaxMinLandmarks( container, p.size() + 1, std::back_inserter( b ), Distance() ); } catch( std::out_of_range& ) { thrown = true; }
  c.check( thrown, "too many landmarks are rejected" );
  c.nontrivial( k >= 3 && k < p.size() );
}

// Beta skeletons ------------------------------------------------------

LAW( beta_skeleton, 36000, 360000, "clouds of <=10 points (grids, duplicates, cocircular), beta in [0.25,4]: edges by the empty lune definition up to rounding, exact on grids with integral distances, weights, nesting in beta; non-trivial: some pair is an edge and some is not" )
{
  auto d    = c.size( 1, 3 );
  auto mode = static_cast<int>( c.draw( 5 ) );
  auto p    = cloud::gen( c, 0, 10, d, mode, 40 );
  double beta = c.chance( 1, 3 ) ? 1.0 : c.chance( 1, 2 ) ? 2.0 : static_cast<double>( c.size( 1, 16 ) ) / 4;
  c.input( cloud::show( p ) + " beta " + pbt::str( beta ) );
  auto container = cloud::make<double>( p, d );
  using Distance = aleph::geometry::distances::Euclidean<double>;
  auto K   = aleph::geometry::buildBetaSkeletonNaive<Distance>( container, beta );
  auto got = bridge::asMap( K );
  c.equal( got.size(), static_cast<std::size_t>( K.size() ), "number of distinct simplices" );
  std::size_t edges = 0, others = 0, n = p.size();
  for( unsigned i = 0; i < n; i++ )
  {
    c.check( got.count( { i } ) && got[ V{ i } ] == 0, "vertex " + pbt::str( i ) );
    for( unsigned j = i + 1; j < n; j++ )
    {
      double dist = cloud::euclidean( p[i], p[j] );
      bool exact  = mode <= 1 && dist == std::floor( dist );
      double r2   = beta * beta * cloud::squared( p[i], p[j] ) / 4;
      bool required = true, forbidden = false;
      for( unsigned k = 0; k < n; k++ )
      {
        if( k == i || k == j )
          continue;
        double worst = -inf; // distance beyond the larger of both balls
        for( int side = 0; side < 2; side++ )
        {
          auto&& a = p[ side ? i : j ];
          auto&& b = p[ side ? j : i ];
          double s = 0;
          for( std::size_t l = 0; l < d; l++ )
          {
            double centre = ( 1 - beta / 2 ) * a[l] + beta / 2 * b[l];
            s += ( centre - p[k][l] ) * ( centre - p[k][l] );
          }
          worst = std::max( worst, s - r2 );
        }
        double margin = exact ? 0 : 1e-9 * ( 1 + r2 );
        required  = required && worst > margin;
        forbidden = forbidden || worst <= -margin;
      }
      bool present = got.count( { i, j } );
      if( required )
      {
        c.check( present, "edge between " + pbt::str( i ) + " and " + pbt::str( j ) + " is missing" );
        ++edges;
      }
      if( forbidden )
      {
        c.check( !present, "edge between " + pbt::str( i ) + " and " + pbt::str( j ) + " has a point in its lune" );
        ++others;
      }
      if( present )
        c.close( got[ V{ i, j } ], dist, 1e-12 * ( 1 + dist ), "weight of edge" );
    }
  }
  for( auto&& x : got )
    c.check( x.first.size() <= 2 && x.first.back() < n, "unexpected simplex" );
  // larger parameters give fewer edges
  if( beta >= 1 )
  {
    auto more = beta + static_cast<double>( c.size( 1, 4 ) ) / 4;
    auto L = bridge::asMap( aleph::geometry::buildBetaSkeletonNaive<Distance>( container, more ) );
    if( mode >= 2 )
      for( auto&& x : L )
        c.check( got.count( x.first ) || mode == 3, "edge " + pbt::str( x.first ) + " of a larger parameter is missing" );
  }
  c.nontrivial( edges && others );
}

LAW( units, 12000, 120000, "clouds of <=10 points and relations on <=7 vertices in units that differ by a power of two (2^-40 to 2^40): same simplices of witness complexes, skeletons and Dowker complexes, scaled weights; non-trivial: each of them has an edge" )
{
  auto exponent = c.pick( std::vector<int>{ -40, -24, -10, 10, 24, 40 } );
  double s = std::ldexp( 1.0, exponent );
  auto d = c.size( 1, 3 );
  auto p = cloud::gen( c, 1, 10, d, c.pick( std::vector<int>{ 0, 1, 2, 4 } ) ); // no ties up to rounding
  auto q = p;
  for( auto&& x : q )
    for( auto&& y : x )
      y *= s;
  auto W = genRelation( c );
  auto U = W;
  for( auto&& x : U )
    for( auto&& y : x )
      y *= s;
  double R = static_cast<double>( c.size( 0, 24 ) ) / 4;
  std::vector<unsigned> landmarks;
  for( unsigned i = 0; i < p.size(); i++ )
    if( i == 0 || c.boolean() )
      landmarks.push_back( i );
  auto nu   = static_cast<unsigned>( c.size( 0, std::min<std::size_t>( 2, landmarks.size() ) ) );
  auto beta = static_cast<double>( c.size( 1, 12 ) ) / 4;
  c.input( cloud::show( p ) + " landmarks " + pbt::str( landmarks ) + " nu " + pbt::str( nu ) + " beta " + pbt::str( beta ) + " " + show( W ) + " threshold " + pbt::str( R ) + " units 2^" + pbt::str( exponent ) );
  using Distance = aleph::geometry::distances::Euclidean<double>;
  auto P = cloud::make<double>( p, d ), Q = cloud::make<double>( q, d );
  std::size_t edges = 0;
  auto same = [&] ( Map small, Map large, const std::string& what )
  {
    for( auto&& x : large )
      x.second /= s;
    compare( c, large, small, 1e-12, what + " in other units" );
    for( auto&& x : small )
      if( x.first.size() == 2 )
      {
        ++edges;
        break;
      }
  };
  same( bridge::asMap( aleph::geometry::buildWitnessComplex<Distance>( P, landmarks.begin(), landmarks.end(), 2u, nu, R ) ),
        bridge::asMap( aleph::geometry::buildWitnessComplex<Distance>( Q, landmarks.begin(), landmarks.end(), 2u, nu, R * s ) ), "witness complex" );
  same( bridge::asMap( aleph::geometry::buildBetaSkeletonNaive<Distance>( P, beta ) ),
        bridge::asMap( aleph::geometry::buildBetaSkeletonNaive<Distance>( Q, beta ) ), "skeleton" );
  same( bridge::asMap( aleph::geometry::buildDowkerSourceCompplex<Matrix, unsigned, double>( W, R, 2u ) ),
        bridge::asMap( aleph::geometry::buildDowkerSourceCompplex<Matrix, unsigned, double>( U, R * s, 2u ) ), "source complex" );
  c.label( exponent < 0 ? "smaller" : "larger" );
  c.nontrivial( edges == 3 );
}
