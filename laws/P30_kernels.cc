// Kernels of persistence diagrams against their formulas; mean of diagrams
// against matching by enumeration.
#include "pbt.hh"

#include <aleph/persistenceDiagrams/Mean.hh>
#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>
#include <aleph/persistenceDiagrams/kernels/KernelEmbedding.hh>
#include <aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh>

#include <algorithm>
#include <cmath>
#include <limits>
#include <sstream>
#include <vector>

namespace
{

using Point  = std::pair<double, double>;
using Points = std::vector<Point>;

const double pi = 3.14159265358979323846;

template <class T> aleph::PersistenceDiagram<T> make( const Points& p )
{
  aleph::PersistenceDiagram<T> D;
  for( auto&& x : p )
    D.add( static_cast<T>( x.first ), static_cast<T>( x.second ) );
  return D;
}

template <class T> Points back( const aleph::PersistenceDiagram<T>& D )
{
  Points r;
  for( auto&& p : D )
    r.push_back( { double( p.x() ), double( p.y() ) } );
  return r;
}

std::string show( const std::vector<Points>& all )
{
  std::ostringstream o;
  o.precision( 17 );
  for( auto&& d : all )
  {
    o << "[";
    for( auto&& p : d )
      o << " " << p.first << "," << p.second;
    o << " ]";
  }
  return o.str();
}

// A diagram; kinds of coordinates: 0 integers, 1 eighths, 2 reals
Points diagram( pbt::Ctx& c, std::size_t maximum, int kind, bool diagonal, std::size_t big = 0 )
{
  Points r;
  auto n = big ? c.extent( 0, maximum, big, 100 ) : c.size( 0, maximum );
  for( std::size_t i = 0; i < n; i++ )
  {
    double x = kind == 0 ? double( c.integer( 0, 9 ) ) : kind == 1 ? double( c.around( 40 ) ) / 8 : c.uniform( -4, 4 );
    double d = kind == 0 ? double( c.integer( diagonal ? 0 : 1, 8 ) ) : kind == 1 ? double( c.integer( diagonal ? 0 : 1, 40 ) ) / 8 : c.uniform( 0.01, 5 );
    r.push_back( { x, x + d } );
    if( c.chance( 1, 10 ) )
      r.push_back( r.back() );
  }
  return r;
}

double square( const Point& p, const Point& q ) { return ( p.first - q.first ) * ( p.first - q.first ) + ( p.second - q.second ) * ( p.second - q.second ); }

Point mirror( const Point& p ) { return { p.second, p.first }; }

double multiScale( const Points& D, const Points& E, double sigma )
{
  long double s = 0;
  for( auto&& p : D )
    for( auto&& q : E )
      s += std::exp( -square( p, q ) / ( 8 * sigma ) ) - std::exp( -square( p, mirror( q ) ) / ( 8 * sigma ) );
  return static_cast<double>( s / ( 8 * pi * sigma ) );
}

struct Weight
{
  double C, power;
  double operator()( const Point& p ) const { return std::atan( C * std::pow( p.second - p.first, power ) ); }
};

double linear( const Points& D, const Points& E, Weight w, double sigma )
{
  long double s = 0;
  for( auto&& p : D )
    for( auto&& q : E )
      s += w( p ) * w( q ) * std::exp( -square( p, q ) / ( 2 * sigma * sigma ) );
  return static_cast<double>( s );
}

// Smallest eigenvalue of a symmetric matrix by Jacobi rotations
double smallest( std::vector< std::vector<double> > A )
{
  auto n = A.size();
  for( int sweep = 0; sweep < 60; sweep++ )
    for( std::size_t p = 0; p < n; p++ )
      for( std::size_t q = p + 1; q < n; q++ )
      {
        if( A[p][q] == 0 )
          continue;
        auto theta = ( A[q][q] - A[p][p] ) / ( 2 * A[p][q] );
        auto t     = ( theta >= 0 ? 1 : -1 ) / ( std::abs( theta ) + std::sqrt( theta * theta + 1 ) );
        auto co    = 1 / std::sqrt( t * t + 1 ), si = t * co;
        for( std::size_t k = 0; k < n; k++ )
        {
          auto x = A[k][p], y = A[k][q];
          A[k][p] = co * x - si * y;
          A[k][q] = si * x + co * y;
        }
        for( std::size_t k = 0; k < n; k++ )
        {
          auto x = A[p][k], y = A[q][k];
          A[p][k] = co * x - si * y;
          A[q][k] = si * x + co * y;
        }
      }
  double r = std::numeric_limits<double>::infinity();
  for( std::size_t i = 0; i < n; i++ )
    r = std::min( r, A[i][i] );
  return r;
}

void definite( pbt::Ctx& c, const std::vector< std::vector<double> >& A, const std::string& what )
{
  double scale = 1;
  for( auto&& r : A )
    for( auto&& x : r )
      scale = std::max( scale, std::abs( x ) );
  auto e = smallest( A );
  c.check( e >= -1e-9 * scale, what + ": matrix of kernel values has the negative eigenvalue " + pbt::str( e ) );
}

// checks that values form a pseudo-metric; the distances are square roots of
// differences of kernel values, so small ones suffer from rounding
void metric( pbt::Ctx& c, const std::vector< std::vector<double> >& d, double scale, const std::string& what )
{
  auto tolerance = 1e-6 * std::max( 1.0, std::sqrt( scale ) );
  for( std::size_t i = 0; i < d.size(); i++ )
  {
    c.check( std::abs( d[i][i] ) <= tolerance, what + " of a diagram to itself is " + pbt::str( d[i][i] ) );
    for( std::size_t j = 0; j < d.size(); j++ )
    {
      c.check( d[i][j] >= 0, what + " is " + pbt::str( d[i][j] ) );
      c.check( std::abs( d[i][j] - d[j][i] ) <= tolerance, what + " is not symmetric" );
      for( std::size_t k = 0; k < d.size(); k++ )
        c.check( d[i][k] <= d[i][j] + d[j][k] + 3 * tolerance, what + " violates the triangle inequality" );
    }
  }
}

void close( pbt::Ctx& c, double got, double expected, double scale, const std::string& what )
{
  c.check( std::abs( got - expected ) <= 1e-10 * std::max( 1.0, scale ), what + ": got " + pbt::str( got ) + ", expected " + pbt::str( expected ) );
}

// a distance that is the root of a difference of kernel values
void closeRoot( pbt::Ctx& c, double got, double squared, double scale, const std::string& what )
{
  auto e = std::sqrt( std::max( 0.0, squared ) );
  c.check( std::abs( got * got - squared ) <= 1e-10 * std::max( 1.0, scale ) && got >= 0, what + ": got " + pbt::str( got ) + ", expected " + pbt::str( e ) );
}

template <class T> void multiScaleLaw( pbt::Ctx& c, const std::vector<Points>& all, double sigma )
{
  auto n = all.size();
  std::vector< std::vector<double> > k( n, std::vector<double>( n ) ), d = k;
  double scale = 0;
  for( std::size_t i = 0; i < n; i++ )
    for( std::size_t j = 0; j < n; j++ )
      scale = std::max( scale, double( all[i].size() * all[j].size() ) / ( 4 * sigma ) );
  for( std::size_t i = 0; i < n; i++ )
    for( std::size_t j = 0; j < n; j++ )
    {
      auto D = make<T>( all[i] ), E = make<T>( all[j] );
      k[i][j] = aleph::multiScaleKernel( D, E, sigma );
      d[i][j] = aleph::multiScalePseudoMetric( D, E, sigma );
      close( c, k[i][j], multiScale( all[i], all[j], sigma ), scale, "multi-scale kernel" );
      closeRoot( c, d[i][j], multiScale( all[i], all[i], sigma ) + multiScale( all[j], all[j], sigma ) - 2 * multiScale( all[i], all[j], sigma ), scale, "multi-scale pseudo-metric" );
    }
  definite( c, k, "multi-scale kernel" );
  metric( c, d, scale, "multi-scale pseudo-metric" );
}

template <class T> void weightedLaw( pbt::Ctx& c, const std::vector<Points>& all, double sigma, Weight w, double tau )
{
  auto n = all.size();
  std::vector< std::vector<double> > k( n, std::vector<double>( n ) ), d = k, g = k;
  auto P = [&] ( const typename aleph::PersistenceDiagram<T>::ValueType& p, const typename aleph::PersistenceDiagram<T>::ValueType& q )
  {
    return std::exp( -square( { double( p.x() ), double( p.y() ) }, { double( q.x() ), double( q.y() ) } ) / ( 2 * sigma * sigma ) );
  };
  auto W = [&] ( const typename aleph::PersistenceDiagram<T>::ValueType& p ) { return w( { double( p.x() ), double( p.y() ) } ); };
  double scale = 0;
  for( auto&& x : all )
    for( auto&& y : all )
      scale = std::max( scale, 3.0 * double( x.size() * y.size() ) );
  for( std::size_t i = 0; i < n; i++ )
    for( std::size_t j = 0; j < n; j++ )
    {
      auto D = make<T>( all[i] ), E = make<T>( all[j] );
      auto squared = linear( all[i], all[i], w, sigma ) + linear( all[j], all[j], w, sigma ) - 2 * linear( all[i], all[j], w, sigma );
      k[i][j] = aleph::linearKernel( D, E, W, P );
      d[i][j] = aleph::pseudoMetric( D, E, W, P );
      g[i][j] = aleph::gaussianKernel( D, E, sigma, w.C, w.power, tau );
      close( c, k[i][j], linear( all[i], all[j], w, sigma ), scale, "linear kernel" );
      closeRoot( c, d[i][j], squared, scale, "pseudo-metric" );
      close( c, g[i][j], std::exp( -std::max( 0.0, squared ) / ( 2 * tau * tau ) ), scale * ( 1 + 1 / ( tau * tau ) ), "Gaussian kernel" );
      close( c, aleph::gaussianKernel( D, E, W, P, tau ), g[i][j], scale * ( 1 + 1 / ( tau * tau ) ), "Gaussian kernel with functions" );
      c.check( g[i][j] >= 0 && g[i][j] <= 1, "Gaussian kernel is " + pbt::str( g[i][j] ) );
    }
  definite( c, k, "linear kernel" );
  definite( c, g, "Gaussian kernel" );
  metric( c, d, scale, "pseudo-metric" );
}

double infinity( const Point& p, const Point& q ) { return std::max( std::abs( p.first - q.first ), std::abs( p.second - q.second ) ); }

// Optimal matching of two small diagrams by enumeration, along with the cost
// of the best matching that differs from it
struct Matching
{
  double best   = std::numeric_limits<double>::infinity();
  double second = std::numeric_limits<double>::infinity();
  std::vector<int> to; // -1: diagonal
};

Matching match( const Points& Y, const Points& X )
{
  Matching r;
  std::vector<int> to( Y.size(), -1 );
  std::vector<char> used( X.size(), 0 );
  auto diagonal = [] ( const Point& p ) { return ( p.second - p.first ) * ( p.second - p.first ) / 4; };
  std::function< void( std::size_t, double ) > go = [&] ( std::size_t i, double cost )
  {
    if( i == Y.size() )
    {
      for( std::size_t j = 0; j < X.size(); j++ )
        if( !used[j] )
          cost += diagonal( X[j] );
      if( cost < r.best )
      {
        r.second = r.best;
        r.best   = cost;
        r.to     = to;
      }
      else
        r.second = std::min( r.second, cost );
      return;
    }
    to[i] = -1;
    go( i + 1, cost + diagonal( Y[i] ) );
    for( std::size_t j = 0; j < X.size(); j++ )
      if( !used[j] )
      {
        used[j] = 1;
        to[i]   = static_cast<int>( j );
        go( i + 1, cost + infinity( Y[i], X[j] ) * infinity( Y[i], X[j] ) );
        used[j] = 0;
        to[i]   = -1;
      }
  };
  go( 0, 0 );
  return r;
}

} // namespace

LAW( multi_scale, 51000, 1020000, "at least two diagrams with at least two points" )
{
  auto kind = static_cast<int>( c.draw( 3 ) );
  std::vector<Points> all;
  auto n = c.size( 1, 5 );
  std::size_t large = 0;
  for( std::size_t i = 0; i < n; i++ )
  {
    if( !all.empty() && c.chance( 1, 6 ) )
    {
      // the same points in another order
      all.push_back( c.pick( all ) );
      c.shuffle( all.back() );
    }
    else
      all.push_back( diagram( c, 5, kind, true, 40 ) );
    large += all.back().size() >= 2;
  }
  // superlevel sets: points below the diagonal; occasionally on both sides
  auto side = c.draw( 6 );
  if( side >= 4 )
  {
    for( auto&& d : all )
      for( auto&& p : d )
        if( side == 4 || c.boolean() )
          p = mirror( p );
    c.label( side == 4 ? "below the diagonal" : "on both sides of the diagonal" );
  }
  auto sigma = c.pick( std::vector<double>{ 0.125, 0.5, 1.0, 2.0, 7.5, 100.0 } );
  if( c.boolean() )
    sigma = c.uniform( 0.05, 5 );
  c.input( show( all ) + " smoothing " + pbt::str( sigma ) );
  c.nontrivial( large >= 2 );
  multiScaleLaw<double>( c, all, sigma );
  if( kind < 2 )
    multiScaleLaw<float>( c, all, sigma );
  if( kind == 0 )
  {
    multiScaleLaw<int>( c, all, sigma );
    multiScaleLaw<unsigned>( c, all, sigma );
  }

  // points on the diagonal do not matter
  for( auto&& d : all )
  {
    auto e = d;
    auto x = static_cast<double>( c.integer( 0, 9 ) );
    e.insert( e.begin() + static_cast<long>( c.draw( e.size() + 1 ) ), { x, x } );
    auto k = double( d.size() * ( d.size() + 1 ) ) / sigma;
    close( c, aleph::multiScaleKernel( make<double>( d ), make<double>( e ), sigma ), multiScale( d, d, sigma ), k, "kernel with a point on the diagonal" );
  }

  // sum of the feature map over all points
  for( auto&& d : all )
    close( c, aleph::multiScaleFeatureMap( make<double>( d ), sigma ), multiScale( d, d, sigma / 2 ), double( d.size() * d.size() ) / sigma, "feature map" );
}

LAW( weighted, 51000, 1020000, "at least two diagrams with at least two points" )
{
  auto kind = static_cast<int>( c.draw( 3 ) );
  std::vector<Points> all;
  auto n = c.size( 1, 5 );
  std::size_t large = 0;
  for( std::size_t i = 0; i < n; i++ )
  {
    if( !all.empty() && c.chance( 1, 6 ) )
    {
      all.push_back( c.pick( all ) );
      c.shuffle( all.back() );
    }
    else
      all.push_back( diagram( c, 5, kind, true, 40 ) );
    large += all.back().size() >= 2;
  }
  auto sigma = c.pick( std::vector<double>{ 0.25, 1.0, 2.0, 7.5 } );
  auto tau   = c.pick( std::vector<double>{ 0.5, 1.0, 3.0, 20.0 } );
  if( c.boolean() )
  {
    sigma = c.uniform( 0.1, 5 );
    tau   = c.uniform( 0.3, 5 );
  }
  Weight w{ c.pick( std::vector<double>{ 0.1, 1.0, 2.5 } ), c.pick( std::vector<double>{ 0.5, 1.0, 2.0, 3.0 } ) };
  if( w.power >= 1 && c.chance( 1, 4 ) )
  {
    for( auto&& d : all )
      for( auto&& p : d )
        p = mirror( p );
    c.label( "below the diagonal" );
  }
  c.input( show( all ) + " kernel " + pbt::str( sigma ) + " weight " + pbt::str( w.C ) + " " + pbt::str( w.power ) + " smoothing " + pbt::str( tau ) );
  c.nontrivial( large >= 2 );
  weightedLaw<double>( c, all, sigma, w, tau );
  if( kind < 2 )
    weightedLaw<float>( c, all, sigma, w, tau );
}

LAW( equal_diagrams, 25500, 510000, "at least two copies of a diagram with at least two points" )
{
  auto p = diagram( c, 5, static_cast<int>( c.draw( 3 ) ), true );
  auto m = c.size( 1, 5 );
  std::vector< aleph::PersistenceDiagram<double> > all;
  std::vector<Points> input;
  bool shuffled = c.boolean();
  for( std::size_t i = 0; i < m; i++ )
  {
    if( shuffled )
      c.shuffle( p );
    input.push_back( p );
    all.push_back( make<double>( p ) );
  }
  c.input( show( input ) );
  c.nontrivial( m >= 2 && p.size() >= 2 );
  auto got = back( aleph::mean( all.begin(), all.end() ) );
  auto expected = p;
  expected.erase( std::remove_if( expected.begin(), expected.end(), [] ( const Point& q ) { return q.first == q.second; } ), expected.end() );
  c.equal( got.size(), expected.size(), "number of points" );
  // sorting is sensitive to rounding, so match greedily
  for( auto&& q : expected )
  {
    auto it = std::find_if( got.begin(), got.end(), [&] ( const Point& r ) { return infinity( q, r ) < 1e-9; } );
    c.check( it != got.end(), "point is not part of the mean" );
    got.erase( it );
  }
}

LAW( clusters, 25500, 510000, "at least two diagrams and two clusters" )
{
  // Centres are far from each other compared with their persistence, and
  // points are close to centres compared with it, so that optimal matchings
  // never mix clusters or leave points to the diagonal.
  auto n = c.size( 1, 4 ), m = c.size( 1, 5 );
  Points centres;
  for( std::size_t i = 0; i < n; i++ )
  {
    auto x = 50.0 * static_cast<double>( i );
    centres.push_back( { x, x + c.uniform( 8, 14 ) } );
  }
  std::vector<Points> input( m );
  std::vector< std::vector<int> > present( m, std::vector<int>( n, 0 ) );
  std::vector<Points> where( m, Points( n ) );
  bool complete = c.boolean();
  for( std::size_t i = 0; i < m; i++ )
  {
    std::vector<std::size_t> order;
    for( std::size_t j = 0; j < n; j++ )
    {
      order.push_back( j );
      where[i][j] = { centres[j].first + c.uniform( -0.15, 0.15 ), centres[j].second + c.uniform( -0.15, 0.15 ) };
      present[i][j] = complete || !c.chance( 1, 4 );
    }
    c.shuffle( order );
    for( auto&& j : order )
      if( present[i][j] )
        input[i].push_back( where[i][j] );
  }
  c.input( show( input ) );
  c.nontrivial( m >= 2 && n >= 2 );
  c.label( complete ? "all clusters are present" : "some clusters may be missing" );

  std::vector< aleph::PersistenceDiagram<double> > all;
  for( auto&& p : input )
    all.push_back( make<double>( p ) );
  auto got = back( aleph::mean( all.begin(), all.end() ) );

  // the points of the mean, for those clusters that are present
  std::vector<int> found( n, 0 );
  for( auto&& p : got )
  {
    auto j = static_cast<long>( std::floor( ( p.first + 25.0 ) / 50.0 ) );
    c.check( j >= 0 && j < static_cast<long>( n ), "point " + pbt::str( p ) + " is far from all clusters" );
    c.check( !found[j], "cluster has two points" );
    found[j] = 1;
    double k = 0;
    double sx = 0, sy = 0;
    for( std::size_t i = 0; i < m; i++ )
      if( present[i][j] )
      {
        sx += where[i][j].first;
        sy += where[i][j].second;
        k  += 1;
      }
    c.check( k > 0, "no diagram contains this cluster" );
    auto middle = ( sx + sy ) / ( 2 * k );
    Point e = { ( sx + ( double( m ) - k ) * middle ) / double( m ), ( sy + ( double( m ) - k ) * middle ) / double( m ) };
    c.check( infinity( p, e ) < 1e-5, "point " + pbt::str( p ) + " instead of " + pbt::str( e ) );
  }
  // the clusters are the ones of one of the diagrams
  c.check( std::find( present.begin(), present.end(), found ) != present.end(), "clusters of the mean" );
}

LAW( stationary, 34000, 680000, "at least two diagrams with at least two points" )
{
  auto m = c.size( 1, 4 );
  std::vector<Points> input;
  std::size_t large = 0;
  auto base = diagram( c, 4, 2, false );
  for( std::size_t i = 0; i < m; i++ )
  {
    if( c.boolean() )
    {
      // similar diagrams
      Points p;
      for( auto&& q : base )
        if( !c.chance( 1, 5 ) )
        {
          auto x = q.first + c.uniform( -0.5, 0.5 );
          p.push_back( { x, std::max( x + 0.01, q.second + c.uniform( -0.5, 0.5 ) ) } );
        }
      c.shuffle( p );
      input.push_back( p );
    }
    else
      input.push_back( diagram( c, 4, 2, false ) );
    // duplicates permit several matchings
    auto& p = input.back();
    std::sort( p.begin(), p.end() );
    p.erase( std::unique( p.begin(), p.end() ), p.end() );
    large += p.size() >= 2;
  }
  if( c.chance( 1, 4 ) )
  {
    for( auto&& d : input )
      for( auto&& p : d )
        p = mirror( p );
    c.label( "below the diagonal" );
  }
  // other units
  auto unit = c.chance( 1, 3 ) ? c.pick( std::vector<double>{ 1.0 / 1024, 1024.0, 1048576.0 } ) : 1.0;
  for( auto&& d : input )
    for( auto&& p : d )
    {
      p.first  *= unit;
      p.second *= unit;
    }
  c.input( show( input ) );
  c.nontrivial( large >= 2 );
  std::vector< aleph::PersistenceDiagram<double> > all;
  std::size_t most = 0;
  for( auto&& p : input )
  {
    all.push_back( make<double>( p ) );
    most = std::max( most, p.size() );
  }
  auto Y = back( aleph::mean( all.begin(), all.end() ) );
  c.check( Y.size() <= most, "mean has more points than every diagram" );
  // Matching and averaging again does not change the mean; if the search
  // alternates between several diagrams, it returns to the mean.
  auto Z = Y;
  bool stationary = false;
  for( int step = 0; step < 60 && !stationary; step++ )
  {
    Points next( Z.size(), { 0.0, 0.0 } );
    for( auto&& X : input )
    {
      auto M = match( Z, X );
      c.assume( M.second - M.best > 1e-6 * unit * unit );
      for( std::size_t i = 0; i < Z.size(); i++ )
      {
        auto middle = ( Z[i].first + Z[i].second ) / 2;
        Point p = M.to[i] < 0 ? Point( middle, middle ) : X[ static_cast<std::size_t>( M.to[i] ) ];
        next[i].first  += p.first / double( m );
        next[i].second += p.second / double( m );
      }
    }
    Z = next;
    stationary = true;
    for( std::size_t i = 0; i < Y.size(); i++ )
      stationary = stationary && infinity( Y[i], Z[i] ) < 1e-5 * unit;
    if( step > 0 )
      c.label( "several diagrams" );
  }
  c.check( stationary, "mean " + show( { Y } ) + " is not obtained by averaging the points matched to it; one gets " + show( { Z } ) );
}
