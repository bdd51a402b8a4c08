// Stability and invariance of diagrams; metric axioms of diagram distances.
#include "bridge.hh"
#include "clouds.hh"
#include "diagrams.hh"

#include <aleph/geometry/BruteForce.hh>
#include <aleph/geometry/VietorisRipsComplex.hh>
#include <aleph/geometry/distances/Euclidean.hh>
#include <aleph/persistenceDiagrams/distances/Hausdorff.hh>
#include <aleph/persistenceDiagrams/distances/NearestNeighbour.hh>
#include <aleph/persistenceDiagrams/distances/Wasserstein.hh>
#include <aleph/persistentHomology/Calculation.hh>
#include <aleph/topology/filtrations/Data.hh>
#include <aleph/topology/io/Function.hh>

using namespace model;
using S = aleph::topology::Simplex<double, unsigned>;
using K = aleph::topology::SimplicialComplex<S>;

using Set = std::multiset< std::pair<double,double> >;
using Ds  = std::map<std::size_t, Set>;

template <class X> Ds convert( const X& ds )
{
  Ds r;
  for( auto&& d : bridge::diagrams( ds ) )
    r[ d.first ].insert( d.second.begin(), d.second.end() );
  return r;
}

// Bottleneck distance of diagrams, essential points matched in order of birth.
static double distance( const Set& a, const Set& b )
{
  dgm::Points fa, fb;
  std::vector<double> ea, eb;
  for( auto&& p : a ) { if( std::isinf( p.second ) ) ea.push_back( p.first ); else fa.push_back( p ); }
  for( auto&& p : b ) { if( std::isinf( p.second ) ) eb.push_back( p.first ); else fb.push_back( p ); }
  if( ea.size() != eb.size() )
    return std::numeric_limits<double>::infinity();
  std::sort( ea.begin(), ea.end() );
  std::sort( eb.begin(), eb.end() );
  double r = dgm::bottleneck( fa, fb, dgm::linf );
  for( std::size_t i = 0; i < ea.size(); i++ )
    r = std::max( r, std::fabs( ea[i] - eb[i] ) );
  return r;
}

static Ds dropDiagonal( const Ds& ds )
{
  Ds r;
  for( auto&& d : ds )
    for( auto&& p : d.second )
      if( p.first != p.second )
        r[ d.first ].insert( p );
  return r;
}

static bool interesting( const Ds& ds )
{
  std::size_t n = 0;
  for( auto&& d : dropDiagonal( ds ) )
    n += d.second.size();
  return n >= 3;
}

static Ds starDiagrams( const std::set<V>& closed, const std::map<unsigned,double>& f, bool all )
{
  K k;
  for( auto&& v : closed )
  {
    double w = -1e300;
    for( auto x : v )
      w = std::max( w, f.at( x ) );
    k.push_back( bridge::simplex<S>( v, w ) );
  }
  k.sort( aleph::topology::filtrations::Data<S>() );
  return convert( aleph::calculatePersistenceDiagrams( k, true, all ) );
}

static std::set<unsigned> vertexSet( const std::set<V>& closed )
{
  std::set<unsigned> r;
  for( auto&& v : closed )
    r.insert( v.begin(), v.end() );
  return r;
}

LAW( function_stability, 22500, 375000, "vertex functions on closed complexes perturbed by at most epsilon: bottleneck distance of all diagrams at most epsilon; non-trivial: >=3 off-diagonal points" )
{
  Options o;
  o.bulk( 14, 60 );
  o.maxCells = 60;
  auto closed = genClosed( c, o );
  std::map<unsigned,double> f, g;
  auto mode = static_cast<unsigned>( c.draw( 4 ) );
  double epsilon = c.pick( std::vector<double>{ 0.01, 0.25, 1.0, 3.0 } );
  for( auto v : vertexSet( closed ) )
  {
    f[v] = genWeight( c, mode );
    g[v] = f[v] + ( c.chance( 1, 3 ) ? ( c.boolean() ? epsilon : -epsilon ) : c.uniform( -epsilon, epsilon ) );
  }
  std::string in;
  for( auto&& v : closed ) in += show( v );
  for( auto&& p : f ) in += " " + pbt::str( p.first ) + ":" + pbt::str( p.second ) + "->" + pbt::str( g[p.first] );
  c.input( in );
  auto a = starDiagrams( closed, f, true ), b = starDiagrams( closed, g, true );
  for( std::size_t d = 0; d <= 5; d++ )
  {
    double x = distance( a[d], b[d] );
    c.check( x <= epsilon * ( 1 + 1e-9 ) + 1e-12, "dimension " + pbt::str( d ) + " moved by " + pbt::str( x ) + " > " + pbt::str( epsilon ) );
  }
  c.nontrivial( interesting( a ) );
}

LAW( function_transform, 22500, 375000, "relabelling vertices, shuffling the insertion order and affine changes of vertex functions change diagrams accordingly; non-trivial: >=3 off-diagonal points" )
{
  Options o;
  o.maxCells = 80;
  auto closed = genClosed( c, o );
  auto mode   = static_cast<unsigned>( c.draw( 2 ) ); // exact arithmetic
  std::map<unsigned,double> f, g;
  std::vector<unsigned> target;
  auto vs = vertexSet( closed );
  for( unsigned i = 0; i < vs.size(); i++ )
    target.push_back( 3 * i + 1 );
  c.shuffle( target );
  double scale = c.pick( std::vector<double>{ 1, 2, 0.5 } ), shift = static_cast<double>( c.around( 8 ) );
  std::map<unsigned,unsigned> name;
  for( auto v : vs )
  {
    auto i  = name.size();
    name[v] = target[i];
    f[v]    = genWeight( c, mode );
    g[ name[v] ] = scale * f[v] + shift;
  }
  std::set<V> renamed;
  for( auto&& v : closed )
  {
    V w;
    for( auto x : v ) w.push_back( name[x] );
    std::sort( w.begin(), w.end() );
    renamed.insert( w );
  }
  std::string in;
  for( auto&& v : closed ) in += show( v );
  for( auto&& p : f ) in += " " + pbt::str( p.first ) + ":" + pbt::str( p.second ) + "->" + pbt::str( name[p.first] );
  c.input( in + " scale " + pbt::str( scale ) + " shift " + pbt::str( shift ) );
  auto a = starDiagrams( closed, f, true ), b = starDiagrams( renamed, g, true );
  Ds expected;
  for( auto&& d : dropDiagonal( a ) )
    for( auto&& p : d.second )
      expected[d.first].insert( { scale * p.first + shift, scale * p.second + shift } );
  c.check( dropDiagonal( b ) == expected, "diagrams of the transformed function" );
  c.nontrivial( interesting( a ) );
}

LAW( series_stability, 22500, 375000, "one-dimensional functions (<=25 samples), sublevel and superlevel sets, perturbed by at most epsilon, mirrored and negated; non-trivial: >=3 off-diagonal points" )
{
  auto n = c.extent( 1, 25, 80 );
  double epsilon = c.pick( std::vector<double>{ 0.01, 0.5, 2.0 } );
  std::vector<double> f, g;
  for( std::size_t i = 0; i < n; i++ )
  {
    f.push_back( static_cast<double>( c.around( 8 ) ) );
    g.push_back( f.back() + c.uniform( -epsilon, epsilon ) );
  }
  bool super = c.boolean();
  c.input( pbt::str( f ) + " " + pbt::str( g ) + ( super ? " superlevel" : " sublevel" ) );
  auto run = [&] ( const std::vector<double>& x, bool up )
  {
    auto k = up ? aleph::topology::io::loadFunction<K>( x.begin(), x.end(), [] ( double a, double b ) { return std::min( a, b ); } )
                : aleph::topology::io::loadFunction<K>( x.begin(), x.end(), [] ( double a, double b ) { return std::max( a, b ); } );
    if( up ) k.sort( aleph::topology::filtrations::Data<S, std::greater<double> >() );
    else     k.sort( aleph::topology::filtrations::Data<S>() );
    auto r = dropDiagonal( convert( aleph::calculatePersistenceDiagrams( k, true, true ) ) );
    r[0]; // always present
    return r;
  };
  auto a = run( f, super ), b = run( g, super );
  double x = distance( a[0], b[0] );
  c.check( x <= epsilon * ( 1 + 1e-9 ) + 1e-12, "diagram moved by " + pbt::str( x ) + " > " + pbt::str( epsilon ) );

  auto mirrored = f;
  std::reverse( mirrored.begin(), mirrored.end() );
  c.check( run( mirrored, super ) == a, "diagram of the mirrored function" );
  auto negated = f;
  for( auto&& y : negated ) y = -y;
  Ds expected;
  for( auto&& p : a[0] )
    expected[0].insert( { -p.first, std::isinf( p.second ) ? p.second : -p.second } );
  c.check( run( negated, !super ) == expected, "diagram of the negated function" );
  c.nontrivial( interesting( a ) );
}

using PC = aleph::containers::PointCloud<double>;
using NN = aleph::geometry::BruteForce< PC, aleph::geometry::distances::Euclidean<double> >;

static Ds rips( const cloud::Rows& r, std::size_t d, double epsilon )
{
  auto pc = cloud::make<double>( r, d );
  NN nn( pc );
  auto k = aleph::geometry::buildVietorisRipsComplex( nn, epsilon, 2 );
  auto ds = convert( aleph::calculatePersistenceDiagrams( k ) );
  ds.erase( 2 );
  return dropDiagonal( ds );
}

LAW( cloud_stability, 6000, 90000, "point clouds of <=11 points whose points move by at most epsilon: Vietoris-Rips diagrams in dimensions 0 and 1 move by at most twice epsilon; non-trivial: a one-dimensional feature exists" )
{
  auto d = c.size( 1, 3 );
  auto r = cloud::gen( c, 1, 11, d );
  double epsilon = c.pick( std::vector<double>{ 0.05, 0.5, 1.5 } );
  auto s = r;
  for( auto&& x : s )
  {
    double budget = epsilon / std::sqrt( static_cast<double>( d ) );
    for( auto&& y : x )
      y += c.uniform( -budget, budget );
  }
  c.input( cloud::show( r ) + " -> " + cloud::show( s ) );
  auto a = rips( r, d, 1e6 ), b = rips( s, d, 1e6 );
  for( std::size_t k = 0; k <= 1; k++ )
  {
    double x = distance( a[k], b[k] );
    c.check( x <= 2 * epsilon * ( 1 + 1e-9 ) + 1e-12, "dimension " + pbt::str( k ) + " moved by " + pbt::str( x ) + " > 2*" + pbt::str( epsilon ) );
  }
  c.nontrivial( !a[1].empty() || !b[1].empty() );
}

LAW( cloud_transform, 6000, 90000, "integral point clouds permuted, translated, rotated by axis permutations and scaled by powers of two, with a distance threshold: diagrams change only by the scale; non-trivial: >=3 off-diagonal points" )
{
  auto d = c.size( 1, 3 );
  auto r = cloud::gen( c, 1, 12, d, static_cast<int>( c.draw( 2 ) ) );
  double threshold = static_cast<double>( c.size( 1, 12 ) ) + 0.3;
  double scale = c.pick( std::vector<double>{ 1, 2, 0.5, 4 } );
  std::vector<double> shift;
  std::vector<std::size_t> axes;
  for( std::size_t i = 0; i < d; i++ )
  {
    shift.push_back( static_cast<double>( c.around( 100 ) ) );
    axes.push_back( i );
  }
  c.shuffle( axes );
  bool mirror = c.boolean();
  auto s = r;
  for( std::size_t i = 0; i < r.size(); i++ )
    for( std::size_t k = 0; k < d; k++ )
      s[i][k] = scale * ( ( mirror && k == 0 ? -1 : 1 ) * r[i][ axes[k] ] + shift[k] );
  c.shuffle( s );
  c.input( cloud::show( r ) + " threshold " + pbt::str( threshold ) + " -> " + cloud::show( s ) );
  auto a = rips( r, d, threshold ), b = rips( s, d, scale * threshold );
  Ds expected;
  for( auto&& x : a )
    for( auto&& p : x.second )
      expected[x.first].insert( { scale * p.first, scale * p.second } );
  for( std::size_t k = 0; k <= 1; k++ )
  {
    double x = distance( expected[k], b[k] );
    c.check( x <= 1e-9 * scale * threshold, "dimension " + pbt::str( k ) + " differs by " + pbt::str( x ) );
  }
  c.nontrivial( interesting( a ) );
}

template <class F> void axioms( pbt::Ctx& c, const std::string& what, F f, const dgm::Points& a, const dgm::Points& b, const dgm::Points& d, bool triangle, double tol )
{
  double ab = f( a, b ), ba = f( b, a ), aa = f( a, a ), bd = f( b, d ), ad = f( a, d );
  c.check( ab >= 0 && bd >= 0 && ad >= 0, what + " is negative" );
  c.close( ab, ba, tol, what + " is not symmetric" );
  c.close( aa, 0.0, tol, what + " of identical diagrams" );
  if( triangle )
    c.check( ad <= ab + bd + tol, what + " violates the triangle inequality: " + pbt::str( ad ) + " > " + pbt::str( ab ) + " + " + pbt::str( bd ) );
  auto s = a, t = b;
  c.shuffle( s );
  c.shuffle( t );
  c.close( f( s, t ), ab, tol, what + " depends on the order of points" );
  for( auto&& p : s ) p = { p.first + 4, p.second + 4 };
  for( auto&& p : t ) p = { p.first + 4, p.second + 4 };
  c.close( f( s, t ), ab, tol, what + " is not translation-invariant along the diagonal" );
}

LAW( axioms, 22500, 375000, "triples of diagrams (<=6 points): non-negativity, symmetry, identity, triangle inequality, order and translation invariance of the Wasserstein distances (powers 1, 2, 3); Hausdorff and nearest-neighbour distances (no triangle inequality for the latter); non-trivial: three non-empty diagrams" )
{
  auto mode = static_cast<int>( c.draw( 2 ) );
  auto a = dgm::genPoints( c, 6, mode ), b = c.boolean() ? dgm::genRelated( c, a, 6 ) : dgm::genPoints( c, 6, mode ), d = c.boolean() ? dgm::genRelated( c, b, 6 ) : dgm::genPoints( c, 6, mode );
  c.input( dgm::show( a ) + dgm::show( b ) + dgm::show( d ) );
  std::map<double,double> byPower;
  for( double power : { 1.0, 2.0, 3.0 } )
  {
    auto W = [&] ( const dgm::Points& x, const dgm::Points& y ) { return aleph::distances::wassersteinDistance( dgm::make<double>( x ), dgm::make<double>( y ), power ); };
    axioms( c, "Wasserstein distance", W, a, b, d, true, 1e-4 );
    byPower[power] = W( a, b );
  }
  c.check( byPower[2] <= byPower[1] + 1e-9 && byPower[3] <= byPower[2] + 1e-9, "Wasserstein distances increase with the power" );
  double bn = dgm::bottleneck( a, b, dgm::linf );
  c.check( byPower[3] >= bn - 1e-9, "Wasserstein distance is smaller than the bottleneck distance" );
  if( !a.empty() && !b.empty() && !d.empty() )
  {
    auto H = [] ( const dgm::Points& x, const dgm::Points& y ) { return aleph::distances::hausdorffDistance( dgm::make<double>( x ), dgm::make<double>( y ) ); };
    auto N = [] ( const dgm::Points& x, const dgm::Points& y ) { return aleph::distances::nearestNeighbourDistance( dgm::make<double>( x ), dgm::make<double>( y ) ); };
    axioms( c, "Hausdorff distance", H, a, b, d, true, 1e-9 );
    axioms( c, "nearest-neighbour distance", N, a, b, d, false, 1e-9 );
    c.nontrivial( true );
  }
}
