// flags: -llz4
// Persistence diagram containers, norms and entropies.
#include "diagrams.hh"

#include <aleph/persistenceDiagrams/Entropy.hh>
#include <aleph/persistenceDiagrams/Extraction.hh>
#include <aleph/persistenceDiagrams/Norms.hh>

using namespace dgm;

static const double INF = std::numeric_limits<double>::infinity();

template <class T> Points back( const aleph::PersistenceDiagram<T>& D )
{
  Points r;
  for( auto&& p : D )
    r.push_back( { static_cast<double>( p.x() ), p.isUnpaired() ? INF : static_cast<double>( p.y() ) } );
  return r;
}

static std::multiset<P> bag( const Points& p ) { return std::multiset<P>( p.begin(), p.end() ); }

template <class T> void containerLaw( pbt::Ctx& c )
{
  using D = aleph::PersistenceDiagram<T>;
  using Point = typename D::Point;
  D d;
  Points m;
  std::size_t dim = 0;
  auto steps = c.extent( 1, 20, 200 );
  std::string log;
  std::size_t kinds = 0;
  // neighbouring numbers are different values, however close they are
  auto value = [&]
  {
    auto x = static_cast<T>( c.around( 3 ) );
    if( std::is_floating_point<T>::value && c.chance( 1, 4 ) )
      x = static_cast<T>( std::nextafter( x, static_cast<T>( c.boolean() ? 10 : -10 ) ) );
    return static_cast<double>( x );
  };
  for( std::size_t s = 0; s < steps; s++ )
  {
    auto op = c.draw( 12 );
    if( op <= 2 )
    {
      double x = value(), y = value();
      log += "add " + pbt::str( x ) + " " + pbt::str( y ) + "; ";
      d.add( static_cast<T>( x ), static_cast<T>( y ) );
      m.push_back( { x, y } );
    }
    else if( op == 3 )
    {
      double x = value();
      log += "add " + pbt::str( x ) + "; ";
      d.add( static_cast<T>( x ) );
      m.push_back( { x, INF } );
    }
    else if( op == 4 )
    {
      log += "removeDiagonal; ";
      d.removeDiagonal();
      m.erase( std::remove_if( m.begin(), m.end(), [] ( const P& p ) { return p.first == p.second; } ), m.end() );
      ++kinds;
    }
    else if( op == 5 && c.boolean() )
    {
      log += "removeUnpaired; ";
      d.removeUnpaired();
      m.erase( std::remove_if( m.begin(), m.end(), [] ( const P& p ) { return std::isinf( p.second ); } ), m.end() );
      ++kinds;
    }
    else if( op == 6 && c.boolean() )
    {
      log += "removeDuplicates; ";
      d.removeDuplicates();
      std::set<P> unique( m.begin(), m.end() );
      m = back( d );
      c.check( std::set<P>( m.begin(), m.end() ) == unique && m.size() == unique.size(), log + "duplicates" );
      ++kinds;
    }
    else if( op == 7 )
    {
      auto o = genPoints( c, 3, 0 );
      if( c.boolean() )
        o.push_back( { value(), INF } );
      log += "merge " + show( o ) + "; ";
      auto other = make<T>( o, 3 );
      d.merge( other );
      m.insert( m.end(), o.begin(), o.end() );
      c.check( back( other ) == o, "merged diagram changed" );
      ++kinds;
    }
    else if( op == 8 )
    {
      auto o = genPoints( c, 3, 0 );
      auto i = static_cast<long>( c.draw( m.size() + 1 ) );
      log += "insert " + show( o ) + " at " + pbt::str( i ) + "; ";
      std::vector<Point> range;
      for( auto&& p : o )
        range.push_back( Point( static_cast<T>( p.first ), static_cast<T>( p.second ) ) );
      d.insert( d.begin() + i, range.begin(), range.end() );
      m.insert( m.begin() + i, o.begin(), o.end() );
    }
    else if( op == 9 && !m.empty() )
    {
      auto i = static_cast<long>( c.draw( m.size() ) );
      auto k = static_cast<long>( c.draw( m.size() - static_cast<std::size_t>( i ) + 1 ) );
      log += "erase " + pbt::str( i ) + " " + pbt::str( k ) + "; ";
      if( k == 1 && c.boolean() )
      {
        auto it = d.erase( d.begin() + i );
        c.check( it - d.begin() == i, "erase position" );
      }
      else
        d.erase( d.begin() + i, d.begin() + i + k );
      m.erase( m.begin() + i, m.begin() + i + k );
    }
    else if( op == 10 )
    {
      dim = c.size( 0, 4 );
      log += "setDimension " + pbt::str( dim ) + "; ";
      d.setDimension( dim );
    }
    else if( op == 11 )
    {
      log += "copy; ";
      D copy( d );
      c.check( copy == d && !( copy != d ) && copy.dimension() == dim, "copy" );
      copy.add( T(9), T(10) );
      c.check( copy != d && !( copy == d ), "changed copy compares equal" );
      D other;
      other = d;
      d     = std::move( other );
    }
    c.input( log );
    c.equal( back( d ), m, log + "points" );
    c.equal( d.size(), m.size(), log + "size" );
    c.equal( d.empty(), m.empty(), log + "empty" );
    c.equal( d.dimension(), dim, log + "dimension" );
    std::size_t betti = 0;
    for( auto&& p : m )
      betti += std::isinf( p.second );
    c.equal( d.betti(), betti, log + "Betti number" );
  }
  // points
  for( auto&& p : d )
  {
    if( !p.isUnpaired() )
      c.check( p.persistence() == p.y() - p.x(), "persistence" );
    for( auto&& q : d )
    {
      P a( p.x(), p.y() ), b( q.x(), q.y() );
      c.check( ( p == q ) == ( a == b ) && ( p != q ) == ( a != b ) && ( p < q ) == ( a < b ), "comparison of points" );
    }
  }
  // printed form
  std::ostringstream o, e;
  o << d;
  for( auto&& p : d )
    e << p.x() << "\t" << p.y() << "\n";
  c.equal( o.str(), e.str(), "printed diagram" );
  // extraction, from integers that permit exact calculations
  Points f;
  for( auto&& p : m )
    if( !std::isinf( p.second ) )
      f.push_back( { std::round( p.first ), std::round( p.second ) } );
  auto F = make<T>( f );
  std::vector<double> s, a, w, es, ea, ew;
  aleph::persistence( F, std::back_inserter( s ) );
  aleph::persistence( F, std::back_inserter( a ), true );
  aleph::weightedPersistence( F, std::back_inserter( w ) );
  std::map<P,double> count;
  for( auto&& p : f )
  {
    es.push_back( p.second - p.first );
    ea.push_back( std::fabs( p.second - p.first ) );
    count[p] += 1;
  }
  for( auto&& p : count )
    ew.push_back( p.second / static_cast<double>( f.size() ) * ( p.first.second - p.first.first ) );
  c.equal( s, es, "persistence values" );
  c.equal( a, ea, "absolute persistence values" );
  std::sort( w.begin(), w.end() );
  std::sort( ew.begin(), ew.end() );
  c.equal( w.size(), ew.size(), "number of weighted persistence values" );
  for( std::size_t i = 0; i < w.size(); i++ )
    c.close( w[i], ew[i], 1e-5, "weighted persistence" );
  c.nontrivial( kinds >= 2 && m.size() >= 2 );
}

LAW( container, 120000, 1600000, "histories of <=20 additions, removals, merges, insertions, erasures and copies against a list of points, all queries after each step; non-trivial: >=2 bulk operations and >=2 points left" ) { containerLaw<double>( c ); }
LAW( container_int, 60000, 600000, "as container with integer values (unpaired points use the maximum value)" ) { containerLaw<int>( c ); }
LAW( container_float, 40000, 400000, "as container with single precision" ) { containerLaw<float>( c ); }

LAW( norms, 120000, 1600000, "total persistence, p-norms and infinity norm of diagrams with points on both sides of the diagonal, several exponents, weighted or not; non-trivial: >=2 points" )
{
  auto p = genPoints( c, 10, -1, true, 0, 500 );
  auto k = c.pick( std::vector<double>{ 1, 2, 3, 0.5, 2.5 } );
  bool weighted = c.boolean();
  c.input( show( p ) + " exponent " + pbt::str( k ) + ( weighted ? " weighted" : "" ) );
  auto D = make<double>( p );
  double e = 0, top = 0;
  for( auto&& x : p )
  {
    double v = std::fabs( x.second - x.first );
    e  += std::pow( v, k ) * ( weighted ? std::fabs( x.first ) : 1 );
    top = std::max( top, v );
  }
  c.close( aleph::totalPersistence( D, k, weighted ), e, 1e-10 * ( 1 + e ), "total persistence" );
  c.close( aleph::pNorm( D, k, weighted ), std::pow( e, 1 / k ), 1e-10 * ( 1 + std::pow( e, 1 / k ) ), "p-norm" );
  if( !weighted )
  {
    c.close( aleph::totalPersistence( D, k ), e, 1e-10 * ( 1 + e ), "total persistence" );
    if( k == 2 )
    {
      c.close( aleph::totalPersistence( D ), e, 1e-10 * ( 1 + e ), "total persistence with default exponent" );
      c.close( aleph::pNorm( D ), std::sqrt( e ), 1e-10 * ( 1 + e ), "2-norm" );
    }
  }
  c.equal( aleph::infinityNorm( D ), top, "infinity norm" );
  bool thrown = false;
  try { aleph::pNorm( D, 0.0 ); } catch( std::runtime_error& ) { thrown = true; }
  c.check( thrown, "power of zero is accepted" );
  auto q = p;
  c.shuffle( q );
  c.close( aleph::totalPersistence( make<double>( q ), k, weighted ), e, 1e-10 * ( 1 + e ), "total persistence after reordering" );
  c.nontrivial( p.size() >= 2 );
}

static double plogp( double p ) { return p > 0 ? p * std::log2( p ) : 0.0; }

LAW( persistent_entropy, 120000, 1600000, "persistent entropy of diagrams above the diagonal with some zero-persistence points; non-trivial: >=2 points of positive persistence" )
{
  auto p = genPoints( c, 10, -1, false, 0, 500 );
  c.input( show( p ) );
  double total = 0;
  std::size_t positive = 0;
  for( auto&& x : p )
  {
    total    += x.second - x.first;
    positive += x.second > x.first;
  }
  c.assume( p.empty() || total > 0 );
  double e = 0;
  for( auto&& x : p )
    e -= plogp( ( x.second - x.first ) / total );
  double got = aleph::persistentEntropy( make<double>( p ) );
  c.close( got, e, 1e-9, "persistent entropy" );
  auto q = p;
  c.shuffle( q );
  for( auto&& x : q )
    x = { x.first * 2, x.second * 2 };
  c.close( aleph::persistentEntropy( make<double>( q ) ), e, 1e-9, "persistent entropy after reordering and scaling" );
  c.nontrivial( positive >= 2 );
}

LAW( area_entropy, 80000, 1000000, "nearest-neighbour area entropy of diagrams with >=2 points, duplicates allowed as long as not all areas vanish; non-trivial: >=3 points" )
{
  auto p = genPoints( c, 10, -1, true, 2, 300 );
  c.input( show( p ) );
  std::vector<double> area;
  double total = 0;
  for( std::size_t i = 0; i < p.size(); i++ )
  {
    double r = INF;
    for( std::size_t j = 0; j < p.size(); j++ )
      if( i != j )
        r = std::min( r, l2( p[i], p[j] ) );
    area.push_back( r * r );
    total += r * r;
  }
  c.assume( total > 0 );
  double e = 0;
  for( auto a : area )
    e -= plogp( a / total );
  c.close( aleph::nearestNeighbourAreaEntropy( make<double>( p ) ), e, 1e-8, "nearest-neighbour area entropy" );
  c.nontrivial( p.size() >= 3 );
}

// Cell of a value on a grid with n lines between the extremes; a negative
// value signals that rounding decides. Values at the maximum may end up in
// either of the last two cells because of rounding.
static int cell( double x, double lo, double hi, unsigned n, bool lower )
{
  if( hi == lo || n == 1 || x == lo )
    return 0;
  double t = ( x - lo ) / ( hi - lo ) * ( n - 1 );
  if( x == hi )
    return static_cast<int>( n ) - 1 - ( lower ? 1 : 0 );
  if( std::fabs( t - std::round( t ) ) < 1e-7 )
    return -1;
  return static_cast<int>( t );
}

LAW( grid_entropy, 80000, 1000000, "grid entropy of diagrams (duplicates included) for grids of 1-12 lines; cases where rounding decides the cell are discarded; non-trivial: >=3 points and >=2 occupied cells" )
{
  auto p = genPoints( c, 10, -1, true, 0, 500 );
  auto n = static_cast<unsigned>( c.extent( 1, 12, 60 ) );
  c.input( show( p ) + " n " + pbt::str( n ) );
  double got = aleph::gridEntropy( make<double>( p ), n );
  if( p.empty() )
  {
    c.equal( got, 0.0, "entropy of an empty diagram" );
    return;
  }
  double x0 = INF, x1 = -INF, y0 = INF, y1 = -INF;
  for( auto&& q : p )
  {
    x0 = std::min( x0, q.first ); x1 = std::max( x1, q.first );
    y0 = std::min( y0, q.second ); y1 = std::max( y1, q.second );
  }
  // coordinates are rotated before they are binned, so different points that
  // share the largest coordinate of an axis may be separated by rounding
  if( n > 1 )
    for( auto&& q : p )
      for( auto&& r : p )
        c.assume( q == r || !( ( q.first == x0 && r.first == x0 ) || ( q.second == y1 && r.second == y1 ) ) );
  bool ok = false;
  std::size_t occupied = 0;
  double first = 0;
  for( int variant = 0; variant < 4; variant++ )
  {
    std::map< std::pair<int,int>, double > count;
    for( auto&& q : p )
    {
      int i = cell( q.second, y0, y1, n, variant & 1 );
      int j = cell( -q.first, -x1, -x0, n, variant & 2 );
      c.assume( i >= 0 && j >= 0 );
      count[ { i, j } ] += 1;
    }
    double e = 0;
    for( auto&& x : count )
      e -= plogp( x.second / static_cast<double>( p.size() ) );
    ok = ok || std::fabs( e - got ) < 1e-9;
    occupied = std::max( occupied, count.size() );
    if( variant == 0 )
      first = e;
  }
  c.check( ok, "grid entropy: got " + pbt::str( got ) + ", expected " + pbt::str( first ) );
  c.nontrivial( p.size() >= 3 && occupied >= 2 );
}

LAW( units, 30000, 300000, "diagrams with <=10 points in units that differ by a power of two (2^-40 to 2^40): norms and total persistence scale accordingly, entropies do not change; non-trivial: >=3 points" )
{
  auto p = genPoints( c, 10, -1, false, 0, 200 );
  auto exponent = c.pick( std::vector<int>{ -40, -24, -10, 10, 24, 40 } );
  auto n = static_cast<unsigned>( c.size( 1, 12 ) );
  double s = std::ldexp( 1.0, exponent );
  auto q = p;
  for( auto&& x : q )
    x = { s * x.first, s * x.second };
  c.input( show( p ) + " units 2^" + pbt::str( exponent ) + " n " + pbt::str( n ) );
  c.label( exponent < 0 ? "smaller" : "larger" );
  auto A = make<double>( p ), B = make<double>( q );
  for( double k : { 1.0, 2.0 } )
  {
    double e = aleph::totalPersistence( A, k ), f = aleph::pNorm( A, k );
    c.close( aleph::totalPersistence( B, k ) / std::pow( s, k ), e, 1e-10 * e, "total persistence in other units" );
    c.close( aleph::pNorm( B, k ) / s, f, 1e-10 * f, "norm in other units" );
    double w = aleph::totalPersistence( A, k, true );
    c.close( aleph::totalPersistence( B, k, true ) / std::pow( s, k + 1 ), w, 1e-10 * w, "weighted total persistence in other units" );
  }
  c.equal( aleph::infinityNorm( B ), s * aleph::infinityNorm( A ), "infinity norm in other units" );
  auto same = [&] ( double x, double y, const std::string& what )
  {
    if( std::isfinite( x ) )
      c.close( y, x, 1e-8, what + " in other units" );
    else
      c.check( !std::isfinite( y ), what + " in other units" );
  };
  same( aleph::persistentEntropy( A ), aleph::persistentEntropy( B ), "persistent entropy" );
  same( aleph::gridEntropy( A, n ), aleph::gridEntropy( B, n ), "grid entropy" );
  if( p.size() >= 2 )
    same( aleph::nearestNeighbourAreaEntropy( A ), aleph::nearestNeighbourAreaEntropy( B ), "nearest-neighbour area entropy" );
  c.nontrivial( p.size() >= 3 );
}
