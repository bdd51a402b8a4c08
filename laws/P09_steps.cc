// Step functions form a pointwise algebra; indicator functions count intervals.
#include "diagrams.hh"

#include <aleph/math/StepFunction.hh>
#include <aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh>

#include <map>

// Reference: disjoint open intervals with values; zero elsewhere.
struct Piece { double a, b, y; };
using Pieces = std::vector<Piece>;

static std::string show( const Pieces& f )
{
  std::ostringstream o;
  o << "{";
  for( auto&& p : f )
    o << " [" << p.a << "," << p.b << "]:" << p.y;
  o << " }";
  return o.str();
}

static Pieces gen( pbt::Ctx& c, bool negative, unsigned range = 4 )
{
  Pieces f;
  double x = static_cast<double>( c.around( 8 ) ) / 2;
  auto n = c.extent( 0, 6, 60 );
  for( std::size_t i = 0; i < n; i++ )
  {
    if( !c.chance( 1, 2 ) ) // otherwise touching
      x += static_cast<double>( c.size( 1, 4 ) ) / 2;
    double b = x + static_cast<double>( c.size( 1, 4 ) ) / 2;
    double y = negative ? static_cast<double>( c.around( range ) ) : static_cast<double>( c.size( 0, range ) );
    f.push_back( { x, b, y } );
    x = b;
  }
  return f;
}

static double at( const Pieces& f, double x ) // not defined at end points
{
  for( auto&& p : f )
    if( p.a < x && x < p.b )
      return p.y;
  return 0;
}

static double integral( const Pieces& f )
{
  double s = 0;
  for( auto&& p : f )
    s += p.y * ( p.b - p.a );
  return s;
}

template <class T> aleph::math::StepFunction<T> make( const Pieces& f )
{
  aleph::math::StepFunction<T> r;
  for( auto&& p : f )
    r.add( static_cast<T>( p.a ), static_cast<T>( p.b ), static_cast<T>( p.y ) );
  return r;
}

// positions strictly between all breakpoints, and beyond them
static std::vector<double> probes( const std::set<double>& breaks )
{
  std::vector<double> r;
  if( breaks.empty() )
    return { 0.0 };
  r.push_back( *breaks.begin() - 1 );
  double last = *breaks.begin();
  for( auto x : breaks )
  {
    if( x != last )
    {
      r.push_back( ( last + x ) / 2 );
      r.push_back( last + ( x - last ) / 8 );
      r.push_back( last + ( x - last ) * 7 / 8 );
    }
    last = x;
  }
  r.push_back( last + 1 );
  return r;
}

LAW( basic, 75000, 750000, "step functions of <=6 intervals (touching or with gaps, negative values): evaluation inside, outside and at end points, domain, image, supremum, integral, printing and reading back; non-trivial: >=2 intervals" )
{
  bool negative = c.boolean();
  auto m = gen( c, negative );
  c.input( show( m ) );
  std::vector<std::size_t> order;
  Pieces shuffled = m;
  c.shuffle( shuffled );
  auto f = make<double>( shuffled );
  std::set<double> breaks;
  std::vector<double> domain, image, d, i;
  double top = -1e300;
  for( auto&& p : m )
  {
    breaks.insert( p.a );
    breaks.insert( p.b );
    d.push_back( p.a );
    d.push_back( p.b );
    i.push_back( p.y );
    top = std::max( top, p.y );
  }
  for( auto x : probes( breaks ) )
    c.equal( f( x ), at( m, x ), "value at " + pbt::str( x ) );
  for( auto x : breaks )
  {
    // the value of largest magnitude of the adjacent intervals
    double best = 0;
    bool tie = false;
    for( auto&& p : m )
      if( p.a <= x && x <= p.b )
      {
        tie = tie || ( p.y == -best && p.y != 0 );
        if( std::fabs( p.y ) > std::fabs( best ) )
          best = p.y;
      }
    if( !tie )
      c.equal( f( x ), best, "value at end point " + pbt::str( x ) );
  }
  f.domain( std::back_inserter( domain ) );
  f.image( std::back_inserter( image ) );
  c.equal( domain, d, "domain" );
  c.equal( image, i, "image" );
  if( m.empty() )
    c.check( f.max() == 0 && f.sup() == 0 && f.integral() == 0, "empty function" );
  else
  {
    c.check( f.max() == top, "maximum" );
    c.equal( f.sup(), f.max(), "supremum" );
  }
  c.close( f.integral(), integral( m ), 1e-12 * 100, "integral" );
  double area = 0;
  for( auto&& p : m )
    area += std::fabs( p.y ) * ( p.b - p.a );
  c.close( f.integral_p( 1.0 ), area, 1e-10, "unsigned integral" );
  for( double power : { 2.0, 3.0, 0.5 } )
  {
    double sum = 0;
    for( auto&& p : m )
      sum += std::pow( std::fabs( p.y ) * ( p.b - p.a ), power );
    c.close( f.integral_p( power ), std::pow( sum, 1 / power ), 1e-10 * ( 1 + sum * sum ), "unsigned integral with power " + pbt::str( power ) );
  }
  if( !m.empty() )
  {
    bool rejected = false;
    auto h = f;
    try { h.add( m[0].b, m[0].a, 1.0 ); } catch( std::runtime_error& ) { rejected = true; }
    c.check( rejected, "interval with reversed end points was accepted" );
  }

  // indicator functions
  auto parts = f.indicatorFunctions();
  c.equal( parts.size(), m.size(), "number of indicator functions" );
  std::size_t k = 0;
  for( auto&& part : parts )
  {
    c.check( part.a() == m[k].a && part.b() == m[k].b && part.y() == m[k].y, "indicator function" );
    c.check( part.contains( m[k].a ) && part.contains( m[k].b ) && !part.contains( m[k].b + 0.25 ) && part( m[k].a - 1 ) == 0 && part( m[k].a ) == m[k].y, "evaluation of indicator function" );
    c.close( part.integral(), m[k].y * ( m[k].b - m[k].a ), 1e-12, "integral of indicator function" );
    c.check( ( part * 3.0 ).y() == 3 * m[k].y && ( part / 4.0 ).y() == m[k].y / 4 && part.pow( 2.0 ).y() == m[k].y * m[k].y, "arithmetic of indicator function" );
    ++k;
  }

  // round trip
  std::stringstream s;
  s << f;
  aleph::math::StepFunction<double> g;
  s >> g;
  auto again = g.indicatorFunctions();
  c.equal( again.size(), m.size(), "number of intervals read back" );
  k = 0;
  for( auto&& part : again )
  {
    c.check( part.a() == m[k].a && part.b() == m[k].b && part.y() == m[k].y, "interval read back" );
    ++k;
  }
  c.nontrivial( m.size() >= 2 );
}

LAW( scalars, 62500, 750000, "scalar sum, difference, product, quotient, negation, absolute value, powers and normalisation of step functions, evaluated pointwise; non-trivial: >=2 intervals with different values" )
{
  auto m = gen( c, c.boolean() );
  auto lambda = static_cast<double>( c.around( 5 ) ) / 2;
  c.input( show( m ) + " scalar " + pbt::str( lambda ) );
  auto f = make<double>( m );
  std::set<double> breaks, values;
  for( auto&& p : m ) { breaks.insert( p.a ); breaks.insert( p.b ); values.insert( p.y ); }
  auto plus = f + lambda, minus = f - lambda, times = f * lambda, neg = -f;
  auto left = lambda * f;
  auto absolute = f;
  absolute.abs();
  auto squared = f;
  squared.pow( 2.0 );
  bool thrown = false;
  try
  {
    auto q = f / lambda;
    for( auto x : probes( breaks ) )
      c.close( q( x ), at( m, x ) / lambda, 1e-12 * 10, "quotient" );
  }
  catch( std::runtime_error& ) { thrown = true; }
  c.equal( thrown, lambda == 0, "division by zero" );
  bool hasSum = false;
  for( auto x : probes( breaks ) )
  {
    bool inside = false;
    for( auto&& p : m )
      inside = inside || ( p.a < x && x < p.b );
    double y = at( m, x );
    c.equal( plus( x ), inside ? y + lambda : 0.0, "scalar sum at " + pbt::str( x ) );
    c.equal( minus( x ), inside ? y - lambda : 0.0, "scalar difference at " + pbt::str( x ) );
    c.equal( times( x ), y * lambda + 0.0, "scalar product at " + pbt::str( x ) );
    c.equal( left( x ), y * lambda + 0.0, "scalar product at " + pbt::str( x ) );
    c.equal( neg( x ), -y + 0.0, "negation at " + pbt::str( x ) );
    c.equal( absolute( x ), std::fabs( y ), "absolute value at " + pbt::str( x ) );
    c.equal( squared( x ), y * y, "square at " + pbt::str( x ) );
    hasSum = true;
  }
  (void) hasSum;
  // normalisation of non-negative functions
  if( values.size() >= 2 && *values.begin() >= 0 && *values.rbegin() > 0 )
  {
    double lo = static_cast<double>( c.around( 3 ) ), hi = lo + static_cast<double>( c.size( 1, 5 ) );
    auto g = aleph::math::normalize( f, lo, hi );
    auto h = aleph::math::normalize( f );
    for( auto&& p : m )
    {
      double x = ( p.a + p.b ) / 2;
      c.close( g( x ), lo + ( hi - lo ) * p.y / *values.rbegin(), 1e-11, "normalised value at " + pbt::str( x ) );
      c.close( h( x ), p.y / *values.rbegin(), 1e-11, "normalised value at " + pbt::str( x ) );
    }
  }
  c.nontrivial( m.size() >= 2 && values.size() >= 2 );
}

// Known defect: a segment between neighbouring break points of two functions
// receives the sum at its end points whenever both functions agree at the end
// points, even if one of them takes another value in between.
struct Bridge { double a, b, f, g; };
template <class T> std::vector<Bridge> bridged( const aleph::math::StepFunction<T>& f, const aleph::math::StepFunction<T>& g )
{
  std::set<T> x;
  f.domain( std::inserter( x, x.begin() ) );
  g.domain( std::inserter( x, x.begin() ) );
  std::vector<Bridge> r;
  T last = T();
  bool first = true;
  for( auto curr : x )
  {
    if( !first && curr - last > T( 0.1 ) )
    {
      T mid = ( last + curr ) / 2;
      if( f( last ) == f( curr ) && g( last ) == g( curr ) && ( f( mid ) != f( curr ) || g( mid ) != g( curr ) ) )
        r.push_back( { static_cast<double>( last ), static_cast<double>( curr ), static_cast<double>( f( curr ) ), static_cast<double>( g( curr ) ) } );
    }
    first = false;
    last  = curr;
  }
  return r;
}

template <class T> void algebraLaw( pbt::Ctx& c )
{
  auto n = c.size( 2, 5 );
  std::vector<Pieces> ms;
  std::set<double> breaks;
  std::string in;
  bool negative = c.boolean();
  unsigned range = c.chance( 1, 3 ) ? 4 : 60;
  for( std::size_t i = 0; i < n; i++ )
  {
    ms.push_back( gen( c, negative, range ) );
    for( auto&& p : ms.back() ) { breaks.insert( p.a ); breaks.insert( p.b ); }
    in += show( ms.back() ) + " ";
  }
  // left-to-right evaluation
  auto f = make<T>( ms[0] );
  auto xs = probes( breaks );
  std::vector<double> ys;
  for( auto x : xs )
    ys.push_back( at( ms[0], x ) );
  double total = integral( ms[0] ), magnitude = 0;
  for( auto&& p : ms[0] )
    magnitude += std::fabs( p.y ) * ( p.b - p.a );
  bool linear = true;
  for( std::size_t i = 1; i < n; i++ )
  {
    auto g = make<T>( ms[i] );
    auto op = c.draw( 7 );
    in += op == 0 || op == 1 ? "+= " : op == 2 ? "-= " : op == 3 ? "+ " : op == 4 ? "- " : op == 5 ? "abs+ " : "2*.. + ";
    c.input( in );
    if( op == 5 ) { f.abs(); linear = false; }
    if( op == 6 ) f *= T( 2 );
    auto bad = bridged( f, g );
    auto before = f;
    bool minus = op == 2 || op == 4;
    if( op <= 1 || op >= 5 ) f += g;
    else if( op == 2 ) f -= g;
    else if( op == 3 ) f = f + g;
    else               f = f - g;
    for( std::size_t k = 0; k < xs.size(); k++ )
    {
      if( op == 5 ) ys[k] = std::fabs( ys[k] );
      if( op == 6 ) ys[k] *= 2;
      ys[k] += ( minus ? -1 : 1 ) * at( ms[i], xs[k] );
    }
    if( op == 6 ) total *= 2;
    total += ( minus ? -1 : 1 ) * integral( ms[i] );
    for( auto&& p : ms[i] )
      magnitude += std::fabs( p.y ) * ( p.b - p.a );
    if( op == 6 ) magnitude *= 2;
    for( std::size_t k = 0; k < xs.size(); k++ )
    {
      bool skip = false;
      auto got = static_cast<double>( f( static_cast<T>( xs[k] ) ) ) + 0.0;
      for( auto&& b : bad )
        skip = skip || ( b.a < xs[k] && xs[k] < b.b && got == b.f + ( minus ? -b.g : b.g ) );
      if( skip && got != ys[k] )
        c.known( "STEP-SUM-BRIDGES", "sum at " + pbt::str( xs[k] ) + " is " + pbt::str( got ) + " instead of " + pbt::str( ys[k] ) );
      else
        c.equal( got, ys[k] + 0.0, "value at " + pbt::str( xs[k] ) + " after step " + pbt::str( i ) );
    }
    if( i == 1 ) // the end points of intervals as well
      for( auto x : breaks )
      {
        auto at = static_cast<T>( x );
        T e = minus ? before( at ) - g( at ) : before( at ) + g( at );
        if( bad.empty() )
          c.equal( f( at ) + T(), e + T(), "value at end point " + pbt::str( x ) );
      }
    if( !bad.empty() )
      break;
    if( linear )
      c.close( static_cast<double>( f.integral() ), total, ( 1 + magnitude ) * ( sizeof( T ) == sizeof( float ) ? 1e-4 : 1e-11 ), "integral after step " + pbt::str( i ) );
  }
  // Both operands may be the same object
  if( c.boolean() && bridged( f, f ).empty() )
  {
    auto before = f;
    bool minus = c.boolean();
    if( minus )
      f -= f;
    else
      f += f;
    for( auto&& x : xs )
    {
      auto y = before( static_cast<T>( x ) );
      c.equal( f( static_cast<T>( x ) ) + T(), ( minus ? T() : y + y ) + T(), std::string( minus ? "difference" : "sum" ) + " of a function and itself at " + pbt::str( x ) );
    }
  }
  std::size_t sizes = 0;
  for( auto&& m : ms )
    sizes += m.size() >= 2;
  c.nontrivial( sizes >= 2 );
}

LAW( algebra, 100000, 1500000, "chains of 2-5 step functions combined by sums, differences, absolute values and scaling, compared pointwise between all breakpoints and by integral; non-trivial: >=2 functions with >=2 intervals" ) { algebraLaw<double>( c ); }
LAW( algebra_float, 37500, 500000, "as algebra in single precision" ) { algebraLaw<float>( c ); }

LAW( indicator, 100000, 1500000, "persistence indicator functions of diagrams (ties, duplicates, diagonal points, negative coordinates, descending diagrams, unpaired points): number of active intervals between all events, total integral; non-trivial: >=3 points of which two overlap" )
{
  auto p = dgm::genPoints( c, 8, c.chance( 1, 2 ) ? 0 : -1, false, 0, 150 );
  bool inverted = c.chance( 1, 3 );
  bool infinite = !inverted && c.chance( 1, 4 );
  dgm::Points q = p;
  if( inverted )
    for( auto&& x : q )
      std::swap( x.first, x.second );
  if( infinite )
    q.push_back( { static_cast<double>( c.around( 4 ) ), std::numeric_limits<double>::infinity() } );
  c.shuffle( q );
  c.input( dgm::show( q ) );
  auto f = aleph::persistenceIndicatorFunction( dgm::make<double>( q ) );
  std::set<double> breaks;
  double total = 0;
  for( auto&& x : q )
  {
    breaks.insert( x.first );
    if( std::isfinite( x.second ) )
      breaks.insert( x.second );
    total += std::fabs( x.second - x.first );
  }
  double overlap = 0;
  for( auto x : probes( breaks ) )
  {
    double n = 0;
    for( auto&& y : q )
      n += std::min( y.first, y.second ) < x && x < std::max( y.first, y.second );
    overlap = std::max( overlap, n );
    if( breaks.size() > 1 || infinite )
      c.equal( f( x ), n, "number of active intervals at " + pbt::str( x ) );
  }
  if( !infinite )
    c.close( f.integral(), total, 1e-9 * ( 1 + total ), "integral of the indicator function" );
  c.nontrivial( q.size() >= 3 && overlap >= 2 );
}

LAW( units, 25000, 250000, "step functions and diagrams whose positions and values are given in units that differ by powers of two (2^-40 to 2^40): evaluation, integrals, maxima and indicator functions scale accordingly; non-trivial: >=2 intervals" )
{
  auto m = gen( c, false );
  auto p = dgm::genPoints( c, 6, 1, false );
  auto units = std::vector<int>{ -40, -20, 0, 20, 40 };
  auto a = c.pick( units ), b = c.pick( units );
  double s = std::ldexp( 1.0, a ), t = std::ldexp( 1.0, b );
  c.input( show( m ) + " " + dgm::show( p ) + " units 2^" + pbt::str( a ) + ", 2^" + pbt::str( b ) );
  auto n = m;
  std::set<double> breaks;
  for( auto&& x : n )
  {
    breaks.insert( x.a );
    breaks.insert( x.b );
    x = { x.a * s, x.b * s, x.y * t };
  }
  auto f = make<double>( m ), g = make<double>( n );
  for( auto x : probes( breaks ) )
    c.equal( g( x * s ), at( m, x ) * t, "value at " + pbt::str( x ) + " in other units" );
  c.close( g.integral() / s / t, integral( m ), 1e-9 * integral( m ), "integral in other units" );
  if( !m.empty() )
    c.equal( g.max(), f.max() * t, "maximum in other units" );
  auto q = p;
  breaks.clear();
  double total = 0;
  for( auto&& x : q )
  {
    breaks.insert( x.first );
    breaks.insert( x.second );
    total += x.second - x.first;
    x = { x.first * s, x.second * s };
  }
  auto h = aleph::persistenceIndicatorFunction( dgm::make<double>( p ) ), k = aleph::persistenceIndicatorFunction( dgm::make<double>( q ) );
  if( breaks.size() > 1 )
    for( auto x : probes( breaks ) )
      c.equal( k( x * s ), h( x ), "number of active intervals at " + pbt::str( x ) + " in other units" );
  c.close( k.integral() / s, total, 1e-9 * total, "integral of the indicator function in other units" );
  c.label( a < 0 ? "smaller" : a > 0 ? "larger" : "same positions" );
  c.nontrivial( m.size() >= 2 );
}
