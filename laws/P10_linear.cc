// Piecewise linear functions form a pointwise algebra; envelopes follow maxima.
#include "diagrams.hh"

#include <aleph/math/PiecewiseLinearFunction.hh>
#include <aleph/persistenceDiagrams/Envelope.hh>

#include <functional>
#include <map>

using F     = aleph::math::PiecewiseLinearFunction<double>;
using Model = std::map<double, double>;

static std::string show( const Model& m )
{
  std::ostringstream o;
  o << std::setprecision( 17 ) << "{";
  for( auto&& p : m )
    o << " " << p.first << ":" << p.second;
  o << " }";
  return o.str();
}

static F make( pbt::Ctx& c, const Model& m )
{
  std::vector< std::pair<double,double> > v( m.begin(), m.end() );
  c.shuffle( v );
  return F( v.begin(), v.end() );
}

static double at( const Model& m, double x )
{
  if( m.empty() || x < m.begin()->first || x > m.rbegin()->first )
    return 0;
  auto r = m.lower_bound( x );
  if( r->first == x )
    return r->second;
  auto l = std::prev( r );
  return static_cast<double>( l->second + ( static_cast<long double>( r->second ) - l->second ) * ( x - l->first ) / ( r->first - l->first ) );
}

// Integral of |y|^p over a segment without sign change
static long double segment( long double dx, long double a, long double b, long double p )
{
  a = std::fabs( a );
  b = std::fabs( b );
  if( std::fabs( b - a ) <= 1e-7L * std::max( a, b ) )
    return dx * std::pow( ( a + b ) / 2, p );
  return dx * ( std::pow( b, p + 1 ) - std::pow( a, p + 1 ) ) / ( ( p + 1 ) * ( b - a ) );
}

// p-norm of a function that is linear between the given positions
static double norm( const std::set<double>& xs, std::function<double( double )> f, double p )
{
  long double s = 0;
  bool first = true;
  double last = 0;
  for( auto x : xs )
  {
    if( !first )
    {
      long double a = f( last ), b = f( x ), dx = static_cast<long double>( x ) - last;
      if( a * b < 0 )
      {
        long double t = a / ( a - b );
        s += segment( dx * t, a, 0, p ) + segment( dx * ( 1 - t ), 0, b, p );
      }
      else
        s += segment( dx, a, b, p );
    }
    first = false;
    last  = x;
  }
  return static_cast<double>( std::pow( s, 1 / static_cast<long double>( p ) ) );
}

// mode 0: fixed end points -4 and 4; mode 1: anywhere, zero at both ends;
// mode 2: anywhere
static Model gen( pbt::Ctx& c, unsigned mode )
{
  Model m;
  auto value = [&] { return c.chance( 1, 4 ) ? 0.0 : c.chance( 1, 2 ) ? static_cast<double>( c.around( 4 ) ) : static_cast<double>( c.around( 40 ) ) / 8; };
  auto n = c.extent( 0, 6, 60 );
  if( mode == 0 )
  {
    m[-4] = value();
    m[4]  = value();
    for( std::size_t i = 0; i < n; i++ )
      m[ static_cast<double>( c.integer( -15, 15 ) ) / 4 ] = value();
    return m;
  }
  for( std::size_t i = 0; i < n; i++ )
    m[ static_cast<double>( c.around( n > 6 ? 200 : 24 ) ) / 4 ] = value();
  if( mode == 1 && !m.empty() )
  {
    m.begin()->second  = 0;
    m.rbegin()->second = 0;
  }
  return m;
}

static std::vector<double> probes( const std::set<double>& breaks )
{
  std::vector<double> r;
  if( breaks.empty() )
    return { -1.0, 0.0, 2.0 };
  double last = *breaks.begin();
  r.push_back( last - 1 );
  r.push_back( last );
  for( auto x : breaks )
    if( x != last )
    {
      for( double t : { 0.125, 0.3, 0.5, 0.8 } )
        r.push_back( last + ( x - last ) * t );
      r.push_back( x );
      last = x;
    }
  r.push_back( last + 1 );
  return r;
}

LAW( basic, 120000, 1600000, "functions with <=8 samples: evaluation at, between and beyond samples, domain and image contain the samples, maximum, p-norms for p in 1..4 (also fractional), equality under refinement, printing; non-trivial: >=3 samples" )
{
  auto m = gen( c, 2 );
  c.input( show( m ) );
  auto f = make( c, m );
  std::set<double> breaks, domain;
  for( auto&& p : m )
    breaks.insert( p.first );
  for( auto x : probes( breaks ) )
    c.close( f( x ), at( m, x ), 1e-12, "value at " + pbt::str( x ) );
  for( auto&& p : m )
    c.equal( f( p.first ), p.second, "value at sample " + pbt::str( p.first ) );
  std::vector<double> X, Y;
  f.domain( std::back_inserter( X ) );
  f.image( std::back_inserter( Y ) );
  c.equal( X.size(), Y.size(), "numbers of positions and values" );
  c.check( std::is_sorted( X.begin(), X.end() ), "positions are sorted" );
  domain.insert( X.begin(), X.end() );
  c.check( std::includes( domain.begin(), domain.end(), breaks.begin(), breaks.end() ), "positions contain the samples" );
  c.check( m.empty() == X.empty() && ( m.empty() || ( X.front() == m.begin()->first && X.back() == m.rbegin()->first ) ), "extent of the domain" );
  for( std::size_t i = 0; i < X.size(); i++ )
    c.close( Y[i], at( m, X[i] ), 1e-12, "sampled value at " + pbt::str( X[i] ) );
  double top = m.empty() ? 0 : -1e300;
  for( auto&& p : m )
    top = std::max( top, p.second );
  // interpolated zeroes do not change the maximum
  c.equal( f.max(), top, "maximum" );
  c.equal( f.sup(), top, "supremum" );
  for( double p : { 1.0, 2.0, 3.0, 1.5, 4.0 } )
  {
    auto expected = norm( breaks, [&] ( double x ) { return at( m, x ); }, p );
    c.close( f.integral( p ), expected, 1e-9 * ( 1 + expected ), "norm for p = " + pbt::str( p ) );
  }
  c.close( f.integral(), f.integral( 1.0 ), 1e-12, "default norm" );

  // refinement does not change the function; changing a sample does
  auto r = m;
  if( m.size() >= 2 )
  {
    std::vector<double> xs( breaks.begin(), breaks.end() );
    auto i = c.size( 0, xs.size() - 2 );
    double x = ( xs[i] + xs[i+1] ) / 2;
    r[x] = ( m[xs[i]] + m[xs[i+1]] ) / 2;
    c.check( f == make( c, m ) && !( f != make( c, m ) ), "equality of identical functions" );
    // an interpolated zero need not be representable
    if( m[xs[i]] * m[xs[i+1]] >= 0 )
      c.check( f == make( c, r ), "equality under refinement" );
    auto bent = r; // differs at a position that is no sample of the original
    bent[x] += 1;
    c.check( f != make( c, bent ) && !( make( c, bent ) == f ) && make( c, bent ) != f && !( f == make( c, bent ) ), "different samples differ" );
    auto g = m;
    g[xs[i]] += 1;
    c.check( f != make( c, g ) && !( make( c, g ) == f ), "different functions differ" );
  }
  std::ostringstream out, expected;
  out << f;
  for( std::size_t i = 0; i < X.size(); i++ )
    expected << X[i] << "\t" << Y[i] << "\n";
  c.equal( out.str(), expected.str(), "printed function" );

  // duplicates are rejected
  if( !m.empty() )
  {
    std::vector< std::pair<double,double> > v( m.begin(), m.end() );
    v.push_back( { v[ c.size( 0, v.size() - 1 ) ].first, 7 } );
    bool thrown = false;
    try { F g( v.begin(), v.end() ); } catch( std::runtime_error& ) { thrown = true; }
    c.check( thrown, "duplicate samples are rejected" );
  }
  c.nontrivial( m.size() >= 3 );
}

LAW( scalars, 120000, 1200000, "scalar sum, difference, product, quotient (all also in place), negation, absolute value, followed by evaluation and p-norms; non-trivial: >=3 samples and the result changes sign" )
{
  auto m = gen( c, 2 );
  auto lambda = static_cast<double>( c.around( 12 ) ) / 4;
  auto op = c.draw( 10 );
  c.input( show( m ) + " scalar " + pbt::str( lambda ) + " operation " + pbt::str( op ) );
  auto f = make( c, m );
  F g;
  std::function<double( double )> h;
  bool thrown = false;
  switch( op )
  {
  case 0: g = f + lambda; h = [&] ( double y ) { return y + lambda; }; break;
  case 1: g = f - lambda; h = [&] ( double y ) { return y - lambda; }; break;
  case 2: g = f; g += lambda; h = [&] ( double y ) { return y + lambda; }; break;
  case 3: g = f; g -= lambda; h = [&] ( double y ) { return y - lambda; }; break;
  case 4: g = f * lambda; h = [&] ( double y ) { return y * lambda; }; break;
  case 5: g = lambda * f; h = [&] ( double y ) { return y * lambda; }; break;
  case 6: g = f; g *= lambda; h = [&] ( double y ) { return y * lambda; }; break;
  case 7:
    try { g = f / lambda; auto k = f; k /= lambda; c.check( k == g, "in-place division" ); }
    catch( std::runtime_error& ) { thrown = true; }
    h = [&] ( double y ) { return y / lambda; };
    break;
  case 8: g = -f; h = [&] ( double y ) { return -y; }; break;
  default: g = f + lambda; g.abs(); h = [&] ( double y ) { return std::fabs( y + lambda ); };
  }
  c.equal( thrown, op == 7 && lambda == 0, "division by zero" );
  if( thrown )
    return;
  std::set<double> breaks;
  for( auto&& p : m )
    breaks.insert( p.first );
  bool positive = false, negative = false;
  auto value = [&] ( double x ) { return m.empty() || x < *breaks.begin() || x > *breaks.rbegin() ? 0.0 : h( at( m, x ) ); };
  for( auto x : probes( breaks ) )
  {
    auto y = value( x );
    c.close( g( x ), y, 1e-10, "value at " + pbt::str( x ) );
    positive = positive || y > 0;
    negative = negative || y < 0;
  }
  auto values = op == 9 ? std::function<double( double )>( [&] ( double x ) { return at( m, x ) + lambda; } ) : std::function<double( double )>( value );
  for( double p : { 1.0, 2.0, 2.5 } )
  {
    auto expected = norm( breaks, values, p );
    c.close( g.integral( p ), expected, 1e-8 * ( 1 + expected ), "norm for p = " + pbt::str( p ) );
  }
  c.nontrivial( m.size() >= 3 && positive && ( negative || op == 9 ) );
}

LAW( algebra, 160000, 2400000, "chains of 2-4 functions with a common domain, or vanishing at the ends of differing domains, under sums and differences, absolute value last; evaluated pointwise, norms and maxima compared; non-trivial: >=2 functions with >=3 samples" )
{
  auto mode = static_cast<unsigned>( c.draw( 2 ) );
  auto n = c.size( 2, 4 );
  std::vector<Model> ms;
  std::vector<int> sign;
  std::set<double> breaks;
  std::string in;
  std::size_t large = 0;
  for( std::size_t i = 0; i < n; i++ )
  {
    // related functions cancel or coincide on parts
    if( i && c.chance( 1, 4 ) )
    {
      auto m = ms[ c.size( 0, i - 1 ) ];
      for( auto&& p : m )
        if( c.chance( 1, 4 ) && p.first != m.begin()->first && p.first != m.rbegin()->first )
          p.second = -p.second;
      ms.push_back( m );
    }
    else
      ms.push_back( gen( c, mode ) );
    sign.push_back( i == 0 || c.boolean() ? 1 : -1 );
    in += ( sign.back() > 0 ? "+" : "-" ) + show( ms.back() ) + " ";
    large += ms.back().size() >= 3;
    for( auto&& p : ms.back() )
      breaks.insert( p.first );
  }
  c.input( in );
  auto f = make( c, ms[0] );
  for( std::size_t i = 1; i < n; i++ )
  {
    auto g = make( c, ms[i] );
    if( c.boolean() )
      f = sign[i] > 0 ? f + g : f - g;
    else if( sign[i] > 0 )
      f += g;
    else
      f -= g;
  }
  auto value = [&] ( double x )
  {
    double y = 0;
    for( std::size_t i = 0; i < n; i++ )
      y += sign[i] * at( ms[i], x );
    return y;
  };
  double top = breaks.empty() ? 0 : -1e300;
  for( auto x : breaks )
    top = std::max( top, value( x ) );
  for( auto x : probes( breaks ) )
    c.close( f( x ), value( x ), 1e-10, "value at " + pbt::str( x ) );
  c.close( f.max(), top, 1e-10, "maximum" );
  for( double p : { 1.0, 2.0 } )
  {
    auto expected = norm( breaks, value, p );
    c.close( f.integral( p ), expected, 1e-6 * ( 1 + expected ), "norm for p = " + pbt::str( p ) );
  }
  f.abs();
  for( auto x : probes( breaks ) )
    c.close( f( x ), std::fabs( value( x ) ), 1e-10, "absolute value at " + pbt::str( x ) );
  // Both operands may be the same object
  bool minus = c.boolean();
  if( minus )
    f -= f;
  else
    f += f;
  for( auto x : probes( breaks ) )
    c.close( f( x ), minus ? 0.0 : 2 * std::fabs( value( x ) ), 1e-10, std::string( minus ? "difference" : "sum" ) + " of a function and itself at " + pbt::str( x ) );
  c.nontrivial( large >= 2 );
}

LAW( envelope, 120000, 1600000, "envelopes of diagrams (ties, duplicates, diagonal points, unpaired points): value at every rotated coordinate, interpolation between, zero beyond; non-trivial: >=3 points on >=2 coordinates" )
{
  auto p = dgm::genPoints( c, 8, c.chance( 1, 2 ) ? 0 : -1, false, 0, 150 );
  bool infinite = c.chance( 1, 3 );
  auto q = p;
  if( infinite )
    q.push_back( { static_cast<double>( c.around( 4 ) ), std::numeric_limits<double>::infinity() } );
  c.shuffle( q );
  c.input( dgm::show( q ) );
  Model m;
  std::set<double> breaks;
  for( auto&& x : p )
  {
    auto s = x.first + x.second, d = x.second - x.first;
    breaks.insert( s );
    if( !m.count( s ) || m[s] < d )
      m[s] = d;
  }
  auto f = aleph::Envelope()( dgm::make<double>( q ) );
  for( auto&& x : m )
    c.close( f( x.first ), x.second, 1e-12, "envelope at " + pbt::str( x.first ) );
  for( auto x : probes( breaks ) )
    c.close( f( x ), at( m, x ), 1e-9, "envelope at " + pbt::str( x ) );
  c.nontrivial( p.size() >= 3 && m.size() >= 2 );
}

LAW( units, 40000, 400000, "functions and diagrams whose positions and values are given in units that differ by powers of two (2^-40 to 2^40): evaluation, norms, maxima and envelopes scale accordingly; non-trivial: >=3 samples" )
{
  auto m = gen( c, static_cast<unsigned>( c.draw( 2 ) ) );
  auto p = dgm::genPoints( c, 6, -1, false );
  auto units = std::vector<int>{ -40, -20, 0, 20, 40 };
  auto a = c.pick( units ), b = c.pick( units );
  double s = std::ldexp( 1.0, a ), t = std::ldexp( 1.0, b );
  c.input( show( m ) + " " + dgm::show( p ) + " units 2^" + pbt::str( a ) + ", 2^" + pbt::str( b ) );
  Model n;
  std::set<double> breaks;
  double top = 0;
  for( auto&& x : m )
  {
    n[ x.first * s ] = x.second * t;
    breaks.insert( x.first );
    top = std::max( top, std::fabs( x.second ) );
  }
  auto f = make( c, m ), g = make( c, n );
  for( auto x : probes( breaks ) )
    c.close( g( x * s ) / t, f( x ), 1e-9 * top, "value at " + pbt::str( x ) + " in other units" );
  if( !m.empty() )
  {
    c.equal( g.max(), f.max() * t, "maximum in other units" );
    c.equal( g.sup(), f.sup() * t, "supremum in other units" );
  }
  for( double power : { 1.0, 2.0 } )
  {
    auto e = f.integral( power );
    c.close( g.integral( power ) / ( t * std::pow( s, 1 / power ) ), e, 1e-9 * e, "norm in other units" );
  }
  // Lowering a function makes it cross zero between its samples
  auto level = static_cast<double>( c.integer( -24, 24 ) ) / 8;
  f -= level;
  g -= level * t;
  for( double power : { 1.0, 2.0 } )
  {
    auto e = f.integral( power );
    c.close( g.integral( power ) / ( t * std::pow( s, 1 / power ) ), e, 1e-9 * e, "norm of lowered function in other units" );
  }
  auto q = p;
  breaks.clear();
  for( auto&& x : q )
  {
    breaks.insert( x.first + x.second );
    x = { x.first * s, x.second * s };
  }
  auto h = aleph::Envelope()( dgm::make<double>( p ) ), k = aleph::Envelope()( dgm::make<double>( q ) );
  for( auto x : probes( breaks ) )
    c.close( k( x * s ) / s, h( x ), 1e-9 * ( 1 + std::fabs( h( x ) ) ), "envelope at " + pbt::str( x ) + " in other units" );
  c.label( a < 0 ? "smaller" : a > 0 ? "larger" : "same positions" );
  c.nontrivial( m.size() >= 3 );
}
