// Choice-sequence property-based testing runner (see DESIGN.md).
#ifndef PBT_HH
#define PBT_HH

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace pbt
{

struct Discard {};

struct Failure
{
  std::string msg;
};

// Bounded buffer shared with the parent process: the choices made so far.
constexpr std::size_t MAX_CHOICES = 1u << 16;

struct Shared
{
  volatile int      law;
  volatile long     index;
  volatile uint32_t length;
  volatile long     evaluations; // of the current law, by this worker
  volatile long     wallStart;
  char              input[4096];   // printed form of the current input
  uint64_t          choices[MAX_CHOICES];
};

// Replaces the entropy of the operating system: code under test that seeds its
// generators from it becomes a function of the choices made so far.
extern uint64_t entropy;

class Ctx
{
public:
  Ctx( uint64_t seed, Shared* shared )
    : _random( true ), _state( seed ), _shared( shared ) { _shared->length = 0; _shared->input[0] = 0; entropy = 0; }

  Ctx( const std::vector<uint64_t>& sequence, Shared* shared )
    : _random( false ), _state( 0 ), _sequence( sequence ), _shared( shared ) { _shared->length = 0; _shared->input[0] = 0; entropy = 0; }

  // --- primitive choice: uniform in [0,bound); 0 is the simplest value ---
  uint64_t draw( uint64_t bound )
  {
    if( bound == 0 )
      throw std::logic_error( "draw(0)" );

    uint64_t value = 0;
    if( _random )
      value = bound == 1 ? 0 : next() % bound;
    else if( _position < _sequence.size() )
      value = _sequence[_position] < bound ? _sequence[_position] : bound - 1;

    ++_position;
    entropy = ( entropy ^ value ) * 0x9E3779B97F4A7C15ull + 0x2545F4914F6CDD1Dull;

    if( _shared->length < MAX_CHOICES )
    {
      _shared->choices[ _shared->length ] = value;
      _shared->length = _shared->length + 1;
    }
    else
      throw Discard();

    return value;
  }

  // integer in [lo,hi]; simplest is lo
  long integer( long lo, long hi )
  {
    return lo + static_cast<long>( draw( static_cast<uint64_t>( hi - lo ) + 1 ) );
  }

  // size_t in [lo,hi]
  std::size_t size( std::size_t lo, std::size_t hi )
  {
    return lo + static_cast<std::size_t>( draw( hi - lo + 1 ) );
  }

  // integer in [-m,m]; simplest is 0, then 1, -1, 2, ...
  long around( long m )
  {
    auto v = static_cast<long>( draw( static_cast<uint64_t>( 2*m + 1 ) ) );
    return v % 2 ? ( v + 1 ) / 2 : -( v / 2 );
  }

  bool boolean() { return draw( 2 ) == 1; }

  // true with probability num/den; simplest is false
  bool chance( uint64_t num, uint64_t den ) { return draw( den ) >= den - num; }

  // usually up to a moderate size, now and then up to a large one
  std::size_t extent( std::size_t lo, std::size_t hi, std::size_t big, uint64_t every = 50 )
  {
    return chance( 1, every ) ? size( hi, big ) : size( lo, hi );
  }

  // uniform real in [0,1), multiple of 2^-40
  double unit() { return std::ldexp( static_cast<double>( draw( 1ull << 40 ) ), -40 ); }

  double uniform( double lo, double hi ) { return lo + ( hi - lo ) * unit(); }

  template <class T> const T& pick( const std::vector<T>& v ) { return v.at( draw( v.size() ) ); }

  template <class T> void shuffle( std::vector<T>& v )
  {
    for( std::size_t i = v.size(); i > 1; i-- )
    {
      // 0 keeps the element in place, hence the identity is the simplest
      auto j = i - 1 - static_cast<std::size_t>( draw( i ) );
      std::swap( v[i-1], v[j] );
    }
  }

  // --- verdicts ---
  void assume( bool c ) { if( !c ) throw Discard(); }

  void fail( const std::string& msg ) { throw Failure{ msg }; }

  void check( bool c, const std::string& msg ) { if( !c ) throw Failure{ msg }; }

  template <class A, class B> void equal( const A& a, const B& b, const std::string& what )
  {
    if( !( a == b ) )
    {
      std::ostringstream os;
      os.precision( 17 );
      os << what << ": got ";
      print( os, a );
      os << ", expected ";
      print( os, b );
      throw Failure{ os.str() };
    }
  }

  void close( double a, double b, double tolerance, const std::string& what )
  {
    if( a == b )
      return;

    if( !( std::fabs( a - b ) <= tolerance ) )
    {
      std::ostringstream os;
      os.precision( 17 );
      os << what << ": got " << a << ", expected " << b << " (tolerance " << tolerance << ")";
      throw Failure{ os.str() };
    }
  }

  // A known finding, listed in known_findings.txt, was observed. Unlisted ids
  // are ordinary failures.
  void known( const std::string& id, const std::string& msg );

  bool isKnown( const std::string& id ) const;

  // --- evidence ---
  void input( const std::string& s )
  {
    _input = s;
    auto n = s.copy( _shared->input, sizeof( _shared->input ) - 1 );
    _shared->input[n] = 0;
  }
  void label( const std::string& s ) { _labels.push_back( s ); }
  void nontrivial( bool b = true )   { _nontrivial = _nontrivial || b; }

  const std::string& input() const { return _input; }
  const std::vector<std::string>& labels() const { return _labels; }
  const std::vector<std::string>& knowns() const { return _knowns; }
  bool isNontrivial() const { return _nontrivial; }

  // scratch directory of this worker (created on demand by the runner)
  static const std::string& scratch();

  static bool thorough();

private:
  uint64_t next()
  {
    uint64_t z = ( _state += 0x9E3779B97F4A7C15ull );
    z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
    z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
    return z ^ ( z >> 31 );
  }

  template <class A> static auto printImpl( std::ostream& o, const A& a, int ) -> decltype( o << a, void() ) { o << a; }
  template <class A> static auto printImpl( std::ostream& o, const A& a, long ) -> decltype( a.begin(), void() )
  {
    o << "[";
    for( auto it = a.begin(); it != a.end(); ++it )
    {
      o << " ";
      print( o, *it );
    }
    o << " ]";
  }
  template <class A> static void printImpl( std::ostream& o, const A&, ... ) { o << "<value>"; }

public:
  template <class A> static void print( std::ostream& o, const A& a ) { printImpl( o, a, 0 ); }
  template <class A, class B> static void print( std::ostream& o, const std::pair<A,B>& a )
  {
    o << "("; print( o, a.first ); o << ","; print( o, a.second ); o << ")";
  }

private:
  bool _random;
  uint64_t _state;
  std::vector<uint64_t> _sequence;
  std::size_t _position = 0;
  Shared* _shared;

  std::string _input;
  std::vector<std::string> _labels;
  std::vector<std::string> _knowns;
  bool _nontrivial = false;
};

struct Law
{
  std::string name;
  long quick;
  long thorough;
  std::string rule;
  std::function<void( Ctx& )> body;
  int cpuSeconds;
};

std::vector<Law>& laws();

struct Register
{
  Register( const std::string& name, long quick, long thorough, const std::string& rule, std::function<void( Ctx& )> body, int cpuSeconds = 20 )
  {
    laws().push_back( { name, quick, thorough, rule, body, cpuSeconds } );
  }
};

template <class T> std::string str( const T& x )
{
  std::ostringstream os;
  os.precision( 17 );
  Ctx::print( os, x );
  return os.str();
}

} // namespace pbt

#define LAW( ident, quick, thorough, rule ) \
  static void law_##ident( pbt::Ctx& c ); \
  static pbt::Register register_##ident( #ident, quick, thorough, rule, law_##ident ); \
  static void law_##ident( pbt::Ctx& c )

#define PBT_STR2( x ) #x
#define PBT_STR( x ) PBT_STR2( x )
#define CHECK( cond ) c.check( ( cond ), "line " PBT_STR( __LINE__ ) ": " #cond )

#endif
