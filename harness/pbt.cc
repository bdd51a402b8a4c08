#include "pbt.hh"

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <new>
#include <random>
#include <set>
#include <unordered_set>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#ifndef PBT_NO_ALLOCATION_LIMIT
// Allocations that would exceed the memory of any reasonable machine throw
// std::bad_alloc, as they would outside of a sanitizer.
namespace { constexpr std::size_t ALLOCATION_LIMIT = std::size_t(1) << 30; }

void* operator new( std::size_t n )
{
  if( n > ALLOCATION_LIMIT )
    throw std::bad_alloc();
  void* p = std::malloc( n ? n : 1 );
  if( !p )
    throw std::bad_alloc();
  return p;
}

void* operator new[]( std::size_t n ) { return operator new( n ); }
void* operator new( std::size_t n, const std::nothrow_t& ) noexcept { return n > ALLOCATION_LIMIT ? nullptr : std::malloc( n ? n : 1 ); }
void* operator new[]( std::size_t n, const std::nothrow_t& ) noexcept { return n > ALLOCATION_LIMIT ? nullptr : std::malloc( n ? n : 1 ); }
void operator delete( void* p, const std::nothrow_t& ) noexcept { std::free( p ); }
void operator delete[]( void* p, const std::nothrow_t& ) noexcept { std::free( p ); }
void operator delete( void* p ) noexcept { std::free( p ); }
void operator delete[]( void* p ) noexcept { std::free( p ); }
void operator delete( void* p, std::size_t ) noexcept { std::free( p ); }
void operator delete[]( void* p, std::size_t ) noexcept { std::free( p ); }
#endif

// Takes precedence over the definition in the standard library, so that a case
// can be repeated. Code that obtains entropy by other means still works.
std::random_device::result_type std::random_device::_M_getval()
{
  pbt::entropy += 0x9E3779B97F4A7C15ull;
  auto z = pbt::entropy;
  z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
  z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
  return static_cast<result_type>( ( z ^ ( z >> 31 ) ) >> 16 );
}

namespace pbt
{

uint64_t entropy = 0;

std::vector<Law>& laws()
{
  static std::vector<Law> v;
  return v;
}

namespace
{

std::set<std::string> knownIds;
std::string scratchDirectory;
bool thoroughTier = false;

enum Outcome { Pass = 0, Fail = 1, Discarded = 2 };

struct Stats
{
  long evaluations = 0, discarded = 0, nontrivial = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, long> labels;
  std::map<std::string, long> knowns;
  std::map<std::string, std::string> knownSamples;
  std::vector<std::string> samples;
};

struct FailureRecord
{
  long index = -1;
  std::string msg;
  std::string input;
  std::vector<uint64_t> sequence;
  std::vector< std::vector<uint64_t> > before; // cases that have to precede it in the same process
};

uint64_t hashString( const std::string& s, uint64_t h = 1469598103934665603ull )
{
  for( unsigned char ch : s )
  {
    h ^= ch;
    h *= 1099511628211ull;
  }
  return h;
}

uint64_t mix( uint64_t z )
{
  z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
  z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
  return z ^ ( z >> 31 );
}

uint64_t caseSeed( uint64_t seed, const std::string& law, long index )
{
  return mix( mix( seed * 0x9E3779B97F4A7C15ull + 12345 ) ^ hashString( law ) ^ mix( static_cast<uint64_t>( index ) + 0x51ed27 ) );
}

std::string escape( const std::string& s )
{
  std::string r;
  for( unsigned char ch : s )
  {
    if( ch == '"' || ch == '\\' ) { r += '\\'; r += static_cast<char>( ch ); }
    else if( ch == '\n' ) r += "\\n";
    else if( ch == '\t' ) r += "\\t";
    else if( ch < 32 || ch > 126 ) { char b[8]; std::snprintf( b, sizeof b, "\\u%04x", ch ); r += b; }
    else r += static_cast<char>( ch );
  }
  return r;
}

Outcome execute( const Law& law, Ctx& c, std::string& msg )
{
  try
  {
    law.body( c );
    return Pass;
  }
  catch( Discard& )
  {
    return Discarded;
  }
  catch( Failure& f )
  {
    msg = f.msg;
    return Fail;
  }
  catch( std::exception& e )
  {
    msg = std::string( "unexpected exception: " ) + e.what();
    return Fail;
  }
  catch( ... )
  {
    msg = "unexpected exception of unknown type";
    return Fail;
  }
}

void armTimer( int seconds )
{
  struct itimerval t;
  std::memset( &t, 0, sizeof t );
  t.it_value.tv_sec = seconds;
  setitimer( ITIMER_PROF, &t, nullptr );
}

Shared* makeShared()
{
  auto p = mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
  if( p == MAP_FAILED )
  {
    std::perror( "mmap" );
    std::exit( 3 );
  }
  return static_cast<Shared*>( p );
}

std::string makeScratch( const std::string& base, const std::string& tag )
{
  auto d = base + "/" + tag;
  mkdir( d.c_str(), 0700 );
  return d;
}

void silence( const std::string& errFile )
{
  int null = open( "/dev/null", O_WRONLY );
  dup2( null, 1 );
  if( errFile.empty() )
    dup2( null, 2 );
  else
  {
    int fd = open( errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600 );
    dup2( fd >= 0 ? fd : null, 2 );
  }
}

std::string readFile( const std::string& f )
{
  std::ifstream in( f );
  std::ostringstream os;
  os << in.rdbuf();
  return os.str();
}

std::string describeDeath( int status, const std::string& err )
{
  std::string r;
  if( WIFSIGNALED( status ) )
  {
    if( WTERMSIG( status ) == SIGPROF )
      r = "does not terminate (CPU limit reached)";
    else
      r = std::string( "killed by signal " ) + strsignal( WTERMSIG( status ) );
  }
  else
    r = "process exited with status " + std::to_string( WEXITSTATUS( status ) );

  std::istringstream is( err );
  std::string line;
  while( std::getline( is, line ) )
  {
    if(    line.find( "ERROR: AddressSanitizer" ) != std::string::npos
        || line.find( "SUMMARY:" ) != std::string::npos
        || line.find( "Assertion" ) != std::string::npos
        || line.find( "runtime error" ) != std::string::npos
        || line.find( "terminate called" ) != std::string::npos
        || line.find( "what():" ) != std::string::npos )
      r += "; " + line.substr( 0, 300 );
  }
  return r;
}

struct Attempt
{
  bool failed = false;
  bool discarded = false;
  bool died = false;
  bool hang = false;
  std::string msg, input;
  std::vector<uint64_t> sequence;
};

// Runs a recorded sequence in a forked child, after some other cases. These are
// given by recorded sequences or by the seeds of their generators; the outcome
// is the one of the last case.
Attempt attempt( const Law& law, const std::vector<uint64_t>& sequence, Shared* shared, const std::string& base,
                 const std::vector< std::vector<uint64_t> >& before = {}, const std::vector<uint64_t>& seeds = {} )
{
  Attempt a;
  auto resultFile = base + "/attempt.out", errFile = base + "/attempt.err";
  std::remove( resultFile.c_str() );
  shared->length = 0;
  shared->index  = -1;
  std::cout.flush();
  pid_t pid = fork();
  if( pid == 0 )
  {
    silence( errFile );
    scratchDirectory = makeScratch( base, "attempt.d" );
    std::string msg;
    for( auto&& s : seeds )
    {
      armTimer( law.cpuSeconds );
      Ctx c( s, shared );
      execute( law, c, msg );
    }
    for( auto&& s : before )
    {
      armTimer( law.cpuSeconds );
      Ctx c( s, shared );
      execute( law, c, msg );
    }
    msg.clear();
    shared->index = 0;
    armTimer( law.cpuSeconds );
    Ctx c( sequence, shared );
    auto o = execute( law, c, msg );
    {
      std::ofstream out( resultFile );
      out << c.input() << '\0' << msg;
    }
    _exit( o );
  }

  int status = 0;
  waitpid( pid, &status, 0 );

  a.sequence.assign( shared->choices, shared->choices + shared->length );

  if( WIFEXITED( status ) && WEXITSTATUS( status ) <= 2 )
  {
    auto s = readFile( resultFile );
    auto z = s.find( '\0' );
    if( z != std::string::npos )
    {
      a.input = s.substr( 0, z );
      a.msg   = s.substr( z + 1 );
      a.failed    = WEXITSTATUS( status ) == Fail;
      a.discarded = WEXITSTATUS( status ) == Discarded;
      return a;
    }
  }

  a.failed = shared->index == 0;
  a.died   = true;
  a.input  = shared->input;
  a.hang   = WIFSIGNALED( status ) && WTERMSIG( status ) == SIGPROF;
  a.msg    = describeDeath( status, readFile( errFile ) );
  return a;
}

double now()
{
  return std::chrono::duration<double>( std::chrono::steady_clock::now().time_since_epoch() ).count();
}

void shrink( const Law& law, FailureRecord& f, Shared* shared, const std::string& base )
{
  auto start    = now();
  long attempts = 0;
  bool hang     = f.msg.find( "does not terminate" ) != std::string::npos;
  long maximum  = hang ? 6 : 4000;
  double limit  = hang ? 150 : 30;

  auto tryIt = [&] ( const std::vector<uint64_t>& s )
  {
    if( attempts >= maximum || now() - start > limit )
      return false;
    ++attempts;
    auto a = attempt( law, s, shared, base, f.before );
    // do not drift from a plain failure into a hang
    if( a.failed && ( hang || !a.hang ) )
    {
      // Cheaper: shorter, or lexicographically smaller at equal length.
      if( a.sequence.size() < f.sequence.size() || ( a.sequence.size() == f.sequence.size() && a.sequence < f.sequence ) )
      {
        f.sequence = a.sequence;
        f.msg      = a.msg;
        f.input = a.input;
        return true;
      }
    }
    return false;
  };

  bool progress = true;
  while( progress && attempts < maximum && now() - start < limit )
  {
    progress = false;

    // truncate
    for( std::size_t keep = 0; keep < f.sequence.size(); keep = keep ? keep * 2 : 1 )
    {
      auto s = f.sequence;
      s.resize( keep );
      if( tryIt( s ) ) { progress = true; break; }
    }

    // delete blocks
    for( std::size_t block : { 64, 32, 16, 8, 4, 3, 2, 1 } )
      for( std::size_t i = f.sequence.size(); i-- > 0; )
      {
        if( i + block > f.sequence.size() )
          continue;
        auto s = f.sequence;
        s.erase( s.begin() + static_cast<long>( i ), s.begin() + static_cast<long>( i + block ) );
        if( tryIt( s ) ) progress = true;
        if( attempts >= maximum ) break;
      }

    // zero blocks
    for( std::size_t block : { 16, 8, 4, 2, 1 } )
      for( std::size_t i = 0; i + block <= f.sequence.size(); i++ )
      {
        auto s = f.sequence;
        bool any = false;
        for( std::size_t k = 0; k < block; k++ )
        {
          any = any || s[i+k];
          s[i+k] = 0;
        }
        if( any && tryIt( s ) ) progress = true;
        if( attempts >= maximum ) break;
      }

    // lower single values; also lower while deleting a following block (sizes)
    for( std::size_t i = 0; i < f.sequence.size(); i++ )
    {
      uint64_t lo = 0;
      while( i < f.sequence.size() && f.sequence[i] > lo )
      {
        auto mid = lo + ( f.sequence[i] - lo ) / 2;
        auto s = f.sequence;
        s[i] = mid;
        if( tryIt( s ) ) progress = true;
        else if( mid + 1 > lo ) lo = mid + 1;
        if( attempts >= maximum ) break;
      }
      for( std::size_t block : { 1, 2, 3, 4 } )
        for( std::size_t at = i + 1; at + block <= f.sequence.size() && at < i + 40; at++ )
        {
          if( f.sequence[i] == 0 || attempts >= maximum )
            break;
          auto s = f.sequence;
          s[i] -= 1;
          s.erase( s.begin() + static_cast<long>( at ), s.begin() + static_cast<long>( at + block ) );
          if( tryIt( s ) ) { progress = true; break; }
        }
    }
  }
}

// Failures may depend on cases that ran earlier in the same process, for example
// if the code under test keeps something between calls. Looks for the shortest
// run of preceding cases that brings the failure back, drops all that are not
// required, and records their choices.
bool findHistory( const Law& law, FailureRecord& f, const std::vector<uint64_t>& seeds, Shared* shared, const std::string& base )
{
  auto start = now();
  auto fails = [&] ( const std::vector<uint64_t>& s )
  {
    return now() - start < 120 && attempt( law, f.sequence, shared, base, {}, s ).failed;
  };

  std::vector<uint64_t> history;
  bool found = false;
  for( std::size_t n = 1; !found && !seeds.empty(); n *= 4 )
  {
    history.assign( seeds.end() - static_cast<long>( std::min( n, seeds.size() ) ), seeds.end() );
    found = fails( history );
    if( n >= seeds.size() )
      break;
  }
  if( !found )
    return false;

  for( auto block = ( history.size() + 1 ) / 2; block > 0; block = block > 1 ? ( block + 1 ) / 2 : 0 )
    for( std::size_t i = history.size(); i > 0; )
    {
      auto first = i > block ? i - block : 0;
      auto s = history;
      s.erase( s.begin() + static_cast<long>( first ), s.begin() + static_cast<long>( i ) );
      if( fails( s ) )
        history = s;
      i = first;
    }

  for( auto&& s : history )
  {
    std::cout.flush();
    pid_t pid = fork();
    if( pid == 0 )
    {
      silence( "" );
      scratchDirectory = makeScratch( base, "attempt.d" );
      armTimer( law.cpuSeconds );
      Ctx c( s, shared );
      std::string msg;
      execute( law, c, msg );
      _exit( 0 );
    }
    int status = 0;
    waitpid( pid, &status, 0 );
    f.before.emplace_back( shared->choices, shared->choices + shared->length );
  }
  return true;
}

void writeStats( std::ostream& o, const Stats& s )
{
  // Line-based private format between worker and parent.
  o << "E " << s.evaluations << " " << s.discarded << " " << s.nontrivial << "\n";
  for( auto&& h : s.distinct ) o << "H " << h << "\n";
  for( auto&& p : s.labels ) o << "L " << p.second << " " << p.first << "\n";
  for( auto&& p : s.knowns ) o << "K " << p.second << " " << p.first << "\n";
  for( auto&& p : s.knownSamples ) o << "Q " << p.first << " " << escape( p.second ) << "\n";
  for( auto&& x : s.samples ) o << "S " << escape( x ) << "\n";
}

void mergeStats( std::istream& in, Stats& s )
{
  std::string line;
  while( std::getline( in, line ) )
  {
    std::istringstream is( line );
    char t; is >> t;
    if( t == 'E' ) { long a,b,d; is >> a >> b >> d; s.evaluations += a; s.discarded += b; s.nontrivial += d; }
    else if( t == 'H' ) { uint64_t h; is >> h; s.distinct.insert( h ); }
    else if( t == 'L' || t == 'K' )
    {
      long n; std::string rest; is >> n; std::getline( is, rest );
      ( t == 'L' ? s.labels : s.knowns )[ rest.substr( 1 ) ] += n;
    }
    else if( t == 'Q' ) { std::string id, rest; is >> id; std::getline( is, rest ); if( !s.knownSamples.count( id ) ) s.knownSamples[id] = rest.substr( 1 ); }
    else if( t == 'S' ) { if( s.samples.size() < 3 ) s.samples.push_back( line.substr( 2 ) ); }
  }
}

} // namespace

void Ctx::known( const std::string& id, const std::string& msg )
{
  if( knownIds.count( id ) == 0 )
    throw Failure{ "(unlisted finding " + id + ") " + msg };
  _knowns.push_back( id + "|" + msg );
}

bool Ctx::isKnown( const std::string& id ) const { return knownIds.count( id ) > 0; }

const std::string& Ctx::scratch() { return scratchDirectory; }

bool Ctx::thorough() { return thoroughTier; }

} // namespace pbt

using namespace pbt;

int main( int argc, char** argv )
{
  std::string tier = "quick", out, base, replayFile, only;
  uint64_t seed = 1;
  int workers = 8;
  double scale = 1.0;
  double wallCap = 1e9;

  for( int i = 1; i + 1 < argc; i += 2 )
  {
    std::string a = argv[i], v = argv[i+1];
    if( a == "--tier" ) tier = v;
    else if( a == "--seed" ) seed = std::strtoull( v.c_str(), nullptr, 10 );
    else if( a == "--workers" ) workers = std::atoi( v.c_str() );
    else if( a == "--out" ) out = v;
    else if( a == "--base" ) base = v;
    else if( a == "--replay" ) replayFile = v;
    else if( a == "--law" ) only = v;
    else if( a == "--scale" ) scale = std::atof( v.c_str() );
    else if( a == "--wall" ) wallCap = std::atof( v.c_str() );
    else if( a == "--known" )
    {
      std::istringstream is( v );
      std::string id;
      while( std::getline( is, id, ',' ) )
        if( !id.empty() ) knownIds.insert( id );
    }
  }

  thoroughTier = tier == "thorough";
  if( base.empty() )
  {
    std::cerr << "--base DIR required\n";
    return 3;
  }

  auto& L = laws();
  std::stable_sort( L.begin(), L.end(), [] ( const Law& a, const Law& b ) { return a.name < b.name; } );

  struct rlimit core = { 0, 0 };
  setrlimit( RLIMIT_CORE, &core );

  auto shared0 = makeShared();

  if( !replayFile.empty() )
  {
    std::ifstream in( replayFile );
    std::string line, lawName;
    std::vector<uint64_t> sequence;
    std::vector< std::vector<uint64_t> > before;
    while( std::getline( in, line ) )
    {
      if( line.compare( 0, 4, "law " ) == 0 ) lawName = line.substr( 4 );
      if( line.compare( 0, 7, "before " ) == 0 )
      {
        std::istringstream is( line.substr( 7 ) );
        before.emplace_back();
        uint64_t x;
        while( is >> x ) before.back().push_back( x );
      }
      if( line.compare( 0, 8, "choices " ) == 0 )
      {
        std::istringstream is( line.substr( 8 ) );
        uint64_t x;
        while( is >> x ) sequence.push_back( x );
      }
    }
    for( auto&& law : L )
      if( law.name == lawName )
      {
        auto a = attempt( law, sequence, shared0, base, before );
        std::cout << ( a.failed ? "FAIL " : a.discarded ? "DISCARD " : "PASS " ) << law.name << "\n" << a.msg << "\n" << a.input << "\n";
        return a.failed ? 1 : 0;
      }
    return 4;
  }

  if( !only.empty() )
    L.erase( std::remove_if( L.begin(), L.end(), [&] ( const Law& l ) { return l.name != only; } ), L.end() );

  auto startTime = now();

  auto count = [&] ( const Law& l )
  {
    double n = static_cast<double>( thoroughTier ? l.thorough : l.quick ) * scale;
    return n < 1 ? 1L : static_cast<long>( n );
  };

  // One worker process runs all laws for its residue class of case indices.
  struct Worker { pid_t pid = -1; Shared* shared = nullptr; int firstLaw = 0; int generation = 0; bool done = false; };
  std::vector<Worker> W( static_cast<std::size_t>( workers ) );

  auto statFile = [&] ( int w, int law ) { return base + "/stats." + std::to_string( w ) + "." + std::to_string( law ); };
  auto failFile = [&] ( int w, int law ) { return base + "/fail." + std::to_string( w ) + "." + std::to_string( law ); };

  auto launch = [&] ( int w )
  {
    auto& worker = W[ static_cast<std::size_t>( w ) ];
    std::cout.flush();
    pid_t pid = fork();
    if( pid == 0 )
    {
      silence( base + "/worker." + std::to_string( w ) + ".err" );
      scratchDirectory = makeScratch( base, "worker." + std::to_string( w ) + ".d" );

      for( int l = worker.firstLaw; l < static_cast<int>( L.size() ); l++ )
      {
        auto& law = L[ static_cast<std::size_t>( l ) ];
        Stats s;
        FailureRecord f;
        worker.shared->law = l;
        worker.shared->evaluations = 0;
        for( long i = w; i < count( law ); i += workers )
        {
          if( now() - startTime > wallCap )
          {
            s.labels["(truncated by wall-clock cap)"] += 1;
            break;
          }
          worker.shared->index = i;
          worker.shared->wallStart = static_cast<long>( now() );
          armTimer( law.cpuSeconds );
          Ctx c( caseSeed( seed, law.name, i ), worker.shared );
          std::string msg;
          auto o = execute( law, c, msg );
          if( o == Discarded )
          {
            ++s.discarded;
            continue;
          }
          ++s.evaluations;
          worker.shared->evaluations = s.evaluations;
          for( auto&& x : c.labels() ) ++s.labels[x];
          for( auto&& x : c.knowns() )
          {
            auto id = x.substr( 0, x.find( '|' ) );
            ++s.knowns[ id ];
            if( !s.knownSamples.count( id ) ) s.knownSamples[id] = x.substr( x.find( '|' ) + 1 );
          }
          if( c.isNontrivial() )
          {
            ++s.nontrivial;
            uint64_t h = c.input().empty()
              ? hashString( std::string( reinterpret_cast<const char*>( worker.shared->choices ), sizeof( uint64_t ) * worker.shared->length ) )
              : hashString( c.input() );
            s.distinct.insert( h );
            if( s.samples.size() < 2 && !c.input().empty() ) s.samples.push_back( c.input().substr( 0, 600 ) );
          }
          if( o == Fail )
          {
            std::ofstream ff( failFile( w, l ) );
            ff << i << "\n" << escape( msg ) << "\n" << escape( c.input() ) << "\n";
            for( uint32_t k = 0; k < worker.shared->length; k++ ) ff << worker.shared->choices[k] << " ";
            ff << "\n";
            break;
          }
        }
        armTimer( 0 );
        std::ofstream sf( statFile( w, l ) );
        writeStats( sf, s );
      }
      _exit( 0 );
    }
    worker.pid = pid;
  };

  for( int w = 0; w < workers; w++ )
  {
    W[ static_cast<std::size_t>( w ) ].shared = makeShared();
    launch( w );
  }

  std::vector<FailureRecord> failures( L.size() );
  std::vector<Stats> stats( L.size() );
  bool infrastructure = false;
  std::string infrastructureMsg;

  int running = workers;
  while( running > 0 )
  {
    int status = 0;
    pid_t pid = waitpid( -1, &status, WNOHANG );
    if( pid == 0 )
    {
      usleep( 20000 );
      for( auto& w : W )
        if( !w.done && w.pid > 0 && w.shared->wallStart > 0 && static_cast<long>( now() ) - w.shared->wallStart > 600 )
        {
          infrastructure = true;
          infrastructureMsg = "case blocked for more than 600 s of wall time without using its CPU limit";
          kill( w.pid, SIGKILL );
        }
      continue;
    }
    if( pid < 0 )
      break;

    for( int w = 0; w < workers; w++ )
    {
      auto& worker = W[ static_cast<std::size_t>( w ) ];
      if( worker.pid != pid )
        continue;

      if( WIFEXITED( status ) && WEXITSTATUS( status ) == 0 )
      {
        worker.done = true;
        --running;
      }
      else
      {
        int l = worker.shared->law;
        if( WIFSIGNALED( status ) && WTERMSIG( status ) == SIGKILL )
        {
          infrastructure = true;
          if( infrastructureMsg.empty() )
            infrastructureMsg = "worker killed (out of memory?)";
        }
        FailureRecord f;
        f.index = worker.shared->index;
        f.input = worker.shared->input;
        f.msg   = describeDeath( status, readFile( base + "/worker." + std::to_string( w ) + ".err" ) );
        f.sequence.assign( worker.shared->choices, worker.shared->choices + worker.shared->length );
        auto& best = failures[ static_cast<std::size_t>( l ) ];
        if( best.index < 0 || f.index < best.index )
          best = f;
        stats[ static_cast<std::size_t>( l ) ].evaluations += worker.shared->evaluations + 1;

        worker.firstLaw = l + 1;
        if( worker.firstLaw < static_cast<int>( L.size() ) )
          launch( w );
        else
        {
          worker.done = true;
          --running;
        }
      }
    }
  }

  for( std::size_t l = 0; l < L.size(); l++ )
    for( int w = 0; w < workers; w++ )
    {
      std::ifstream sf( statFile( w, static_cast<int>( l ) ) );
      mergeStats( sf, stats[l] );
      std::ifstream ff( failFile( w, static_cast<int>( l ) ) );
      if( ff )
      {
        FailureRecord f;
        std::string line;
        std::getline( ff, line );
        f.index = std::atol( line.c_str() );
        std::getline( ff, f.msg );
        std::getline( ff, f.input );
        uint64_t x;
        while( ff >> x ) f.sequence.push_back( x );
        if( failures[l].index < 0 || f.index < failures[l].index )
          failures[l] = f;
      }
    }

  std::ostringstream js;
  js << "{\"laws\":[";
  bool violated = false, flaky = false;
  int shrunk = 0;
  auto reporting = now();
  for( std::size_t l = 0; l < L.size(); l++ )
  {
    auto& s = stats[l];
    auto& f = failures[l];
    std::string replayStatus;
    // Replaying failures that do not terminate takes long; one confirmed
    // failure suffices for a verdict.
    bool late = violated && now() - reporting > 150;
    if( f.index >= 0 && late )
      replayStatus = "not replayed";
    else if( f.index >= 0 )
    {
      int confirmed = 0;
      Attempt a;
      auto confirm = [&] ()
      {
        confirmed = 0;
        for( int k = 0; k < 3; k++ )
        {
          a = attempt( L[l], f.sequence, shared0, base, f.before );
          confirmed += a.failed;
        }
      };
      confirm();
      if( confirmed == 0 )
      {
        std::vector<uint64_t> seeds;
        for( long i = f.index % workers; i < f.index; i += workers )
          seeds.push_back( caseSeed( seed, L[l].name, i ) );
        if( findHistory( L[l], f, seeds, shared0, base ) )
          confirm();
      }
      if( confirmed == 3 )
      {
        f.msg = a.msg;
        if( !a.input.empty() )
          f.input = a.input;
        auto original = f;
        if( ++shrunk <= 4 )
          shrink( L[l], f, shared0, base );
        confirm();
        if( confirmed < 3 )
          f = original;
        else
        {
          f.msg = a.msg;
          if( !a.input.empty() )
            f.input = a.input;
        }
        violated = true;
        replayStatus = "confirmed";
      }
      else
      {
        flaky = true;
        replayStatus = "not reproduced (" + std::to_string( confirmed ) + " of 3)";
      }
    }
    if( l ) js << ",";
    js << "\n{\"law\":\"" << L[l].name << "\",\"rule\":\"" << escape( L[l].rule ) << "\",\"evaluations\":" << s.evaluations
       << ",\"discarded\":" << s.discarded << ",\"nontrivial\":" << s.nontrivial << ",\"distinct_nontrivial\":" << s.distinct.size()
       << ",\"labels\":{";
    bool first = true;
    for( auto&& p : s.labels ) { js << ( first ? "" : "," ) << "\"" << escape( p.first ) << "\":" << p.second; first = false; }
    js << "},\"known\":{";
    first = true;
    for( auto&& p : s.knowns ) { js << ( first ? "" : "," ) << "\"" << escape( p.first ) << "\":{\"count\":" << p.second << ",\"sample\":\"" << s.knownSamples[p.first] << "\"}"; first = false; }
    js << "},\"samples\":[";
    first = true;
    for( auto&& x : s.samples ) { js << ( first ? "" : "," ) << "\"" << x << "\""; first = false; }
    js << "]";
    if( f.index >= 0 )
    {
      js << ",\"failure\":{\"status\":\"" << replayStatus << "\",\"index\":" << f.index << ",\"message\":\"" << escape( f.msg ) << "\",\"input\":\"" << escape( f.input ) << "\",\"choices\":[";
      for( std::size_t k = 0; k < f.sequence.size(); k++ ) js << ( k ? "," : "" ) << f.sequence[k];
      js << "],\"before\":[";
      for( std::size_t k = 0; k < f.before.size(); k++ )
      {
        js << ( k ? ",[" : "[" );
        for( std::size_t m = 0; m < f.before[k].size(); m++ ) js << ( m ? "," : "" ) << f.before[k][m];
        js << "]";
      }
      js << "]}";
    }
    js << "}";
  }
  js << "],\"infrastructure\":\"" << escape( infrastructure ? infrastructureMsg : std::string() ) << "\",\"wall_s\":" << ( now() - startTime ) << "}\n";

  if( !out.empty() )
  {
    std::ofstream o( out );
    o << js.str();
  }
  else
    std::cout << js.str();

  if( violated ) return 1;
  if( infrastructure || flaky ) return 2;
  return 0;
}
