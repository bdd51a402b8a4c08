// Runs tools of the repository as processes
#pragma once

#include "diagrams.hh"
#include "model.hh"
#include "pbt.hh"

#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <limits>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include <dirent.h>
#include <fcntl.h>
#include <spawn.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>

using Words = std::vector<std::string>;
static const double inf = std::numeric_limits<double>::infinity();

static std::string slurp( const std::string& file )
{
  std::ifstream in( file, std::ios::binary );
  std::ostringstream o;
  o << in.rdbuf();
  return o.str();
}

static bool exists( const std::string& file )
{
  return access( file.c_str(), F_OK ) == 0;
}

static void put( const std::string& file, const std::string& text )
{
  std::ofstream out( file, std::ios::binary );
  out << text;
}

// A directory for the files of one case
class Folder
{
public:
  explicit Folder( pbt::Ctx& c )
  {
    static unsigned n = 0;
    _path = c.scratch() + "/f" + std::to_string( getpid() ) + "_" + std::to_string( n++ );
    mkdir( _path.c_str(), 0700 );
    mkdir( ( _path + "/out" ).c_str(), 0700 );
  }
  ~Folder()
  {
    clear( _path + "/out" );
    clear( _path );
  }
  const std::string& path() const { return _path; }
  std::string operator()( const std::string& name ) const { return _path + "/" + name; }
  std::string out() const { return _path + "/out"; }
  std::set<std::string> outputs() const
  {
    std::set<std::string> r;
    if( auto d = opendir( out().c_str() ) )
    {
      while( auto e = readdir( d ) )
        if( e->d_name[0] != '.' )
          r.insert( e->d_name );
      closedir( d );
    }
    return r;
  }

private:
  static void clear( const std::string& path )
  {
    if( auto d = opendir( path.c_str() ) )
    {
      while( auto e = readdir( d ) )
        if( std::string( e->d_name ) != "." && std::string( e->d_name ) != ".." )
          unlink( ( path + "/" + e->d_name ).c_str() );
      closedir( d );
    }
    rmdir( path.c_str() );
  }
  std::string _path;
};

struct Result
{
  int exit = 0;    // exit status, or -1 for a signal
  int signal = 0;
  std::string out, err;
};

static Result run( pbt::Ctx& c, const Folder& folder, const std::string& tool, const Words& arguments, const std::string& input = "/dev/null" )
{
  auto directory = std::getenv( "ALEPH_TOOLS" );
  auto program   = std::string( directory ? directory : "." ) + "/tool_" + tool;
  auto out = folder( "stdout" ), err = folder( "stderr" );
  std::vector<char*> argv;
  argv.push_back( const_cast<char*>( program.c_str() ) );
  for( auto&& a : arguments )
    argv.push_back( const_cast<char*>( a.c_str() ) );
  argv.push_back( nullptr );

  // posix_spawn() avoids duplicating the address space of the sanitised process
  posix_spawn_file_actions_t actions;
  posix_spawn_file_actions_init( &actions );
  posix_spawn_file_actions_addopen( &actions, 0, input.c_str(), O_RDONLY, 0 );
  posix_spawn_file_actions_addopen( &actions, 1, out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600 );
  posix_spawn_file_actions_addopen( &actions, 2, err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600 );
  pid_t pid = 0;
  // Files that a tool writes to /tmp end up in the folder of the case (redirect.cc)
  auto redirection = "ALEPH_TMP=" + folder.out();
  std::vector<char*> variables;
  for( auto e = environ; *e; e++ )
    if( std::strncmp( *e, "ALEPH_TMP=", 10 ) != 0 )
      variables.push_back( *e );
  variables.push_back( const_cast<char*>( redirection.c_str() ) );
  variables.push_back( nullptr );
  auto error = posix_spawn( &pid, program.c_str(), &actions, nullptr, argv.data(), variables.data() );
  posix_spawn_file_actions_destroy( &actions );
  if( error )
    throw std::runtime_error( "unable to run " + program );
  rlimit l;
  l.rlim_cur = 10;
  l.rlim_max = 12;
  prlimit( pid, RLIMIT_CPU, &l, nullptr );
  int status = 0;
  while( waitpid( pid, &status, 0 ) < 0 )
    ;
  Result r;
  if( WIFEXITED( status ) )
    r.exit = WEXITSTATUS( status );
  else
  {
    r.exit   = -1;
    r.signal = WIFSIGNALED( status ) ? WTERMSIG( status ) : 0;
  }
  r.out = slurp( out );
  r.err = slurp( err );
  if( r.exit == 77 || r.err.find( "AddressSanitizer" ) != std::string::npos )
    c.fail( tool + " accesses memory that it must not access: " + r.err.substr( r.err.find( "==" ) == std::string::npos ? 0 : r.err.find( "==" ), 300 ) );
  return r;
}

static Result succeed( pbt::Ctx& c, const Folder& folder, const std::string& tool, const Words& arguments, const std::string& input = "/dev/null" )
{
  auto r = run( c, folder, tool, arguments, input );
  c.check( r.exit == 0, tool + " fails with exit " + std::to_string( r.exit ) + ", signal " + std::to_string( r.signal ) + ": " + r.err.substr( r.err.size() > 300 ? r.err.size() - 300 : 0 ) );
  return r;
}

// Distributes options (each a group of words) before, between and after the files
static Words mix( pbt::Ctx& c, std::vector<Words> options, const Words& files )
{
  c.shuffle( options );
  std::vector<std::size_t> position;
  bool front = c.boolean();
  for( std::size_t i = 0; i < options.size(); i++ )
    position.push_back( front ? 0 : c.draw( files.size() + 1 ) );
  std::sort( position.begin(), position.end() );
  Words r;
  std::size_t k = 0;
  for( std::size_t i = 0; i <= files.size(); i++ )
  {
    for( ; k < options.size() && position[k] == i; k++ )
      r.insert( r.end(), options[k].begin(), options[k].end() );
    if( i < files.size() )
      r.push_back( files[i] );
  }
  return r;
}

// An option with a value in one of its spellings
static Words option( pbt::Ctx& c, const std::string& s, const std::string& l, const std::string& value )
{
  switch( c.draw( 4 ) )
  {
  case 0: return { "-" + s, value };
  case 1: return { "-" + s + value };
  case 2: return { "--" + l, value };
  default: return { "--" + l + "=" + value };
  }
}

static Words flag( pbt::Ctx& c, const std::string& s, const std::string& l )
{
  if( c.boolean() )
    return { "-" + s };
  return { "--" + l };
}

static std::string join( const Words& w )
{
  std::string r;
  for( auto&& x : w )
    r += ( r.empty() ? "" : " " ) + x;
  return r;
}

// The arguments without the name of the scratch directory
static std::string shown( const Folder& f, const Words& w )
{
  auto s = join( w );
  for( auto p = s.find( f.path() ); p != std::string::npos; p = s.find( f.path() ) )
    s.replace( p, f.path().size() + 1, "" );
  return s;
}

static std::string text( double x )
{
  std::ostringstream o;
  if( std::isinf( x ) )
    o << ( x > 0 ? "inf" : "-inf" );
  else
    o << x;
  return o.str();
}

static bool agree( double a, double b )
{
  if( std::isnan( a ) || std::isnan( b ) )
    return std::isnan( a ) && std::isnan( b );
  if( std::isinf( a ) || std::isinf( b ) )
    return a == b;
  return std::fabs( a - b ) <= 2e-5 * std::fabs( b ) + 1e-7;
}

static std::vector<std::vector<double>> table( pbt::Ctx& c, const std::string& s )
{
  std::vector<std::vector<double>> r;
  std::istringstream in( s );
  std::string line;
  while( std::getline( in, line ) )
  {
    r.push_back( {} );
    std::istringstream words( line );
    std::string w;
    while( words >> w )
    {
      char* end = nullptr;
      auto x = std::strtod( w.c_str(), &end );
      c.check( *end == 0, "output contains something that is not a number: " + line );
      r.back().push_back( x );
    }
  }
  return r;
}

static dgm::Points points( pbt::Ctx& c, const std::string& s )
{
  dgm::Points r;
  for( auto&& row : table( c, s ) )
  {
    if( row.empty() )
      continue;
    c.check( row.size() >= 2, "point without two coordinates" );
    r.push_back( { row[0], row[1] } );
  }
  return r;
}

static void same( pbt::Ctx& c, dgm::Points got, dgm::Points expected, const std::string& what )
{
  std::sort( got.begin(), got.end() );
  std::sort( expected.begin(), expected.end() );
  auto text = what + ": got " + dgm::show( got ) + " expected " + dgm::show( expected );
  c.check( got.size() == expected.size(), text );
  // Rounding may change the order of points whose first coordinates are almost equal
  std::vector<char> used( got.size(), 0 );
  for( auto&& e : expected )
  {
    bool found = false;
    for( std::size_t i = 0; i < got.size() && !found; i++ )
      if( !used[i] && agree( got[i].first, e.first ) && agree( got[i].second, e.second ) )
        used[i] = found = true;
    c.check( found, text );
  }
}

static dgm::Points withoutDiagonal( dgm::Points p )
{
  p.erase( std::remove_if( p.begin(), p.end(), [] ( const dgm::P& x ) { return x.first == x.second; } ), p.end() );
  return p;
}

static dgm::Points withoutUnpaired( dgm::Points p )
{
  p.erase( std::remove_if( p.begin(), p.end(), [] ( const dgm::P& x ) { return std::isinf( x.second ); } ), p.end() );
  return p;
}

static std::string file( pbt::Ctx& c, const dgm::Points& p )
{
  std::string s;
  if( c.chance( 1, 4 ) )
    s += "# comment\n";
  auto separator = c.pick( Words{ "\t", " ", "  " } );
  for( auto&& x : p )
    s += text( x.first ) + separator + text( x.second ) + "\n";
  return s;
}

// All cells of a weighted complex in an order that is a filtration
static model::Complex ordered( const std::map<model::V, double>& cells, bool descending = false )
{
  model::Complex K;
  for( auto&& p : cells )
  {
    model::Cell cell;
    cell.v = p.first;
    cell.w = p.second;
    K.push_back( cell );
  }
  std::stable_sort( K.begin(), K.end(), [=] ( const model::Cell& a, const model::Cell& b )
  {
    if( a.w != b.w )
      return descending ? a.w > b.w : a.w < b.w;
    return a.v.size() < b.v.size();
  } );
  return K;
}
