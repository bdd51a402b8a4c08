// Linked into the tools: files below /tmp are opened in the directory named by
// the environment instead, so that a tool leaves nothing outside of it.
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>

#include <dlfcn.h>
#include <fcntl.h>

static std::string redirected( const char* path )
{
  auto directory = std::getenv( "ALEPH_TMP" );
  if( directory && *directory && std::strncmp( path, "/tmp/", 5 ) == 0 && std::strchr( path + 5, '/' ) == nullptr )
    return std::string( directory ) + "/" + ( path + 5 );
  return path;
}

#define REDIRECT( NAME ) \
  extern "C" FILE* NAME( const char* path, const char* mode ) \
  { \
    static auto original = reinterpret_cast<FILE* (*)( const char*, const char* )>( dlsym( RTLD_NEXT, #NAME ) ); \
    return original( redirected( path ).c_str(), mode ); \
  }

#undef fopen
#undef fopen64
REDIRECT( fopen )
REDIRECT( fopen64 )

#define REDIRECT_OPEN( NAME ) \
  extern "C" int NAME( const char* path, int flags, ... ) \
  { \
    static auto original = reinterpret_cast<int (*)( const char*, int, ... )>( dlsym( RTLD_NEXT, #NAME ) ); \
    va_list arguments; \
    va_start( arguments, flags ); \
    auto mode = va_arg( arguments, int ); \
    va_end( arguments ); \
    return original( redirected( path ).c_str(), flags, mode ); \
  }

#undef open
#undef open64
REDIRECT_OPEN( open )
REDIRECT_OPEN( open64 )
