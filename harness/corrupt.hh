// Corruptions of well-formed files, and arbitrary byte sequences.
#ifndef VERIF_CORRUPT_HH
#define VERIF_CORRUPT_HH

#include "pbt.hh"

#include <string>
#include <vector>

namespace corrupt
{

inline const std::vector<std::string>& nasty()
{
  static const std::vector<std::string> tokens = {
    "", "0", "-1", "1", "2", "-0", "1e308", "-1e400", "99999", "4294967296", "-2147483649", "18446744073709551616", "99999999999999999999999",
    "nan", "inf", "-inf", "0x10", "1.5", ".", "-", "+", "e", "1e", "[", "]", "[[", "]]", "\"", "\"\"", "=", "#", "%", "*", ",", ";", ":", "<", ">", "/>", "{", "}", "&", "\\",
    std::string( 1, '\0' ), "\xff", "\xc3\xa9", "\r", "\n", "\n\n", "\t", " ", "   ", "x", "null", "true" };
  return tokens;
}

inline std::vector<std::pair<std::size_t, std::size_t>> tokens( const std::string& s, bool lines )
{
  std::vector<std::pair<std::size_t, std::size_t>> r;
  std::size_t i = 0;
  while( i < s.size() )
  {
    auto separator = [&] ( char ch ) { return lines ? ch == '\n' : ( ch == '\n' || ch == ' ' || ch == '\t' || ch == ',' || ch == '"' || ch == '[' || ch == ']' || ch == '=' || ch == '<' || ch == '>' || ch == ':' ); };
    while( i < s.size() && separator( s[i] ) )
      ++i;
    auto b = i;
    while( i < s.size() && !separator( s[i] ) )
      ++i;
    if( i > b )
      r.push_back( { b, i - b } );
  }
  return r;
}

// Applies a number of corruptions; words are the vocabulary of the format
inline std::string apply( pbt::Ctx& c, std::string s, const std::vector<std::string>& words )
{
  auto n = c.size( 0, 5 );
  for( std::size_t k = 0; k < n; k++ )
  {
    auto pos = s.empty() ? 0 : static_cast<std::size_t>( c.draw( s.size() + 1 ) );
    auto word = [&] { return !words.empty() && c.boolean() ? c.pick( words ) : c.pick( nasty() ); };
    switch( c.draw( 11 ) )
    {
    case 0: // truncation
      s.resize( pos );
      break;
    case 1: // deletion of a few bytes
      s.erase( pos, static_cast<std::size_t>( c.size( 1, 8 ) ) );
      break;
    case 2: // insertion
      s.insert( pos, word() );
      break;
    case 3: // substitution of a byte
      if( pos < s.size() )
        s[pos] = static_cast<char>( c.draw( 256 ) );
      break;
    case 4: // substitution of a token
    case 5:
    {
      auto t = tokens( s, false );
      if( !t.empty() )
      {
        auto x = c.pick( t );
        s.replace( x.first, x.second, word() );
      }
      break;
    }
    case 6: // deletion of a line
    case 7: // duplication of a line
    case 8: // exchange of lines
    {
      auto t = tokens( s, true );
      if( t.size() > 1 )
      {
        auto x = c.pick( t ), y = c.pick( t );
        auto a = s.substr( x.first, x.second ), b = s.substr( y.first, y.second );
        auto kind = c.draw( 3 );
        if( kind == 0 )
          s.erase( x.first, x.second + 1 );
        else if( kind == 1 )
          s.insert( y.first, a + "\n" );
        else if( x.first != y.first )
        {
          auto& low = x.first < y.first ? x : y;
          auto& high = x.first < y.first ? y : x;
          auto l = s.substr( low.first, low.second ), h = s.substr( high.first, high.second );
          s.replace( high.first, high.second, l );
          s.replace( low.first, low.second, h );
        }
      }
      break;
    }
    case 9: // deletion of a token
    {
      auto t = tokens( s, false );
      if( !t.empty() )
      {
        auto x = c.pick( t );
        s.erase( x.first, x.second );
      }
      break;
    }
    default: // repetition of a part
    {
      auto m = static_cast<std::size_t>( c.size( 1, 20 ) );
      auto part = s.substr( std::min( pos, s.size() ), m );
      s.insert( std::min( pos, s.size() ), part );
    }
    }
  }
  return s;
}

inline std::string bytes( pbt::Ctx& c, const std::vector<std::string>& words )
{
  std::string s;
  auto n = c.size( 0, 30 );
  for( std::size_t i = 0; i < n; i++ )
  {
    switch( c.draw( 4 ) )
    {
    case 0: s += static_cast<char>( c.draw( 256 ) ); break;
    case 1: s += c.pick( nasty() ); break;
    case 2: s += words.empty() ? std::string( " " ) : c.pick( words ); break;
    default: s += c.pick( std::vector<std::string>{ " ", "\n" } );
    }
  }
  return s;
}

// A corrupted file, or arbitrary bytes
inline std::string file( pbt::Ctx& c, const std::vector<std::string>& bases, const std::vector<std::string>& words )
{
  if( c.chance( 1, 8 ) )
    return bytes( c, words );
  return apply( c, c.pick( bases ), words );
}

inline std::string show( const std::string& s )
{
  static const char* hex = "0123456789abcdef";
  std::string r;
  for( unsigned char ch : s )
  {
    if( ch == '\n' || ( ch >= 32 && ch < 127 && ch != '\\' ) )
      r += static_cast<char>( ch );
    else
      r += std::string( "\\x" ) + hex[ch >> 4] + hex[ch & 15];
  }
  return r;
}

// Keeps numbers so small that files which announce this many elements stay
// within reasonable amounts of memory and time
inline std::string shorten( const std::string& s, std::size_t digits )
{
  std::string r;
  std::size_t run = 0;
  for( auto ch : s )
  {
    run = ch >= '0' && ch <= '9' ? run + 1 : 0;
    if( run <= digits )
      r += ch;
  }
  return r;
}

} // namespace corrupt

#endif
