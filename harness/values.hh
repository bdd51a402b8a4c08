// Values of any sign and magnitude, and their textual forms.
#ifndef VERIF_VALUES_HH
#define VERIF_VALUES_HH

#include "pbt.hh"

#include <cmath>
#include <iomanip>
#include <limits>
#include <sstream>
#include <string>

namespace values
{

// mode: 0 small integers, 1 quarters, 2 reals, 3 any magnitude
inline double gen( pbt::Ctx& c, int mode )
{
  double sign = c.chance( 1, 3 ) ? -1.0 : 1.0;
  switch( mode )
  {
  case 0: return sign * static_cast<double>( c.size( 0, 12 ) );
  case 1: return sign * static_cast<double>( c.size( 0, 40 ) ) / 4;
  case 2: return sign * c.uniform( 0, 10 );
  default: return sign * c.uniform( 1, 10 ) * std::pow( 10.0, static_cast<double>( c.integer( -30, 30 ) ) );
  }
}

// A number in one of the forms that stream extraction understands; the second
// value is what it stands for.
inline std::string text( pbt::Ctx& c, double x, int precision = 17 )
{
  std::ostringstream o;
  o << std::setprecision( precision );
  switch( c.size( 0, 5 ) )
  {
  case 0:
    o << std::scientific << x;
    break;
  case 1:
    if( !std::signbit( x ) && std::isfinite( x ) )
      o << "+";
    o << x;
    break;
  default:
    o << x;
  }
  return o.str();
}

// Numbers agree up to the number of significant digits
inline bool agree( double a, double b, int digits )
{
  if( a == b || ( std::isnan( a ) && std::isnan( b ) ) )
    return true;
  if( !std::isfinite( a ) || !std::isfinite( b ) )
    return false;
  return std::abs( a - b ) <= 0.51 * std::pow( 10.0, 1 - digits ) * std::max( std::abs( a ), std::abs( b ) );
}

}

#endif
