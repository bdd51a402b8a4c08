// Conversions between the reference model and the library's objects.
#ifndef BRIDGE_HH
#define BRIDGE_HH

#include "model.hh"

#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>

namespace bridge
{

template <class S> S simplex( const model::V& v, typename S::DataType w = typename S::DataType() )
{
  return S( v.begin(), v.end(), w );
}

template <class S> aleph::topology::SimplicialComplex<S> complex( const model::Complex& K )
{
  std::vector<S> s;
  for( auto&& c : K )
    s.push_back( simplex<S>( c.v, static_cast<typename S::DataType>( c.w ) ) );
  return aleph::topology::SimplicialComplex<S>( s.begin(), s.end() );
}

template <class S> model::V vertices( const S& s )
{
  model::V v( s.begin(), s.end() );
  std::sort( v.begin(), v.end() );
  return v;
}

template <class S> model::Complex back( const aleph::topology::SimplicialComplex<S>& K )
{
  model::Complex r;
  for( auto&& s : K )
    r.push_back( { vertices( s ), static_cast<double>( s.data() ) } );
  return r;
}

template <class C> std::map<model::V, double> asMap( const C& K )
{
  std::map<model::V, double> r;
  for( auto&& s : K )
    r[ vertices( s ) ] = static_cast<double>( s.data() );
  return r;
}

template <class D> model::Diagram points( const D& diagram )
{
  model::Diagram r;
  for( auto&& p : diagram )
    r.push_back( { static_cast<double>( p.x() ), p.isUnpaired() ? std::numeric_limits<double>::infinity() : static_cast<double>( p.y() ) } );
  std::sort( r.begin(), r.end() );
  return r;
}

template <class Ds> std::map<std::size_t, model::Diagram> diagrams( const Ds& ds )
{
  std::map<std::size_t, model::Diagram> r;
  for( auto&& d : ds )
  {
    auto p = points( d );
    auto& target = r[ d.dimension() ];
    target.insert( target.end(), p.begin(), p.end() );
    std::sort( target.begin(), target.end() );
  }
  return r;
}

} // namespace bridge

#endif
