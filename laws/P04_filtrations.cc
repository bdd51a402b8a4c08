// Filtrations are valid; weight propagation, closures and degrees are correct.
#include "bridge.hh"

#include <aleph/persistentHomology/Calculation.hh>

#include <aleph/topology/filtrations/Data.hh>
#include <aleph/topology/filtrations/Degree.hh>
#include <aleph/topology/filtrations/LowerStar.hh>
#include <aleph/topology/filtrations/UpperStar.hh>

using namespace model;
using S = aleph::topology::Simplex<double, unsigned>;
using K = aleph::topology::SimplicialComplex<S>;
namespace filtrations = aleph::topology::filtrations;

static bool proper( const V& a, const V& b )
{
  return a.size() < b.size() && std::includes( b.begin(), b.end(), a.begin(), a.end() );
}

static std::map<V,double> asMap( const Complex& m )
{
  std::map<V,double> r;
  for( auto&& x : m )
    r[x.v] = x.w;
  return r;
}

static void facesFirst( pbt::Ctx& c, const Complex& m, const std::string& what )
{
  std::set<V> seen;
  for( auto&& x : m )
  {
    if( x.v.size() > 1 )
      for( auto&& f : facets( x.v ) )
        c.check( seen.count( f ) == 1, what + ": " + show( x.v ) + " precedes its face " + show( f ) );
    seen.insert( x.v );
  }
}

// closed complex with given weights in random order
static Complex genShuffled( pbt::Ctx& c, bool empty = true )
{
  Options o;
  o.bulk( 60, 800 ).solid( 10 );
  o.empty = empty;
  auto closed = genClosed( c, o );
  std::vector<V> order( closed.begin(), closed.end() );
  c.shuffle( order );
  Complex m;
  for( auto&& v : order )
    m.push_back( { v, 0.0 } );
  return m;
}

static std::vector<double> genValues( pbt::Ctx& c, const Complex& m )
{
  unsigned n = 0;
  for( auto&& x : m )
    n = std::max( n, x.v.back() + 1 );
  auto mode = c.draw( 4 );
  std::vector<double> w;
  for( unsigned i = 0; i < n; i++ )
    w.push_back( mode == 0 ? static_cast<double>( c.around( 2 ) )
               : mode == 1 ? static_cast<double>( c.around( 20 ) )
               : mode == 2 ? c.uniform( -1e3, 1e3 )
               : -static_cast<double>( c.size( 1, 9 ) ) );
  return w;
}

LAW( data_sort, 35000, 560000, "complexes with weights monotone along faces (either direction), stored in random order, sorted by data; non-trivial: dimension >=1 and a tie between simplices of different dimension" )
{
  auto m = genShuffled( c );
  bool ascending = c.boolean();
  auto values = genValues( c, m );
  bool extra = c.boolean(); // weights above what faces force
  std::sort( m.begin(), m.end(), [] ( const Cell& a, const Cell& b ) { return a.v.size() < b.v.size(); } );
  std::map<V,double> w;
  bool tie = false;
  for( auto&& x : m )
  {
    double e = x.v.size() == 1 ? values[ x.v[0] ] : ( ascending ? -1e300 : 1e300 );
    if( x.v.size() > 1 )
    {
      for( auto&& f : facets( x.v ) )
        e = ascending ? std::max( e, w[f] ) : std::min( e, w[f] );
      if( extra && c.chance( 1, 3 ) )
        e += ( ascending ? 1 : -1 ) * static_cast<double>( c.size( 1, 3 ) );
      else
        tie = true;
    }
    w[ x.v ] = x.w = e;
  }
  std::vector<std::size_t> perm;
  Complex p;
  {
    p = m;
    c.shuffle( p );
  }
  c.input( ( ascending ? "ascending " : "descending " ) + show( p ) );
  auto k = bridge::complex<S>( p );
  if( ascending )
    k.sort( filtrations::Data<S>() );
  else
    k.sort( filtrations::Data<S, std::greater<double> >() );
  auto r = bridge::back( k );
  c.check( asMap( r ) == asMap( p ) && r.size() == p.size(), "sorting does not yield a permutation" );
  facesFirst( c, r, "data filtration" );
  for( std::size_t i = 1; i < r.size(); i++ )
    c.check( ascending ? r[i-1].w <= r[i].w : r[i-1].w >= r[i].w, "weights are not monotone" );

  // the result does not depend on the previous order
  c.shuffle( p );
  auto l = bridge::complex<S>( p );
  if( ascending )
    l.sort( filtrations::Data<S>() );
  else
    l.sort( filtrations::Data<S, std::greater<double> >() );
  c.check( l == k, "order of equal simplices depends on previous order" );
  c.nontrivial( tie );
}

LAW( star_sort, 35000, 560000, "lower- and upper-star sorts of complexes stored in random order, functor by value and by reference; non-trivial: >=2 distinct vertex values, dimension >=1" )
{
  auto m      = genShuffled( c, false );
  auto values = genValues( c, m );
  bool lower  = c.boolean(), byReference = c.boolean();
  for( auto&& x : m )
    x.w = static_cast<double>( c.around( 5 ) ); // unrelated data must not matter
  c.input( ( lower ? "lower " : "upper " ) + pbt::str( values ) + " " + show( m ) );
  auto run = [&] ( K& k )
  {
    if( lower )
    {
      filtrations::LowerStar<S> f( values.begin(), values.end() );
      if( byReference ) k.sort( std::ref( f ) );
      else              k.sort( f );
    }
    else
    {
      filtrations::UpperStar<S> f( values.begin(), values.end() );
      if( byReference ) k.sort( std::ref( f ) );
      else              k.sort( f );
    }
  };
  auto value = [&] ( const V& v )
  {
    double r = values[ v[0] ];
    for( auto x : v )
      r = lower ? std::max( r, values[x] ) : std::min( r, values[x] );
    return r;
  };
  auto k = bridge::complex<S>( m );
  run( k );
  auto r = bridge::back( k );
  c.check( asMap( r ) == asMap( m ) && r.size() == m.size(), "sorting does not yield a permutation" );
  facesFirst( c, r, "star filtration" );
  std::set<double> distinct;
  for( std::size_t i = 0; i < r.size(); i++ )
  {
    auto s = bridge::simplex<S>( r[i].v );
    double got = lower ? filtrations::LowerStar<S>( values.begin(), values.end() ).maximumValue( s )
                       : filtrations::UpperStar<S>( values.begin(), values.end() ).minimumValue( s );
    c.equal( got, value( r[i].v ), "extreme value of " + show( r[i].v ) );
    distinct.insert( got );
    if( i )
      c.check( lower ? value( r[i-1].v ) <= value( r[i].v ) : value( r[i-1].v ) >= value( r[i].v ), "star values are not monotone" );
  }
  auto shuffled = m;
  c.shuffle( shuffled );
  auto l = bridge::complex<S>( shuffled );
  run( l );
  c.check( l == k, "order depends on previous order" );
  c.nontrivial( distinct.size() >= 2 && r.back().v.size() >= 1 && k.dimension() >= 1 );
}

LAW( propagate, 35000, 560000, "recalculateWeights on closed complexes in random order, maximum or minimum, edges skipped or not, positive and negative weights; non-trivial: dimension >=2" )
{
  auto m = genShuffled( c );
  bool maximum = c.boolean(), skip = c.boolean();
  bool negative = c.boolean();
  for( auto&& x : m )
    x.w = negative ? -static_cast<double>( c.size( 1, 9 ) ) : static_cast<double>( c.around( 6 ) );
  auto start = asMap( m );
  c.input( pbt::str( maximum ) + pbt::str( skip ) + show( m ) );
  auto k = bridge::complex<S>( m );
  bool defaults = maximum && !skip && c.boolean();
  if( defaults ) k.recalculateWeights();
  else           k.recalculateWeights( maximum, skip );
  auto r = bridge::back( k );
  c.equal( r.size(), m.size(), "size" );
  std::size_t top = 0;
  for( std::size_t i = 0; i < r.size(); i++ )
  {
    c.equal( r[i].v, m[i].v, "order of simplices" );
    auto v = m[i].v;
    top = std::max( top, v.size() );
    double e = start[v];
    // extreme over all faces that keep their own weight
    std::size_t base = skip ? 2 : 1;
    if( v.size() > base )
    {
      bool first = true;
      for( auto&& y : start )
        if( y.first.size() == base && proper( y.first, v ) )
        {
          e     = first ? y.second : maximum ? std::max( e, y.second ) : std::min( e, y.second );
          first = false;
        }
    }
    c.equal( r[i].w, e, "weight of " + show( v ) );
  }
  c.nontrivial( top >= 3 );

  if( top > 0 && !skip )
  {
    if( maximum ) k.sort( filtrations::Data<S>() );
    else          k.sort( filtrations::Data<S, std::greater<double> >() );
    facesFirst( c, bridge::back( k ), "recalculated weights" );
  }
}

LAW( pipeline, 28000, 420000, "maximal simplices given with weights, closed by creating missing faces, weighted from the vertices, sorted; diagrams compared with the reference; non-trivial: a face had to be created and a finite pair with positive persistence exists" )
{
  Options o;
  o.bulk( 60, 800 ).solid( 10 );
  auto closed = genClosed( c, o );
  std::vector<V> gens;
  for( auto&& v : closed )
  {
    bool maximal = true;
    for( auto&& w : closed )
      maximal = maximal && !proper( v, w );
    if( maximal || c.chance( 1, 4 ) )
      gens.push_back( v );
  }
  c.shuffle( gens );
  std::vector<S> ss;
  Complex m;
  for( auto&& g : gens )
  {
    double w = static_cast<double>( c.around( 5 ) );
    ss.push_back( bridge::simplex<S>( g, w ) );
    m.push_back( { g, w } );
  }
  c.input( show( m ) );
  K k( ss.begin(), ss.end() );
  k.createMissingFaces();
  auto r = bridge::back( k );
  c.equal( r.size(), closed.size(), "number of simplices of the closure" );
  for( std::size_t i = 0; i < r.size(); i++ )
  {
    c.check( closed.count( r[i].v ) == 1, "spurious simplex " + show( r[i].v ) );
    if( i < m.size() )
      c.check( r[i].v == m[i].v && r[i].w == m[i].w, "existing simplex changed" );
    else
    {
      bool inherited = false;
      for( auto&& x : m )
        inherited = inherited || ( proper( r[i].v, x.v ) && r[i].w == x.w );
      c.check( inherited, "created face " + show( r[i].v ) + " has foreign data" );
    }
  }
  auto again = k;
  again.createMissingFaces();
  c.check( again == k, "creating missing faces twice changes the complex" );

  auto values = genValues( c, r );
  k.recalculateWeights( values.begin(), values.end() );
  k.sort( filtrations::Data<S>() );
  auto s = bridge::back( k );
  facesFirst( c, s, "pipeline" );
  for( auto&& x : s )
  {
    double e = values[ x.v[0] ];
    for( auto v : x.v )
      e = std::max( e, values[v] );
    c.equal( x.w, e, "weight of " + show( x.v ) );
  }
  bool finite = false;
  auto ds = diagrams( s, false );
  for( auto&& d : ds )
    for( auto&& p : d.second )
      finite = finite || ( std::isfinite( p.second ) && p.second != p.first );
  c.check( bridge::diagrams( aleph::calculatePersistenceDiagrams( k ) ) == ds, "diagrams of the lower-star filtration" );
  c.nontrivial( r.size() > m.size() && finite );
}

LAW( degree, 35000, 560000, "vertex degrees and n-degrees of closed complexes in any storage order; non-trivial: >=3 vertices and dimension >=1" )
{
  auto m = genShuffled( c, false );
  c.input( show( m ) );
  auto k = bridge::complex<S>( m );
  std::map<unsigned,unsigned> expected;
  std::size_t top = 0;
  for( auto&& x : m )
  {
    top = std::max( top, x.v.size() );
    for( auto v : x.v )
      expected[v] += x.v.size() > 1;
  }
  std::vector<unsigned> got, e;
  filtrations::degrees( k, std::back_inserter( got ) );
  for( auto&& x : expected )
    e.push_back( x.second );
  c.equal( got, e, "degrees" );
  for( auto&& x : m )
  {
    unsigned n = 0;
    for( auto&& y : m )
      n += y.v.size() == top && std::includes( y.v.begin(), y.v.end(), x.v.begin(), x.v.end() );
    c.equal( filtrations::n_degree( k, bridge::simplex<S>( x.v ) ), n, "n-degree of " + show( x.v ) );
  }
  c.nontrivial( e.size() >= 3 && top >= 2 );
}
