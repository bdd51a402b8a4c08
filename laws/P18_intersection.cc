// Intersection homology filters chains exactly by the allowability condition.
#include "bridge.hh"

#include <aleph/persistentHomology/PhiPersistence.hh>
#include <aleph/topology/BarycentricSubdivision.hh>
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>
#include <aleph/topology/filtrations/Data.hh>

#include <algorithm>
#include <functional>
#include <map>
#include <set>

using S = aleph::topology::Simplex<double, unsigned>;
using K = aleph::topology::SimplicialComplex<S>;
using model::V;

using Diagrams = std::map<std::size_t, model::Diagram>;

// Reference: chains of proper simplices whose boundary is proper
static Diagrams reference( const model::Complex& m, const std::vector<bool>& proper, std::size_t& improperBoundary )
{
  std::vector<std::size_t> order;
  for( std::size_t i = 0; i < m.size(); i++ )
    if( proper[i] )
      order.push_back( i );
  auto s = order.size();
  for( std::size_t i = 0; i < m.size(); i++ )
    if( !proper[i] )
      order.push_back( i );
  std::map<V, std::size_t> position;
  for( std::size_t i = 0; i < order.size(); i++ )
    position[ m[ order[i] ].v ] = i;
  std::vector< std::set<std::size_t> > columns( s );
  std::map<std::size_t, std::size_t> low; // row to column
  std::set<std::size_t> creators;
  Diagrams r;
  improperBoundary = 0;
  for( std::size_t j = 0; j < s; j++ )
  {
    auto&& col = columns[j];
    for( auto&& f : model::facets( m[ order[j] ].v ) )
      if( !f.empty() )
        col.insert( position.at( f ) );
    while( !col.empty() && low.count( *col.rbegin() ) )
      for( auto x : columns[ low[ *col.rbegin() ] ] )
        if( !col.insert( x ).second )
          col.erase( x );
    if( col.empty() )
      creators.insert( j );
    else
    {
      auto i = *col.rbegin();
      low[i] = j;
      if( i < s )
      {
        creators.erase( i );
        auto&& x = m[ order[i] ];
        r[ x.v.size() - 1 ].push_back( { x.w, m[ order[j] ].w } );
      }
      else
        ++improperBoundary;
    }
  }
  for( auto i : creators )
    r[ m[ order[i] ].v.size() - 1 ].push_back( { m[ order[i] ].w, std::numeric_limits<double>::infinity() } );
  for( auto&& x : r )
    std::sort( x.second.begin(), x.second.end() );
  return r;
}

// Betti numbers directly from dimensions of chain spaces
static std::map<std::size_t, long> bettiByRanks( const model::Complex& m, const std::vector<bool>& proper )
{
  std::map<V, std::size_t> index;
  for( std::size_t i = 0; i < m.size(); i++ )
    index[ m[i].v ] = i;
  std::map<std::size_t, long> r;
  auto words = m.size() / 64 + 1;
  for( std::size_t k = 0; k <= model::dimension( m ) + 1; k++ )
  {
    std::vector<model::Bits> all, improper;
    long n = 0;
    for( std::size_t i = 0; i < m.size(); i++ )
      if( proper[i] && m[i].v.size() == k + 1 )
      {
        ++n;
        model::Bits a( words, 0 ), b( words, 0 );
        for( auto&& f : model::facets( m[i].v ) )
          if( !f.empty() )
          {
            model::flip( a, index.at( f ) );
            if( !proper[ index.at( f ) ] )
              model::flip( b, index.at( f ) );
          }
        all.push_back( a );
        improper.push_back( b );
      }
    auto ra = static_cast<long>( model::rank( all ) ), ri = static_cast<long>( model::rank( improper ) );
    r[k] += n - ra;          // cycles
    if( k > 0 )
      r[k-1] -= ra - ri;     // boundaries of chains with proper boundary
  }
  return r;
}

// Largest dimension of a face of the simplex that is part of the stratum
static long meet( const V& s, const std::set<V>& X )
{
  long d = -1;
  for( auto&& f : model::subsets( s ) )
    if( !f.empty() && X.count( f ) )
      d = std::max( d, static_cast<long>( f.size() ) - 1 );
  return d;
}

struct Function
{
  std::function<long( std::size_t )> f;
  long operator()( std::size_t k ) const { return f( k ); }
};

LAW( intersection_homology, 80000, 800000, "filtered complexes of dimension 1-3 (sometimes subdivided), nested strata (possibly empty), perversities of all three kinds with values outside the permitted range, with and without dualisation: diagrams and Betti numbers; non-trivial: some but not all simplices are allowable and some allowable simplex has an improper boundary" )
{
  model::Options o;
  o.maxVertices = 7;
  o.maxCells    = 70;
  o.bulk( 30, 220, 100 );
  auto m = model::genFiltered( c, o, c.boolean() );
  auto d = m.empty() ? 0 : model::dimension( m );
  c.assume( d >= 1 && d <= 3 );

  // Strata ------------------------------------------------------------
  std::vector< std::set<V> > X( d + 1 );
  for( auto&& x : m )
    X[d].insert( x.v );
  for( std::size_t j = d; j-- > 0; )
  {
    std::vector<V> chosen;
    auto density = c.size( 0, 6 );
    for( auto&& x : X[j+1] )
      if( x.size() <= j + 1 && c.chance( density, 6 ) )
        chosen.push_back( x );
    X[j] = model::closure( chosen );
    X[j].erase( V() );
  }
  auto kind = c.size( 0, 2 );
  if( d == 1 && kind == 1 )
    kind = 0;
  if( kind == 1 )
    X[d-1] = X[d-2];

  // Perversity --------------------------------------------------------
  std::vector<int> values;
  auto n = c.size( d - 1, d + 1 );
  for( std::size_t i = 0; i < n; i++ )
    values.push_back( static_cast<int>( c.integer( kind == 1 ? 0 : -2, 4 ) ) );
  std::vector<long> p( d + 1, 0 ); // p[k]
  if( kind == 0 )
  {
    for( std::size_t k = 1; k <= d && k <= values.size(); k++ )
      p[k] = std::max( -1l, std::min( long( k ) - 1, long( values[k-1] ) ) );
  }
  else if( kind == 1 )
  {
    long previous = 0;
    for( std::size_t k = 2; k <= d && k - 2 < values.size(); k++ )
    {
      p[k] = k == 2 ? 0 : ( values[k-2] == previous ? previous : previous + 1 );
      previous = p[k];
    }
  }
  else
    for( std::size_t k = 1; k <= d; k++ )
      p[k] = values.size() >= k ? values[k-1] : 0;

  // Complex -----------------------------------------------------------
  bool subdivide = d <= 2 && m.size() <= 20 && c.chance( 1, 2 );
  auto L = bridge::complex<S>( m );
  std::vector<K> strata;
  for( auto&& x : X )
  {
    K Y;
    for( auto&& s : m )
      if( x.count( s.v ) )
        Y.push_back( bridge::simplex<S>( s.v, s.w ) );
    strata.push_back( Y );
  }
  if( subdivide )
  {
    L = aleph::topology::BarycentricSubdivision()( L );
    L.sort( aleph::topology::filtrations::Data<S>() );
    m = bridge::back( L );
    // Weights of a subdivision need not be monotonic
    std::map<V, std::size_t> at;
    for( std::size_t i = 0; i < m.size(); i++ )
      at[ m[i].v ] = i;
    for( auto&& x : m )
      for( auto&& f : model::facets( x.v ) )
        c.assume( f.empty() || at.at( f ) < at.at( x.v ) );
  }
  bool dualize = c.boolean();
  std::string in = model::show( m ) + " strata";
  for( auto&& x : X )
  {
    in += " {";
    for( auto&& v : x )
      in += model::show( v );
    in += "}";
  }
  c.input( in + " perversity " + pbt::str( values ) + " kind " + pbt::str( kind ) + ( dualize ? " dualised" : "" ) + ( subdivide ? " subdivided" : "" ) );

  std::vector<bool> proper;
  std::size_t count = 0;
  for( auto&& s : m )
  {
    bool ok = true;
    for( std::size_t k = kind == 1 ? 2 : 1; k <= d; k++ )
    {
      auto x = meet( s.v, X[ d - k ] );
      ok = ok && ( x < 0 || x <= long( s.v.size() ) - 1 - long( k ) + p[k] );
    }
    proper.push_back( ok );
    count += ok;
  }
  std::size_t improper = 0;
  auto expected = reference( m, proper, improper );
  std::vector< aleph::PersistenceDiagram<double> > D;
  if( kind == 0 )
    D = aleph::calculateIntersectionHomology( L, strata, aleph::Perversity( values.begin(), values.end() ), dualize );
  else if( kind == 1 )
    D = aleph::calculateIntersectionHomology( L, strata, aleph::PerversityGM( values.begin(), values.end() ), dualize );
  else
    D = aleph::calculateIntersectionHomology( L, strata, Function{ [&] ( std::size_t k ) { return p.at( k ); } }, dualize );
  c.equal( bridge::diagrams( D ), expected, "diagrams" );
  auto ranks = bettiByRanks( m, proper );
  for( auto&& x : ranks )
  {
    long b = 0;
    for( auto&& y : D )
      if( y.dimension() == x.first )
        b = static_cast<long>( y.betti() );
    c.equal( b, x.second, "Betti number in dimension " + pbt::str( x.first ) );
  }
  c.label( kind == 0 ? "Bendich-Harer" : kind == 1 ? "Goresky-MacPherson" : "custom" );
  if( subdivide )
    c.label( "subdivided" );
  c.nontrivial( count > 0 && count < m.size() && improper > 0 );
}

LAW( ordinary_homology, 48000, 480000, "strata or perversities that impose no condition: the result equals ordinary persistent homology; non-trivial: dimension >=2" )
{
  model::Options o;
  o.maxVertices = 8;
  auto m = model::genFiltered( c, o, c.boolean() );
  c.assume( !m.empty() );
  auto d = model::dimension( m );
  auto L = bridge::complex<S>( m );
  bool emptyStrata = c.boolean();
  c.input( model::show( m ) + ( emptyStrata ? " empty strata" : " large perversity" ) );
  std::vector<K> strata( d, emptyStrata ? K() : L );
  strata.push_back( L );
  bool dualize = c.boolean();
  auto D = emptyStrata ? aleph::calculateIntersectionHomology( L, strata, aleph::Perversity( { -1, -1, 0 } ), dualize )
                       : aleph::calculateIntersectionHomology( L, strata, Function{ [] ( std::size_t k ) { return long( k ); } }, dualize );
  c.equal( bridge::diagrams( D ), model::diagrams( m, true ), "diagrams" );
  c.equal( bridge::diagrams( D ), bridge::diagrams( aleph::calculatePersistenceDiagrams( L, !dualize, true ) ), "ordinary persistent homology" );
  c.nontrivial( d >= 2 );
}

LAW( partitions, 96000, 960000, "complexes with arbitrary predicates: the partition is a permutation with selected simplices first, both parts in filtration order; non-trivial: both parts have >=2 simplices" )
{
  auto m = model::genFiltered( c, model::Options(), c.boolean() );
  std::map<V, bool> chosen;
  std::string in;
  for( auto&& x : m )
  {
    chosen[ x.v ] = c.boolean();
    in += chosen[ x.v ] ? "+" : "-";
  }
  c.input( model::show( m ) + " " + in );
  auto L = bridge::complex<S>( m );
  auto r = aleph::partition( L, [&] ( const S& s ) { return chosen.at( bridge::vertices( s ) ); } );
  std::vector< std::pair<V, double> > expected, got;
  for( bool first : { true, false } )
  {
    for( auto&& x : m )
      if( chosen[ x.v ] == first )
        expected.push_back( { x.v, x.w } );
    if( first )
      c.equal( r.second, expected.size(), "number of selected simplices" );
  }
  for( auto&& x : bridge::back( r.first ) )
    got.push_back( { x.v, x.w } );
  c.equal( got, expected, "partition" );
  c.nontrivial( r.second >= 2 && m.size() >= r.second + 2 );
}

LAW( perversities, 96000, 960000, "perversities from arbitrary value sequences: permitted range, values at every dimension, invalid dimensions give zero; non-trivial: some value had to be adjusted" )
{
  auto n = c.size( 0, 6 );
  std::vector<int> values;
  for( std::size_t i = 0; i < n; i++ )
    values.push_back( static_cast<int>( c.integer( -4, 8 ) ) );
  c.input( pbt::str( values ) );
  aleph::Perversity p( values.begin(), values.end() );
  bool adjusted = false;
  std::vector<int> got( p.begin(), p.end() );
  c.equal( got.size(), n, "number of values" );
  for( std::size_t k = 0; k <= n + 3; k++ )
  {
    long expected = k == 0 || k > n ? 0 : std::max( -1l, std::min( long( k ) - 1, long( values[k-1] ) ) );
    adjusted = adjusted || ( k >= 1 && k <= n && expected != values[k-1] );
    c.equal( long( p( k ) ), expected, "value in dimension " + pbt::str( k ) );
    if( k >= 1 && k <= n )
      c.equal( long( got[k-1] ), expected, "iterated value in dimension " + pbt::str( k ) );
  }
  std::vector<unsigned> positive;
  for( auto&& v : values )
    positive.push_back( static_cast<unsigned>( std::abs( v ) ) );
  aleph::PerversityGM q( positive.begin(), positive.end() );
  long previous = 0;
  for( std::size_t k = 0; k <= n + 4; k++ )
  {
    long expected = 0;
    if( k >= 2 && k - 2 < n )
      previous = expected = k == 2 ? 0 : long( positive[k-2] ) == previous ? previous : previous + 1;
    c.equal( long( q( k ) ), expected, "Goresky-MacPherson value in dimension " + pbt::str( k ) );
  }
  c.nontrivial( adjusted );
}

LAW( requirements, 19200, 192000, "stratifications that violate the requirements are rejected with an exception; non-trivial: all" )
{
  model::Options o;
  o.maxVertices = 6;
  o.empty       = false;
  auto m = model::genFiltered( c, o, c.boolean() );
  c.assume( !m.empty() && model::dimension( m ) >= 2 );
  auto d = model::dimension( m );
  auto L = bridge::complex<S>( m );
  K P;
  P.push_back( bridge::simplex<S>( { m[0].v[0] } ) );
  std::vector<K> strata;
  auto which = c.size( 0, 2 );
  c.input( model::show( m ) + " case " + pbt::str( which ) );
  bool thrown = false;
  try
  {
    if( which == 0 )
    {
      // too few strata
      strata = { P, L };
      aleph::calculateIntersectionHomology( L, strata, aleph::PerversityGM( { 0 } ) );
    }
    else if( which == 1 )
    {
      // the last two strata before the complex differ
      strata.assign( d - 1, K() );
      strata.push_back( P );
      strata.push_back( L );
      aleph::calculateIntersectionHomology( L, strata, aleph::PerversityGM( { 0, 1 } ) );
    }
    else
    {
      // no stratum has the dimension of the complex
      strata.assign( d + 1, P );
      aleph::calculateIntersectionHomology( L, strata, aleph::Perversity( { 0, 1 } ) );
    }
  }
  catch( std::runtime_error& )
  {
    thrown = true;
  }
  c.check( thrown, "no exception" );
  c.nontrivial( true );
}
