// Persistence diagrams equal mod-2 persistent homology.
#include "bridge.hh"

#include <aleph/persistentHomology/Calculation.hh>
#include <aleph/persistentHomology/EulerCharacteristic.hh>
#include <aleph/topology/filtrations/Data.hh>

using namespace model;

using SD = aleph::topology::Simplex<double, unsigned>;
using SF = aleph::topology::Simplex<float, unsigned short>;

static void compare( pbt::Ctx& c, const std::map<std::size_t, Diagram>& got, std::map<std::size_t, Diagram> expected, const std::string& what )
{
  for( auto it = got.begin(); it != got.end(); ++it )
    c.check( !it->second.empty(), what + ": empty diagram reported for dimension " + std::to_string( it->first ) );

  for( std::size_t d = 0; d < 12; d++ )
  {
    auto g = got.count( d ) ? got.at( d ) : Diagram();
    auto e = expected.count( d ) ? expected.at( d ) : Diagram();
    c.equal( g, e, what + " in dimension " + std::to_string( d ) );
  }
}

static std::map<std::size_t, Diagram> offDiagonal( std::map<std::size_t, Diagram> m )
{
  for( auto& x : m )
    x.second.erase( std::remove_if( x.second.begin(), x.second.end(), [] ( const std::pair<double,double>& p ) { return p.first == p.second; } ), x.second.end() );
  return m;
}

template <class S> void diagramLaw( pbt::Ctx& c )
{
  Options o;
  o.bulk( 60, 1500 ).solid( 9 );
  o.maxVertices  = 9;
  o.maxDimension = 4;
  o.maxFacets    = 10;
  o.empty        = true;
  o.fine         = std::is_same<typename S::DataType, double>::value;
  auto K = genFiltered( c, o );
  c.input( show( K ) );
  labelComplex( c, K );
  auto k = bridge::complex<S>( K );
  c.equal( k.size(), K.size(), "size of complex" );

  auto all = diagrams( K, true ), noTop = diagrams( K, false );
  std::size_t finite = 0;
  for( auto&& d : all )
    for( auto&& p : d.second )
      finite += p.first < p.second && std::isfinite( p.second );
  c.nontrivial( finite >= 1 && K.size() >= 5 );

  compare( c, bridge::diagrams( aleph::calculatePersistenceDiagrams( k ) ), noTop, "default call" );
  compare( c, bridge::diagrams( aleph::calculatePersistenceDiagrams( k, false ) ), noTop, "without dualisation" );
  compare( c, bridge::diagrams( aleph::calculatePersistenceDiagrams( k, true, true ) ), all, "all unpaired creators" );
  compare( c, bridge::diagrams( aleph::calculatePersistenceDiagrams( k, false, true ) ), all, "all unpaired creators without dualisation" );

  auto D = aleph::calculatePersistenceDiagrams( k, true, true );
  for( std::size_t i = 1; i < D.size(); i++ )
    c.check( D[i-1].dimension() < D[i].dimension(), "diagrams are not sorted by dimension" );
}

LAW( diagrams_double, 30000, 600000, "random and classical filtered complexes (dim<=4), compared with an independent reduction for all option settings; non-trivial: >=5 simplices and >=1 off-diagonal finite interval" ) { diagramLaw<SD>( c ); }
LAW( diagrams_float, 15000, 300000, "as diagrams_double with float data and 16-bit vertices" ) { diagramLaw<SF>( c ); }

LAW( diagrams_sorted, 15000, 400000, "complex inserted in random order and sorted by the library (ascending or descending data) before the computation; off-diagonal points and diagonal counts compared; non-trivial: >=1 off-diagonal finite interval" )
{
  Options o;
  o.bulk( 60, 1500 ).solid( 9 );
  o.maxVertices = 8;
  auto K = genFiltered( c, o, false );
  bool descending = c.boolean();
  if( descending )
    for( auto& x : K )
      x.w = -x.w;

  auto expected = offDiagonal( diagrams( K, true ) );
  auto shuffled = K;
  c.shuffle( shuffled );
  c.input( show( shuffled ) + ( descending ? " descending" : " ascending" ) );
  auto k = bridge::complex<SD>( shuffled );
  if( descending )
    k.sort( aleph::topology::filtrations::Data<SD, std::greater<double> >() );
  else
    k.sort( aleph::topology::filtrations::Data<SD>() );

  std::size_t finite = 0;
  for( auto&& d : expected )
    for( auto&& p : d.second )
      finite += std::isfinite( p.second );
  c.nontrivial( finite >= 1 );

  auto got = offDiagonal( bridge::diagrams( aleph::calculatePersistenceDiagrams( k, true, true ) ) );
  for( std::size_t d = 0; d < 8; d++ )
  {
    auto g = got.count( d ) ? got.at( d ) : Diagram();
    auto e = expected.count( d ) ? expected.at( d ) : Diagram();
    c.equal( g, e, "diagram of sorted complex in dimension " + std::to_string( d ) );
  }
}

// Number of intervals that contain [s,t] equals the rank of the map induced by
// the inclusion; computed from ranks only.
LAW( rank_invariant, 8000, 200000, "rank of H_d(K_s)->H_d(K_t) by linear algebra versus the intervals containing [s,t], for random s<=t; non-trivial: >=1 off-diagonal finite interval" )
{
  Options o;
  o.bulk( 30, 300 );
  o.maxVertices = 7;
  o.maxCells    = 90;
  auto K = genFiltered( c, o );
  c.input( show( K ) );
  auto k  = bridge::complex<SD>( K );
  auto ds = bridge::diagrams( aleph::calculatePersistenceDiagrams( k, c.boolean(), true ) );

  std::size_t finite = 0;
  for( auto&& d : ds )
    for( auto&& p : d.second )
      finite += p.first < p.second && std::isfinite( p.second );
  c.nontrivial( finite >= 1 );

  auto i = static_cast<std::size_t>( c.draw( K.size() ) );
  auto j = i + static_cast<std::size_t>( c.draw( K.size() - i ) );
  double s = K[i].w, t = K[j].w;

  std::map<V,std::size_t> index;
  for( std::size_t x = 0; x < K.size(); x++ )
    index[ K[x].v ] = x;
  auto words = K.size() / 64 + 1;

  for( std::size_t d = 0; d <= dimension( K ); d++ )
  {
    // cycles of K_s in dimension d: kernel by augmented elimination
    std::vector<Bits> cycles;
    {
      std::map<long, std::pair<Bits,Bits> > basis;
      for( std::size_t x = 0; x < K.size(); x++ )
      {
        if( K[x].w > s || K[x].v.size() != d + 1 )
          continue;
        Bits b( words, 0 ), id( words, 0 );
        for( auto&& f : facets( K[x].v ) )
          flip( b, index.at( f ) );
        flip( id, x );
        long h;
        while( ( h = highest( b ) ) >= 0 )
        {
          auto it = basis.find( h );
          if( it == basis.end() )
          {
            basis[h] = { b, id };
            break;
          }
          for( std::size_t q = 0; q < words; q++ )
          {
            b[q]  ^= it->second.first[q];
            id[q] ^= it->second.second[q];
          }
        }
        if( h < 0 )
          cycles.push_back( id );
      }
    }
    std::vector<Bits> boundaries;
    for( std::size_t x = 0; x < K.size(); x++ )
      if( K[x].w <= t && K[x].v.size() == d + 2 )
      {
        Bits b( words, 0 );
        for( auto&& f : facets( K[x].v ) )
          flip( b, index.at( f ) );
        boundaries.push_back( b );
      }
    auto rb = rank( boundaries );
    auto both = boundaries;
    both.insert( both.end(), cycles.begin(), cycles.end() );
    auto expected = rank( both ) - rb; // dim (Z + B) - dim B

    std::size_t got = 0;
    if( ds.count( d ) )
      for( auto&& p : ds.at( d ) )
        got += p.first <= s && p.second > t;
    c.equal( got, expected, "intervals containing [s,t] in dimension " + std::to_string( d ) );
  }
}

LAW( betti_and_euler, 15000, 300000, "Betti numbers of diagrams versus ranks of boundary maps; Euler characteristic of complex and of diagrams versus alternating sums; non-trivial: some higher Betti number or >=2 components" )
{
  Options o;
  o.bulk( 40, 600 );
  o.empty = true;
  o.maxDimension = 4;
  auto K = genFiltered( c, o );
  c.input( show( K ) );
  auto k = bridge::complex<SD>( K );
  auto b = K.empty() ? std::vector<long>() : betti( K );
  auto ds = aleph::calculatePersistenceDiagrams( k, c.boolean(), true );
  bool interesting = b.size() && b[0] > 1;
  for( std::size_t d = 1; d < b.size(); d++ )
    interesting = interesting || b[d] > 0;
  c.nontrivial( interesting );

  std::map<std::size_t, std::size_t> got;
  for( auto&& d : ds )
    got[ d.dimension() ] += d.betti();
  for( std::size_t d = 0; d < std::max<std::size_t>( b.size(), 6 ); d++ )
    c.equal( static_cast<long>( got[d] ), d < b.size() ? b[d] : 0L, "Betti number in dimension " + std::to_string( d ) );

  long chi = 0;
  for( auto&& x : K )
    chi += x.v.size() % 2 ? 1 : -1;
  c.equal( aleph::eulerCharacteristic( k ), chi, "Euler characteristic of the complex" );
  c.equal( aleph::eulerCharacteristic( ds.begin(), ds.end() ), chi, "Euler characteristic of the diagrams" );

  // some of the diagrams only, in any order
  auto some = ds;
  c.shuffle( some );
  some.resize( c.size( 0, some.size() ) );
  long partial = 0;
  for( auto&& d : some )
    partial += ( d.dimension() % 2 ? -1 : 1 ) * ( d.dimension() < b.size() ? b[ d.dimension() ] : 0L );
  c.equal( aleph::eulerCharacteristic( some.begin(), some.end() ), partial, "alternating sum for some of the diagrams" );

  // persistent version: alternating sum of persistence over finite intervals
  std::vector< aleph::PersistenceDiagram<double> > finite;
  double expected = 0;
  for( auto d : ds )
  {
    d.removeUnpaired();
    for( auto&& p : d )
      expected += ( d.dimension() % 2 ? -1 : 1 ) * ( p.y() - p.x() );
    finite.push_back( d );
  }
  c.close( aleph::persistentEulerCharacteristic( finite.begin(), finite.end() ), expected, 1e-9 * ( 1 + std::fabs( expected ) ), "persistent Euler characteristic" );
}

LAW( one_dimensional_function, 15000, 200000, "piecewise linear function on a path: diagram from boundary matrix and values versus the elder rule computed by the reference; non-trivial: >=2 local minima" )
{
  auto n = c.size( 2, 12 );
  std::vector<double> f;
  auto mode = 1 + static_cast<int>( c.draw( 4 ) );
  for( std::size_t i = 0; i < n; i++ )
    f.push_back( genWeight( c, mode ) );
  Complex K;
  for( std::size_t i = 0; i < n; i++ )
    K.push_back( { { static_cast<unsigned>( i ) }, f[i] } );
  for( std::size_t i = 0; i + 1 < n; i++ )
    K.push_back( { { static_cast<unsigned>( i ), static_cast<unsigned>( i + 1 ) }, std::max( f[i], f[i+1] ) } );
  std::stable_sort( K.begin(), K.end(), [] ( const Cell& a, const Cell& b ) { return a.w < b.w; } );
  c.input( show( K ) );
  auto M = aleph::topology::makeBoundaryMatrix( bridge::complex<SD>( K ) );
  std::vector<double> values;
  for( auto&& x : K )
    values.push_back( x.w );
  auto D = aleph::calculatePersistenceDiagram( M, values );
  auto e = diagrams( K, false )[0];
  std::size_t off = 0;
  for( auto&& p : e )
    off += p.first < p.second;
  c.nontrivial( off >= 2 );
  c.equal( bridge::points( D ), e, "diagram of one-dimensional function" );
  c.equal( D.dimension(), std::size_t(0), "dimension" );
}
