// All reduction algorithms, representations and dualisation agree.
#include "bridge.hh"

#include <aleph/persistentHomology/Calculation.hh>
#include <aleph/persistentHomology/algorithms/Standard.hh>
#include <aleph/persistentHomology/algorithms/Twist.hh>
#include <aleph/topology/representations/Heap.hh>
#include <aleph/topology/representations/List.hh>
#include <aleph/topology/representations/Set.hh>
#include <aleph/topology/representations/Vector.hh>

using namespace model;
using namespace aleph::topology;
using namespace aleph::topology::representations;
using aleph::persistentHomology::algorithms::Standard;
using aleph::persistentHomology::algorithms::StandardRectangular;
using aleph::persistentHomology::algorithms::Twist;

using S = Simplex<double, unsigned>;

template <class Pairing> std::vector<Pair> convert( pbt::Ctx& c, const Pairing& p, std::size_t n, const std::string& what )
{
  std::vector<Pair> r;
  std::vector<int> used( n, 0 );
  using Index = typename Pairing::IndexType;
  for( auto&& x : p )
  {
    c.check( static_cast<std::size_t>( x.first ) < n, what + ": creator out of range" );
    ++used[ static_cast<std::size_t>( x.first ) ];
    bool infinite = x.second == std::numeric_limits<Index>::max();
    if( !infinite )
    {
      c.check( static_cast<std::size_t>( x.second ) < n, what + ": destroyer out of range" );
      ++used[ static_cast<std::size_t>( x.second ) ];
    }
    r.push_back( { static_cast<long>( x.first ), infinite ? -1L : static_cast<long>( x.second ) } );
  }
  for( auto u : used )
    c.check( u <= 1, what + ": index used twice" );
  auto sorted = r;
  std::sort( sorted.begin(), sorted.end() );
  // unpaired entries carry the largest index, hence compare creators only
  for( std::size_t i = 1; i < r.size(); i++ )
    c.check( r[i-1].birth < r[i].birth, what + ": pairing is not sorted by creator" );
  return sorted;
}

namespace pbt_print
{
}

static std::string show( const std::vector<Pair>& p )
{
  std::string s;
  for( auto&& x : p )
    s += "(" + std::to_string( x.birth ) + "," + std::to_string( x.death ) + ") ";
  return s;
}

static void same( pbt::Ctx& c, const std::vector<Pair>& got, const std::vector<Pair>& expected, const std::string& what )
{
  if( !( got == expected ) )
    c.fail( what + ": got " + show( got ) + " expected " + show( expected ) );
}

static std::vector<Pair> withoutTop( const std::vector<Pair>& p, const std::vector<std::size_t>& dims )
{
  std::size_t D = 0;
  for( auto d : dims )
    D = std::max( D, d );
  std::vector<Pair> r;
  for( auto&& x : p )
    if( x.death >= 0 || dims[ static_cast<std::size_t>( x.birth ) ] != D )
      r.push_back( x );
  return r;
}

template <class R> void matrixLaw( pbt::Ctx& c, const std::vector< std::vector<std::size_t> >& columns, const std::string& name )
{
  using Index = typename R::Index;
  BoundaryMatrix<R> M;
  M.setNumColumns( static_cast<Index>( columns.size() ) );
  std::vector<std::size_t> dims;
  for( std::size_t j = 0; j < columns.size(); j++ )
  {
    std::vector<Index> col;
    for( auto x : columns[j] )
      col.push_back( static_cast<Index>( x ) );
    M.setColumn( static_cast<Index>( j ), col.begin(), col.end() );
    dims.push_back( columns[j].empty() ? 0 : columns[j].size() - 1 );
  }
  auto expectedAll = pairsOfColumns( columns );
  auto expected    = withoutTop( expectedAll, dims );
  auto n           = columns.size();
  auto copy        = M;
  auto dual        = M.dualize();

  same( c, convert( c, aleph::calculatePersistencePairing<Standard>( M ), n, name + " standard" ), expected, name + " standard" );
  same( c, convert( c, aleph::calculatePersistencePairing<Twist>( M ), n, name + " twist" ), expected, name + " twist" );
  same( c, convert( c, aleph::calculatePersistencePairing<Standard>( dual ), n, name + " standard dual" ), expected, name + " standard dual" );
  same( c, convert( c, aleph::calculatePersistencePairing<Twist>( dual ), n, name + " twist dual" ), expected, name + " twist dual" );

  same( c, convert( c, aleph::calculatePersistencePairing<Standard>( M, true ), n, name + " standard all" ), expectedAll, name + " standard all" );
  same( c, convert( c, aleph::calculatePersistencePairing<Twist>( M, true ), n, name + " twist all" ), expectedAll, name + " twist all" );
  same( c, convert( c, aleph::calculatePersistencePairing<Standard>( dual, true ), n, name + " standard dual all" ), expectedAll, name + " standard dual all" );
  same( c, convert( c, aleph::calculatePersistencePairing<Twist>( dual, true ), n, name + " twist dual all" ), expectedAll, name + " twist dual all" );

  same( c, convert( c, aleph::calculatePersistencePairing<StandardRectangular>( M, true ), n, name + " rectangular all" ), expectedAll, name + " rectangular all" );
  same( c, convert( c, aleph::calculatePersistencePairing<StandardRectangular>( dual, true ), n, name + " rectangular dual all" ), expectedAll, name + " rectangular dual all" );

  // Restricted to the simplices before a given one: the pairs are the
  // same, but only those whose creator precedes it are reported.
  {
    auto limit = static_cast<std::size_t>( c.integer( 0, static_cast<long>( n ) ) );
    std::vector<Pair> some, someAll;
    for( auto&& p : expected )
      if( static_cast<std::size_t>( p.birth ) < limit )
        some.push_back( p );
    for( auto&& p : expectedAll )
      if( static_cast<std::size_t>( p.birth ) < limit )
        someAll.push_back( p );
    auto l = static_cast<Index>( limit );
    auto w = " before " + std::to_string( limit );
    same( c, convert( c, aleph::calculatePersistencePairing<Standard>( M, false, l ), n, name + w ), some, name + " standard" + w );
    same( c, convert( c, aleph::calculatePersistencePairing<Twist>( dual, false, l ), n, name + w ), some, name + " twist dual" + w );
    same( c, convert( c, aleph::calculatePersistencePairing<Twist>( M, true, l ), n, name + w ), someAll, name + " twist all" + w );
    same( c, convert( c, aleph::calculatePersistencePairing<Standard>( dual, true, l ), n, name + w ), someAll, name + " standard dual all" + w );
  }

  c.check( M == copy, name + ": computing the pairing changed the input matrix" );

  for( auto&& p : expectedAll )
    if( p.death >= 0 )
      c.check( p.birth < p.death && dims[ static_cast<std::size_t>( p.birth ) ] + 1 == dims[ static_cast<std::size_t>( p.death ) ], "reference pair has wrong dimensions" );
}

LAW( pairings, 22500, 360000, "boundary matrices of random filtered complexes: {standard,twist} x {vector,list,set} x {primal,dual} x {int,unsigned,short,long} x {all unpaired creators} against the reference pairing; non-trivial: >=2 finite pairs" )
{
  Options o;
  o.bulk( 50, 900 ).solid( 9 );
  o.maxVertices  = 8;
  o.maxDimension = 4;
  o.empty        = true;
  auto K = genFiltered( c, o );
  c.input( model::show( K ) );
  labelComplex( c, K );
  auto columns = columnsOf( K );
  std::size_t finite = 0;
  for( auto&& p : pairsOfColumns( columns ) )
    finite += p.death >= 0;
  c.nontrivial( finite >= 2 );

  switch( c.draw( 4 ) )
  {
  case 0:
    matrixLaw< Vector<unsigned> >( c, columns, "vector<unsigned>" );
    matrixLaw< List<unsigned> >( c, columns, "list<unsigned>" );
    matrixLaw< Set<unsigned> >( c, columns, "set<unsigned>" );
    matrixLaw< Heap<unsigned> >( c, columns, "heap<unsigned>" );
    break;
  case 1:
    matrixLaw< Vector<int> >( c, columns, "vector<int>" );
    matrixLaw< List<int> >( c, columns, "list<int>" );
    matrixLaw< Set<int> >( c, columns, "set<int>" );
    matrixLaw< Heap<int> >( c, columns, "heap<int>" );
    break;
  case 2:
    matrixLaw< Vector<short> >( c, columns, "vector<short>" );
    matrixLaw< List<short> >( c, columns, "list<short>" );
    matrixLaw< Set<short> >( c, columns, "set<short>" );
    matrixLaw< Heap<short> >( c, columns, "heap<short>" );
    break;
  default:
    matrixLaw< Vector<unsigned long> >( c, columns, "vector<unsigned long>" );
    matrixLaw< List<unsigned long> >( c, columns, "list<unsigned long>" );
    matrixLaw< Set<unsigned long> >( c, columns, "set<unsigned long>" );
    matrixLaw< Heap<unsigned long> >( c, columns, "heap<unsigned long>" );
    break;
  }
}

template <class A, class R> void diagramsLaw( pbt::Ctx& c, const SimplicialComplex<S>& k, const std::map<std::size_t, Diagram>& all, const std::map<std::size_t, Diagram>& noTop, const std::string& name )
{
  for( int dual = 0; dual < 2; dual++ )
  {
    c.check( bridge::diagrams( aleph::calculatePersistenceDiagrams<A,R>( k, dual == 1, true ) ) == all, name + ( dual ? " dual" : " primal" ) + " diagrams (all) differ" );
    c.check( bridge::diagrams( aleph::calculatePersistenceDiagrams<A,R>( k, dual == 1, false ) ) == noTop, name + ( dual ? " dual" : " primal" ) + " diagrams differ" );
  }
}

LAW( diagrams, 9000, 135000, "persistence diagrams of random filtered complexes for {standard,twist} x {vector,list,set} x {primal,dual} x {all unpaired creators}; non-trivial: >=2 finite pairs" )
{
  Options o;
  o.bulk( 50, 900 ).solid( 9 );
  o.maxVertices = 8;
  auto K = genFiltered( c, o );
  c.input( model::show( K ) );
  auto k = bridge::complex<S>( K );
  auto all = model::diagrams( K, true ), noTop = model::diagrams( K, false );
  std::size_t finite = 0;
  for( auto&& p : model::pairs( K ) )
    finite += p.death >= 0;
  c.nontrivial( finite >= 2 );
  diagramsLaw< Standard, Vector<unsigned> >( c, k, all, noTop, "standard vector" );
  diagramsLaw< Standard, List<unsigned> >( c, k, all, noTop, "standard list" );
  diagramsLaw< Standard, Set<unsigned> >( c, k, all, noTop, "standard set" );
  diagramsLaw< Standard, Heap<unsigned> >( c, k, all, noTop, "standard heap" );
  diagramsLaw< StandardRectangular, Vector<unsigned> >( c, k, all, noTop, "rectangular vector" );
  diagramsLaw< Twist, Vector<unsigned> >( c, k, all, noTop, "twist vector" );
  diagramsLaw< Twist, List<unsigned> >( c, k, all, noTop, "twist list" );
  diagramsLaw< Twist, Set<unsigned> >( c, k, all, noTop, "twist set" );
  diagramsLaw< Twist, Heap<unsigned> >( c, k, all, noTop, "twist heap" );
}

LAW( pairing_container, 9000, 90000, "persistence pairing as a container: add, find, contains, erase, comparison against a list model; non-trivial: >=3 entries" )
{
  aleph::PersistencePairing<unsigned> p, q;
  std::vector< std::pair<unsigned,unsigned> > m;
  auto n = c.size( 0, 12 );
  auto infinite = std::numeric_limits<unsigned>::max();
  for( std::size_t i = 0; i < n; i++ )
  {
    auto a = static_cast<unsigned>( c.draw( 8 ) );
    if( c.chance( 1, 3 ) )
    {
      p.add( a );
      m.push_back( { a, infinite } );
    }
    else
    {
      auto b = static_cast<unsigned>( c.draw( 8 ) );
      p.add( a, b );
      m.push_back( { a, b } );
    }
    if( m.size() > 1 && c.chance( 1, 6 ) )
    {
      auto k = static_cast<long>( c.draw( m.size() ) );
      p.erase( p.begin() + k );
      m.erase( m.begin() + k );
    }
  }
  c.input( pbt::str( m ) );
  c.nontrivial( m.size() >= 3 );
  c.equal( p.size(), m.size(), "size" );
  c.equal( p.empty(), m.empty(), "empty" );
  c.check( std::equal( m.begin(), m.end(), p.begin() ), "contents" );
  for( unsigned a = 0; a < 8; a++ )
  {
    bool any = false;
    for( auto&& x : m )
      any = any || x.first == a;
    c.equal( p.contains( a ), any, "contains(creator)" );
    c.equal( p.find( a ) != p.end(), any, "find(creator)" );
    if( any )
      c.equal( p.find( a )->first, a, "find(creator) result" );
    for( unsigned b = 0; b < 8; b++ )
    {
      bool in = std::find( m.begin(), m.end(), std::make_pair( a, b ) ) != m.end();
      c.equal( p.contains( a, b ), in, "contains(pair)" );
    }
  }
  for( auto&& x : m )
    q.add( x.first, x.second );
  c.check( p == q && !( p != q ), "equal pairings compare unequal" );
  q.add( 1, 2 );
  c.check( p != q && !( p == q ), "different pairings compare equal" );
}
