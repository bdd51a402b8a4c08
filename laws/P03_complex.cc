// A simplicial complex behaves as an ordered set of simplices in any history.
#include "bridge.hh"

#include <aleph/topology/Filter.hh>
#include <aleph/topology/Skeleton.hh>
#include <aleph/topology/filtrations/Data.hh>

#include <unordered_set>

using namespace model;

template <class S> using SC = aleph::topology::SimplicialComplex<S>;

static bool isFace( const V& a, const V& b ) // proper or equal
{
  return std::includes( b.begin(), b.end(), a.begin(), a.end() );
}

static V descending( V v )
{
  std::sort( v.rbegin(), v.rend() );
  return v;
}

static V genSet( pbt::Ctx& c, unsigned n, unsigned k )
{
  std::set<unsigned> s;
  auto size = c.size( 1, k );
  for( std::size_t i = 0; i < size; i++ )
    s.insert( static_cast<unsigned>( c.draw( n ) ) );
  return V( s.begin(), s.end() );
}

static Complex::iterator locate( Complex& m, const V& v )
{
  return std::find_if( m.begin(), m.end(), [&] ( const Cell& x ) { return x.v == v; } );
}

template <class S> void verify( pbt::Ctx& c, const SC<S>& K, const Complex& m, const std::vector<V>& probes, const std::string& when )
{
  c.equal( K.size(), m.size(), when + ": size" );
  c.equal( K.empty(), m.empty(), when + ": empty" );

  std::size_t i = 0;
  for( auto it = K.begin(); it != K.end(); ++it, ++i )
  {
    c.check( i < m.size(), when + ": iteration too long" );
    c.equal( bridge::vertices( *it ), m[i].v, when + ": simplex at position " + std::to_string( i ) );
    c.equal( static_cast<double>( it->data() ), m[i].w, when + ": data at position " + std::to_string( i ) );
    c.check( K[i] == *it && K.at( i ) == *it && K.at( i ).data() == it->data(), when + ": random access" );
  }
  c.equal( i, m.size(), when + ": iteration length" );

  bool thrown = false;
  try { K.at( m.size() ); } catch( std::exception& ) { thrown = true; }
  c.check( thrown, when + ": at() beyond the end does not throw" );

  std::size_t D = 0;
  for( auto&& x : m )
    D = std::max( D, x.v.size() - 1 );
  thrown = false;
  try { c.equal( K.dimension(), D, when + ": dimension" ); } catch( std::runtime_error& ) { thrown = true; }
  c.equal( thrown, m.empty(), when + ": dimension of empty complex" );

  // views
  {
    std::vector<V> a, b;
    for( auto it = K.begin_lexicographical(); it != K.end_lexicographical(); ++it )
      a.push_back( V( it->begin(), it->end() ) );
    for( auto&& x : m )
      b.push_back( descending( x.v ) );
    std::sort( b.begin(), b.end() );
    c.check( a == b, when + ": lexicographical view" );
  }
  {
    std::map<V,double> a, b;
    std::size_t last = 0, n = 0;
    for( auto it = K.begin_dimension(); it != K.end_dimension(); ++it )
    {
      c.check( it->dimension() >= last, when + ": dimension view is not sorted" );
      last = it->dimension();
      a[ bridge::vertices( *it ) ] = static_cast<double>( it->data() );
      ++n;
    }
    for( auto&& x : m )
      b[ x.v ] = x.w;
    c.check( a == b && n == m.size(), when + ": dimension view" );
  }
  for( std::size_t d = 0; d <= D + 1; d++ )
  {
    std::map<V,double> a, b;
    auto r = K.range( d );
    std::size_t n = 0;
    for( auto it = r.first; it != r.second; ++it, ++n )
      a[ bridge::vertices( *it ) ] = static_cast<double>( it->data() );
    for( auto&& x : m )
      if( x.v.size() == d + 1 )
        b[ x.v ] = x.w;
    c.check( a == b && n == b.size(), when + ": range of dimension " + std::to_string( d ) );

    auto q = K.range( [&] ( std::size_t e ) { return e >= d; }, [&] ( std::size_t e ) { return e <= d + 1; } );
    std::size_t expected = 0;
    for( auto&& x : m )
      expected += x.v.size() == d + 1 || x.v.size() == d + 2;
    c.equal( static_cast<std::size_t>( std::distance( q.first, q.second ) ), expected, when + ": range with two bounds" );
  }

  // vertex set (each vertex that has its 0-simplex; others occur only in invalid complexes)
  {
    std::vector<typename S::VertexType> vs;
    K.vertices( std::back_inserter( vs ) );
    std::set<unsigned> expected, all;
    for( auto&& x : m )
    {
      if( x.v.size() == 1 )
        expected.insert( x.v[0] );
      all.insert( x.v.begin(), x.v.end() );
    }
    V got( vs.begin(), vs.end() );
    c.check( std::is_sorted( got.begin(), got.end() ), when + ": vertices are not ascending" );
    if( expected == all )
      c.check( got == V( expected.begin(), expected.end() ), when + ": vertices" );
  }

  for( auto&& v : probes )
  {
    auto s  = bridge::simplex<S>( v, typename S::DataType( 77 ) );
    std::size_t pos = m.size();
    for( std::size_t k = 0; k < m.size(); k++ )
      if( m[k].v == v )
        pos = k;
    bool in = pos < m.size();
    c.equal( K.contains( s ), in, when + ": contains " + show( v ) );
    c.equal( K.find( s ) != K.end(), in, when + ": find " + show( v ) );
    bool threw = false;
    try
    {
      c.equal( K.index( s ), pos, when + ": index of " + show( v ) );
      c.equal( static_cast<double>( K.find( s )->data() ), m[pos].w, when + ": data of " + show( v ) );
    }
    catch( std::runtime_error& ) { threw = true; }
    c.equal( threw, !in, when + ": index of missing simplex" );
  }
}

template <class S> void historyLaw( pbt::Ctx& c )
{
  using D = typename S::DataType;
  SC<S> K;
  Complex m;
  auto n = static_cast<unsigned>( c.extent( 2, 7, 30 ) );
  auto steps = c.extent( 1, 18, 120, 80 );
  std::string log;
  unsigned mutations = 0;
  auto weight = [&] { return static_cast<double>( static_cast<D>( c.around( 8 ) ) ); };
  auto add = [&] ( const V& v, double w )
  {
    if( locate( m, v ) == m.end() )
      m.push_back( { v, w } );
  };

  for( std::size_t step = 0; step < steps; step++ )
  {
    auto op = c.draw( 16 );
    std::ostringstream what;
    if( op <= 2 )
    {
      auto v = genSet( c, n, 4 );
      auto w = weight();
      what << "push_back " << show( v ) << ":" << w;
      log += what.str() + "; "; c.input( log );
      K.push_back( bridge::simplex<S>( v, static_cast<D>( w ) ) );
      add( v, w );
    }
    else if( op <= 4 )
    {
      auto k = c.size( 0, 5 );
      std::vector<S> range;
      what << "insert";
      for( std::size_t i = 0; i < k; i++ )
      {
        auto v = genSet( c, n, 4 );
        auto w = weight();
        what << " " << show( v ) << ":" << w;
        range.push_back( bridge::simplex<S>( v, static_cast<D>( w ) ) );
        add( v, w );
      }
      log += what.str() + "; "; c.input( log );
      K.insert( range.begin(), range.end() );
    }
    else if( op == 5 || op == 6 )
    {
      V v = !m.empty() && c.boolean() ? m[ c.draw( m.size() ) ].v : genSet( c, n, 3 );
      bool validate = op == 5;
      what << ( validate ? "remove " : "remove_without_validation " ) << show( v );
      log += what.str() + "; "; c.input( log );
      auto s = bridge::simplex<S>( v );
      if( validate )
        K.remove( s );
      else
        K.remove_without_validation( s );
      auto it = locate( m, v );
      if( it != m.end() )
      {
        m.erase( it );
        ++mutations;
      }
      if( validate )
      {
        bool changed = true;
        while( changed )
        {
          changed = false;
          for( std::size_t i = 0; i < m.size(); i++ )
          {
            bool ok = true;
            for( auto&& f : facets( m[i].v ) )
              ok = ok && locate( m, f ) != m.end();
            if( !ok )
            {
              m.erase( m.begin() + static_cast<long>( i ) );
              changed = true;
              break;
            }
          }
        }
      }
    }
    else if( op == 7 && !m.empty() )
    {
      auto i = static_cast<std::size_t>( c.draw( m.size() ) );
      V v = c.boolean() ? m[i].v : genSet( c, n, 4 );
      auto w = weight();
      what << "replace " << show( m[i].v ) << " by " << show( v ) << ":" << w;
      log += what.str() + "; "; c.input( log );
      bool expected = v == m[i].v || locate( m, v ) == m.end();
      bool got = K.replace( K.begin() + static_cast<long>( i ), bridge::simplex<S>( v, static_cast<D>( w ) ) );
      c.equal( got, expected, what.str() );
      if( expected )
        m[i] = { v, w };
      ++mutations;
    }
    else if( op == 8 )
    {
      what << "sort()";
      log += what.str() + "; "; c.input( log );
      K.sort();
      std::sort( m.begin(), m.end(), [] ( const Cell& a, const Cell& b ) { return descending( a.v ) < descending( b.v ); } );
      ++mutations;
    }
    else if( op == 9 )
    {
      bool ascending = c.boolean();
      what << "sort by data " << ( ascending ? "ascending" : "descending" );
      log += what.str() + "; "; c.input( log );
      if( ascending )
        K.sort( aleph::topology::filtrations::Data<S>() );
      else
        K.sort( aleph::topology::filtrations::Data<S, std::greater<D> >() );
      auto got = bridge::back( K );
      for( std::size_t i = 1; i < got.size(); i++ )
      {
        c.check( ascending ? got[i-1].w <= got[i].w : got[i-1].w >= got[i].w, what.str() + ": data not monotone" );
        if( got[i-1].w == got[i].w )
          c.check( got[i-1].v.size() <= got[i].v.size(), what.str() + ": dimension not monotone among equal data" );
      }
      std::map<V,double> a, b;
      for( auto&& x : got ) a[x.v] = x.w;
      for( auto&& x : m ) b[x.v] = x.w;
      c.check( a == b && got.size() == m.size(), what.str() + ": not a permutation" );
      m = got;
      ++mutations;
    }
    else if( op == 10 )
    {
      std::vector<std::size_t> perm;
      for( std::size_t i = 0; i < m.size(); i++ )
        perm.push_back( i );
      c.shuffle( perm );
      what << "rearrange";
      log += what.str() + "; "; c.input( log );
      std::vector< std::reference_wrapper<const S> > view;
      Complex r;
      for( auto i : perm )
      {
        view.push_back( std::cref( *( K.begin() + static_cast<long>( i ) ) ) );
        r.push_back( m[i] );
      }
      K.rearrange( view.begin() );
      m = r;
    }
    else if( op == 11 )
    {
      what << "createMissingFaces";
      log += what.str() + "; "; c.input( log );
      K.createMissingFaces();
      auto got = bridge::back( K );
      std::vector<V> gens;
      for( auto&& x : m )
        gens.push_back( x.v );
      auto expected = closure( gens );
      c.equal( got.size(), expected.size(), what.str() + ": number of simplices" );
      for( std::size_t i = 0; i < m.size(); i++ )
        c.check( got[i].v == m[i].v && got[i].w == m[i].w, what.str() + ": existing simplices changed" );
      for( std::size_t i = m.size(); i < got.size(); i++ )
      {
        c.check( expected.count( got[i].v ) == 1, what.str() + ": not a face" );
        bool inherited = false;
        for( auto&& x : m )
          inherited = inherited || ( isFace( got[i].v, x.v ) && x.w == got[i].w );
        c.check( inherited, what.str() + ": new face does not carry the data of a coface" );
      }
      m = got;
      ++mutations;
    }
    else if( op == 12 )
    {
      bool maximum = c.boolean(), skip = c.boolean();
      what << "recalculateWeights(" << maximum << "," << skip << ")";
      log += what.str() + "; "; c.input( log );
      K.recalculateWeights( maximum, skip );
      std::map<V,double> w;
      std::vector<std::size_t> order;
      for( std::size_t i = 0; i < m.size(); i++ )
      {
        w[ m[i].v ] = m[i].w;
        order.push_back( i );
      }
      std::stable_sort( order.begin(), order.end(), [&] ( std::size_t a, std::size_t b ) { return m[a].v.size() < m[b].v.size(); } );
      for( auto i : order )
      {
        if( m[i].v.size() == 1 || ( skip && m[i].v.size() == 2 ) )
          continue;
        bool any = false;
        double best = 0;
        for( auto&& f : facets( m[i].v ) )
          if( w.count( f ) )
          {
            best = !any ? w[f] : maximum ? std::max( best, w[f] ) : std::min( best, w[f] );
            any  = true;
          }
        if( !any )
          best = static_cast<double>( maximum ? std::numeric_limits<D>::lowest() : std::numeric_limits<D>::max() );
        w[ m[i].v ] = best;
        m[i].w      = best;
      }
      ++mutations;
    }
    else if( op == 13 )
    {
      what << "copy and move";
      log += what.str() + "; "; c.input( log );
      SC<S> copy( K );
      c.check( copy == K && !( copy != K ), "copy differs" );
      if( !m.empty() ) // same number of simplices, but another order or another simplex
      {
        auto changed = m;
        auto i = c.draw( m.size() ), j = c.draw( m.size() );
        if( i != j )
          std::swap( changed[i], changed[j] );
        else
          changed[i].v = { 60, 61 };
        SC<S> other;
        for( auto&& x : changed )
          other.push_back( bridge::simplex<S>( x.v, x.w ) );
        c.check( other != K && !( other == K ) && K != other && !( K == other ), "different complexes compare equal" );
      }
      if( c.boolean() )
      {
        // changing the copy leaves the original alone
        copy.push_back( bridge::simplex<S>( { 60, 61 } ) );
        c.check( copy != K, "changed copy compares equal" );
        verify( c, K, m, { { 60, 61 } }, "after changing a copy" );
        SC<S> other;
        other = K;
        K     = other;
      }
      else
      {
        SC<S> moved( std::move( copy ) );
        K = std::move( moved );
      }
    }
    else if( op == 14 )
    {
      auto d = c.size( 0, 3 );
      what << "skeleton " << d;
      log += what.str() + "; "; c.input( log );
      auto L = aleph::topology::Skeleton()( d, K );
      Complex r;
      for( auto&& x : m )
        if( x.v.size() <= d + 1 )
          r.push_back( x );
      verify( c, L, r, {}, what.str() );
      double t = weight();
      auto F = aleph::topology::Filter()( K, [&] ( const S& s ) { return static_cast<double>( s.data() ) <= t; } );
      Complex q;
      for( auto&& x : m )
        if( x.w <= t )
          q.push_back( x );
      verify( c, F, q, {}, "filter" );
    }
    else if( op == 15 && c.chance( 1, 3 ) )
    {
      what << "clear";
      log += what.str() + "; "; c.input( log );
      K.clear();
      m.clear();
    }
    else
      continue;

    std::vector<V> probes;
    for( int k = 0; k < 4; k++ )
      probes.push_back( genSet( c, n + 1, 4 ) );
    if( !m.empty() )
      probes.push_back( m[ c.draw( m.size() ) ].v );
    verify( c, K, m, probes, what.str() );
  }
  c.nontrivial( mutations >= 2 && m.size() >= 3 );
}

LAW( history_ushort, 45000, 900000, "histories of <=18 operations (push_back, insert, remove, replace, sorts, rearrange, missing faces, weights, copies, skeleton, filter, clear) over <=7 vertices, every query compared after every step; non-trivial: >=2 structural mutations and >=3 simplices left" ) { historyLaw< aleph::topology::Simplex<double, unsigned short> >( c ); }
LAW( history_int, 27000, 450000, "as history_ushort with float data and int vertices" ) { historyLaw< aleph::topology::Simplex<float, int> >( c ); }
LAW( history_integer_data, 18000, 270000, "as history_ushort with integral data and 64-bit vertices" ) { historyLaw< aleph::topology::Simplex<long, unsigned long> >( c ); }

LAW( vertex_weights, 27000, 360000, "recalculateWeights from a vertex weight range on closed complexes: vertices keep their value, others get the maximum; non-trivial: dimension >=1 and >=2 distinct weights" )
{
  using S = aleph::topology::Simplex<double, unsigned>;
  Options o;
  o.bulk( 60, 600 ).solid( 10 );
  o.empty = true;
  auto closed = genClosed( c, o );
  std::vector<V> order( closed.begin(), closed.end() );
  c.shuffle( order );
  Complex m;
  unsigned n = 0;
  for( auto&& v : order )
  {
    m.push_back( { v, static_cast<double>( c.around( 5 ) ) } );
    n = std::max( n, v.back() + 1 );
  }
  std::vector<double> w;
  for( unsigned i = 0; i < n; i++ )
    w.push_back( static_cast<double>( c.around( 9 ) ) / 2 );
  auto K = bridge::complex<S>( m );
  c.input( show( m ) + " weights " + pbt::str( w ) );
  K.recalculateWeights( w.begin(), w.end() );
  std::set<double> distinct;
  std::size_t i = 0, d = 0;
  for( auto&& s : K )
  {
    double e = -1e300;
    for( auto v : m[i].v )
      e = std::max( e, w[v] );
    distinct.insert( e );
    d = std::max( d, s.dimension() );
    c.equal( bridge::vertices( s ), m[i].v, "order changed" );
    c.equal( s.data(), e, "weight of " + show( m[i].v ) );
    ++i;
  }
  c.nontrivial( d >= 1 && distinct.size() >= 2 );
}

template <class S> void simplexLaw( pbt::Ctx& c )
{
  using VT = typename S::VertexType;
  using D  = typename S::DataType;
  std::vector<VT> a, b;
  auto na = c.size( 0, 6 ), nb = c.size( 0, 6 );
  auto range = c.pick( std::vector<long>{ 3, 6, 40 } );
  for( std::size_t i = 0; i < na; i++ ) a.push_back( static_cast<VT>( c.draw( static_cast<uint64_t>( range ) ) ) );
  if( c.chance( 1, 4 ) ) { b = a; c.shuffle( b ); }
  else
    for( std::size_t i = 0; i < nb; i++ ) b.push_back( static_cast<VT>( c.draw( static_cast<uint64_t>( range ) ) ) );
  c.input( pbt::str( a ) + " " + pbt::str( b ) );
  std::set<VT> sa( a.begin(), a.end() ), sb( b.begin(), b.end() );
  c.nontrivial( sa.size() >= 2 && sb.size() >= 1 );
  D wa = static_cast<D>( c.around( 5 ) ), wb = static_cast<D>( c.around( 5 ) );
  S s( a.begin(), a.end(), wa ), t( b.begin(), b.end(), wb );

  std::vector<VT> da( sa.rbegin(), sa.rend() ), db( sb.rbegin(), sb.rend() );
  c.check( std::vector<VT>( s.begin(), s.end() ) == da, "vertices are not the descending set" );
  c.check( std::vector<VT>( s.rbegin(), s.rend() ) == std::vector<VT>( sa.begin(), sa.end() ), "reverse vertices" );
  c.equal( s.size(), sa.size(), "size" );
  c.equal( s.empty(), sa.empty(), "empty" );
  c.equal( static_cast<bool>( s ), !sa.empty(), "validity" );
  for( std::size_t i = 0; i < da.size(); i++ )
    c.check( s[i] == da[i], "vertex access" );
  bool thrown = false;
  try { s[ da.size() ]; } catch( std::out_of_range& ) { thrown = true; }
  c.check( thrown, "vertex access beyond the end does not throw" );
  for( long v = 0; v <= range; v++ )
    c.equal( s.contains( static_cast<VT>( v ) ), sa.count( static_cast<VT>( v ) ) == 1, "contains vertex" );
  thrown = false;
  try { c.equal( s.dimension(), sa.size() - 1, "dimension" ); } catch( std::runtime_error& ) { thrown = true; }
  c.equal( thrown, sa.empty(), "dimension of the empty simplex" );

  // data does not take part in comparisons
  c.equal( s == t, sa == sb, "equality" );
  c.equal( s != t, sa != sb, "inequality" );
  c.equal( s < t, da < db, "order" );
  c.equal( t < s, db < da, "order" );
  if( sa == sb )
  {
    c.check( std::hash<S>()( s ) == std::hash<S>()( t ), "hash of equal simplices" );
    std::unordered_set<S> set;
    set.insert( s );
    set.insert( t );
    c.equal( set.size(), std::size_t(1), "unordered set of equal simplices" );
  }
  else
  {
    std::unordered_set<S> set;
    set.insert( s );
    set.insert( t );
    c.equal( set.size(), std::size_t(2), "unordered set of different simplices" );
  }

  c.equal( s.data(), wa, "data" );
  S u( s, wb );
  c.check( u == s && u.data() == wb && s.data() == wa, "copy with other data" );
  u.setData( wa );
  c.equal( u.data(), wa, "setData" );
  u.setData();
  c.equal( u.data(), D(), "setData default" );

  // boundary: all subsets with one vertex less
  std::multiset< std::vector<VT> > boundary, expected;
  for( auto it = s.begin_boundary(); it != s.end_boundary(); ++it )
  {
    auto f = *it;
    boundary.insert( std::vector<VT>( f.begin(), f.end() ) );
  }
  if( da.size() > 1 )
    for( std::size_t i = 0; i < da.size(); i++ )
    {
      auto f = da;
      f.erase( f.begin() + static_cast<long>( i ) );
      expected.insert( f );
    }
  c.check( boundary == expected, "boundary" );

  // printed form lists the vertices and non-zero data
  std::ostringstream os, ex;
  os << s;
  ex << "{";
  for( std::size_t i = 0; i < da.size(); i++ )
    ex << ( i ? " " : "" ) << da[i];
  if( wa != D() )
    ex << " (" << wa << ")";
  ex << "}";
  c.equal( os.str(), ex.str(), "printed simplex" );

  if( !a.empty() )
  {
    S v( a[0], wa );
    c.check( v.size() == 1 && v[0] == a[0] && v.data() == wa && v.begin_boundary() == v.end_boundary(), "vertex simplex" );
  }
}

LAW( simplex_ushort, 54000, 720000, "pairs of vertex lists with repeats: set semantics, order, hash, boundary, data, printing; non-trivial: >=2 vertices" ) { simplexLaw< aleph::topology::Simplex<double, unsigned short> >( c ); }
LAW( simplex_int, 27000, 360000, "as simplex_ushort with float data and int vertices" ) { simplexLaw< aleph::topology::Simplex<float, int> >( c ); }
