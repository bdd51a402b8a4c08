// flags: -I/usr/include/hdf5/serial -I/usr/include/eigen3 /usr/lib/x86_64-linux-gnu/libtinyxml2.so.10.0.0 -Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial /usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5_cpp.so /usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so -llz4
// tools: betti_numbers topological_distance persistence_diagram_statistics persistence_diagram_entropies persistence_indicator_function function_analysis graph_analysis make_signature relevant_edges connectivity_matrix_analysis sparse_adjacency_matrices clique_persistence_diagram clique_communities_to_json point_cloud_data_descriptors
// Command-line tools report what is defined by the data in their input files.
#include "bottleneck.hh"
#include "clouds.hh"
#include "diagrams.hh"
#include "model.hh"
#include "process.hh"

#include <aleph/math/KahanSummation.hh>
#include <aleph/containers/DataDescriptors.hh>
#include <aleph/containers/PointCloud.hh>
#include <aleph/geometry/distances/Euclidean.hh>
#include <aleph/persistenceDiagrams/Entropy.hh>
#include <aleph/persistenceDiagrams/Envelope.hh>
#include <aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh>
#include <aleph/persistenceDiagrams/distances/Bottleneck.hh>
#include <aleph/persistenceDiagrams/distances/Hausdorff.hh>
#include <aleph/persistenceDiagrams/kernels/MultiScaleKernel.hh>

#include <rapidjson/document.h>

#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <fstream>
#include <limits>
#include <map>
#include <set>
#include <sstream>


static std::string json( const std::vector<dgm::Points>& diagrams, const std::vector<unsigned>& dimensions )
{
  std::string s = "{ \"diagrams\": [";
  for( std::size_t i = 0; i < diagrams.size(); i++ )
  {
    s += std::string( i ? ",\n" : "\n" ) + "{ \"betti\": " + std::to_string( std::count_if( diagrams[i].begin(), diagrams[i].end(), [] ( const dgm::P& p ) { return std::isinf( p.second ); } ) ) + ", \"dimension\": " + std::to_string( dimensions[i] ) + ", \"size\": " + std::to_string( diagrams[i].size() ) + ", \"diagram\": [";
    for( std::size_t j = 0; j < diagrams[i].size(); j++ )
      s += std::string( j ? "," : "" ) + "[\"" + text( diagrams[i][j].first ) + "\",\"" + text( diagrams[i][j].second ) + "\"]";
    s += "] }";
  }
  return s + "\n] }\n";
}

// A random graph; edges are ordered pairs of vertices
struct Graph
{
  std::vector<unsigned> vertices;
  std::map<std::pair<unsigned,unsigned>, double> edges;

  std::map<unsigned, unsigned> degrees() const
  {
    std::map<unsigned, unsigned> r;
    for( auto&& v : vertices )
      r[v] = 0;
    for( auto&& e : edges )
    {
      r[ e.first.first ]++;
      r[ e.first.second ]++;
    }
    return r;
  }

  // cliques with up to n + 1 vertices
  std::vector<model::V> cliques( unsigned n ) const
  {
    std::vector<model::V> all, last;
    for( auto&& v : vertices )
      last.push_back( { v } );
    for( unsigned d = 0; d <= n; d++ )
    {
      all.insert( all.end(), last.begin(), last.end() );
      std::vector<model::V> next;
      for( auto&& s : last )
        for( auto&& v : vertices )
        {
          if( v <= s.back() )
            continue;
          bool ok = true;
          for( auto&& u : s )
            ok = ok && edges.count( { u, v } );
          if( ok )
          {
            next.push_back( s );
            next.back().push_back( v );
          }
        }
      last.swap( next );
    }
    return all;
  }

  std::size_t components() const
  {
    std::map<unsigned, unsigned> label;
    for( auto&& v : vertices )
      label[v] = v;
    for( bool change = true; change; )
    {
      change = false;
      for( auto&& e : edges )
      {
        auto& a = label[ e.first.first ];
        auto& b = label[ e.first.second ];
        if( a != b )
        {
          a = b = std::min( a, b );
          change = true;
        }
      }
    }
    std::set<unsigned> r;
    for( auto&& p : label )
      r.insert( p.second );
    return r.size();
  }
};

static Graph genGraph( pbt::Ctx& c, std::size_t maximum, bool gaps, bool isolated, std::size_t minimum = 2 )
{
  Graph g;
  auto n = c.size( minimum, maximum );
  unsigned v = 0;
  for( std::size_t i = 0; i < n; i++ )
  {
    g.vertices.push_back( v );
    v += 1 + ( gaps && c.chance( 1, 5 ) ? static_cast<unsigned>( c.size( 1, 9 ) ) : 0 );
  }
  auto density = c.size( 1, 4 );
  for( std::size_t i = 0; i < n; i++ )
    for( std::size_t j = i + 1; j < n; j++ )
      if( c.chance( density, 5 ) )
        g.edges[ { g.vertices[i], g.vertices[j] } ] = static_cast<double>( c.size( 1, 40 ) ) / 4;
  if( !isolated )
  {
    std::set<unsigned> used;
    for( auto&& e : g.edges )
    {
      used.insert( e.first.first );
      used.insert( e.first.second );
    }
    g.vertices.assign( used.begin(), used.end() );
  }
  return g;
}

static std::string edgeList( pbt::Ctx& c, const Graph& g, bool weights )
{
  std::vector<std::string> lines;
  for( auto&& e : g.edges )
  {
    auto u = e.first.first, v = e.first.second;
    if( c.boolean() )
      std::swap( u, v );
    lines.push_back( std::to_string( u ) + " " + std::to_string( v ) + ( weights ? " " + text( e.second ) : "" ) + "\n" );
  }
  c.shuffle( lines );
  std::string s;
  for( auto&& l : lines )
    s += l;
  return s;
}

// --- distances and kernels between diagrams ---------------------------

LAW( distances, 900, 12000, "matrices for 1 to 5 groups of diagrams in up to three dimensions (text or JSON, direct or listed), all distances and kernels, several distance options with the last one taking effect, powers, scales, cleaning, unpaired points; non-trivial: >=2 groups and >=2 dimensions" )
{
  Folder f( c );
  auto n = c.size( 1, 5 );
  auto kind = c.pick( Words{ "h", "w", "b", "i", "E", "S" } );
  bool clean = c.chance( 1, 3 ), duplicates = c.chance( 1, 4 ), factor = c.chance( 1, 3 ), kernel = c.chance( 1, 3 ), exponential = c.chance( 1, 3 ), normalize = kind == "i" && c.chance( 1, 3 );
  bool useJSON = c.chance( 1, 3 ), list = c.chance( 1, 5 );
  double power = c.boolean() ? 2 : static_cast<double>( c.size( 2, 12 ) ) / 2;
  double sigma = c.boolean() ? 1 : static_cast<double>( c.size( 1, 12 ) ) / 4;
  double f0 = factor ? static_cast<double>( c.size( 1, 8 ) ) / 2 : 0;

  struct Set { std::string name; std::map<unsigned, dgm::Points> diagrams; };
  std::vector<Set> sets;
  Words files;
  std::vector<std::pair<std::size_t, unsigned>> owner;
  unsigned lowest = 100, highest = 0;
  std::string in;
  bool below = kind == "h" || kind == "w" || kind == "b";
  for( std::size_t i = 0; i < n; i++ )
  {
    Set s;
    s.name = std::string( "set" ) + static_cast<char>( 'a' + i );
    auto first = static_cast<unsigned>( kind == "b" ? 1 : c.size( 0, 2 ) );
    for( unsigned d = 0; d < 3; d++ )
      if( d == first || ( kind == "b" ? d == 0 : c.chance( 1, 2 ) ) )
      {
        auto p = dgm::genPoints( c, 4, 1, below, kind == "b" ? 1 : 0 );
        if( clean || factor )
          while( c.chance( 1, 4 ) )
            p.push_back( { static_cast<double>( c.size( 0, 12 ) ) / 4, inf } );
        if( kind == "E" )
          p = withoutDiagonal( p );
        s.diagrams[d] = p;
        lowest = std::min( lowest, d );
        highest = std::max( highest, d );
        in += s.name + " d" + std::to_string( d ) + " " + dgm::show( p ) + "\n";
      }
    sets.push_back( s );
  }

  // Files of a group need not be neighbours
  std::vector<std::size_t> order;
  if( useJSON )
  {
    for( std::size_t i = 0; i < n; i++ )
    {
      std::vector<dgm::Points> d;
      std::vector<unsigned> k;
      for( auto&& p : sets[i].diagrams )
      {
        k.push_back( p.first );
        d.push_back( p.second );
      }
      files.push_back( f( sets[i].name + ".json" ) );
      put( files.back(), json( d, k ) );
      order.push_back( i );
    }
  }
  else
  {
    for( std::size_t i = 0; i < n; i++ )
      for( auto&& p : sets[i].diagrams )
        owner.push_back( { i, p.first } );
    c.shuffle( owner );
    auto letter = c.pick( Words{ "d", "k" } );
    for( auto&& o : owner )
    {
      files.push_back( f( sets[ o.first ].name + "_" + letter + std::to_string( o.second ) + ".txt" ) );
      put( files.back(), file( c, sets[ o.first ].diagrams[ o.second ] ) );
      if( std::find( order.begin(), order.end(), o.first ) == order.end() )
        order.push_back( o.first );
    }
  }

  std::map<std::string, std::string> names = { { "h", "hausdorff" }, { "w", "wasserstein" }, { "b", "bottleneck" }, { "i", "indicator" }, { "E", "envelope" }, { "S", "scale-space" } };
  std::vector<Words> options;
  if( clean )       options.push_back( flag( c, "c", "clean" ) );
  if( duplicates )  options.push_back( { "-r" } );
  if( factor )      options.push_back( option( c, "f", "factor", text( f0 ) ) );
  if( kernel )      options.push_back( flag( c, "k", "kernel" ) );
  if( exponential ) options.push_back( flag( c, "e", "exp" ) );
  if( normalize )   options.push_back( flag( c, "n", "normalize" ) );
  if( power != 2 )  options.push_back( option( c, "p", "power", text( power ) ) );
  if( sigma != 1 )  options.push_back( option( c, "s", "sigma", text( sigma ) ) );
  if( list )
  {
    std::string s;
    for( auto&& x : files )
      s += x + "\n";
    put( f( "list" ), s );
    files = { f( "list" ) };
    options.push_back( flag( c, "l", "list" ) );
  }
  // The last one of several choices counts; the scale-space choice implies kernels
  Words choice;
  while( c.chance( 1, 4 ) )
  {
    auto k = c.pick( Words{ "h", "w", "b", "i", "E" } );
    auto w = flag( c, k, names[k] );
    choice.insert( choice.end(), w.begin(), w.end() );
  }
  if( kind != "h" || !choice.empty() || c.boolean() )
  {
    auto w = flag( c, kind, names[kind] );
    choice.insert( choice.end(), w.begin(), w.end() );
  }
  if( !choice.empty() )
    options.push_back( choice );
  auto arguments = mix( c, options, files );
  c.input( in + shown( f, arguments ) );
  c.label( kind );
  c.nontrivial( n >= 2 && lowest < highest );

  // Expected preparation of a diagram
  auto prepare = [&] ( dgm::Points p )
  {
    if( clean )
      p = withoutUnpaired( withoutDiagonal( p ) );
    if( duplicates )
    {
      std::sort( p.begin(), p.end() );
      p.erase( std::unique( p.begin(), p.end() ), p.end() );
    }
    if( f0 != 0 )
    {
      double max = std::numeric_limits<double>::lowest();
      for( auto&& x : p )
      {
        max = std::max( max, x.first );
        if( !std::isinf( x.second ) )
          max = std::max( max, x.second );
      }
      for( auto& x : p )
        if( std::isinf( x.second ) )
          x.second = f0 * max;
    }
    return p;
  };
  auto value = [&] ( const Set& a, const Set& b )
  {
    double sum = 0;
    for( unsigned d = lowest; d <= highest; d++ )
    {
      dgm::Points x, y;
      bool hasX = a.diagrams.count( d ), hasY = b.diagrams.count( d );
      if( hasX )
        x = prepare( a.diagrams.at( d ) );
      if( hasY )
        y = prepare( b.diagrams.at( d ) );
      if( kind == "h" )
        sum += std::pow( aleph::distances::hausdorffDistance( dgm::make<double>( x ), dgm::make<double>( y ) ), power );
      else if( kind == "w" )
        sum += dgm::optimal( x, y, dgm::linf, power, false );
      else if( kind == "b" )
      {
        // the library has no result for some diagrams (known finding of P06)
        double value = 0;
        c.assume( ( x.empty() && y.empty() ) || defect::bottleneck( x, y, value ) );
        sum += std::pow( aleph::distances::bottleneckDistance( dgm::make<double>( x ), dgm::make<double>( y ) ), power );
      }
      else if( kind == "S" )
        sum += aleph::multiScaleKernel( dgm::make<double>( x ), dgm::make<double>( y ), sigma );
      else if( kind == "i" )
      {
        aleph::math::StepFunction<double> g, h;
        if( hasX )
          g = aleph::persistenceIndicatorFunction( dgm::make<double>( withoutUnpaired( x ) ) );
        if( hasY )
          h = aleph::persistenceIndicatorFunction( dgm::make<double>( withoutUnpaired( y ) ) );
        if( normalize )
        {
          g = aleph::math::normalize( g );
          h = aleph::math::normalize( h );
        }
        auto difference = ( g + ( -h ) ).abs();
        sum += power == 1 ? difference.integral() : difference.pow( power ).integral();
      }
      else
      {
        aleph::math::PiecewiseLinearFunction<double> g, h;
        if( hasX )
          g = aleph::Envelope()( dgm::make<double>( withoutUnpaired( x ) ) );
        if( hasY )
          h = aleph::Envelope()( dgm::make<double>( withoutUnpaired( y ) ) );
        auto difference = ( g + ( -h ) ).abs();
        sum += power == 1 ? difference.integral() : difference.integral( power );
      }
    }
    if( below )
      sum = std::pow( sum, 1 / power );
    if( kernel && kind != "S" )
      sum = exponential ? std::exp( -sigma * sum ) : -sum;
    return sum;
  };
  std::vector<std::vector<double>> expected( n, std::vector<double>( n ) );
  try
  {
    for( std::size_t i = 0; i < n; i++ )
      for( std::size_t j = 0; j < n; j++ )
      {
        if( i == j && kind != "S" )
          expected[i][j] = kernel && exponential ? 1 : 0;
        else
          expected[i][j] = value( sets[ order[ std::min( i, j ) ] ], sets[ order[ std::max( i, j ) ] ] );
      }
  }
  catch( const std::runtime_error& )
  {
    throw pbt::Discard();
  }

  auto r = succeed( c, f, "topological_distance", arguments );
  auto t = table( c, r.out );
  c.equal( t.size(), n, "number of rows" );
  for( std::size_t i = 0; i < n; i++ )
  {
    c.equal( t[i].size(), n, "number of columns" );
    for( std::size_t j = 0; j < n; j++ )
      c.check( agree( t[i][j], expected[i][j] ), "entry " + std::to_string( i ) + "," + std::to_string( j ) + " of the matrix: got " + text( t[i][j] ) + " expected " + text( expected[i][j] ) );
  }
}

// --- statistics of diagrams -------------------------------------------

static Words split( const std::string& s, char separator )
{
  Words r;
  std::istringstream in( s );
  std::string w;
  while( std::getline( in, w, separator ) )
    r.push_back( w );
  return r;
}

LAW( statistics, 900, 12000, "tables for 1 to 4 diagram files with and without dimension suffix, powers, values to ignore; non-trivial: >=2 files, one with >=3 points" )
{
  Folder f( c );
  auto n = c.size( 1, 4 );
  double power = c.boolean() ? 2 : static_cast<double>( c.size( 1, 10 ) ) / 2;
  bool ignore = c.chance( 1, 3 );
  double invalid = static_cast<double>( c.around( 6 ) ) / 4;
  Words files, names;
  std::vector<unsigned> dimensions;
  std::vector<dgm::Points> diagrams;
  std::string in;
  bool large = false;
  for( std::size_t i = 0; i < n; i++ )
  {
    auto p = dgm::genPoints( c, 7, 1, true, 1, 80 );
    unsigned d = 0;
    auto name = c.pick( Words{ "a", "a_d", "x.y", "b_k2", "set" } ) + std::to_string( i ) + "x";
    auto stem = name;
    if( c.boolean() )
    {
      d = static_cast<unsigned>( c.size( 0, 12 ) );
      stem += c.pick( Words{ "_d", "_k" } ) + std::to_string( d );
    }
    files.push_back( f( stem + ".txt" ) );
    put( files.back(), file( c, p ) );
    names.push_back( name );
    dimensions.push_back( d );
    large = large || p.size() >= 3;
    in += stem + " " + dgm::show( p ) + "\n";
    if( ignore )
    {
      p.erase( std::remove_if( p.begin(), p.end(), [&] ( const dgm::P& x ) { return x.first == x.second || x.first == invalid || x.second == invalid; } ), p.end() );
      c.assume( !p.empty() );
    }
    diagrams.push_back( p );
  }
  std::vector<Words> options;
  if( ignore )
    options.push_back( option( c, "i", "invalid", text( invalid ) ) );
  if( power != 2 || c.boolean() )
    options.push_back( option( c, "p", "power", text( power ) ) );
  auto arguments = mix( c, options, files );
  c.input( in + shown( f, arguments ) );
  c.nontrivial( n >= 2 && large );

  auto r = succeed( c, f, "persistence_diagram_statistics", arguments );
  auto lines = split( r.out, '\n' );
  c.equal( lines.size(), n + 1, "number of lines" );
  auto header = split( lines[0], ',' );
  std::map<std::string, std::size_t> column;
  for( std::size_t i = 0; i < header.size(); i++ )
    column[ header[i] ] = i;
  for( std::size_t i = 0; i < n; i++ )
  {
    auto row = split( lines[i+1], ',' );
    c.equal( row.size(), header.size(), "number of columns" );
    auto entry = [&] ( const std::string& name )
    {
      c.check( column.count( name ) == 1, "column " + name + " is missing" );
      return row[ column[name] ];
    };
    auto number = [&] ( const std::string& name, double expected )
    {
      auto got = std::strtod( entry( name ).c_str(), nullptr );
      c.check( agree( got, expected ), name + " of file " + std::to_string( i ) + ": got " + entry( name ) + " expected " + text( expected ) );
    };
    c.equal( entry( "file" ), "'" + files[i] + "'", "file" );
    c.equal( entry( "name" ), names[i], "name" );
    double total = 0, norm = 0, sum = 0;
    for( auto&& x : diagrams[i] )
    {
      auto pers = x.second - x.first;
      total += std::pow( std::fabs( pers ), power );
      norm = std::max( norm, std::fabs( pers ) );
      sum += pers;
    }
    auto size = static_cast<double>( diagrams[i].size() );
    number( "dimension", dimensions[i] );
    number( "n_features", size );
    number( "power", power );
    number( "total_persistence", total );
    number( "total_persistence_normalized", total / size );
    number( "infinity_norm", norm );
    number( "average_persistence", sum / size );
  }
}

LAW( entropies, 500, 8000, "entropies of 1 to 4 diagram files; non-trivial: >=3 points" )
{
  Folder f( c );
  auto n = c.size( 1, 4 );
  Words files;
  std::vector<std::vector<double>> expected;
  std::string in;
  bool large = false;
  for( std::size_t i = 0; i < n; i++ )
  {
    auto p = dgm::genPoints( c, 7, 1, false, 2, 80 );
    for( auto& x : p )
      if( x.first == x.second )
        x.second += 1;
    files.push_back( f( "e" + std::to_string( i ) + ".txt" ) );
    put( files.back(), file( c, p ) );
    in += dgm::show( p ) + "\n";
    auto D = dgm::make<double>( p );
    expected.push_back( { aleph::nearestNeighbourAreaEntropy( D ), aleph::gridEntropy( D, 20 ), aleph::persistentEntropy( D ) } );
    large = large || p.size() >= 3;
  }
  c.input( in );
  c.nontrivial( large );
  auto r = succeed( c, f, "persistence_diagram_entropies", files );
  auto t = table( c, r.out );
  c.equal( t.size(), n, "number of lines" );
  for( std::size_t i = 0; i < n; i++ )
  {
    c.equal( t[i].size(), std::size_t( 3 ), "number of values" );
    for( std::size_t j = 0; j < 3; j++ )
      c.check( agree( t[i][j], expected[i][j] ), "entropy " + std::to_string( j ) + ": got " + text( t[i][j] ) + " expected " + text( expected[i][j] ) );
  }
}

LAW( signatures, 900, 12000, "signatures of 1 to 4 diagrams with thresholds, normalisation and number of values, empty diagrams included; non-trivial: >=3 points remain" )
{
  Folder f( c );
  auto n = c.size( 1, 4 );
  bool filter = c.chance( 1, 2 ), normalize = c.chance( 1, 3 );
  std::size_t keep = c.chance( 1, 2 ) ? c.size( 1, 12 ) : 0;
  double threshold = filter ? static_cast<double>( c.size( 1, 20 ) ) / 8 : 0;
  Words files;
  std::vector<std::vector<double>> expected;
  std::string in;
  bool large = false;
  for( std::size_t i = 0; i < n; i++ )
  {
    auto p = dgm::genPoints( c, 6, 1, true, 0, 60 );
    files.push_back( f( "s" + std::to_string( i ) + ".txt" ) );
    put( files.back(), file( c, p ) );
    in += dgm::show( p ) + "\n";
    if( filter )
      p.erase( std::remove_if( p.begin(), p.end(), [&] ( const dgm::P& x ) { return std::fabs( x.second - x.first ) < threshold; } ), p.end() );
    if( normalize && !p.empty() )
    {
      double min = inf, max = -inf;
      for( auto&& x : p )
      {
        min = std::min( { min, x.first, x.second } );
        max = std::max( { max, x.first, x.second } );
      }
      if( min != max )
        for( auto& x : p )
          x = { ( x.first - min ) / ( max - min ), ( x.second - min ) / ( max - min ) };
    }
    std::vector<double> s;
    for( std::size_t a = 0; a < p.size(); a++ )
      for( std::size_t b = a + 1; b < p.size(); b++ )
        s.push_back( std::min( { dgm::linf( p[a], p[b] ), std::fabs( p[a].second - p[a].first ), std::fabs( p[b].second - p[b].first ) } ) );
    std::sort( s.rbegin(), s.rend() );
    if( keep )
      s.resize( keep );
    expected.push_back( s );
    large = large || p.size() >= 3;
  }
  std::vector<Words> options;
  if( filter )
    options.push_back( option( c, "f", "filter", text( threshold ) ) );
  if( keep )
    options.push_back( option( c, "k", "keep", std::to_string( keep ) ) );
  if( normalize )
    options.push_back( flag( c, "n", "normalize" ) );
  auto arguments = mix( c, options, files );
  c.input( in + shown( f, arguments ) );
  c.nontrivial( large );
  auto r = succeed( c, f, "make_signature", arguments );
  auto t = table( c, r.out );
  c.equal( t.size(), n, "number of signatures" );
  for( std::size_t i = 0; i < n; i++ )
  {
    c.equal( t[i].size(), expected[i].size(), "length of signature" );
    for( std::size_t j = 0; j < t[i].size(); j++ )
      c.check( agree( t[i][j], expected[i][j] ), "signature value: got " + text( t[i][j] ) + " expected " + text( expected[i][j] ) );
  }
}

LAW( indicator_functions, 600, 8000, "indicator functions of 1 to 4 diagrams and their mean, file prefixes, unpaired points; non-trivial: >=2 files, one with >=2 points" )
{
  Folder f( c );
  auto n = c.size( 1, 4 );
  bool mean = c.boolean();
  auto prefix = c.pick( Words{ "PIF_", "p", "x_y_" } );
  Words files;
  std::vector<dgm::Points> diagrams;
  std::string in;
  bool large = false;
  for( std::size_t i = 0; i < n; i++ )
  {
    auto p = withoutDiagonal( dgm::genPoints( c, 5, 1, false, 1, 60 ) );
    diagrams.push_back( p );
    while( c.chance( 1, 4 ) )
      p.push_back( { static_cast<double>( c.around( 8 ) ) / 4, inf } );
    files.push_back( f( "i" + std::to_string( i ) + ".txt" ) );
    put( files.back(), file( c, p ) );
    in += dgm::show( p ) + "\n";
    large = large || diagrams.back().size() >= 2;
  }
  std::vector<Words> options = { option( c, "o", "output", f.out() + ( c.boolean() ? "/" : "" ) ) };
  if( prefix != "PIF_" )
    options.push_back( option( c, "p", "prefix", prefix ) );
  if( mean )
    options.push_back( flag( c, "m", "mean" ) );
  auto arguments = mix( c, options, files );
  c.input( in + shown( f, arguments ) );
  c.nontrivial( n >= 2 && large );
  succeed( c, f, "persistence_indicator_function", arguments );
  std::set<std::string> expected;
  aleph::math::StepFunction<double> sum;
  for( std::size_t i = 0; i < n; i++ )
  {
    auto name = prefix + "i" + std::to_string( i ) + ".txt";
    expected.insert( name );
    auto t = points( c, slurp( f.out() + "/" + name ) );
    // At each height: number of intervals, looked at between all end points
    std::set<double> ends;
    for( auto&& x : diagrams[i] )
    {
      ends.insert( x.first );
      ends.insert( x.second );
    }
    std::vector<double> e( ends.begin(), ends.end() );
    c.check( t.size() % 2 == 0, "intervals without end" );
    for( std::size_t k = 0; k + 1 < e.size(); k++ )
    {
      auto m = ( e[k] + e[k+1] ) / 2;
      double count = 0, got = 0;
      for( auto&& x : diagrams[i] )
        count += x.first < m && m < x.second;
      for( std::size_t j = 0; j + 1 < t.size(); j += 2 )
      {
        c.check( t[j].second == t[j+1].second, "interval with two values" );
        if( t[j].first < m && m < t[j+1].first )
          got += t[j].second;
      }
      c.check( got == count, "indicator function at " + text( m ) + ": got " + text( got ) + " expected " + text( count ) );
    }
    sum += aleph::persistenceIndicatorFunction( dgm::make<double>( diagrams[i] ) );
  }
  if( mean )
  {
    expected.insert( prefix + "mean.txt" );
    sum /= static_cast<double>( n );
    std::ostringstream o;
    o << sum;
    auto got = points( c, slurp( f.out() + "/" + prefix + "mean.txt" ) ), e = points( c, o.str() );
    c.equal( got.size(), e.size(), "mean indicator function" );
    for( std::size_t i = 0; i < e.size(); i++ )
      c.check( agree( got[i].first, e[i].first ) && agree( got[i].second, e[i].second ), "mean indicator function" );
  }
  c.check( f.outputs() == expected, "files that were written" );
}

// --- functions and graphs ---------------------------------------------

LAW( functions, 1200, 16000, "diagrams and their summaries of 1 to 4 functions with up to 12 values in 1 or 2 files or standard input, three separators, sublevel and superlevel sets, normalisation; non-trivial: >=4 values, >=2 functions" )
{
  Folder f( c );
  bool super = c.boolean(), normalize = c.chance( 1, 3 ), condense = c.chance( 1, 3 ), output = c.chance( 1, 3 );
  auto m = c.size( 1, 2 );
  Words files;
  std::string in, standard = "/dev/null";
  std::vector<std::vector<double>> functions;
  bool usedInput = false, large = false;
  for( std::size_t i = 0; i < m; i++ )
  {
    auto n = c.size( 1, 2 );
    std::string s;
    auto separator = c.pick( Words{ " ", ",", "; ", "\t", ":" } );
    for( std::size_t j = 0; j < n; j++ )
    {
      std::vector<double> v;
      auto l = c.extent( 2, 12, 100, 30 );
      auto range = static_cast<unsigned>( c.size( 1, 40 ) );
      for( std::size_t k = 0; k < l; k++ )
      {
        v.push_back( static_cast<double>( c.around( range ) ) / 4 );
        s += ( k ? separator : "" ) + text( v.back() );
      }
      s += "\n";
      functions.push_back( v );
      large = large || l >= 4;
    }
    auto name = f( "f" + std::to_string( i ) );
    put( name, s );
    in += s;
    if( !usedInput && c.chance( 1, 4 ) )
    {
      usedInput = true;
      standard = name;
      files.push_back( "-" );
    }
    else
      files.push_back( name );
  }
  std::vector<Words> options;
  if( super )
    options.push_back( flag( c, "S", "superlevels" ) );
  else if( c.boolean() )
    options.push_back( flag( c, "s", "sublevels" ) );
  if( normalize )
    options.push_back( flag( c, "n", "normalize" ) );
  if( condense )
    options.push_back( flag( c, "c", "condense" ) );
  if( output )
    options.push_back( option( c, "o", "output", f.out() + "/result" ) );
  auto arguments = mix( c, options, files );
  c.input( in + shown( f, arguments ) );
  c.nontrivial( large && functions.size() >= 2 );
  auto r = succeed( c, f, "function_analysis", arguments, standard );
  if( output )
    c.check( r.out.empty(), "output on standard output and in a file" );
  auto result = output ? slurp( f.out() + "/result" ) : r.out;

  std::vector<dgm::Points> expected;
  for( auto&& v : functions )
  {
    std::map<model::V, double> cells;
    for( std::size_t i = 0; i < v.size(); i++ )
    {
      cells[ { static_cast<unsigned>( i ) } ] = v[i];
      if( i )
        cells[ { static_cast<unsigned>( i - 1 ), static_cast<unsigned>( i ) } ] = super ? std::min( v[i-1], v[i] ) : std::max( v[i-1], v[i] );
    }
    auto min = *std::min_element( v.begin(), v.end() ), max = *std::max_element( v.begin(), v.end() );
    auto D = model::diagrams( ordered( cells, super ), false )[0];
    for( auto& p : D )
      if( std::isinf( p.second ) )
        p.second = super ? min : max;
    if( normalize && min != max )
      for( auto& p : D )
        p = { ( p.first - min ) / ( max - min ), ( p.second - min ) / ( max - min ) };
    expected.push_back( D );
  }
  if( condense )
  {
    auto t = table( c, result );
    c.equal( t.size(), expected.size(), "number of summaries" );
    for( std::size_t i = 0; i < t.size(); i++ )
    {
      double min = inf, max = -inf, sum = 0, squares = 0;
      for( auto&& p : expected[i] )
      {
        auto x = p.second - p.first;
        min = std::min( min, x );
        max = std::max( max, x );
        sum += x;
        squares += x * x;
      }
      std::vector<double> e = { min, max, sum / static_cast<double>( expected[i].size() ), std::sqrt( squares ) };
      c.equal( t[i].size(), e.size(), "length of summary" );
      for( std::size_t j = 0; j < e.size(); j++ )
        c.check( agree( t[i][j], e[j] ), "value " + std::to_string( j ) + " of summary: got " + text( t[i][j] ) + " expected " + text( e[j] ) );
    }
    return;
  }
  // Diagrams are separated by empty lines
  std::vector<dgm::Points> got;
  bool open = false;
  for( auto&& row : table( c, result ) )
  {
    if( row.empty() )
    {
      open = false;
      continue;
    }
    if( !open )
      got.push_back( {} );
    open = true;
    c.equal( row.size(), std::size_t( 2 ), "coordinates of a point" );
    got.back().push_back( { row[0], row[1] } );
  }
  c.equal( got.size(), expected.size(), "number of diagrams" );
  for( std::size_t i = 0; i < got.size(); i++ )
    same( c, got[i], expected[i], "diagram of function " + std::to_string( i ) );
}

LAW( graphs, 900, 12000, "degree filtrations of graphs with up to 9 vertices (ids with gaps), expansion up to dimension 3, zero vertex weights, loops, factor for unpaired points; non-trivial: >=4 edges" )
{
  Folder f( c );
  auto g = genGraph( c, 9, true, false );
  c.assume( !g.edges.empty() );
  bool loops = c.boolean(), zero = c.chance( 1, 3 ), weights = c.boolean();
  unsigned factor = static_cast<unsigned>( c.boolean() ? 2 : c.size( 0, 5 ) );
  unsigned dimension = static_cast<unsigned>( c.boolean() ? 1 : c.size( 1, 3 ) );
  for( auto& e : g.edges )
    e.second = std::floor( e.second );
  auto s = edgeList( c, g, weights );
  auto stem = c.pick( Words{ "graph", "g1", "a_b" } );
  auto name = f( stem + ".txt" );
  put( name, s );
  std::vector<Words> options = { option( c, "o", "output", f.out() + ( c.boolean() ? "/" : "" ) ) };
  if( factor != 2 )
    options.push_back( option( c, "f", "infinity", std::to_string( factor ) ) );
  if( loops )
    options.push_back( flag( c, "l", "loops" ) );
  if( zero )
    options.push_back( flag( c, "z", "zero" ) );
  Words files = { name };
  if( dimension != 1 || c.boolean() )
    files.push_back( std::to_string( dimension ) );
  auto arguments = mix( c, options, files );
  c.input( s + shown( f, arguments ) );
  c.nontrivial( g.edges.size() >= 4 );
  succeed( c, f, "graph_analysis", arguments );

  auto degree = g.degrees();
  unsigned max = 0;
  for( auto&& p : degree )
    max = std::max( max, p.second );
  std::map<model::V, double> cells;
  for( auto&& q : g.cliques( dimension ) )
  {
    double w = 0;
    for( auto&& v : q )
      w = std::max( w, static_cast<double>( degree[v] ) );
    cells[q] = zero && q.size() == 1 ? 0 : w;
  }
  auto diagrams = model::diagrams( ordered( cells ), loops );
  std::size_t files_ = 0;
  for( auto&& p : diagrams )
  {
    auto D = p.first == 0 ? withoutDiagonal( p.second ) : p.second;
    auto path = f.out() + "/" + stem + "_d" + std::to_string( p.first ) + ".txt";
    c.check( exists( path ), "diagram of dimension " + std::to_string( p.first ) + " has not been written" );
    files_++;
    if( factor )
      for( auto& x : D )
        if( std::isinf( x.second ) )
          x.second = static_cast<double>( factor * max );
    dgm::Points got;
    for( auto&& row : split( slurp( path ), '\n' ) )
    {
      // the largest number stands for infinity if unpaired points are kept
      std::istringstream line( row );
      double x = 0, y = 0;
      std::string yy;
      line >> x >> yy;
      y = std::strtod( yy.c_str(), nullptr );
      if( factor == 0 && y > 1e6 )
        y = inf;
      got.push_back( { x, y } );
    }
    same( c, got, D, "diagram of dimension " + std::to_string( p.first ) );
  }
  c.check( f.outputs().size() >= files_, "files that were written" );
}

static std::string gml( pbt::Ctx& c, const Graph& g, bool weights )
{
  std::vector<std::string> nodes, edges;
  for( auto&& v : g.vertices )
    nodes.push_back( "  node [\n    id " + std::to_string( v ) + "\n  ]\n" );
  for( auto&& e : g.edges )
  {
    auto u = e.first.first, v = e.first.second;
    if( c.boolean() )
      std::swap( u, v );
    edges.push_back( "  edge [\n    source " + std::to_string( u ) + "\n    target " + std::to_string( v ) + "\n" + ( weights ? "    weight " + text( e.second ) + "\n" : "" ) + "  ]\n" );
  }
  c.shuffle( edges );
  std::string s = "graph [\n  directed 0\n";
  for( auto&& x : nodes )
    s += x;
  for( auto&& x : edges )
    s += x;
  return s + "]\n";
}

LAW( betti_numbers, 600, 8000, "first Betti numbers of 1 to 4 graphs with up to 9 vertices, ids in the file names in any order; non-trivial: >=2 graphs and a cycle" )
{
  Folder f( c );
  auto n = c.size( 1, 4 );
  Words files;
  std::map<unsigned, std::size_t> expected;
  std::string in;
  bool cycle = false;
  for( std::size_t i = 0; i < n; i++ )
  {
    auto g = genGraph( c, 9, false, true, 1 );
    auto id = static_cast<unsigned>( c.size( 0, 3 ) * 10 + i );
    auto name = c.pick( Words{ "", "g", "graph_" } ) + std::to_string( id ) + c.pick( Words{ "", "x", "_7" } );
    files.push_back( f( name + ".gml" ) );
    auto s = gml( c, g, c.boolean() );
    put( files.back(), s );
    in += name + "\n" + s;
    expected[id] = g.edges.size() + g.components() - g.vertices.size();
    cycle = cycle || expected[id];
  }
  c.input( in );
  c.nontrivial( n >= 2 && cycle );
  auto r = succeed( c, f, "betti_numbers", files );
  std::map<unsigned, std::size_t> got;
  for( auto&& row : table( c, r.out ) )
  {
    if( row.empty() )
      continue;
    c.equal( row.size(), std::size_t( 2 ), "columns" );
    auto id = static_cast<unsigned>( row[0] );
    c.check( got.empty() || got.rbegin()->first < id, "ids are not in order" );
    got[id] = static_cast<std::size_t>( row[1] );
  }
  c.check( got == expected, "Betti numbers: got " + r.out );
}

LAW( connected_components, 600, 8000, "zero-dimensional diagram of a weighted graph with up to 9 vertices as edge list or GML; non-trivial: >=4 edges" )
{
  Folder f( c );
  // Ids in GML files are contiguous: the tool looks up node labels by position
  bool list = c.boolean();
  auto g = genGraph( c, 9, list, !list );
  c.assume( !g.edges.empty() );
  auto s = list ? edgeList( c, g, true ) : gml( c, g, true );
  auto name = f( list ? "graph.txt" : "graph.gml" );
  put( name, s );
  c.input( s );
  c.nontrivial( g.edges.size() >= 4 );
  std::map<model::V, double> cells;
  for( auto&& v : g.vertices )
    cells[ { v } ] = 0;
  for( auto&& e : g.edges )
    cells[ { e.first.first, e.first.second } ] = e.second;
  auto r = succeed( c, f, "relevant_edges", { name } );
  same( c, withoutDiagonal( points( c, r.out ) ), withoutDiagonal( model::diagrams( ordered( cells ), false )[0] ), "diagram" );
}

static double number( pbt::Ctx& c, const rapidjson::Value& v )
{
  if( v.IsNumber() )
    return v.GetDouble();
  c.check( v.IsString(), "value that is neither a number nor a string" );
  char* end = nullptr;
  auto x = std::strtod( v.GetString(), &end );
  c.check( *end == 0, "value that is not a number" );
  return x;
}

struct Entry
{
  unsigned dimension, size;
  long betti;
  std::string name;
  dgm::Points points;
  std::map<std::string, double> other;
};

static std::vector<Entry> entries( pbt::Ctx& c, const std::string& s )
{
  rapidjson::Document d;
  d.Parse( s.c_str() );
  c.check( !d.HasParseError() && d.IsObject(), "output is not a JSON document" );
  c.check( d.HasMember( "diagrams" ) && d["diagrams"].IsArray(), "no diagrams in the output" );
  std::vector<Entry> r;
  for( auto&& x : d["diagrams"].GetArray() )
  {
    Entry e;
    e.dimension = x["dimension"].GetUint();
    e.size = x["size"].GetUint();
    e.betti = x["betti"].GetInt();
    e.name = x["name"].GetString();
    for( auto&& p : x["diagram"].GetArray() )
      e.points.push_back( { number( c, p[0] ), number( c, p[1] ) } );
    for( auto&& k : { "total_persistence_1", "total_persistence_2" } )
      if( x.HasMember( k ) )
        e.other[k] = number( c, x[k] );
    r.push_back( e );
  }
  return r;
}

LAW( connectivity, 700, 10000, "diagrams of 1 to 3 symmetric matrices with up to 8 rows, zeros, value for unpaired points, unpaired loops kept or not; non-trivial: >=4 edges" )
{
  Folder f( c );
  auto m = c.size( 1, 3 );
  bool keep = c.boolean(), replace = c.boolean();
  double value = static_cast<double>( c.size( 1, 40 ) ) / 2;
  Words files;
  std::string in;
  std::vector<std::pair<std::string, std::map<std::size_t, model::Diagram>>> expected;
  bool large = false;
  for( std::size_t k = 0; k < m; k++ )
  {
    auto n = c.size( 2, 8 );
    std::vector<std::vector<double>> M( n, std::vector<double>( n, 0.0 ) );
    auto density = c.size( 1, 4 );
    double max = 0;
    std::size_t edges = 0;
    for( std::size_t i = 0; i < n; i++ )
      for( std::size_t j = i + 1; j < n; j++ )
        if( c.chance( density, 4 ) )
        {
          M[i][j] = M[j][i] = static_cast<double>( c.size( 1, 40 ) ) / 4;
          max = std::max( max, M[i][j] );
          edges++;
        }
    std::string s;
    for( auto&& row : M )
    {
      for( std::size_t j = 0; j < n; j++ )
        s += ( j ? " " : "" ) + text( row[j] );
      s += "\n";
    }
    auto name = "m" + std::to_string( k ) + ".txt";
    files.push_back( f( name ) );
    put( files.back(), s );
    in += s + "\n";
    std::map<model::V, double> cells;
    for( unsigned i = 0; i < n; i++ )
    {
      cells[ { i } ] = 0;
      for( unsigned j = i + 1; j < n; j++ )
        if( M[i][j] != 0 )
          cells[ { i, j } ] = max - M[i][j];
    }
    c.assume( edges > 0 );
    expected.push_back( { name, model::diagrams( ordered( cells ), keep ) } );
    large = large || edges >= 4;
  }
  std::vector<Words> options;
  if( keep )
    options.push_back( flag( c, "k", "keep-unpaired" ) );
  if( replace )
    options.push_back( option( c, "i", "infinity", text( value ) ) );
  auto arguments = mix( c, options, files );
  c.input( in + shown( f, arguments ) );
  c.nontrivial( large );
  auto r = succeed( c, f, "connectivity_matrix_analysis", arguments );
  auto got = entries( c, r.out );
  std::size_t used = 0;
  for( auto&& e : expected )
    for( auto&& p : e.second )
    {
      auto D = p.second;
      long betti = 0;
      double total1 = 0, total2 = 0;
      for( auto& x : D )
      {
        if( std::isinf( x.second ) )
        {
          betti++;
          if( replace )
            x.second = value;
        }
        if( !std::isinf( x.second ) )
        {
          total1 += std::fabs( x.second - x.first );
          total2 += std::pow( x.second - x.first, 2 );
        }
      }
      const Entry* found = nullptr;
      for( auto&& g : got )
        if( g.name == e.first && g.dimension == p.first )
          found = &g;
      c.check( found != nullptr, "no diagram of dimension " + std::to_string( p.first ) + " for " + e.first );
      used++;
      same( c, found->points, D, "diagram of " + e.first + " in dimension " + std::to_string( p.first ) );
      c.equal( static_cast<std::size_t>( found->size ), D.size(), "size" );
      c.equal( found->betti, replace ? 0L : betti, "Betti number" );
      if( replace || betti == 0 )
      {
        c.check( std::fabs( found->other.at( "total_persistence_1" ) - total1 ) < 1e-4, "total persistence" );
        c.check( std::fabs( found->other.at( "total_persistence_2" ) - total2 ) < 1e-4 * ( 1 + total2 ), "total persistence (squares)" );
      }
    }
  for( auto&& g : got )
    if( g.points.empty() )
      used++;
  c.check( got.size() <= used, "additional diagrams" );
}

LAW( graph_collections, 500, 7000, "degree filtrations of collections of 1 to 4 graphs with up to 12 vertices, superlevel sets, sums, normalisation, expansion, factor for unpaired points, labels; non-trivial: >=2 graphs and >=4 edges" )
{
  Folder f( c );
  auto graphs = c.size( 1, 4 );
  auto n = c.size( graphs * 2, 12 );
  auto mode = c.draw( 3 );   // 0 maximum, 1 superlevel sets, 2 sum
  bool normalise = c.chance( 1, 3 );
  double factor = c.boolean() ? 2 : static_cast<double>( c.size( 1, 6 ) ) / 2;
  unsigned dimension = static_cast<unsigned>( c.chance( 1, 3 ) ? c.size( 1, 3 ) : 0 );

  std::vector<std::size_t> owner;
  for( std::size_t i = 0; i < n; i++ )
    owner.push_back( i < 2 * graphs ? i / 2 : c.draw( graphs ) );
  std::sort( owner.begin(), owner.end() );
  std::vector<Graph> g( graphs );
  std::string text_, indicator, labels;
  std::size_t edges = 0;
  auto density = c.size( 1, 4 );
  for( std::size_t i = 0; i < n; i++ )
  {
    indicator += std::to_string( owner[i] + 1 ) + "\n";
    g[ owner[i] ].vertices.push_back( static_cast<unsigned>( i + 1 ) );
    for( std::size_t j = i + 1; j < n; j++ )
      // every graph has at least one edge
      if( owner[i] == owner[j] && ( g[ owner[i] ].edges.empty() || c.chance( density, 5 ) ) )
      {
        g[ owner[i] ].edges[ { static_cast<unsigned>( i + 1 ), static_cast<unsigned>( j + 1 ) } ] = 1;
        text_ += std::to_string( i + 1 ) + ", " + std::to_string( j + 1 ) + "\n";
        if( c.boolean() )
          text_ += std::to_string( j + 1 ) + ", " + std::to_string( i + 1 ) + "\n";
        edges++;
      }
  }
  for( std::size_t i = 0; i < graphs; i++ )
    labels += c.pick( Words{ "1", "-1", "a" } ) + "\n";
  put( f( "set_A.txt" ), text_ );
  put( f( "set_graph_indicator.txt" ), indicator );
  put( f( "set_graph_labels.txt" ), labels );
  std::vector<Words> options = { option( c, "o", "output", f.out() ) };
  if( mode == 1 )
    options.push_back( flag( c, "S", "superlevel" ) );
  if( mode == 2 )
    options.push_back( flag( c, "s", "sum" ) );
  if( normalise )
    options.push_back( flag( c, "N", "normalise" ) );
  if( factor != 2 )
    options.push_back( option( c, "f", "infinity", text( factor ) ) );
  if( dimension )
    options.push_back( option( c, "d", "dimension", std::to_string( dimension ) ) );
  auto arguments = mix( c, options, { f( "set_A.txt" ) } );
  c.input( text_ + indicator + labels + shown( f, arguments ) );
  c.nontrivial( graphs >= 2 && edges >= 4 );
  succeed( c, f, "sparse_adjacency_matrices", arguments );

  // Degrees count all simplices that contain a vertex
  double max = 0;
  std::vector<std::map<model::V, double>> cells( graphs );
  for( std::size_t i = 0; i < graphs; i++ )
  {
    auto cliques = g[i].cliques( std::max( 1u, dimension ) );
    std::map<unsigned, double> degree;
    double local = 0;
    for( auto&& q : cliques )
      if( q.size() > 1 )
        for( auto&& v : q )
          local = std::max( local, ++degree[v] );
    max = std::max( max, local );
    for( auto&& q : cliques )
    {
      double w = mode == 2 ? 0 : mode == 1 ? inf : -inf;
      for( auto&& v : q )
      {
        auto x = normalise ? degree[v] / local : degree[v];
        w = mode == 2 ? w + x : mode == 1 ? std::min( w, x ) : std::max( w, x );
      }
      cells[i][q] = w;
    }
  }
  if( normalise )
    max = 1;
  c.check( slurp( f.out() + "/Labels.txt" ) == labels, "graph labels" );
  for( std::size_t i = 0; i < graphs; i++ )
  {
    // sums of vertex degrees grow with the dimension, so this is a filtration as well
    auto D = model::diagrams( ordered( cells[i], mode == 1 ), true );
    for( auto&& p : D )
    {
      auto path = f.out() + "/" + std::to_string( i ) + "_d" + std::to_string( p.first ) + ".txt";
      c.check( exists( path ), "diagram of dimension " + std::to_string( p.first ) + " has not been written" );
      auto expected = withoutDiagonal( p.second );
      for( auto& x : expected )
        if( std::isinf( x.second ) )
          x.second = factor * max;
      same( c, points( c, slurp( path ) ), expected, "graph " + std::to_string( i ) + " dimension " + std::to_string( p.first ) );
    }
  }
}

LAW( clique_communities, 500, 7000, "clique community diagrams of weighted graphs with up to 8 vertices and cliques up to dimension 3, inverted and normalised weights, both enumeration orders; non-trivial: a triangle" )
{
  Folder f( c );
  auto g = genGraph( c, 8, true, false, 3 );
  c.assume( !g.edges.empty() );
  auto K = static_cast<unsigned>( c.size( 1, 3 ) );
  bool ignore = c.chance( 2, 3 ), invert = c.chance( 1, 3 ), normalize = c.chance( 1, 3 ), reverse = c.chance( 1, 3 );
  auto s = edgeList( c, g, true );
  static unsigned counter = 0;
  auto stem = "aleph_verif_" + std::to_string( getpid() ) + "_" + std::to_string( counter++ );
  auto name = f( stem + ".txt" );
  put( name, s );
  std::vector<Words> options;
  if( ignore )
    options.push_back( flag( c, "e", "ignore-empty" ) );
  if( invert )
    options.push_back( flag( c, "i", "invert-weights" ) );
  if( normalize )
    options.push_back( flag( c, "n", "normalize" ) );
  if( reverse )
    options.push_back( flag( c, "r", "reverse" ) );
  auto arguments = mix( c, options, { name, std::to_string( K ) } );
  std::vector<Words> shownOptions = options;
  std::string o;
  for( auto&& w : options )
    o += join( w ) + " ";
  c.input( s + o + std::to_string( K ) );

  double max = 0;
  for( auto&& e : g.edges )
    max = std::max( max, e.second );
  auto weight = [&] ( double w )
  {
    auto m = max;
    if( normalize )
    {
      w = w / m;
      m = 1;
    }
    return invert ? m - w : w;
  };
  double last = 2 * ( normalize ? 1 : max );

  succeed( c, f, "clique_persistence_diagram", arguments );

  auto cliques = g.cliques( K );
  bool stopped = false;
  for( unsigned k = K; k >= 1; k-- )
  {
    std::vector<model::V> nodes;
    for( auto&& q : cliques )
      if( q.size() == k + 1 )
        nodes.push_back( q );
    if( nodes.empty() && !ignore )
      stopped = true;
    auto path = f.out() + "/" + stem + "_k" + std::to_string( k ) + ".txt";
    if( nodes.empty() || stopped )
    {
      c.check( !exists( path ), "diagram for k=" + std::to_string( k ) + " should not have been written" );
      continue;
    }
    c.check( exists( path ), "diagram for k=" + std::to_string( k ) + " has not been written" );
    std::vector<double> w;
    for( auto&& q : nodes )
    {
      double x = -inf;
      for( std::size_t a = 0; a < q.size(); a++ )
        for( std::size_t b = a + 1; b < q.size(); b++ )
          x = std::max( x, weight( g.edges[ { q[a], q[b] } ] ) );
      w.push_back( x );
    }
    std::map<model::V, double> cells;
    for( unsigned a = 0; a < nodes.size(); a++ )
    {
      cells[ { a } ] = w[a];
      for( unsigned b = a + 1; b < nodes.size(); b++ )
      {
        std::vector<unsigned> common;
        std::set_intersection( nodes[a].begin(), nodes[a].end(), nodes[b].begin(), nodes[b].end(), std::back_inserter( common ) );
        if( common.size() == k )
          cells[ { a, b } ] = std::max( w[a], w[b] );
      }
    }
    auto D = withoutDiagonal( model::diagrams( ordered( cells ), true )[0] );
    std::size_t unpaired = 0;
    for( auto& x : D )
      if( std::isinf( x.second ) )
      {
        unpaired++;
        x.second = last;
      }
    std::string body;
    for( auto&& line : split( slurp( path ), '\n' ) )
      if( line.empty() || line[0] != '#' )
        body += line + "\n";
    auto t = table( c, body );
    dgm::Points got;
    double total = 0;
    for( auto&& row : t )
    {
      c.equal( row.size(), std::size_t( 3 ), "columns" );
      got.push_back( { row[0], row[1] } );
      if( got.size() + unpaired > t.size() )
        total += row[2];
      c.check( row[2] >= 1 && row[2] <= static_cast<double>( nodes.size() ), "size of a community" );
    }
    same( c, got, D, "diagram for k=" + std::to_string( k ) );
    // All cliques belong to one of the communities that persist
    if( std::fabs( total - static_cast<double>( nodes.size() ) ) > 0.5 )
    {
      double any = 0;
      for( auto&& row : t )
        if( agree( row[1], last ) )
          any += row[2];
      c.check( std::fabs( any - static_cast<double>( nodes.size() ) ) < 0.5, "sizes of the communities for k=" + std::to_string( k ) );
    }
    c.nontrivial( K >= 2 && k >= 2 );
  }
}

LAW( community_lists, 500, 7000, "clique communities of weighted graphs with up to 8 vertices below a threshold, cliques up to dimension 3, inverted and normalised weights, labels; non-trivial: two communities of triangles or two of edges" )
{
  Folder f( c );
  auto g = genGraph( c, 8, true, false, 3 );
  c.assume( !g.edges.empty() );
  auto K = static_cast<unsigned>( c.size( 1, 3 ) );
  bool invert = c.chance( 1, 3 ), normalize = c.chance( 1, 3 ), asGML = c.boolean(), labels = asGML && c.boolean();

  std::map<unsigned, std::string> names;
  std::string s;
  if( asGML )
  {
    s = gml( c, g, true );
    if( labels )
      for( auto&& v : g.vertices )
      {
        names[v] = c.pick( Words{ "n", "Vertex", "x_" } ) + std::to_string( c.size( 0, 3 ) );
        auto id  = "    id " + std::to_string( v ) + "\n";
        s.insert( s.find( id ) + id.size(), "    label \"" + names[v] + "\"\n" );
      }
  }
  else
    s = edgeList( c, g, true );

  double max = 0;
  for( auto&& e : g.edges )
    max = std::max( max, e.second );
  auto weight = [&] ( double w )
  {
    auto m = max;
    if( normalize )
    {
      w = w / m;
      m = 1;
    }
    return invert ? m - w : w;
  };

  // The threshold coincides with a weight only if the weights are exact
  double threshold = static_cast<double>( c.size( 0, 44 ) ) / 4;
  if( normalize )
    threshold = static_cast<double>( c.size( 0, 100 ) ) / 100;
  for( auto&& e : g.edges )
    c.assume( !normalize || std::fabs( weight( e.second ) - threshold ) > 1e-9 );

  auto name = f( asGML ? "graph.gml" : "graph.txt" );
  put( name, s );
  std::vector<Words> options;
  if( invert )
    options.push_back( flag( c, "i", "invert-weights" ) );
  if( normalize )
    options.push_back( flag( c, "n", "normalize" ) );
  if( labels )
    options.push_back( flag( c, "l", "labels" ) );
  auto arguments = mix( c, options, { name, text( threshold ), std::to_string( K ) } );
  c.input( s + shown( f, arguments ) );
  auto r = succeed( c, f, "clique_communities_to_json", arguments );

  rapidjson::Document d;
  d.Parse( r.out.c_str() );
  c.check( !d.HasParseError() && d.IsObject() && d.MemberCount() == 1, "output is not a JSON document with one member: " + r.out );
  c.check( agree( std::strtod( d.MemberBegin()->name.GetString(), nullptr ), threshold ), "threshold" );
  auto&& lists = d.MemberBegin()->value;
  c.check( lists.IsObject(), "no object for the threshold" );
  c.equal( static_cast<unsigned>( lists.MemberCount() ), K, "number of clique sizes" );

  auto h = g;
  for( auto it = h.edges.begin(); it != h.edges.end(); )
    it = weight( it->second ) > threshold ? h.edges.erase( it ) : std::next( it );

  bool several = false;
  for( unsigned k = 1; k <= K; k++ )
  {
    std::vector<model::V> nodes;
    for( auto&& q : h.cliques( K ) )
      if( q.size() == k + 1 )
        nodes.push_back( q );
    std::vector<std::size_t> group( nodes.size() );
    for( std::size_t i = 0; i < group.size(); i++ )
      group[i] = i;
    for( bool changed = true; changed; )
    {
      changed = false;
      for( std::size_t a = 0; a < nodes.size(); a++ )
        for( std::size_t b = 0; b < nodes.size(); b++ )
        {
          model::V common;
          std::set_intersection( nodes[a].begin(), nodes[a].end(), nodes[b].begin(), nodes[b].end(), std::back_inserter( common ) );
          if( common.size() == k && group[b] < group[a] )
          {
            group[a] = group[b];
            changed  = true;
          }
        }
    }
    // Labels need not be unique, so communities are lists of lists of names
    auto show = [&] ( unsigned v ) { return labels ? names[v] : std::to_string( v ); };
    using Clique = std::vector<std::string>;
    std::map<std::size_t, std::vector<Clique>> communities;
    for( std::size_t i = 0; i < nodes.size(); i++ )
    {
      Clique q;
      for( auto&& v : nodes[i] )
        q.push_back( show( v ) );
      std::sort( q.begin(), q.end() );
      communities[ group[i] ].push_back( q );
    }
    std::vector<std::vector<Clique>> expected, got;
    for( auto&& x : communities )
    {
      std::sort( x.second.begin(), x.second.end() );
      expected.push_back( x.second );
    }
    several = several || expected.size() >= 2;
    auto key = std::to_string( k + 1 );
    c.check( lists.HasMember( key.c_str() ) && lists[ key.c_str() ].IsArray(), "no list of cliques with " + key + " vertices" );
    for( auto&& x : lists[ key.c_str() ].GetArray() )
    {
      c.check( x.IsArray(), "community is not a list" );
      std::vector<Clique> community;
      for( auto&& y : x.GetArray() )
      {
        c.check( y.IsArray(), "clique is not a list" );
        Clique q;
        for( auto&& z : y.GetArray() )
        {
          c.check( labels ? z.IsString() : z.IsUint(), "kind of the vertices" );
          q.push_back( labels ? std::string( z.GetString() ) : std::to_string( z.GetUint() ) );
        }
        std::sort( q.begin(), q.end() );
        community.push_back( q );
      }
      std::sort( community.begin(), community.end() );
      got.push_back( community );
    }
    std::sort( expected.begin(), expected.end() );
    std::sort( got.begin(), got.end() );
    c.check( got == expected, "communities of cliques with " + key + " vertices: " + r.out );
  }
  c.nontrivial( several );
}

LAW( descriptors, 250, 4000, "Rips complexes of 3 to 8 points filtered by a data descriptor, JSON output, inverted and normalised values, without unpaired points; non-trivial: >=5 points" )
{
  Folder f( c );
  auto d = static_cast<std::size_t>( c.size( 1, 3 ) );
  auto n = c.size( 3, 8 );
  std::vector<std::vector<double>> P;
  std::set<std::vector<double>> seen;
  while( P.size() < n )
  {
    std::vector<double> x;
    for( std::size_t j = 0; j < d; j++ )
      x.push_back( static_cast<double>( c.around( 20 ) ) );
    if( seen.insert( x ).second )
      P.push_back( x );
    else
      c.assume( P.size() + 1 < n || n <= 3 ? true : false );
  }
  auto name = c.pick( Words{ "eccentricity", "density", "gaussian" } );
  bool invert = c.chance( 1, 3 ), normalize = c.chance( 1, 3 ), unpaired = c.chance( 1, 2 );
  unsigned k = static_cast<unsigned>( c.size( 1, n - 1 ) ), p = static_cast<unsigned>( c.size( 1, 3 ) );
  double h = static_cast<double>( c.size( 1, 80 ) );
  double epsilon = static_cast<double>( c.size( 1, 30 ) ) + 0.3;
  unsigned dimension = static_cast<unsigned>( c.size( 1, 3 ) );
  std::string s;
  for( auto&& x : P )
  {
    for( std::size_t j = 0; j < d; j++ )
      s += ( j ? " " : "" ) + text( x[j] );
    s += "\n";
  }
  auto path = f( "cloud.txt" );
  put( path, s );
  std::vector<Words> options = { option( c, "D", "dimension", std::to_string( dimension ) ), option( c, "e", "epsilon", text( epsilon ) ), option( c, "d", "descriptor", name ) };
  options.push_back( option( c, "k", "k", std::to_string( k ) ) );
  options.push_back( option( c, "p", "power", std::to_string( p ) ) );
  options.push_back( option( c, "b", "bandwidth", text( h ) ) );
  if( invert )
    options.push_back( flag( c, "i", "invert" ) );
  if( normalize )
    options.push_back( flag( c, "n", "normalize" ) );
  if( unpaired )
    options.push_back( flag( c, "r", "remove-unpaired" ) );
  auto arguments = mix( c, options, { path } );
  c.input( s + shown( f, arguments ) );
  c.label( name );
  c.nontrivial( n >= 5 );

  auto distance = [&] ( std::size_t i, std::size_t j )
  {
    double r = 0;
    for( std::size_t t = 0; t < d; t++ )
      r += ( P[i][t] - P[j][t] ) * ( P[i][t] - P[j][t] );
    return std::sqrt( r );
  };
  using Cloud = aleph::containers::PointCloud<double>;
  Cloud cloud( n, d );
  for( std::size_t i = 0; i < n; i++ )
    cloud.set( i, P[i].begin(), P[i].end() );
  using Distance = aleph::geometry::distances::Euclidean<double>;
  std::vector<double> values;
  if( name == "density" )
    values = aleph::containers::estimateDensityDistanceToMeasure<Distance>( cloud, k );
  else if( name == "eccentricity" )
    values = aleph::containers::eccentricities<Distance>( cloud, p );
  else
    values = aleph::containers::estimateDensityTruncatedGaussian( cloud, h );
  if( invert )
  {
    auto max = *std::max_element( values.begin(), values.end() );
    for( auto& x : values )
      x = max - x;
  }
  if( normalize )
  {
    auto min = *std::min_element( values.begin(), values.end() ), max = *std::max_element( values.begin(), values.end() );
    if( min != max )
      for( auto& x : values )
        x = ( x - min ) / ( max - min );
  }
  Graph g;
  for( unsigned i = 0; i < n; i++ )
  {
    g.vertices.push_back( i );
    for( unsigned j = i + 1; j < n; j++ )
      if( distance( i, j ) <= epsilon )
        g.edges[ { i, j } ] = 1;
  }
  // Values that differ by rounding only decide about points on the diagonal
  auto sorted = values;
  std::sort( sorted.begin(), sorted.end() );
  for( std::size_t i = 1; i < n; i++ )
    c.assume( sorted[i] == sorted[i-1] || sorted[i] - sorted[i-1] > 1e-5 * ( 1e-3 + std::fabs( sorted[i] ) ) );
  std::map<model::V, double> cells;
  for( auto&& q : g.cliques( dimension ) )
  {
    double w = -inf;
    for( auto&& v : q )
      w = std::max( w, values[v] );
    cells[q] = w;
  }
  auto expected = model::diagrams( ordered( cells ), false );
  auto r = succeed( c, f, "point_cloud_data_descriptors", arguments );
  auto got = entries( c, r.out );
  for( auto&& p : expected )
  {
    auto D = withoutDiagonal( p.second );
    if( unpaired )
      D = withoutUnpaired( D );
    const Entry* found = nullptr;
    for( auto&& e : got )
      if( e.dimension == p.first )
        found = &e;
    c.check( found != nullptr || D.empty(), "no diagram of dimension " + std::to_string( p.first ) );
    if( found )
    {
      same( c, found->points, D, "diagram of dimension " + std::to_string( p.first ) );
      c.equal( static_cast<std::size_t>( found->size ), D.size(), "size" );
    }
  }
  for( auto&& e : got )
    c.check( expected.count( e.dimension ) || e.points.empty(), "additional diagram" );
}

// --- errors -----------------------------------------------------------

LAW( unreadable, 280, 2800, "every tool with a file that does not exist or without arguments: it has to fail in an orderly manner; non-trivial: all" )
{
  Folder f( c );
  auto tool = c.pick( Words{ "betti_numbers", "topological_distance", "persistence_diagram_statistics", "persistence_diagram_entropies", "persistence_indicator_function", "function_analysis", "graph_analysis", "make_signature", "relevant_edges", "connectivity_matrix_analysis", "sparse_adjacency_matrices", "clique_persistence_diagram", "clique_communities_to_json", "point_cloud_data_descriptors" } );
  auto name = f( c.pick( Words{ "missing1", "a", "b_d0" } ) + c.pick( Words{ ".txt", ".gml" } ) );
  if( tool == "topological_distance" )
    name = f( c.pick( Words{ "missing.txt", "missing_d1.txt", "missing.json" } ) );
  Words arguments = { name };
  bool none = c.chance( 1, 4 ) && tool != "make_signature";
  if( none )
    arguments = {};
  else if( tool == "clique_persistence_diagram" )
    arguments.push_back( "2" );
  else if( tool == "clique_communities_to_json" )
    arguments.insert( arguments.end(), { "1", "2" } );
  else if( tool == "topological_distance" && c.chance( 1, 3 ) )
    arguments.insert( arguments.begin(), "-l" );
  if( !none && ( tool == "persistence_indicator_function" || tool == "graph_analysis" || tool == "sparse_adjacency_matrices" ) )
    arguments.insert( arguments.begin(), "--output=" + f.out() );
  c.input( tool + " " + shown( f, arguments ) );
  c.label( tool );
  c.nontrivial( true );
  auto r = run( c, f, tool, arguments );
  c.check( r.exit != 0, tool + " succeeds without readable input" );
  c.check( r.exit != 126, "tool cannot be run" );
  c.check( r.exit > 0 || r.signal == SIGABRT, tool + " is terminated by signal " + std::to_string( r.signal ) );
  if( tool != "connectivity_matrix_analysis" )
    c.check( r.out.find_first_of( "0123456789" ) == std::string::npos || none, tool + " reports results: " + r.out );
}
