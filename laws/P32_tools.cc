// flags: -I/usr/include/eigen3 -llz4
// tools: rips_distributions local_dimensionality spectral_analysis persistent_spines piecewise_linear_function_smoothing persistence_indicator_function_confidence_sets persistence_indicator_function_glyph interlevel_set_persistence_hierarchy stratified_graph_analysis ephemeral process_image_patches persistent_intersection_homology multi_scale_skeleton wicked_triangulations cover_tree mean_curvature
// Command-line tools for point clouds, spectra, samples of functions, and
// weighted networks report what is defined by the data in their input files.
#include "clouds.hh"
#include "diagrams.hh"
#include "model.hh"
#include "process.hh"

#include <aleph/math/KahanSummation.hh>
#include <aleph/containers/DimensionalityEstimators.hh>
#include <aleph/containers/MeanShift.hh>
#include <aleph/containers/PointCloud.hh>
#include <aleph/geometry/BruteForce.hh>
#include <aleph/geometry/CechComplex.hh>
#include <aleph/geometry/distances/Euclidean.hh>
#include <aleph/persistentHomology/ExtendedPersistenceHierarchy.hh>
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>
#include <aleph/topology/filtrations/Data.hh>

#include <rapidjson/document.h>

#include <algorithm>
#include <cmath>
#include <map>
#include <set>
#include <sstream>

using Cloud = aleph::containers::PointCloud<double>;
using Euclidean  = aleph::geometry::distances::Euclidean<double>;
using Neighbours = aleph::geometry::BruteForce<Cloud, Euclidean>;

static double distance( const cloud::Row& a, const cloud::Row& b, bool manhattan = false )
{
  double s = 0;
  for( std::size_t i = 0; i < a.size(); i++ )
    s += manhattan ? std::fabs( a[i] - b[i] ) : ( a[i] - b[i] ) * ( a[i] - b[i] );
  return manhattan ? s : std::sqrt( s );
}

// Coordinates with few digits, so that their text is exact
static cloud::Rows genCloud( pbt::Ctx& c, std::size_t minimum, std::size_t maximum, std::size_t d, unsigned range = 400 )
{
  auto n = c.size( minimum, maximum );
  cloud::Rows r( n );
  for( auto&& x : r )
    for( std::size_t j = 0; j < d; j++ )
      x.push_back( static_cast<double>( c.around( range ) ) / 32 );
  return r;
}

static std::string cloudText( pbt::Ctx& c, const cloud::Rows& r )
{
  auto separator = c.pick( Words{ " ", "\t", ",", " ; " } );
  std::ostringstream o;
  o.precision( 12 );
  if( c.chance( 1, 5 ) )
    o << "# points\n";
  for( auto&& x : r )
  {
    for( std::size_t j = 0; j < x.size(); j++ )
      o << ( j ? separator : "" ) << x[j];
    o << "\n";
  }
  return o.str();
}

// All distances are different, and so are their squares
static bool generic( const cloud::Rows& r )
{
  std::vector<double> d;
  for( std::size_t i = 0; i < r.size(); i++ )
    for( std::size_t j = 0; j < i; j++ )
      d.push_back( distance( r[i], r[j] ) );
  std::sort( d.begin(), d.end() );
  for( std::size_t i = 0; i < d.size(); i++ )
    if( d[i] - ( i ? d[i-1] : 0 ) < 1e-6 )
      return false;
  return true;
}

// Blocks of lines that are separated by empty lines
static std::vector<std::string> blocks( const std::string& s )
{
  std::vector<std::string> r;
  std::istringstream in( s );
  std::string line;
  bool inside = false;
  while( std::getline( in, line ) )
  {
    if( line.empty() )
    {
      inside = false;
      continue;
    }
    if( !inside )
      r.push_back( "" );
    inside = true;
    r.back() += line + "\n";
  }
  return r;
}

static void column( pbt::Ctx& c, const std::vector<double>& got, const std::vector<double>& expected, const std::string& what )
{
  c.equal( got.size(), expected.size(), "number of values, " + what );
  for( std::size_t i = 0; i < got.size(); i++ )
    c.check( agree( got[i], expected[i] ), what + ": value " + std::to_string( i ) + " is " + text( got[i] ) + " instead of " + text( expected[i] ) );
}

// --- point clouds -----------------------------------------------------

LAW( distributions, 640, 6000, "squared distances and degrees of neighbourhood graphs of 1 to 14 points in 1 to 3 dimensions, two distances, radii between the distances; non-trivial: >=4 points and some but not all points are neighbours" )
{
  Folder f( c );
  auto d = c.size( 1, 3 );
  auto r = genCloud( c, 1, 14, d, c.boolean() ? 400 : 64 );
  bool manhattan = c.boolean(), degrees = c.chance( 3, 4 );
  auto n = r.size();
  std::vector<double> squared, all{ 0 };
  for( std::size_t i = 0; i < n; i++ )
    for( std::size_t j = i + 1; j < n; j++ )
    {
      auto x = distance( r[i], r[j], manhattan );
      squared.push_back( x * x );
      all.push_back( x );
    }
  std::sort( all.begin(), all.end() );
  auto k = c.draw( all.size() );
  double epsilon = k + 1 < all.size() ? ( all[k] + all[k+1] ) / 2 : all[k] + 1;
  epsilon = static_cast<double>( static_cast<long>( epsilon * 4096 ) ) / 4096;
  if( degrees )
    for( auto&& x : all )
      c.assume( std::fabs( x - epsilon ) > 1e-3 );
  put( f( "points.txt" ), cloudText( c, r ) );
  std::vector<Words> options;
  if( manhattan || c.chance( 1, 3 ) )
    options.push_back( option( c, "d", "distance", manhattan ? "manhattan" : "euclidean" ) );
  std::ostringstream e;
  e.precision( 12 );
  e << epsilon;
  if( degrees )
    options.push_back( option( c, "e", "epsilon", e.str() ) );
  auto arguments = mix( c, options, { f( "points.txt" ) } );
  c.input( slurp( f( "points.txt" ) ) + shown( f, arguments ) );
  auto result = succeed( c, f, "rips_distributions", arguments );
  rapidjson::Document document;
  document.Parse( result.out.c_str() );
  c.check( !document.HasParseError() && document.IsObject(), "output is not a JSON object: " + result.out.substr( 0, 200 ) );
  auto array = [&] ( const char* name )
  {
    std::vector<double> v;
    c.check( document.HasMember( name ) && document[name].IsArray(), std::string( "no array " ) + name );
    for( auto it = document[name].Begin(); it != document[name].End(); ++it )
    {
      c.check( it->IsNumber(), std::string( "not a number in " ) + name );
      v.push_back( it->GetDouble() );
    }
    return v;
  };
  // The order of pairs is not specified
  auto got = array( "distances" );
  std::sort( got.begin(), got.end() );
  std::sort( squared.begin(), squared.end() );
  column( c, got, squared, "squared distances" );
  bool some = false, others = false;
  if( degrees )
  {
    std::vector<double> unweighted, weighted;
    for( std::size_t i = 0; i < n; i++ )
    {
      double u = 0, w = 0;
      for( std::size_t j = 0; j < n; j++ )
      {
        auto x = distance( r[i], r[j], manhattan );
        ( x < epsilon ? some : others ) |= i != j;
        if( x < epsilon )
        {
          u += 1;
          w += x;
        }
      }
      unweighted.push_back( u );
      weighted.push_back( w );
    }
    column( c, array( "unweighted_degrees" ), unweighted, "degrees" );
    column( c, array( "weighted_degrees" ), weighted, "weighted degrees" );
  }
  else
    c.check( !document.HasMember( "unweighted_degrees" ) && !document.HasMember( "weighted_degrees" ), "degrees without radius" );
  c.nontrivial( n >= 4 && ( !degrees || ( some && others ) ) );
}

LAW( dimensionality, 640, 6000, "local dimensionality estimates of 6 to 16 points in 1 to 3 dimensions, three methods, optional smoothing, compared with the estimators of the library; non-trivial: >=8 points" )
{
  Folder f( c );
  auto d = c.size( 1, 3 );
  auto r = genCloud( c, 6, 16, d );
  c.assume( generic( r ) );
  auto method = c.pick( Words{ "pca", "nn", "nn2", "mle" } );
  bool smooth = c.chance( 1, 3 );
  auto n = r.size();
  auto k = static_cast<unsigned>( c.size( 3, std::min<std::size_t>( n - 1, 8 ) ) );
  auto K = static_cast<unsigned>( c.size( k, n ) );
  auto steps = static_cast<unsigned>( c.size( 1, 3 ) );
  put( f( "points.txt" ), cloudText( c, r ) );
  std::vector<Words> options;
  bool given = c.chance( 3, 4 ) || n < 9 || ( method == "mle" && K < 8 );
  if( given )
    options.push_back( option( c, "k", "k", std::to_string( k ) ) );
  else
    k = 8;
  K = std::max( k, K );
  if( method == "nn2" || method == "mle" )
    options.push_back( option( c, "K", "K", std::to_string( K ) ) );
  if( method != "pca" || c.boolean() )
    options.push_back( option( c, "m", "method", method == "nn2" ? "nn" : method ) );
  if( smooth )
  {
    options.push_back( flag( c, "s", "smooth" ) );
    if( steps > 1 || c.boolean() )
      options.push_back( option( c, "n", "n", std::to_string( steps ) ) );
  }
  auto arguments = mix( c, options, { f( "points.txt" ) } );
  c.input( slurp( f( "points.txt" ) ) + shown( f, arguments ) );
  c.label( method );
  c.nontrivial( n >= 8 );
  auto p = cloud::make<double>( r, d );
  using namespace aleph::containers;
  std::vector<double> expected;
  if( method == "pca" )
  {
    auto e = estimateLocalDimensionalityPCA<Euclidean, Cloud, Neighbours>( p, k );
    expected.assign( e.begin(), e.end() );
  }
  else if( method == "nn" )
    expected = estimateLocalDimensionalityNearestNeighbours<Euclidean, Cloud, Neighbours>( p, k );
  else if( method == "nn2" )
    expected = estimateLocalDimensionalityNearestNeighbours<Euclidean, Cloud, Neighbours>( p, k, K );
  else
    expected = estimateLocalDimensionalityNearestNeighboursMLE<Euclidean, Cloud, Neighbours>( p, k, K );
  if( smooth )
  {
    std::vector<double> t;
    meanShiftSmoothing<Neighbours>( p, expected.begin(), expected.end(), std::back_inserter( t ), k, steps );
    expected.swap( t );
  }
  auto result = succeed( c, f, "local_dimensionality", arguments );
  std::vector<double> got;
  for( auto&& row : table( c, result.out ) )
  {
    c.equal( row.size(), std::size_t( 1 ), "values per line" );
    got.push_back( row[0] );
  }
  column( c, got, expected, "estimates" );
}

static std::map<model::V, double> simplices( pbt::Ctx& c, const std::string& s )
{
  std::map<model::V, double> r;
  std::istringstream in( s );
  std::string line;
  while( std::getline( in, line ) )
  {
    if( line.empty() || line[0] == '-' )
      continue;
    c.check( line.front() == '{' && line.back() == '}', "unexpected line: " + line );
    line = line.substr( 1, line.size() - 2 );
    double w = 0;
    auto p = line.find( '(' );
    if( p != std::string::npos )
    {
      w = std::strtod( line.c_str() + p + 1, nullptr );
      line = line.substr( 0, p );
    }
    std::istringstream words( line );
    model::V v;
    unsigned x;
    while( words >> x )
      v.push_back( x );
    std::sort( v.begin(), v.end() );
    c.check( !v.empty() && r.emplace( v, w ).second, "simplex is empty or occurs twice" );
  }
  return r;
}

LAW( spines, 560, 5000, "Cech complexes and spines of 1 to 9 points in two dimensions, both methods, text and drawings; non-trivial: something was collapsed and an edge remains" )
{
  Folder f( c );
  auto r = genCloud( c, 1, 9, 2, 100 );
  bool circle = c.chance( 2, 3 );
  if( circle )
  {
    // Almost a circle, so that there is a cycle unless the radius is large
    auto n = c.size( 4, 9 );
    r.assign( n, {} );
    for( std::size_t i = 0; i < n; i++ )
    {
      auto t = 6.283185307179586 * static_cast<double>( i ) / static_cast<double>( n );
      r[i] = { std::round( 96 * std::cos( t ) + c.around( 10 ) ) / 32, std::round( 96 * std::sin( t ) + c.around( 10 ) ) / 32 };
    }
    c.shuffle( r );
  }
  std::vector<double> all{ 0.25 };
  for( std::size_t i = 0; i < r.size(); i++ )
    for( std::size_t j = 0; j < i; j++ )
      all.push_back( distance( r[i], r[j] ) );
  std::sort( all.begin(), all.end() );
  auto radius = 0.5 * all[ c.draw( all.size() ) ] * c.uniform( 0.9, 1.4 );
  radius = std::max( 1.0, std::floor( ( circle && c.boolean() ? c.uniform( 1.2, 2.7 ) : radius ) * 64 ) ) / 64;
  bool drawing = c.chance( 1, 4 );
  auto K = aleph::geometry::buildCechComplex( cloud::make<double>( r, 2 ), radius );
  c.assume( K.size() <= 200 );
  put( f( "points.txt" ), cloudText( c, r ) );
  std::ostringstream o;
  o.precision( 12 );
  o << radius;
  std::vector<Words> options = { option( c, "r", "radius", o.str() ) };
  if( c.boolean() )
    options.push_back( option( c, "s", "spine", K.size() <= 50 ? c.pick( Words{ "dumb", "default" } ) : "default" ) );
  if( drawing )
    options.push_back( flag( c, "t", "tikz" ) );
  auto arguments = mix( c, options, { f( "points.txt" ) } );
  c.input( slurp( f( "points.txt" ) ) + shown( f, arguments ) );

  std::map<model::V, double> expected;
  for( auto&& s : K )
  {
    model::V v( s.begin(), s.end() );
    std::sort( v.begin(), v.end() );
    expected[v] = s.data();
  }
  auto result = succeed( c, f, "persistent_spines", arguments );

  std::map<model::V, double> first, second;
  if( drawing )
  {
    // Pictures only contain simplices with up to three vertices
    for( auto it = expected.begin(); it != expected.end(); )
      it = it->first.size() > 3 ? expected.erase( it ) : std::next( it );
    std::istringstream in( result.out );
    std::string line;
    int picture = 0;
    std::size_t balls[3] = { 0, 0, 0 };
    while( std::getline( in, line ) )
    {
      if( line == "\\begin{tikzpicture}" )
        picture++;
      c.check( picture <= 2, "too many pictures" );
      auto& target = picture == 1 ? first : second;
      std::vector<std::string> names;
      auto body = line.find( ']' ) == std::string::npos ? line : line.substr( line.find( ']' ) );
      for( auto p = body.find( '(' ); p != std::string::npos; p = body.find( '(', p + 1 ) )
        names.push_back( body.substr( p + 1, body.find( ')', p ) - p - 1 ) );
      auto number = [&] ( std::size_t i )
      {
        c.check( i < names.size(), "too few names in " + line );
        return static_cast<unsigned>( std::strtoul( names[i].c_str(), nullptr, 10 ) );
      };
      auto vertices = [&] ( std::size_t n )
      {
        model::V v;
        for( std::size_t i = 0; i < n; i++ )
          v.push_back( number( i ) );
        std::sort( v.begin(), v.end() );
        return v;
      };
      if( line.find( "\\coordinate" ) == 0 )
      {
        auto v = number( 0 );
        c.check( picture >= 1 && v < r.size() && names.size() == 2, "unexpected coordinates" );
        char* end = nullptr;
        auto x = std::strtod( names[1].c_str(), &end );
        c.check( *end == ',', "unexpected coordinates" );
        auto y = std::strtod( end + 1, nullptr );
        c.check( agree( x, r[v][0] ) && agree( y, r[v][1] ), "wrong coordinates: " + line );
        target[ { v } ] = 0;
      }
      else if( line.find( "\\draw" ) == 0 )
        target[ vertices( 2 ) ] = 0;
      else if( line.find( "\\fill[" ) == 0 && line.find( "cycle" ) != std::string::npos )
        target[ vertices( 3 ) ] = 0;
      else if( line.find( "\\fill[" ) == 0 && line.find( "circle" ) != std::string::npos )
      {
        c.check( names.size() == 2 && agree( std::strtod( names[1].c_str(), nullptr ), radius ), "radius of ball: " + line );
        balls[picture]++;
      }
    }
    c.equal( picture, 2, "number of pictures" );
    c.equal( balls[1], r.size(), "number of balls" );
    for( auto&& p : expected )
      c.equal( first.count( p.first ), std::size_t( 1 ), "simplex in picture " + model::show( p.first ) );
    c.equal( first.size(), expected.size(), "number of simplices in picture" );
  }
  else
  {
    auto rule = std::string( 80, '-' );
    std::vector<std::string> parts( 1 );
    std::istringstream in( result.out );
    std::string line;
    std::size_t rules = 0;
    while( std::getline( in, line ) )
    {
      if( line == rule && ++rules == 3 )
        parts.push_back( "" );
      parts.back() += line + "\n";
    }
    c.equal( rules, std::size_t( 4 ), "number of rules" );
    c.equal( parts.size(), std::size_t( 2 ), "number of complexes" );
    first  = simplices( c, parts[0] );
    second = simplices( c, parts[1] );
    c.equal( first.size(), expected.size(), "number of simplices" );
    for( auto&& p : expected )
      c.check( first.count( p.first ) && agree( first[p.first], p.second ), "simplex " + model::show( p.first ) );
  }

  std::set<model::V> all_, spine;
  for( auto&& p : first )
    all_.insert( p.first );
  bool edge = false;
  for( auto&& p : second )
  {
    c.check( all_.count( p.first ), "simplex of spine is not part of the complex" );
    spine.insert( p.first );
    edge = edge || p.first.size() == 2;
    for( auto&& g : model::facets( p.first ) )
      c.check( g.empty() || second.count( g ), "face is missing" );
  }
  std::map<model::V, std::size_t> cofaces;
  for( auto&& x : spine )
    for( auto&& g : model::facets( x ) )
      if( !g.empty() )
        cofaces[g]++;
  bool truncated = false;
  for( auto&& x : spine )
    truncated = truncated || x.size() >= 3;
  if( !drawing || !truncated )
  {
    for( auto&& x : spine )
      if( !cofaces.count( x ) )
        for( auto&& g : model::facets( x ) )
          c.check( g.empty() || cofaces[g] != 1, "face " + model::show( g ) + " is free" );
  }
  if( !drawing )
  {
    auto trimmed = [] ( std::vector<long> b ) { while( !b.empty() && b.back() == 0 ) b.pop_back(); return b; };
    c.equal( trimmed( model::betti( spine ) ), trimmed( model::betti( all_ ) ), "homology of the spine" );
  }
  c.label( drawing ? "drawing" : "text" );
  c.nontrivial( spine.size() < all_.size() && edge );
}

// --- spectra ----------------------------------------------------------

LAW( spectra, 800, 8000, "superlevel set diagrams, persistence of peaks, and values of spectra with 1 to 30 values, ties, lines to skip, optional normalisation; non-trivial: >=5 values" )
{
  Folder f( c );
  auto n = c.extent( 1, 30, 300, 40 );
  auto mode = c.pick( Words{ "diagram", "transformation", "identity" } );
  bool normalize = c.boolean();
  bool ties = mode != "transformation" && c.boolean();
  std::vector<double> x, y;
  std::set<double> used;
  double last = 0, total = 0;
  std::string s = c.boolean() ? "#header\nmass intensity\n" : "";
  for( std::size_t i = 0; i < n; i++ )
  {
    last += static_cast<double>( c.size( 1, 20 ) ) / 8;
    double v = static_cast<double>( c.size( 0, ties ? 10 : 4000 ) ) / 4;
    while( !ties && used.count( v ) )
      v += 0.25;
    used.insert( v );
    x.push_back( last );
    y.push_back( v );
    total += v;
    if( c.chance( 1, 10 ) )
      s += c.pick( Words{ "\n", "# comment 1 2\n", "no data\n" } );
    s += text( last ) + c.pick( Words{ " ", "\t", "  " } ) + text( v ) + "\n";
  }
  c.assume( !normalize || total > 0 );
  put( f( "spectrum.txt" ), s );
  std::vector<Words> options;
  if( mode != "diagram" || c.boolean() )
    options.push_back( option( c, "m", "mode", mode ) );
  if( normalize )
    options.push_back( flag( c, "n", "normalize" ) );
  auto arguments = mix( c, options, { f( "spectrum.txt" ) } );
  c.input( s + shown( f, arguments ) );
  c.label( mode );
  c.nontrivial( n >= 5 );
  auto result = succeed( c, f, "spectral_analysis", arguments );
  if( normalize )
    for( auto& v : y )
      v /= total;
  if( mode == "identity" )
  {
    auto t = table( c, result.out );
    c.equal( t.size(), n, "number of values" );
    for( std::size_t i = 0; i < n; i++ )
      c.check( t[i].size() == 2 && agree( t[i][0], x[i] ) && agree( t[i][1], y[i] ), "value " + std::to_string( i ) );
    return;
  }
  std::map<model::V, double> cells;
  for( unsigned i = 0; i < n; i++ )
  {
    cells[ { i } ] = y[i];
    if( i )
      cells[ { i - 1, i } ] = std::min( y[i-1], y[i] );
  }
  auto K = ordered( cells, true );
  if( mode == "diagram" )
  {
    auto D = withoutDiagonal( model::diagrams( K, true )[0] );
    for( auto& p : D )
      if( std::isinf( p.second ) )
        p.second = 0;
    same( c, points( c, result.out ), D, "diagram" );
  }
  else
  {
    std::map<double, double> expected;
    for( auto&& p : model::pairs( K ) )
    {
      auto&& creator = K[ static_cast<std::size_t>( p.birth ) ];
      if( creator.v.size() == 1 )
        expected[ x[ creator.v[0] ] ] = std::fabs( creator.w - ( p.death < 0 ? 0.0 : K[ static_cast<std::size_t>( p.death ) ].w ) );
    }
    auto t = table( c, result.out );
    c.equal( t.size(), expected.size(), "number of peaks" );
    std::size_t i = 0;
    for( auto&& p : expected )
    {
      c.check( t[i].size() == 2 && agree( t[i][0], p.first ) && std::fabs( t[i][1] - p.second ) <= 1e-9 * ( 1 + p.second ), "persistence of value " + std::to_string( i ) + ": got " + text( t[i].back() ) + " instead of " + text( p.second ) );
      i++;
    }
  }
}

// --- samples of functions ---------------------------------------------

// Largest deviations of the means of all samples (with replacement)
static std::vector<double> deviations( const std::vector<std::vector<double>>& values )
{
  auto n = values.size(), m = values[0].size();
  std::vector<double> mean( m, 0.0 );
  for( auto&& v : values )
    for( std::size_t i = 0; i < m; i++ )
      mean[i] += v[i] / static_cast<double>( n );
  std::vector<double> r;
  std::vector<std::size_t> index( n, 0 );
  while( true )
  {
    double sup = 0;
    for( std::size_t i = 0; i < m; i++ )
    {
      double x = 0;
      for( auto&& k : index )
        x += values[k][i] / static_cast<double>( n );
      sup = std::max( sup, std::fabs( x - mean[i] ) );
    }
    r.push_back( sup );
    // next multiset
    std::size_t k = n;
    while( k > 0 && index[k-1] + 1 == n )
      k--;
    if( k == 0 )
      break;
    auto next = index[k-1] + 1;
    for( std::size_t j = k - 1; j < n; j++ )
      index[j] = next;
  }
  return r;
}

// The slack accounts for deviations in single breakpoints, where the sums of
// step functions depend on the order of the functions.
static void band( pbt::Ctx& c, double width, const std::vector<double>& all, std::size_t n, unsigned samples, double alpha, double slack = 0 )
{
  auto within = [&] ( double x )
  {
    return width >= x - 1e-4 * ( 1 + x ) && width <= x + slack + 1e-4 * ( 1 + x );
  };
  bool found = false;
  for( auto&& x : all )
    found = found || within( x );
  c.check( found, "width of the band is " + text( width ) + ", which is not the deviation of any sample" );
  // Two functions: half of the samples deviate. If there are many of them,
  // a wrong result has a negligible probability.
  if( n == 2 && samples >= 200 && std::fabs( alpha - 0.5 ) > 0.25 )
  {
    auto max = *std::max_element( all.begin(), all.end() );
    auto expected = alpha < 0.5 ? max : 0.0;
    c.check( within( expected ), "width of the band is " + text( width ) + " instead of " + text( expected ) );
  }
}

LAW( smoothing, 400, 4000, "means and bootstrap confidence bands of 2 to 4 piecewise linear functions on a common domain, several levels and numbers of samples; non-trivial: different functions" )
{
  Folder f( c );
  auto n = c.size( 2, 4 );
  auto length = c.size( 1, 12 );
  using Values = std::map<double, double>;
  std::vector<Values> functions;
  Words files;
  std::string in;
  std::set<double> domain;
  for( std::size_t i = 0; i < n; i++ )
  {
    Values v;
    if( i && c.chance( 1, 8 ) )
      v = functions.back();
    else
    {
      v[0] = static_cast<double>( c.around( 40 ) ) / 4;
      v[ static_cast<double>( length ) ] = static_cast<double>( c.around( 40 ) ) / 4;
      auto k = c.size( 0, 6 );
      for( std::size_t j = 0; j < k; j++ )
        v[ static_cast<double>( c.size( 1, 4 * length ) ) / 4 ] = static_cast<double>( c.around( 40 ) ) / 4;
    }
    std::string s;
    for( auto&& p : v )
    {
      domain.insert( p.first );
      s += text( p.first ) + c.pick( Words{ " ", "\t" } ) + text( p.second ) + "\n";
    }
    functions.push_back( v );
    files.push_back( f( "f" + std::to_string( i ) + ".txt" ) );
    put( files.back(), s );
    in += s + "\n";
  }
  auto at = [] ( const Values& v, double x )
  {
    auto it = v.lower_bound( x );
    if( it->first == x )
      return it->second;
    auto p = std::prev( it );
    return p->second + ( x - p->first ) / ( it->first - p->first ) * ( it->second - p->second );
  };
  auto mean = [&] ( double x )
  {
    double s = 0;
    for( auto&& v : functions )
      s += at( v, x );
    return s / static_cast<double>( n );
  };
  double alpha = 0.05;
  unsigned samples = 10;
  std::vector<Words> options;
  if( c.boolean() )
  {
    alpha = c.pick( std::vector<double>{ 0.01, 0.05, 0.1, 0.2, 0.5, 0.8, 0.9 } );
    options.push_back( option( c, "a", "alpha", text( alpha ) ) );
  }
  if( c.boolean() )
  {
    samples = c.pick( std::vector<unsigned>{ 1, 2, 10, 200 } );
    options.push_back( option( c, "n", "n", std::to_string( samples ) ) );
  }
  auto arguments = mix( c, options, files );
  c.input( in + shown( f, arguments ) );
  c.nontrivial( std::set<Values>( functions.begin(), functions.end() ).size() >= 2 );
  auto result = succeed( c, f, "piecewise_linear_function_smoothing", arguments );
  auto b = blocks( result.out );
  c.equal( b.size(), std::size_t( 3 ), "number of functions" );
  double width = 0, slope = 0;
  for( auto it = domain.begin(); std::next( it ) != domain.end(); ++it )
    slope = std::max( slope, std::fabs( mean( *std::next( it ) ) - mean( *it ) ) / ( *std::next( it ) - *it ) );
  for( int k = 0; k < 3; k++ )
  {
    auto t = table( c, b[ static_cast<std::size_t>( k ) ] );
    std::set<double> got;
    for( auto&& row : t )
    {
      c.equal( row.size(), std::size_t( 2 ), "coordinates" );
      c.check( row[0] >= 0 && row[0] <= static_cast<double>( length ), "value outside of the domain" );
      got.insert( row[0] );
      auto difference = ( row[1] - mean( row[0] ) ) * ( k == 2 ? -1 : 1 );
      if( k == 1 && got.size() == 1 )
        width = difference;
      // Positions of additional values are rounded
      auto tolerance = 2e-4 + ( domain.count( row[0] ) ? 0 : 1e-4 * slope );
      c.check( std::fabs( difference - ( k ? width : 0 ) ) <= tolerance, std::string( k == 0 ? "mean" : k == 1 ? "upper" : "lower" ) + " function at " + text( row[0] ) + " is " + text( row[1] ) + ", mean " + text( mean( row[0] ) ) + ", width " + text( width ) );
    }
    for( auto&& x : domain )
      c.check( got.count( x ), "no value for " + text( x ) );
  }
  std::vector<std::vector<double>> values;
  for( auto&& v : functions )
  {
    values.push_back( {} );
    for( auto&& x : domain )
      values.back().push_back( at( v, x ) );
  }
  band( c, width, deviations( values ), n, samples, alpha );
}

// Number of points of a diagram that are active in between
static double active( const dgm::Points& p, double x )
{
  double n = 0;
  for( auto&& q : p )
    n += x > std::min( q.first, q.second ) && x < std::max( q.first, q.second );
  return n;
}

// Optionally, all points are active at a common value
static dgm::Points genDiagram( pbt::Ctx& c, std::size_t maximum, unsigned offset, bool more, bool centre )
{
  dgm::Points p;
  auto k = c.size( 1, maximum );
  for( std::size_t j = 0; j < k; j++ )
  {
    double x = static_cast<double>( offset + c.size( 0, 40 ) ) / 4, y = static_cast<double>( c.size( 1, 40 ) ) / 4;
    p.push_back( { x, centre ? static_cast<double>( offset + 40 ) / 4 + y : x + y } );
  }
  if( more && c.boolean() )
    p.push_back( { static_cast<double>( c.size( 0, 40 ) ) / 4, inf } );
  if( more && c.boolean() )
    p.push_back( { 1.5, 1.5 } );
  c.shuffle( p );
  return p;
}

// Sums of indicator functions with gaps are subject to STEP-SUM-BRIDGES
LAW( confidence, 480, 4000, "means and bootstrap confidence bands of the indicator functions of 1 to 4 diagrams without gaps, given as diagrams or step functions; non-trivial: >=2 diagrams" )
{
  Folder f( c );
  auto n = c.size( 1, 4 );
  bool steps = c.chance( 1, 3 );
  std::vector<dgm::Points> diagrams;
  std::set<double> domain;
  Words files;
  std::string in;
  for( std::size_t i = 0; i < n; i++ )
  {
    auto p = genDiagram( c, 6, 0, !steps, true );
    files.push_back( f( "f" + std::to_string( i ) + ".txt" ) );
    std::string s = steps ? "" : file( c, p );
    p = withoutUnpaired( withoutDiagonal( p ) );
    std::set<double> own;
    for( auto&& q : p )
    {
      own.insert( q.first );
      own.insert( q.second );
    }
    domain.insert( own.begin(), own.end() );
    if( steps )
      for( auto it = own.begin(); std::next( it ) != own.end(); ++it )
      {
        auto a = *it, b = *std::next( it ), y = active( p, ( a + b ) / 2 );
        if( y > 0 )
          s += text( a ) + "\t" + text( y ) + "\n" + text( b ) + "\t" + text( y ) + "\n";
      }
    diagrams.push_back( p );
    put( files.back(), s );
    in += s + "\n";
  }
  auto mean = [&] ( double x )
  {
    double s = 0;
    for( auto&& p : diagrams )
      s += active( p, x );
    return s / static_cast<double>( n );
  };
  double alpha = 0.05;
  unsigned samples = 50;
  std::vector<Words> options;
  if( steps )
    options.push_back( flag( c, "s", "read-step-functions" ) );
  if( c.boolean() )
  {
    alpha = c.pick( std::vector<double>{ 0.01, 0.05, 0.1, 0.2, 0.5, 0.8, 0.9 } );
    options.push_back( option( c, "a", "alpha", text( alpha ) ) );
  }
  if( c.boolean() )
  {
    samples = c.pick( std::vector<unsigned>{ 1, 2, 10, 200 } );
    options.push_back( option( c, "b", "bootstrap", std::to_string( samples ) ) );
  }
  auto arguments = mix( c, options, files );
  c.input( in + shown( f, arguments ) );
  c.label( steps ? "step functions" : "diagrams" );
  c.nontrivial( n >= 2 );
  succeed( c, f, "persistence_indicator_function_confidence_sets", arguments );
  auto b = blocks( slurp( f.out() + "/Mean_plus_confidence.txt" ) );
  c.equal( b.size(), std::size_t( 3 ), "number of functions" );
  double width = -1;
  for( int k = 0; k < 3; k++ )
  {
    auto t = table( c, b[ static_cast<std::size_t>( k ) ] );
    c.equal( t.size() % 2, std::size_t( 0 ), "number of values" );
    double covered = 0;
    for( std::size_t i = 0; i + 1 < t.size(); i += 2 )
    {
      c.check( t[i].size() == 2 && t[i+1].size() == 2 && t[i][1] == t[i+1][1] && t[i][0] <= t[i+1][0], "piece of a step function" );
      if( t[i][0] == t[i+1][0] )
        continue;
      for( auto it = domain.begin(); std::next( it ) != domain.end(); ++it )
      {
        auto x = ( *it + *std::next( it ) ) / 2;
        if( x < t[i][0] || x > t[i+1][0] )
          continue;
        auto difference = ( t[i][1] - mean( x ) ) * ( k == 2 ? -1 : 1 );
        if( k == 1 && width < 0 )
        {
          c.check( difference >= -1e-4, "negative width" );
          width = std::max( difference, 0.0 );
        }
        c.check( std::fabs( difference - ( k ? width : 0 ) ) <= 1e-4, std::string( k == 0 ? "mean" : k == 1 ? "upper" : "lower" ) + " function at " + text( x ) + " is " + text( t[i][1] ) + ", mean " + text( mean( x ) ) + ", width " + text( width ) );
      }
      covered += t[i+1][0] - t[i][0];
    }
    // Everything where the mean does not vanish is covered
    double support = 0;
    for( auto it = domain.begin(); it != domain.end() && std::next( it ) != domain.end(); ++it )
      if( mean( ( *it + *std::next( it ) ) / 2 ) > 0 )
        support += *std::next( it ) - *it;
    c.check( covered >= support - 1e-6, "support of a function is too small" );
  }
  std::vector<std::vector<double>> values;
  for( auto&& p : diagrams )
  {
    values.push_back( {} );
    for( auto it = domain.begin(); std::next( it ) != domain.end(); ++it )
      values.back().push_back( active( p, ( *it + *std::next( it ) ) / 2 ) );
  }
  double slack = 0;
  for( auto&& v : values )
    for( std::size_t i = 0; i <= v.size(); i++ )
      slack = std::max( slack, std::fabs( ( i < v.size() ? v[i] : 0 ) - ( i ? v[i-1] : 0 ) ) );
  if( width >= 0 )
    band( c, width, deviations( values ), n, samples, alpha, slack );
}

LAW( glyphs, 560, 5000, "histograms of the indicator functions of 1 to 4 diagrams with 1 to 20 bins, linear and logarithmic, with additional empty rows; non-trivial: >=4 bins, >=2 points" )
{
  Folder f( c );
  auto n = c.size( 1, 4 );
  auto bins = c.size( 1, 20 );
  auto offset = static_cast<unsigned>( c.size( 0, 4 ) );
  auto rows = c.boolean() ? c.size( 1, 7 ) : 0;
  std::vector<dgm::Points> diagrams;
  std::set<double> domain;
  Words files = { std::to_string( bins ) };
  std::string in;
  std::size_t total = 0;
  for( std::size_t i = 0; i < n; i++ )
  {
    auto p = genDiagram( c, 6, offset, true, c.chance( 1, 4 ) );
    files.push_back( f( "f" + std::to_string( i ) + ".txt" ) );
    auto s = file( c, p );
    put( files.back(), s );
    in += s + "\n";
    p = withoutUnpaired( withoutDiagonal( p ) );
    for( auto&& q : p )
    {
      domain.insert( q.first );
      domain.insert( q.second );
    }
    total += p.size();
    diagrams.push_back( p );
  }
  std::vector<Words> options;
  if( rows )
    options.push_back( option( c, "K", "max-k", std::to_string( rows ) ) );
  auto arguments = mix( c, options, files );
  c.input( in + shown( f, arguments ) );
  c.nontrivial( bins >= 4 && total >= 2 );
  succeed( c, f, "persistence_indicator_function_glyph", arguments );
  auto min = *domain.begin(), max = *domain.rbegin();
  for( int k = 0; k < 2; k++ )
  {
    if( k && min <= 0 )
      continue;
    auto name = "Persistence_indicator_function_glyph_" + std::to_string( bins ) + ( k ? "_log.txt" : "_lin.txt" );
    auto b = blocks( slurp( f.out() + "/" + name ) );
    c.equal( b.size(), std::max( n, rows ), "number of rows in " + name );
    for( std::size_t i = 0; i < b.size(); i++ )
    {
      auto t = table( c, b[i] );
      c.equal( t.size(), bins, "number of columns" );
      for( std::size_t j = 0; j < bins; j++ )
      {
        c.check( t[j].size() == 3 && t[j][0] == static_cast<double>( j ) && t[j][1] == static_cast<double>( i ), "indices" );
        // Extremal values near the bin, and in its interior
        auto border = [&] ( std::size_t l )
        {
          auto q = static_cast<double>( l ) / static_cast<double>( bins );
          return k ? min * std::pow( max / min, q ) : min + ( max - min ) * q;
        };
        auto a = border( j ), e = border( j + 1 );
        auto tolerance = 1e-9 * ( 1 + max );
        double lower = 0, upper = 0;
        if( i < n )
        {
          for( auto it = domain.begin(); std::next( it ) != domain.end(); ++it )
          {
            auto y = active( diagrams[i], ( *it + *std::next( it ) ) / 2 );
            if( *std::next( it ) > a - tolerance && *it < e + tolerance )
              upper = std::max( upper, y );
            // Bins of logarithmic histograms are only evaluated next to the points of the domain
            bool inside = k ? ( *it > a + tolerance && *it < e - tolerance ) || ( *std::next( it ) > a + tolerance && *std::next( it ) < e - tolerance )
                            : *std::next( it ) > a + tolerance && *it < e - tolerance;
            if( inside )
              lower = std::max( lower, y );
          }
        }
        c.check( t[j][2] >= lower && t[j][2] <= upper, name + ": bin " + std::to_string( j ) + " of row " + std::to_string( i ) + " is " + text( t[j][2] ) + ", not between " + text( lower ) + " and " + text( upper ) );
      }
    }
  }
}

// --- hierarchies ------------------------------------------------------

LAW( hierarchies, 480, 4000, "hierarchies of 1 to 5 functions with up to 14 values in 1 or 2 files, sublevel and superlevel sets, and classes of functions with equal diagrams; non-trivial: a hierarchy with >=2 edges" )
{
  using Simplex = aleph::topology::Simplex<double, unsigned>;
  using Complex = aleph::topology::SimplicialComplex<Simplex>;

  Folder f( c );
  bool super = c.boolean(), interesting = false;
  auto m = c.size( 1, 2 );
  Words files;
  std::string in;
  std::vector<std::vector<double>> functions;
  for( std::size_t i = 0; i < m; i++ )
  {
    auto n = c.size( 1, 3 );
    std::string s;
    for( std::size_t j = 0; j < n; j++ )
    {
      std::vector<double> v;
      if( !functions.empty() && c.chance( 1, 4 ) )
      {
        v = c.pick( functions );
        std::reverse( v.begin(), v.end() );
      }
      else
      {
        auto l = c.size( 2, 14 );
        auto range = static_cast<unsigned>( c.size( 1, 40 ) );
        for( std::size_t k = 0; k < l; k++ )
          v.push_back( static_cast<double>( c.around( range ) ) / 4 );
      }
      for( std::size_t k = 0; k < v.size(); k++ )
        s += ( k ? " " : "" ) + text( v[k] );
      s += "\n";
      functions.push_back( v );
    }
    files.push_back( f( "f" + std::to_string( i ) + ".txt" ) );
    put( files.back(), s );
    in += s;
  }
  std::vector<Words> options;
  if( super )
    options.push_back( flag( c, "S", "superlevels" ) );
  else if( c.boolean() )
    options.push_back( flag( c, "s", "sublevels" ) );
  auto arguments = mix( c, options, files );
  c.input( in + shown( f, arguments ) );
  auto result = succeed( c, f, "interlevel_set_persistence_hierarchy", arguments );

  std::string expected;
  std::map<dgm::Points, std::set<std::size_t>> classes;
  for( std::size_t k = 0; k < functions.size(); k++ )
  {
    auto&& v = functions[k];
    std::map<model::V, double> cells;
    std::vector<Simplex> simplices;
    for( unsigned i = 0; i < v.size(); i++ )
    {
      cells[ { i } ] = v[i];
      simplices.push_back( Simplex( i, v[i] ) );
      if( i )
      {
        cells[ { i - 1, i } ] = super ? std::min( v[i-1], v[i] ) : std::max( v[i-1], v[i] );
        simplices.push_back( Simplex( { i - 1, i }, cells[ { i - 1, i } ] ) );
      }
    }
    Complex K( simplices.begin(), simplices.end() );
    if( super )
      K.sort( aleph::topology::filtrations::Data<Simplex, std::greater<double>>() );
    else
      K.sort( aleph::topology::filtrations::Data<Simplex>() );
    auto edges = aleph::ExtendedPersistenceHierarchy<Simplex>()( K ).second;
    interesting = interesting || edges.size() >= 2;
    std::map<unsigned, unsigned> index;
    for( auto&& e : edges )
      index[ e.first ] = index[ e.second ] = 0;
    unsigned n = 0;
    for( auto& p : index )
      p.second = n++;

    // Points of critical vertices, by a reduction of the boundary matrix of
    // the same filtration
    model::Complex M;
    for( auto&& s : K )
    {
      model::Cell cell;
      cell.v.assign( s.begin(), s.end() );
      std::sort( cell.v.begin(), cell.v.end() );
      cell.w = s.data();
      M.push_back( cell );
    }
    dgm::Points diagram;
    std::map<unsigned, dgm::P> point;
    for( auto&& p : model::pairs( M ) )
    {
      auto&& creator = M[ static_cast<std::size_t>( p.birth ) ];
      if( creator.v.size() != 1 )
        continue;
      dgm::P x( creator.w, p.death < 0 ? inf : M[ static_cast<std::size_t>( p.death ) ].w );
      point[ creator.v[0] ] = x;
      diagram.push_back( x );
    }
    diagram = withoutDiagonal( diagram );
    std::sort( diagram.begin(), diagram.end() );
    classes[diagram].insert( k );
    for( auto&& p : index )
      expected += std::to_string( p.second ) + ": " + text( point[p.first].first ) + "\t" + text( point[p.first].second ) + "\n";
    for( auto&& e : edges )
      expected += std::to_string( index[e.first] ) + " -- " + std::to_string( index[e.second] ) + "\n";
  }
  std::string got;
  for( auto&& b : blocks( result.out ) )
    got += b;
  c.equal( got, expected, "hierarchies" );
  std::set<std::set<std::size_t>> large, reported;
  for( auto&& p : classes )
    if( p.second.size() > 1 )
      large.insert( p.second );
  for( auto&& row : table( c, slurp( f.out() + "/classes.txt" ) ) )
  {
    std::set<std::size_t> s;
    for( auto&& x : row )
      s.insert( static_cast<std::size_t>( x ) );
    c.equal( s.size(), row.size(), "member of a class occurs twice" );
    reported.insert( s );
  }
  c.check( reported == large, "classes of functions with equal diagrams" );
  c.nontrivial( interesting );
}

// --- weighted networks ------------------------------------------------

static dgm::Points awayFromDiagonal( dgm::Points p )
{
  p.erase( std::remove_if( p.begin(), p.end(), [] ( const dgm::P& x ) { return std::fabs( x.first - x.second ) < 1e-4; } ), p.end() );
  return p;
}

LAW( stratified, 960, 9000, "diagrams and norms of 1 to 3 graphs with positive and negative weights given by edges or as bipartite matrices, two filtrations in both directions, weights of vertices, normalisations of weights and diagrams, default arguments; non-trivial: >=4 edges" )
{
  Folder f( c );
  auto m = c.size( 1, 3 );
  bool bipartite = c.boolean(), defaults = c.chance( 1, 6 );
  bool absolute = c.boolean(), reverse = c.boolean(), local = c.boolean(), diagrams = c.boolean();
  // normalisation of the diagram is only meaningful if signs are retained
  auto normalization = c.pick( Words{ "", "", "abs", "minmax", "standardize", "diagram" } );
  bool positive = c.boolean() || ( normalization == "diagram" && absolute );
  Words files;
  std::string in;
  std::vector<std::map<std::pair<unsigned,unsigned>, double>> graphs;
  bool large = false;
  for( std::size_t k = 0; k < m; k++ )
  {
    std::map<std::pair<unsigned,unsigned>, double> g;
    // few weights: equal absolute values with different signs
    unsigned levels = c.boolean() ? 3 : 40;
    auto weight = [&] ()
    {
      double w = static_cast<double>( c.size( 1, levels ) ) / 4;
      return !positive && c.boolean() ? -w : w;
    };
    std::string s;
    if( bipartite )
    {
      auto h = static_cast<unsigned>( c.size( 1, 5 ) ), w = static_cast<unsigned>( c.size( 2, 5 ) );
      for( unsigned i = 0; i < h; i++ )
      {
        for( unsigned j = 0; j < w; j++ )
        {
          g[ { i, h + j } ] = weight();
          s += ( j ? " " : "" ) + text( g[ { i, h + j } ] );
        }
        s += "\n";
      }
    }
    else
    {
      auto n = static_cast<unsigned>( c.size( 3, 8 ) );
      auto density = c.size( 1, 4 );
      Words lines;
      for( unsigned i = 0; i < n; i++ )
        for( unsigned j = i + 1; j < n; j++ )
          if( c.chance( density, 5 ) )
          {
            g[ { i, j } ] = weight();
            lines.push_back( ( c.boolean() ? std::to_string( i ) + " " + std::to_string( j ) : std::to_string( j ) + " " + std::to_string( i ) ) + " " + text( g[ { i, j } ] ) + "\n" );
          }
      c.shuffle( lines );
      for( auto&& l : lines )
        s += l;
    }
    std::set<double> different;
    for( auto&& e : g )
      different.insert( e.second );
    c.assume( different.size() >= 2 );
    files.push_back( f( "g" + std::to_string( k ) + ".txt" ) );
    put( files.back(), s );
    in += s + "\n";
    large = large || g.size() >= 4;
    graphs.push_back( g );
  }
  std::vector<Words> options;
  if( bipartite )
    options.push_back( flag( c, "b", "bipartite" ) );
  if( diagrams )
    options.push_back( flag( c, "p", "persistence-diagrams" ) );
  if( defaults )
  {
    absolute = reverse = true;
    local = false;
    normalization = "abs";
    options.push_back( flag( c, "d", "default" ) );
  }
  else
  {
    if( absolute || c.boolean() )
      options.push_back( option( c, "f", "filtration", absolute ? "absolute" : "standard" ) );
    if( local || c.boolean() )
      options.push_back( option( c, "w", "weights", local ? "local" : "global" ) );
    if( reverse )
      options.push_back( flag( c, "r", "reverse" ) );
    if( normalization == "diagram" )
      options.push_back( flag( c, "n", "normalize" ) );
    else if( !normalization.empty() )
      options.push_back( { ( c.boolean() ? "-n" : "--normalize=" ) + normalization } );
  }
  auto arguments = mix( c, options, files );
  c.input( in + shown( f, arguments ) );
  c.label( normalization.empty() ? "none" : normalization );
  c.label( absolute ? "absolute" : "standard" );
  c.nontrivial( large );
  auto result = succeed( c, f, "stratified_graph_analysis", arguments );

  std::vector<dgm::Points> expected;
  for( auto&& g : graphs )
  {
    double min = inf, max = -inf, sum = 0, squares = 0;
    auto n = static_cast<double>( g.size() );
    for( auto&& e : g )
    {
      min = std::min( min, e.second );
      max = std::max( max, e.second );
      sum += e.second;
    }
    for( auto&& e : g )
      squares += ( e.second - sum / n ) * ( e.second - sum / n );
    std::map<model::V, double> cells;
    std::map<unsigned, double> extreme;
    double global = 0, least = inf;
    bool first = true;
    for( auto&& e : g )
    {
      auto w = e.second;
      if( normalization == "abs" )
        w /= std::max( std::fabs( min ), std::fabs( max ) );
      else if( normalization == "minmax" )
        w = 2 * ( w - min ) / ( max - min ) - 1;
      else if( normalization == "standardize" )
        w = ( w - sum / n ) / std::sqrt( squares / ( n - 1 ) );
      least = std::min( least, std::fabs( w ) );
      if( absolute )
        w = std::fabs( w );
      auto better = [&] ( double a, double b ) { return reverse ? std::max( a, b ) : std::min( a, b ); };
      cells[ { e.first.first, e.first.second } ] = w;
      global = first ? w : better( global, w );
      first = false;
      for( auto v : { e.first.first, e.first.second } )
        extreme[v] = extreme.count( v ) ? better( extreme[v], w ) : w;
    }
    for( auto&& p : extreme )
      cells[ { p.first } ] = local ? p.second : global;
    auto D = model::diagrams( ordered( cells, reverse ), false )[0];
    for( auto& p : D )
      if( std::isinf( p.second ) )
        p.second = least;
    if( normalization == "diagram" )
      for( auto& p : D )
        p = { ( p.first - min ) / ( max - min ), ( p.second - min ) / ( max - min ) };
    expected.push_back( awayFromDiagonal( D ) );
  }
  if( diagrams )
  {
    std::vector<dgm::Points> got;
    std::istringstream s( result.out );
    std::string line, part;
    while( std::getline( s, line ) )
    {
      if( !line.empty() )
        part += line + "\n";
      else
      {
        c.check( std::getline( s, line ) && line.empty(), "diagrams are not separated by two lines" );
        got.push_back( awayFromDiagonal( points( c, part ) ) );
        part.clear();
      }
    }
    c.equal( got.size(), expected.size(), "number of diagrams" );
    for( std::size_t i = 0; i < got.size(); i++ )
      same( c, got[i], expected[i], "diagram " + std::to_string( i ) );
  }
  else
  {
    auto t = table( c, result.out );
    c.equal( t.size(), expected.size(), "number of norms" );
    for( std::size_t i = 0; i < t.size(); i++ )
    {
      double norm = 0;
      for( auto&& p : expected[i] )
        norm += ( p.second - p.first ) * ( p.second - p.first );
      norm = std::sqrt( norm );
      c.check( t[i].size() == 2 && t[i][0] == static_cast<double>( i ), "index" );
      c.check( std::fabs( t[i][1] - norm ) <= 1e-3 + 1e-4 * norm, "norm " + std::to_string( i ) + " is " + text( t[i][1] ) + " instead of " + text( norm ) );
    }
  }
}

LAW( connectivity, 640, 6000, "ascending and descending filtrations, or distances, of 1 to 3 matrices with up to 7 rows with positive and negative entries, zeros, and undefined values, expanded up to dimension 3, value for unpaired points, unpaired points kept or not; non-trivial: >=4 edges" )
{
  Folder f( c );
  auto m = c.size( 1, 3 );
  bool keep = c.boolean(), replace = c.boolean(), distance = c.chance( 1, 3 );
  auto dimension = static_cast<unsigned>( c.size( 0, 3 ) );
  double value = static_cast<double>( c.size( 1, 40 ) ) / 2;
  Words files;
  std::string in;
  std::vector<std::vector<dgm::Points>> expected;
  bool large = false;
  for( std::size_t k = 0; k < m; k++ )
  {
    auto n = static_cast<unsigned>( c.size( 2, 7 ) );
    auto density = c.size( 1, 4 );
    bool positive = c.chance( 1, 3 ), diagonal = c.chance( 1, 3 );
    std::vector<std::vector<double>> M( n, std::vector<double>( n, 0.0 ) );
    std::map<std::pair<unsigned,unsigned>, double> edges;
    double min = inf, max = -inf;
    std::string s;
    for( unsigned i = 0; i < n; i++ )
      for( unsigned j = i; j < n; j++ )
      {
        double x = 0;
        if( i == j )
          x = diagonal ? std::numeric_limits<double>::quiet_NaN() : 0;
        else if( c.chance( density, 4 ) )
        {
          x = static_cast<double>( c.size( 1, 32 ) ) / 32;
          if( !positive && c.boolean() )
            x = -x;
          edges[ { i, j } ] = x;
        }
        else if( c.chance( 1, 4 ) )
          x = std::numeric_limits<double>::quiet_NaN();
        M[i][j] = M[j][i] = x;
        if( !std::isnan( x ) )
        {
          min = std::min( min, x );
          max = std::max( max, x );
        }
      }
    for( auto&& row : M )
    {
      for( unsigned j = 0; j < n; j++ )
        s += ( j ? " " : "" ) + ( std::isnan( row[j] ) ? "nan" : text( row[j] ) );
      s += "\n";
    }
    c.assume( !edges.empty() );
    files.push_back( f( "matrix" + std::to_string( k ) + ".txt" ) );
    put( files.back(), s );
    in += s + "\n";
    large = large || edges.size() >= 4;

    std::vector<dgm::Points> D( keep + dimension + 1 );
    for( int pass = 0; pass < ( distance ? 1 : 2 ); pass++ )
    {
      bool reverse = pass == 1;
      std::map<model::V, double> cells;
      std::vector<model::V> last;
      for( unsigned i = 0; i < n; i++ )
      {
        cells[ { i } ] = distance ? 0 : reverse ? max : min;
        last.push_back( { i } );
      }
      for( unsigned d = 1; d <= std::max( dimension, 1u ); d++ )
      {
        std::vector<model::V> next;
        for( auto&& v : last )
          for( unsigned j = v.back() + 1; j < n; j++ )
          {
            bool clique = true;
            double w = reverse ? inf : -inf;
            for( auto&& i : v )
              clique = clique && edges.count( { i, j } );
            if( !clique )
              continue;
            for( auto&& i : v )
            {
              auto x = distance ? 1 - edges[ { i, j } ] : edges[ { i, j } ];
              w = reverse ? std::min( w, x ) : std::max( w, x );
            }
            if( v.size() > 1 )
              w = reverse ? std::min( w, cells[v] ) : std::max( w, cells[v] );
            auto x = v;
            x.push_back( j );
            cells[x] = w;
            next.push_back( x );
          }
        last.swap( next );
      }
      for( auto&& p : model::diagrams( ordered( cells, reverse ), keep ) )
        if( p.first < D.size() )
          for( auto x : p.second )
          {
            if( std::isinf( x.second ) && replace )
              x.second = reverse ? -value : value;
            D[p.first].push_back( x );
          }
    }
    expected.push_back( D );
  }
  std::vector<Words> options;
  if( keep )
    options.push_back( flag( c, "k", "keep-unpaired" ) );
  if( replace )
    options.push_back( option( c, "i", "infinity", text( value ) ) );
  if( distance )
    options.push_back( flag( c, "D", "distance" ) );
  if( dimension || c.boolean() )
    options.push_back( option( c, "d", "dimension", std::to_string( dimension ) ) );
  auto arguments = mix( c, options, files );
  c.input( in + shown( f, arguments ) );
  c.nontrivial( large );
  succeed( c, f, "ephemeral", arguments );
  for( std::size_t k = 0; k < m; k++ )
    for( std::size_t d = 0; d < expected[k].size(); d++ )
    {
      auto name = "matrix" + std::to_string( k ) + "_d" + std::to_string( d ) + ".txt";
      c.check( exists( f.out() + "/" + name ), "no file " + name );
      same( c, points( c, slurp( f.out() + "/" + name ) ), expected[k][d], name );
    }
  c.equal( f.outputs().size(), m * ( keep + dimension + 1 ), "number of files" );
}

// --- images -----------------------------------------------------------

LAW( patches, 560, 5000, "normalised high-contrast patches among 5 to 40 patches with 4 or 9 values, some of them equal; non-trivial: >=2 patches remain" )
{
  Folder f( c );
  auto side = c.size( 2, 3 );
  auto n = c.size( 5, 40 );
  cloud::Rows r;
  std::vector<double> norms;
  std::vector<std::vector<double>> processed;
  for( std::size_t i = 0; i < n; i++ )
  {
    cloud::Row x;
    if( i && c.chance( 1, 10 ) )
      x = c.pick( r );
    else
      for( std::size_t j = 0; j < side * side; j++ )
        x.push_back( static_cast<double>( c.size( 0, 255 ) ) );
    r.push_back( x );
    double mean = 0, contrast = 0, length = 0;
    for( auto& y : x )
    {
      y = y == 0 ? 0 : std::log10( y );
      mean += y / static_cast<double>( x.size() );
    }
    for( auto& y : x )
    {
      y -= mean;
      length += y * y;
    }
    for( std::size_t a = 0; a < side; a++ )
      for( std::size_t b = 0; b < side; b++ )
      {
        auto squared = [&] ( std::size_t p, std::size_t q ) { return ( x[a*side+b] - x[p*side+q] ) * ( x[a*side+b] - x[p*side+q] ); };
        if( a + 1 < side )
          contrast += 2 * squared( a + 1, b );
        if( b + 1 < side )
          contrast += 2 * squared( a, b + 1 );
      }
    c.assume( contrast > 1e-3 );
    for( auto& y : x )
      y /= std::sqrt( length );
    norms.push_back( contrast );
    processed.push_back( x );
  }
  auto sorted = norms;
  std::sort( sorted.begin(), sorted.end() );
  auto threshold = sorted.at( static_cast<std::size_t>( std::ceil( ( 1.0 - 0.2 ) * static_cast<double>( n ) ) ) );
  cloud::Rows expected;
  for( std::size_t i = 0; i < n; i++ )
  {
    c.assume( norms[i] == threshold || std::fabs( norms[i] - threshold ) > 1e-3 * threshold );
    if( norms[i] >= threshold )
      expected.push_back( processed[i] );
  }
  put( f( "patches.txt" ), cloudText( c, r ) );
  c.input( slurp( f( "patches.txt" ) ) );
  c.nontrivial( expected.size() >= 2 );
  auto result = succeed( c, f, "process_image_patches", { f( "patches.txt" ) } );
  auto t = table( c, result.out );
  while( !t.empty() && t.back().empty() )
    t.pop_back();
  c.equal( t.size(), expected.size(), "number of patches" );
  for( std::size_t i = 0; i < t.size(); i++ )
  {
    c.equal( t[i].size(), expected[i].size(), "size of patch" );
    for( std::size_t j = 0; j < t[i].size(); j++ )
      c.check( std::fabs( t[i][j] - expected[i][j] ) <= 1e-4, "value " + std::to_string( j ) + " of patch " + std::to_string( i ) + " is " + text( t[i][j] ) + " instead of " + text( expected[i][j] ) );
  }
}

// --- singular spaces and diffusion ------------------------------------

LAW( singular, 560, 5000, "persistent homology of Vietoris-Rips complexes of 3 to 8 points, and persistent intersection homology, which coincides with it unless there are singular points; non-trivial: a triangle" )
{
  Folder f( c );
  auto r = genCloud( c, 3, 8, c.size( 1, 3 ), 100 );
  c.assume( generic( r ) );
  std::vector<double> all;
  for( std::size_t i = 0; i < r.size(); i++ )
    for( std::size_t j = 0; j < i; j++ )
      all.push_back( distance( r[i], r[j] ) );
  std::sort( all.begin(), all.end() );
  auto k = c.draw( all.size() );
  double epsilon = k + 1 < all.size() ? ( all[k] + all[k+1] ) / 2 : all[k] + 1;
  std::ostringstream o;
  o.precision( 17 );
  o << epsilon;
  auto dimension = static_cast<unsigned>( c.size( 2, 3 ) );
  bool values = dimension == 3 || c.boolean(), invert = c.boolean(), standardize = c.chance( 1, 3 );
  Words words = { f( "points.txt" ), o.str() };
  put( f( "points.txt" ), cloudText( c, r ) );
  std::vector<Words> options;
  std::string curvature;
  if( values )
  {
    // No point is singular
    double sum = 0;
    for( std::size_t i = 0; i < r.size(); i++ )
    {
      auto x = static_cast<double>( c.size( 0, 40 ) ) / 4;
      if( i + 1 == r.size() && standardize && sum == 0 )
        x = 1;
      sum += x;
      curvature += text( x ) + " " + text( 1.0 ) + "\n";
    }
    put( f( "values.txt" ), curvature );
    words.push_back( f( "values.txt" ) );
    if( dimension == 3 || c.boolean() )
      words.push_back( std::to_string( dimension ) );
    options.push_back( option( c, "f", "filter", invert ? "100" : "-100" ) );
    if( invert )
      options.push_back( flag( c, "i", "invert" ) );
    if( standardize )
      options.push_back( flag( c, "s", "standardize" ) );
  }
  auto arguments = mix( c, options, words );
  c.input( slurp( f( "points.txt" ) ) + curvature + shown( f, arguments ) );

  std::map<model::V, double> cells;
  std::vector<model::V> last;
  for( unsigned i = 0; i < r.size(); i++ )
  {
    cells[ { i } ] = 0;
    last.push_back( { i } );
  }
  for( unsigned d = 1; d <= dimension; d++ )
  {
    std::vector<model::V> next;
    for( auto&& v : last )
      for( unsigned j = v.back() + 1; j < r.size(); j++ )
      {
        auto w = cells[v];
        for( auto&& i : v )
          w = std::max( w, distance( r[i], r[j] ) );
        if( w > epsilon )
          continue;
        auto x = v;
        x.push_back( j );
        cells[x] = w;
        next.push_back( x );
      }
    last.swap( next );
  }
  auto K = ordered( cells );
  auto top = model::dimension( K );
  c.assume( top == dimension );
  c.nontrivial( top >= 2 );
  c.label( values ? "singularity values" : "skeletons" );
  succeed( c, f, "persistent_intersection_homology", arguments );
  auto D = model::diagrams( K, false );
  for( unsigned d = 0; d < 3; d++ )
  {
    auto name = f.out() + "/D_" + std::to_string( d );
    if( d && !exists( name + "_PH.txt" ) )
    {
      c.check( !values || withoutDiagonal( D[d] ).empty(), "no diagram in dimension " + std::to_string( d ) );
      continue;
    }
    auto expected = withoutDiagonal( D[d] );
    same( c, points( c, slurp( name + "_PH.txt" ) ), expected, "persistent homology in dimension " + std::to_string( d ) );
    if( values )
      same( c, points( c, slurp( name + "_IH.txt" ) ), expected, "intersection homology in dimension " + std::to_string( d ) );
  }
}

LAW( diffusion, 400, 4000, "average edge lengths of Gabriel graphs of 3 to 10 points, weighted by heat that remains, at seven times; non-trivial: >=5 points" )
{
  Folder f( c );
  auto r = genCloud( c, 3, 10, 2, 100 );
  c.assume( generic( r ) );
  auto n = r.size();
  std::vector<std::vector<long double>> L( n, std::vector<long double>( n, 0 ) );
  std::vector<double> sum( n, 0.0 ), degree( n, 0.0 );
  for( std::size_t i = 0; i < n; i++ )
    for( std::size_t j = i + 1; j < n; j++ )
    {
      bool edge = true;
      auto w = distance( r[i], r[j] );
      for( std::size_t k = 0; k < n; k++ )
        if( k != i && k != j )
        {
          auto q = cloud::squared( r[i], r[k] ) + cloud::squared( r[j], r[k] ) - w * w;
          c.assume( std::fabs( q ) > 1e-3 );
          edge = edge && q > 0;
        }
      if( !edge )
        continue;
      L[i][j] = L[j][i] = -w;
      L[i][i] += w;
      L[j][j] += w;
      sum[i] += w;
      sum[j] += w;
      degree[i] += 1;
      degree[j] += 1;
    }
  put( f( "points.txt" ), cloudText( c, r ) );
  c.input( slurp( f( "points.txt" ) ) );
  c.nontrivial( n >= 5 );
  auto result = succeed( c, f, "multi_scale_skeleton", { f( "points.txt" ) } );
  auto first = blocks( result.out ), second = blocks( slurp( f.out() + "/HKS.txt" ) );
  std::vector<double> times = { 0, 0.001, 0.01, 0.1, 0.5, 1, 9 };
  c.equal( first.size(), times.size(), "number of times" );
  c.equal( second.size(), times.size(), "number of times" );
  auto multiply = [n] ( const std::vector<std::vector<long double>>& a, const std::vector<std::vector<long double>>& b )
  {
    std::vector<std::vector<long double>> r( n, std::vector<long double>( n, 0 ) );
    for( std::size_t i = 0; i < n; i++ )
      for( std::size_t k = 0; k < n; k++ )
        for( std::size_t j = 0; j < n; j++ )
          r[i][j] += a[i][k] * b[k][j];
    return r;
  };
  for( std::size_t s = 0; s < times.size(); s++ )
  {
    // Powers of an implicit step that is short enough for the series
    int halvings = 0;
    long double norm = 0, t = times[s];
    for( auto&& row : L )
    {
      long double x = 0;
      for( auto&& y : row )
        x += std::fabs( y );
      norm = std::max( norm, x );
    }
    while( norm * t > 0.25L )
    {
      t /= 2;
      halvings++;
    }
    std::vector<std::vector<long double>> H( n, std::vector<long double>( n, 0 ) ), term = H;
    for( std::size_t i = 0; i < n; i++ )
      H[i][i] = term[i][i] = 1;
    for( int k = 1; k < 24; k++ )
    {
      term = multiply( term, L );
      for( std::size_t i = 0; i < n; i++ )
        for( std::size_t j = 0; j < n; j++ )
        {
          term[i][j] *= -t / k;
          H[i][j] += term[i][j];
        }
    }
    while( halvings-- )
      H = multiply( H, H );
    auto a = table( c, first[s] ), b = table( c, second[s] );
    c.equal( a.size(), n, "number of values" );
    c.equal( b.size(), n, "number of values" );
    for( std::size_t i = 0; i < n; i++ )
    {
      auto x = sum[i] / degree[i] * static_cast<double>( H[i][i] );
      c.check( a[i].size() == 2 && a[i][0] == static_cast<double>( i ) && agree( a[i][1], x ), "value at time " + text( times[s] ) + " for point " + std::to_string( i ) + " is " + text( a[i].back() ) + " instead of " + text( x ) );
      c.check( b[i].size() == 3 && agree( b[i][0], r[i][0] ) && agree( b[i][1], r[i][1] ) && agree( b[i][2], x ), "value in file at time " + text( times[s] ) + " for point " + std::to_string( i ) );
    }
  }
}

// --- errors -----------------------------------------------------------

// Simplices of the barycentric subdivision: chains of faces. Vertices that stem
// from vertices of the complex have a single-element face.
static std::vector< std::vector<model::V> > chains( const std::vector<model::V>& faces )
{
  std::vector< std::vector<model::V> > r;
  for( auto&& f : faces )
    r.push_back( { f } );
  for( std::size_t i = 0; i < r.size(); i++ )
    for( auto&& f : faces )
    {
      auto last = r[i].back();
      if( f.size() > last.size() && std::includes( f.begin(), f.end(), last.begin(), last.end() ) )
      {
        auto x = r[i];
        x.push_back( f );
        r.push_back( x );
      }
    }
  return r;
}

// Betti numbers of chains of proper cells with proper boundary
static std::vector<long> properBetti( const std::vector< std::vector<model::V> >& cells, const std::vector<bool>& proper, std::size_t top )
{
  std::map< std::vector<model::V>, std::size_t > index;
  for( std::size_t i = 0; i < cells.size(); i++ )
    index[ cells[i] ] = i;
  std::vector<long> r( top + 1, 0 );
  auto words = cells.size() / 64 + 1;
  for( std::size_t k = 0; k <= top; k++ )
  {
    std::vector<model::Bits> all, improper;
    long n = 0;
    for( std::size_t i = 0; i < cells.size(); i++ )
      if( proper[i] && cells[i].size() == k + 1 )
      {
        ++n;
        model::Bits a( words, 0 ), b( words, 0 );
        for( std::size_t j = 0; k > 0 && j <= k; j++ )
        {
          auto f = cells[i];
          f.erase( f.begin() + static_cast<long>( j ) );
          model::flip( a, index.at( f ) );
          if( !proper[ index.at( f ) ] )
            model::flip( b, index.at( f ) );
        }
        all.push_back( a );
        improper.push_back( b );
      }
    auto ra = static_cast<long>( model::rank( all ) ), ri = static_cast<long>( model::rank( improper ) );
    r[k] += n - ra;
    if( k > 0 )
      r[k-1] -= ra - ri;
  }
  return r;
}

LAW( triangulations, 400, 4000, "homology and intersection homology of 1 to 3 complexes of dimension 1 to 3 for all perversities, by ranks of matrices of the subdivision; non-trivial: intersection homology differs between perversities" )
{
  Folder f( c );
  auto n = c.size( 1, 3 );
  std::string file;
  std::vector< std::vector<model::V> > complexes;
  for( std::size_t i = 0; i < n; i++ )
  {
    model::Options o;
    o.maxVertices  = 7;
    o.maxDimension = i == 0 ? 3 : 2;
    o.maxCells     = 45;
    auto K = model::genFiltered( c, o, false );
    auto d = K.empty() ? 0 : model::dimension( K );
    c.assume( d >= 1 && d <= 3 );
    std::vector<model::V> faces, written;
    for( auto&& x : K )
      faces.push_back( x.v );
    for( auto&& x : faces )
    {
      bool maximal = std::none_of( faces.begin(), faces.end(), [&] ( const model::V& y ) { return y.size() > x.size() && std::includes( y.begin(), y.end(), x.begin(), x.end() ); } );
      if( maximal || c.chance( 1, 10 ) )
        written.push_back( x );
    }
    c.shuffle( written );
    file += "manifold_" + std::to_string( i ) + "=[";
    for( std::size_t j = 0; j < written.size(); j++ )
    {
      file += std::string( j ? "," : "" ) + ( j && c.chance( 1, 8 ) ? "\n  " : "" ) + "[";
      for( std::size_t k = 0; k < written[j].size(); k++ )
        file += ( k ? "," : "" ) + std::to_string( written[j][k] );
      file += "]";
    }
    file += "]\n" + std::string( c.chance( 1, 3 ) ? "\n" : "" );
    complexes.push_back( faces );
  }
  put( f( "triangulations.txt" ), file );
  c.input( file );
  auto r = succeed( c, f, "wicked_triangulations", { f( "triangulations.txt" ) } );
  rapidjson::Document json;
  json.Parse( r.out.c_str() );
  c.check( !json.HasParseError() && json.IsObject() && json.HasMember( "homology" ) && json.HasMember( "intersection_homology" ), "output has the wrong structure: " + r.out.substr( 0, 300 ) );
  auto list = [&] ( const rapidjson::Value& v, const char* name )
  {
    c.check( v.IsObject() && v.HasMember( name ) && v[name].IsArray(), std::string( "entry " ) + name + " is missing" );
    std::vector<long> r;
    for( auto&& x : v[name].GetArray() )
    {
      c.check( x.IsInt(), std::string( "entry " ) + name + " is no number" );
      r.push_back( x.GetInt() );
    }
    return r;
  };
  auto&& H = json["homology"];
  auto&& I = json["intersection_homology"];
  c.check( H.IsObject() && I.IsObject(), "output has the wrong structure" );
  c.equal( static_cast<std::size_t>( H.MemberCount() ), n, "number of complexes" );
  c.equal( static_cast<std::size_t>( I.MemberCount() ), n, "number of complexes" );
  bool differ = false;
  for( std::size_t i = 0; i < n; i++ )
  {
    auto key = std::to_string( i );
    c.check( H.HasMember( key.c_str() ) && I.HasMember( key.c_str() ), "complex is missing" );
    auto&& faces = complexes[i];
    std::size_t d = 0;
    long euler = 0;
    for( auto&& x : faces )
    {
      d = std::max( d, x.size() - 1 );
      euler += x.size() % 2 ? 1 : -1;
    }
    auto cells = chains( faces );
    auto ordinary = properBetti( cells, std::vector<bool>( cells.size(), true ), d );
    c.equal( list( H[key.c_str()], "betti" ), ordinary, "Betti numbers" );
    c.check( H[key.c_str()].HasMember( "euler" ) && H[key.c_str()]["euler"].IsInt(), "Euler characteristic is missing" );
    c.equal( static_cast<long>( H[key.c_str()]["euler"].GetInt() ), euler, "Euler characteristic" );
    std::set< std::vector<long> > perversities, results;
    for( auto&& entry : I[key.c_str()].GetObject() )
    {
      auto p = list( entry.value, "perversity" );
      c.equal( p.size(), d, "number of values of a perversity" );
      for( std::size_t k = 1; k <= d; k++ )
        c.check( p[k-1] >= -1 && p[k-1] <= static_cast<long>( k ) - 1, "value of a perversity" );
      c.check( perversities.insert( p ).second, "perversity is repeated" );
      std::vector<bool> proper;
      for( auto&& x : cells )
      {
        bool ok = true;
        for( std::size_t k = 1; k <= d; k++ )
          ok = ok && ( x.front().size() > 1 || 0 <= static_cast<long>( x.size() ) - 1 - static_cast<long>( k ) + p[k-1] );
        proper.push_back( ok );
      }
      auto betti = list( entry.value, "betti" );
      c.equal( betti, properBetti( cells, proper, d ), "intersection Betti numbers for perversity " + pbt::str( p ) );
      results.insert( betti );
    }
    c.equal( perversities.size(), d == 1 ? std::size_t( 2 ) : d == 2 ? std::size_t( 6 ) : std::size_t( 24 ), "number of perversities" );
    differ = differ || results.size() > 1;
  }
  c.nontrivial( differ );
}

LAW( trees, 400, 4000, "cover trees of 1 to 14 integral points in 1 to 3 dimensions, read from a file or from standard input: every point is listed once, nodes have a parent in reach on the level above; non-trivial: >=3 levels" )
{
  Folder f( c );
  auto d = c.size( 1, 3 );
  auto r = cloud::gen( c, 1, 14, d, 1 );
  for( auto&& x : r )
    for( auto&& y : x )
      y = std::round( y );
  std::sort( r.begin(), r.end() );
  r.erase( std::unique( r.begin(), r.end() ), r.end() );
  c.shuffle( r );
  std::string file;
  for( auto&& x : r )
  {
    if( c.chance( 1, 8 ) )
      file += c.pick( Words{ "# comment", "", "  " } ) + "\n";
    for( std::size_t i = 0; i < x.size(); i++ )
      file += ( i ? c.pick( Words{ " ", "  ", "\t" } ) : c.chance( 1, 8 ) ? std::string( " " ) : std::string() ) + text( x[i] );
    file += "\n";
  }
  put( f( "points.txt" ), file );
  bool standard = c.chance( 1, 3 );
  c.input( file + ( standard ? "standard input" : "" ) );
  auto out = succeed( c, f, "cover_tree", { standard ? "-" : f( "points.txt" ) }, standard ? f( "points.txt" ) : "/dev/null" ).err;
  std::istringstream in( out );
  std::string line;
  std::vector< std::pair<long, cloud::Rows> > levels;
  while( std::getline( in, line ) )
  {
    auto colon = line.find( ": " );
    if( line.empty() || line.front() == '*' || colon == std::string::npos || line.find_first_not_of( "-0123456789" ) != colon )
      continue;
    std::istringstream row( line.substr( colon + 2 ) );
    cloud::Rows rows;
    cloud::Row x;
    for( double y; row >> y; )
    {
      x.push_back( y );
      if( x.size() == d )
      {
        rows.push_back( x );
        x.clear();
      }
    }
    c.check( x.empty(), "incomplete point: " + line );
    levels.push_back( { std::stol( line ), rows } );
  }
  cloud::Rows all;
  for( std::size_t i = 0; i < levels.size(); i++ )
  {
    auto&& l = levels[i];
    all.insert( all.end(), l.second.begin(), l.second.end() );
    c.check( i == 0 ? l.second.size() == 1 : l.first == levels[i-1].first - 1, "levels are not consecutive: " + out );
    for( auto&& p : l.second )
    {
      bool reached = i == 0;
      for( std::size_t j = 0; i && j < levels[i-1].second.size(); j++ )
        reached = reached || cloud::euclidean( p, levels[i-1].second[j] ) <= std::ldexp( 1.0, static_cast<int>( levels[i-1].first ) ) * ( 1 + 1e-9 );
      c.check( reached, "no parent is in reach of point " + cloud::show( { p } ) + ": " + out );
    }
  }
  auto sorted = r;
  std::sort( sorted.begin(), sorted.end() );
  std::sort( all.begin(), all.end() );
  c.check( all == sorted, "points of the tree differ: " + out );
  c.nontrivial( levels.size() >= 3 );
}

LAW( curvature, 400, 4000, "curvature of 20 to 40 points on a sphere of 1 or 2 dimensions: coordinates are repeated, followed by the inverse radius; non-trivial: neighbourhoods without some of the points" )
{
  Folder f( c );
  auto d = c.size( 2, 3 );
  auto n = c.size( 20, 40 );
  auto k = c.size( ( n + 1 ) / 2, n );
  cloud::Row centre;
  for( std::size_t i = 0; i < d; i++ )
    centre.push_back( static_cast<double>( c.around( 4 ) ) / 4 );
  auto radius = static_cast<double>( c.size( 2, 16 ) ) / 8;
  auto r = cloud::onSphere( c, n, centre, radius );
  std::string file;
  for( auto&& x : r )
  {
    if( c.chance( 1, 8 ) )
      file += c.pick( Words{ "# comment", "", "  " } ) + "\n";
    for( std::size_t i = 0; i < x.size(); i++ )
      file += ( i ? c.pick( Words{ " ", "  ", "\t" } ) : c.chance( 1, 8 ) ? std::string( " " ) : std::string() ) + text( x[i] );
    file += "\n";
  }
  put( f( "points.txt" ), file );
  c.input( file + "k " + pbt::str( k ) + " radius " + pbt::str( radius ) );
  c.nontrivial( k < n );
  std::istringstream in( succeed( c, f, "mean_curvature", { f( "points.txt" ), pbt::str( k ) } ).out );
  std::vector<double> values;
  for( double x; in >> x; )
    values.push_back( x );
  c.equal( values.size(), n * ( d + 1 ), "number of values" );
  for( std::size_t i = 0; i < n; i++ )
  {
    for( std::size_t j = 0; j < d; j++ )
      c.close( values[ i*(d+1)+j ], r[i][j], 1e-4, "coordinate of a point" );
    c.close( values[ i*(d+1)+d ], 1.0 / radius, 1e-3, "curvature of points on a sphere" );
  }
}

LAW( unreadable, 240, 2000, "tools without arguments, or with files that do not exist, fail; non-trivial: a file that does not exist" )
{
  Folder f( c );
  auto tool = c.pick( Words{ "rips_distributions", "local_dimensionality", "spectral_analysis", "persistent_spines", "piecewise_linear_function_smoothing", "persistence_indicator_function_confidence_sets", "persistence_indicator_function_glyph", "interlevel_set_persistence_hierarchy", "stratified_graph_analysis", "ephemeral", "process_image_patches", "persistent_intersection_homology", "multi_scale_skeleton", "wicked_triangulations", "cover_tree", "mean_curvature" } );
  // These do not need arguments
  bool optional = tool == "stratified_graph_analysis" || tool == "persistence_indicator_function_confidence_sets";
  bool none = !optional && tool != "cover_tree" && c.chance( 1, 4 );
  Words arguments;
  if( !none )
  {
    put( f( "points.txt" ), "1 2\n2 3\n1 4\n5 5\n" );
    if( tool == "persistence_indicator_function_glyph" )
      arguments.push_back( "5" );
    if( tool == "piecewise_linear_function_smoothing" && c.boolean() )
      arguments.push_back( f( "points.txt" ) );
    if( tool == "persistent_spines" )
      arguments.push_back( "-r1" );
    arguments.push_back( f( c.pick( Words{ "missing.txt", "missing", "missing.vtk" } ) ) );
    if( tool == "piecewise_linear_function_smoothing" )
      arguments.push_back( f( "points.txt" ) );
    if( tool == "persistent_intersection_homology" )
      arguments.push_back( "1.0" );
    if( tool == "mean_curvature" )
      arguments.push_back( "3" );
  }
  c.input( tool + " " + shown( f, arguments ) );
  c.nontrivial( !none );
  auto r = run( c, f, tool, arguments );
  c.check( r.exit != 0, tool + " succeeds without data" );
}
