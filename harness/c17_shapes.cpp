// C17: counts and measures of cubes and simplexes.
#include "mc/mc.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/geometry/shapes/NSimplex.hpp"
#include <cmath>
#include <limits>
#ifndef PART
#define PART 0
#endif
namespace sg = shiva::geometry;
using LL = long long;

static LL binom( int n, int k )
{
  if ( k < 0 || k > n ) return 0;
  std::vector< LL > row{ 1 };
  for ( int i = 1; i <= n; ++i ) { std::vector< LL > next( row.size() + 1, 1 ); for ( size_t j = 1; j < row.size(); ++j ) next[j] = row[j - 1] + row[j]; row = next; }
  return row[static_cast< size_t >( k )];
}
static LL cubes( int n, int m ) { return m < 0 || m > n ? 0 : ( 1LL << ( n - m ) ) * binom( n, m ); }
static LL simplexes( int n, int m ) { return m < 0 || m > n ? 0 : binom( n + 1, m + 1 ); }
static void eq( std::string const & who, char const * what, LL got, LL want )
{
  mc::check( got == want, what, [&]{ return who + ": " + what + " is " + std::to_string( got ) + ", not " + std::to_string( want ); } );
  mc::step(); mc::observe( static_cast< uint64_t >( got ) );
  mc::state( mc::hashString( who + what ) );
}
template< typename T > static void near( std::string const & who, char const * what, T got, long double want )
{
  mc::check( std::fabs( got - want ) <= 64 * static_cast< long double >( std::numeric_limits< T >::epsilon() ) * std::fabs( want ), what, [&]{ mc::Str s; s << who << ": " << what << " is " << got << ", not " << static_cast< double >( want ); return std::string( s ); } );
  mc::step(); mc::observe( static_cast< double >( got ) );
  mc::state( mc::hashString( who + what ) );
}
template< bool CUBE, typename S > static void named( std::string const & who, int n )
{
  auto f = [&]( int m ) { return CUBE ? cubes( n, m ) : simplexes( n, m ); };
  static constexpr LL ct[5] = { S::numDims(), S::numVertices(), S::numEdges(), S::numFaces(), S::numCells() };
  for ( int k = 0; k < 2; ++k )
  {
    std::string const w = who + ( k ? " constant" : "" );
    eq( w, "numDims", k ? ct[0] : S::numDims(), n );
    eq( w, "numVertices", k ? ct[1] : S::numVertices(), f( 0 ) );
    eq( w, "numEdges", k ? ct[2] : S::numEdges(), f( 1 ) );
    eq( w, "numFaces", k ? ct[3] : S::numFaces(), f( 2 ) );
    eq( w, "numCells", k ? ct[4] : S::numCells(), f( 3 ) );
  }
}
template< typename T, int N, int MIN, int MAX, int DIV > static void cubeCounts()
{
  using S = sg::NCube< T, N, MIN, MAX, DIV >;
  std::string const who = "NCube<" + std::to_string( N ) + ">";
  named< true, S >( who, N );
  eq( who, "numHyperFaces", S::numHyperFaces(), cubes( N, N - 1 ) );
  LL euler = 0;
  auto one = [&]( auto m ) { constexpr int M = decltype( m )::value; static constexpr LL v = S::template numMCubes< M >(); eq( who + " m=" + std::to_string( M ), "numMCubes", S::template numMCubes< M >(), cubes( N, M ) ); eq( who + " constant m=" + std::to_string( M ), "numMCubes", v, cubes( N, M ) ); euler += M % 2 ? -v : v; };
  [&]< int... M >( std::integer_sequence< int, M... > ) { ( one( std::integral_constant< int, M >{} ), ... ); }( std::make_integer_sequence< int, N + 1 >{} );
  eq( who, "Euler sum", euler, 1 );
}
template< typename T, int N, int MIN, int MAX, int DIV > static void simplexCounts()
{
  using S = sg::NSimplex< T, N, MIN, MAX, DIV >;
  std::string const who = "NSimplex<" + std::to_string( N ) + ">";
  named< false, S >( who, N );
  if constexpr ( N > 0 ) eq( who, "numHyperFaces", S::numHyperFaces(), simplexes( N, N - 1 ) );
  LL euler = 0;
  auto one = [&]( auto m ) { constexpr int M = decltype( m )::value; static constexpr LL v = S::template numMSimplexes< M >(); eq( who + " m=" + std::to_string( M ), "numMSimplexes", S::template numMSimplexes< M >(), simplexes( N, M ) ); eq( who + " constant m=" + std::to_string( M ), "numMSimplexes", v, simplexes( N, M ) ); euler += M % 2 ? -v : v; };
  [&]< int... M >( std::integer_sequence< int, M... > ) { ( one( std::integral_constant< int, M >{} ), ... ); }( std::make_integer_sequence< int, N + 1 >{} );
  eq( who, "Euler sum", euler, 1 );
}
template< template< typename, int, int, int, int > class SH, bool CUBE, typename T, int N, int MIN, int MAX, int DIV > static void measures()
{
  using S = SH< T, N, MIN, MAX, DIV >;
  mc::Str s; s << ( CUBE ? "NCube<" : "NSimplex<" ) << mc::typeName< T >() << "," << N << "," << MIN << "," << MAX << "," << DIV << ">";
  std::string const who = s;
  long double const lo = static_cast< long double >( MIN ) / DIV, hi = static_cast< long double >( MAX ) / DIV, len = ( static_cast< long double >( MAX ) - MIN ) / DIV;
  near< T >( who, "minCoord", S::minCoord(), lo ); near< T >( who, "maxCoord", S::maxCoord(), hi ); near< T >( who, "length", S::length(), len );
  static constexpr T c0 = S::minCoord(), c1 = S::maxCoord(), c2 = S::length();
  near< T >( who + " constant", "minCoord", c0, lo ); near< T >( who + " constant", "maxCoord", c1, hi ); near< T >( who + " constant", "length", c2, len );
  if constexpr ( N > 0 )
  {
    long double v = 1; for ( int k = 1; k <= N; ++k ) v *= CUBE ? len : len / k;
    static constexpr T c3 = S::volume();
    near< T >( who, "volume", S::volume(), v ); near< T >( who + " constant", "volume", c3, v );
  }
  mc::check( std::is_same_v< typename S::RealType, T >, "RealType", who );
}
template< typename T, int N, int MIN, int MAX > static void divisors( mc::Cases & c )
{
  if constexpr ( MIN < MAX )
  {
    c.emplace_back( "cube measures", []{ measures< sg::NCube, true, T, N, MIN, MAX, 1 >(); measures< sg::NCube, true, T, N, MIN, MAX, 2 >(); measures< sg::NCube, true, T, N, MIN, MAX, 3 >(); measures< sg::NCube, true, T, N, MIN, MAX, 7 >(); } );
    c.emplace_back( "simplex measures", []{ measures< sg::NSimplex, false, T, N, MIN, MAX, 1 >(); measures< sg::NSimplex, false, T, N, MIN, MAX, 2 >(); measures< sg::NSimplex, false, T, N, MIN, MAX, 3 >(); measures< sg::NSimplex, false, T, N, MIN, MAX, 7 >(); } );
  }
}
template< typename T, int N, int MIN, int... K > static void uppers( mc::Cases & c, std::integer_sequence< int, K... > ) { ( divisors< T, N, MIN, K - 3 >( c ), ... ); }
template< typename T, int N, int... K > static void lowers( mc::Cases & c, std::integer_sequence< int, K... > ) { ( uppers< T, N, K - 3 >( c, std::make_integer_sequence< int, 7 >{} ), ... ); }
template< typename T, int N > static void bounds( mc::Cases & c ) { lowers< T, N >( c, std::make_integer_sequence< int, 7 >{} ); }
template< int... N > static void counts( mc::Cases & c, std::integer_sequence< int, N... > )
{
  ( c.emplace_back( "cube counts", []{ cubeCounts< double, N, -1, 1, 1 >(); } ), ... );
  ( c.emplace_back( "simplex counts", []{ if constexpr ( N < 12 ) simplexCounts< double, N, 0, 1, 1 >(); } ), ... );
}
static void body()
{
  static mc::Cases c;
  if ( c.empty() )
  {
#if PART == 0
    counts( c, std::make_integer_sequence< int, 13 >{} );
    c.emplace_back( "cube counts float", []{ cubeCounts< float, 3, 0, 5, 2 >(); cubeCounts< float, 2, -4, 1, 3 >(); } );
    c.emplace_back( "simplex counts float", []{ simplexCounts< float, 3, -2, 5, 2 >(); simplexCounts< long double, 2, -4, 1, 3 >(); } );
    c.emplace_back( "named shapes", []{
      eq( "Square", "numVertices", sg::Square< double >::numVertices(), 4 ); eq( "Cube", "numFaces", sg::Cube< double >::numFaces(), 6 ); eq( "Triangle", "numEdges", sg::Triangle< double >::numEdges(), 3 ); eq( "Tetrahedron", "numFaces", sg::Tetrahedron< double >::numFaces(), 4 );
      near< double >( "Square", "volume", sg::Square< double >::volume(), 4 ); near< double >( "Cube", "volume", sg::Cube< double >::volume(), 8 ); near< double >( "Triangle", "volume", sg::Triangle< double >::volume(), 0.5L ); near< double >( "Tetrahedron", "volume", sg::Tetrahedron< double >::volume(), 1.0L / 6 ); near< float >( "Cube", "minCoord", sg::Cube< float >::minCoord(), -1 ); near< float >( "Tetrahedron", "maxCoord", sg::Tetrahedron< float >::maxCoord(), 1 ); } );
    c.emplace_back( "many dimensions", []{ measures< sg::NSimplex, false, double, 12, -1, 1, 1 >(); measures< sg::NSimplex, false, double, 13, 0, 1, 1 >(); measures< sg::NSimplex, false, double, 16, 0, 5, 2 >(); measures< sg::NSimplex, false, double, 20, 0, 1, 1 >(); measures< sg::NSimplex, false, double, 21, 0, 3, 1 >(); measures< sg::NSimplex, false, double, 22, 0, 1, 1 >(); measures< sg::NSimplex, false, double, 34, -1, 2, 1 >(); measures< sg::NSimplex, false, long double, 40, 0, 1, 1 >(); measures< sg::NSimplex, false, float, 15, 0, 3, 1 >();
                                               measures< sg::NCube, true, double, 20, -1, 2, 2 >(); measures< sg::NCube, true, double, 31, 0, 2, 1 >(); measures< sg::NCube, true, double, 33, -1, 1, 1 >(); measures< sg::NCube, true, double, 64, 0, 2, 1 >(); measures< sg::NCube, true, float, 70, 0, 3, 2 >(); measures< sg::NCube, true, long double, 100, 0, 4, 3 >(); } );
    c.emplace_back( "large bounds", []{ measures< sg::NCube, true, double, 2, -2000000000, 2000000000, 1 >(); measures< sg::NCube, true, float, 1, -2147483647 - 1, 2147483647, 2147483647 >(); measures< sg::NSimplex, false, double, 2, -2000000000, 2000000000, 7 >(); measures< sg::NSimplex, false, long double, 3, -2147483647 - 1, 2147483647, 1 >(); measures< sg::NCube, true, double, 3, -1000000000, 1000000000, 1 >(); measures< sg::NSimplex, false, double, 3, -1000000000, 1000000000, 1000 >(); measures< sg::NCube, true, float, 2, 1000000, 3000000, 1000000 >(); measures< sg::NCube, true, long double, 12, 0, 1, 3 >(); measures< sg::NSimplex, false, long double, 11, 0, 2, 3 >(); measures< sg::NCube, true, double, 9, -7, 4, 5 >(); measures< sg::NSimplex, false, float, 9, -7, 4, 5 >(); } );
#elif PART == 1
    bounds< double, 1 >( c ); bounds< double, 3 >( c ); bounds< float, 2 >( c );
#else
    bounds< double, 2 >( c ); bounds< double, 4 >( c ); bounds< float, 3 >( c );
#endif
  }
  mc::pickCase( c );
}
MC_MAIN( body )
