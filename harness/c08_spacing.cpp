// C08: every spacing point of every family, count and type, run-time and compile-time form, against exact roots.
#include "mc/mc.hpp"
#include "harness/ref1d.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include "shiva/functions/quadrature/Quadrature.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include <limits>
#include <utility>
using ref::Q;

template< typename T > static long double eps() { return std::max( static_cast< long double >( std::numeric_limits< T >::epsilon() ), 2.2e-16L ); }
static volatile int zero = 0;

template< typename S, typename T, size_t... I >
static void points( std::string const & who, std::vector< Q > const & want, bool tabulated, bool ends, std::index_sequence< I... > )
{
  constexpr int N = sizeof...( I );
  long double const tol = std::max( 4 * eps< T >(), tabulated ? 2e-13L : 0.0L );
  static constexpr T ct[] = { S::template coordinate< static_cast< int >( I ) >()... };         // compile-time form, constant evaluation
  static constexpr T rc[] = { S::coordinate( static_cast< int >( I ) )... };                    // run-time form, constant evaluation
  T const cr[] = { S::template coordinate< static_cast< int >( I ) >()... };                    // compile-time form at run time
  if ( want.size() != static_cast< size_t >( N ) ) mc::fatal( "no reference for %s", who.c_str() );
  mc::check( S::numPoints == N, "numPoints", [&]{ return who + ": numPoints is " + std::to_string( S::numPoints ); } );
  T rt[N];
  int const start = mc::choose( N, "first" );         // every index first, then the others
  for ( int k = 0; k < N; ++k ) { int const i = ( start + k ) % N; rt[i] = S::coordinate( i + zero ); mc::step( 4 ); }
  for ( int i = 0; i < N; ++i )
  {
    auto const at = [&]( char const * f, T v ) { return std::string( mc::Str() << who << " " << f << " " << i << " is " << static_cast< double >( v ) << ", not " << static_cast< double >( want[static_cast< size_t >( i )] ) ); };
    long double const w = static_cast< long double >( want[static_cast< size_t >( i )] );
    mc::check( std::fabs( rt[i] - w ) <= tol, "run-time", [&]{ return at( "coordinate(i)", rt[i] ); } );
    mc::check( std::fabs( ct[i] - w ) <= tol, "compile-time", [&]{ return at( "coordinate<i>()", ct[i] ); } );
    mc::check( std::fabs( rc[i] - w ) <= tol, "run-time form as constant", [&]{ return at( "constant coordinate(i)", rc[i] ); } );
    mc::check( std::fabs( cr[i] - w ) <= tol, "compile-time form at run time", [&]{ return at( "coordinate<i>()", cr[i] ); } );
    mc::check( std::fabs( static_cast< long double >( rt[i] ) - ct[i] ) <= 4 * eps< T >() && std::fabs( static_cast< long double >( rc[i] ) - cr[i] ) <= 4 * eps< T >(), "forms differ", [&]{ return at( "run-time and compile-time forms differ:", rt[i] ); } );
    mc::check( std::fabs( static_cast< long double >( rt[i] ) + rt[N - 1 - i] ) <= 4 * eps< T >() && std::fabs( static_cast< long double >( ct[i] ) + ct[N - 1 - i] ) <= 4 * eps< T >(), "symmetry", [&]{ return at( "not symmetric:", rt[i] ); } );
    if ( i ) mc::check( rt[i] > rt[i - 1] && ct[i] > ct[i - 1], "ascending", [&]{ return at( "not ascending:", rt[i] ); } );
    mc::state( mc::mix( mc::hashString( who ), static_cast< uint64_t >( i * 100 + start ) ) );
    mc::observe( static_cast< double >( rt[i] ) );
    if ( mc::tracing() ) mc::note( at( "coordinate", rt[i] ) );
  }
  if ( ends ) mc::check( std::fabs( rt[0] + 1.0L ) <= 2 * eps< T >() && std::fabs( rt[N - 1] - 1.0L ) <= 2 * eps< T >() && std::fabs( ct[0] + 1.0L ) <= 2 * eps< T >() && std::fabs( ct[N - 1] - 1.0L ) <= 2 * eps< T >(), "ends", [&]{ return who + ": the end points are missing"; } );
}
template< typename T, int N, template< typename, int > typename S > static std::string nm( char const * s ) { return std::string( s ) + "<" + mc::typeName< T >() + "," + std::to_string( N ) + ">"; }
using IS = void;
template< typename T, int N > static void eq()
{
  using S = shiva::EqualSpacing< T, N >;
  if ( mc::flip( "basis" ) ) { points< shiva::functions::LagrangeBasis< T, N - 1, shiva::EqualSpacing >, T >( nm< T, N, shiva::EqualSpacing >( "basis on Equal" ), ref::equal( N ), false, true, std::make_index_sequence< N >{} ); return; }
  points< S, T >( nm< T, N, shiva::EqualSpacing >( "Equal" ), ref::equal( N ), false, true, std::make_index_sequence< N >{} );
  static constexpr T h = S::interval();
  mc::check( std::fabs( h - 2.0L / ( N - 1 ) ) <= 4 * eps< T >() && S::interval() == h, "interval", [&]{ return nm< T, N, shiva::EqualSpacing >( "Equal" ) + ": interval is " + std::to_string( static_cast< double >( h ) ); } );
}
template< typename T, int N > static void gl()
{
  if ( mc::flip( "derived" ) ) { points< shiva::QuadratureGaussLegendre< T, N >, T >( nm< T, N, shiva::EqualSpacing >( "QuadratureGaussLegendre" ), ref::gaussLegendre( N ), false, false, std::make_index_sequence< N >{} ); return; }
  points< shiva::GaussLegendreSpacing< T, N >, T >( nm< T, N, shiva::EqualSpacing >( "GaussLegendre" ), ref::gaussLegendre( N ), false, false, std::make_index_sequence< N >{} );
}
template< typename T, int N > static void lo()
{
  if ( mc::flip( "derived" ) ) { points< shiva::QuadratureGaussLobatto< T, N >, T >( nm< T, N, shiva::EqualSpacing >( "QuadratureGaussLobatto" ), ref::gaussLobatto( N ), N >= 6, true, std::make_index_sequence< N >{} ); return; }
  points< shiva::GaussLobattoSpacing< T, N >, T >( nm< T, N, shiva::EqualSpacing >( "GaussLobatto" ), ref::gaussLobatto( N ), N >= 6, true, std::make_index_sequence< N >{} );
}
template< typename T, int... N > static void addEq( mc::Cases & c, std::integer_sequence< int, N... > ) { ( c.emplace_back( "equal", eq< T, N + 2 > ), ... ); }
template< typename T, int... N > static void addGl( mc::Cases & c, std::integer_sequence< int, N... > ) { ( c.emplace_back( "legendre", gl< T, N + 1 > ), ... ); }
template< typename T, int... N > static void addLo( mc::Cases & c, std::integer_sequence< int, N... > ) { ( c.emplace_back( "lobatto", lo< T, N + 2 > ), ... ); }
static void body()
{
  static mc::Cases c;
  if ( c.empty() )
  {
    addLo< double >( c, std::make_integer_sequence< int, 8 >{} ); addLo< float >( c, std::make_integer_sequence< int, 8 >{} ); addLo< long double >( c, std::make_integer_sequence< int, 8 >{} );
    addGl< double >( c, std::make_integer_sequence< int, 4 >{} ); addGl< float >( c, std::make_integer_sequence< int, 4 >{} ); addGl< long double >( c, std::make_integer_sequence< int, 4 >{} );
    using Many = std::integer_sequence< int, 31, 47, 62, 63, 95, 98, 126, 127, 198, 255 >;
    addEq< double >( c, Many{} ); addEq< float >( c, Many{} ); addEq< long double >( c, Many{} );
    addEq< double >( c, std::make_integer_sequence< int, 24 >{} ); addEq< float >( c, std::make_integer_sequence< int, 24 >{} ); addEq< long double >( c, std::make_integer_sequence< int, 24 >{} );
  }
  mc::pickCase( c );
}
MC_MAIN( body )
