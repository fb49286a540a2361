// C10 (values) and C11 (gradients, -DGRAD): every basis function of every order, spacing and type on a coordinate set
// with more points than the degree determines it, against the defining product in extended precision.
#include "mc/mc.hpp"
#include "harness/ref1d.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include <cmath>
#include <limits>
#include <utility>
using ref::Q;
#ifndef PART
#define PART 0
#endif
#ifdef GRAD
#define FN gradient
static char const * const what = "gradient";
static Q refFn( std::vector< Q > const & x, size_t i, Q t ) { return ref::lagrangeD( x, i, t ); }
static Q refAbs( std::vector< Q > const & x, size_t i, Q t ) { return ref::lagrangeDAbs( x, i, t, Q( 0.05 ) ); }
static Q power( Q t, int k ) { Q r = k; for ( int i = 1; i < k; ++i ) r *= t; return k ? r : Q( 0 ); }
static int const sign = -1;
#else
#define FN value
static char const * const what = "value";
static Q refFn( std::vector< Q > const & x, size_t i, Q t ) { return ref::lagrange( x, i, t ); }
static Q refAbs( std::vector< Q > const & x, size_t i, Q t ) { return ref::lagrangeAbs( x, i, t, Q( 0.05 ) ); }
static Q power( Q t, int k ) { Q r = 1; for ( int i = 0; i < k; ++i ) r *= t; return r; }
static int const sign = 1;
#endif
static Q plain( Q t, int k ) { Q r = 1; for ( int i = 0; i < k; ++i ) r *= t; return r; }

template< typename T > static constexpr T constPoint( int i )
{
  T const p[] = { T( -1.25 ), T( -1 ), T( -0.8125 ), T( -0.4375 ), T( -0.125 ), T( 0 ), T( 0.3125 ), T( 0.5625 ), T( 0.9375 ), T( 1 ), T( 1.75 ) };
  return p[i];
}
static constexpr int numConst = 11;

// a spacing of the user: neither even nor symmetric
template< typename T, int N > struct Uneven
{
  static constexpr int numPoints = N;
  static constexpr T coordinate( int const i ) { return T( -1 ) + T( 2 ) * T( i * ( i + 1 ) ) / T( N * ( N + 1 ) ); }
  template< int I > static constexpr T coordinate() { return coordinate( I ); }
};
template< template< typename, int > typename SP > struct Symmetric { static constexpr bool value = true; };
template<> struct Symmetric< Uneven > { static constexpr bool value = false; };

template< typename B, typename T > struct Table
{
  static constexpr int N = B::numSupportPoints;
  template< int I > static T call( T const & t ) { return B::template FN< I >( t ); }
  template< int I > static T constAt( int k )
  {
    return constArr< I >( k, std::make_index_sequence< numConst >{} );
  }
  template< int I, size_t... K > static T constArr( int k, std::index_sequence< K... > )
  {
    static constexpr T v[] = { B::template FN< I >( constPoint< T >( static_cast< int >( K ) ) )... };
    return v[k];
  }
  using F = T ( * )( T const & );
  using G = T ( * )( int );
  template< size_t... I > static F fn( int i, std::index_sequence< I... > ) { static constexpr F f[] = { &call< static_cast< int >( I ) >... }; return f[i]; }
  template< size_t... I > static G cn( int i, std::index_sequence< I... > ) { static constexpr G f[] = { &constAt< static_cast< int >( I ) >... }; return f[i]; }
  template< size_t... I > static std::vector< T > nodes( std::index_sequence< I... > ) { return { B::SpacingType::template coordinate< static_cast< int >( I ) >()... }; }
};

template< typename T, int ORDER, template< typename, int > typename SP > static void basis( char const * spName )
{
  using B = shiva::functions::LagrangeBasis< T, ORDER, SP >;
  using Tab = Table< B, T >;
  constexpr int N = ORDER + 1;
  using Seq = std::make_index_sequence< N >;
  std::string const who = std::string( spName ) + " order " + std::to_string( ORDER ) + " " + mc::typeName< T >() + " ";
  mc::check( B::order == ORDER && B::numSupportPoints == N, "counts", [&]{ return who + "reports a wrong order or number of support points"; } );
  Q const eps = std::max( static_cast< long double >( std::numeric_limits< T >::epsilon() ), 2.2e-16L );
  static std::vector< T > const nt = Tab::nodes( Seq{} );
  static std::vector< Q > const nodes( nt.begin(), nt.end() );
  static std::vector< T > const pts = [&]{
    std::vector< T > p;
    T const inf = std::numeric_limits< T >::infinity();
    T const e = std::numeric_limits< T >::epsilon();
    for ( T x : nt )
    {
      p.push_back( x ); p.push_back( std::nextafter( x, inf ) ); p.push_back( std::nextafter( x, -inf ) );
      for ( T d : { std::sqrt( e ), std::cbrt( e ), T( 16 ) * e, T( 1e-3 ) } ) { p.push_back( x + d ); p.push_back( x - d ); }
    }
    for ( size_t i = 0; i + 1 < nt.size(); ++i ) p.push_back( ( nt[i] + nt[i + 1] ) / 2 );
    int const M = mc::thorough() ? 200 : 26;
    for ( int i = 0; i <= M; ++i ) p.push_back( T( -1.3 ) + T( 2.6 ) * T( i ) / T( M ) );
    for ( T x : { T( 0 ), -T( 0 ), T( 1 ), T( -1 ), T( 1.5 ), T( -1.5 ), T( 2 ), T( -2 ), T( 10 ), T( -10 ), T( 100 ), T( -100 ), T( 1e-30 ), T( -1e-30 ), T( 1.0 / 3 ), T( -2.0 / 3 ), std::numeric_limits< T >::min(), std::numeric_limits< T >::denorm_min() } ) p.push_back( x );
    // far outside, as far as the powers and products stay within the type
    for ( T x : { T( 1e3 ), T( 1e4 ), T( 1e5 ), T( 1e7 ), T( 1e9 ), T( 1e12 ), T( 1e16 ), T( 1e20 ), T( 1e30 ) } )
      if ( ( ORDER + 2 ) * std::log10( x ) < std::log10( std::numeric_limits< T >::max() ) - 6 ) { p.push_back( x ); p.push_back( -x ); }
    return p; }();
  if ( mc::flip( "sums" ) )
  {
    // identities over all basis functions, with the support points of the run-time form
    size_t const k = static_cast< size_t >( mc::choose( static_cast< int >( pts.size() ), "point" ) );
    T const t = pts[k];
    Q v[N], a[N], x[N];
    for ( int i = 0; i < N; ++i ) { v[i] = Tab::fn( i, Seq{} )( t ); a[i] = refAbs( nodes, static_cast< size_t >( i ), t ); x[i] = B::coordinate( i ); }
    for ( int d = 0; d <= ORDER; ++d )
    {
      Q s = 0, tol = 0;
      for ( int i = 0; i < N; ++i ) { s += v[i] * plain( x[i], d ); tol += a[i]; }
      mc::step();
      mc::check( ref::absq( s - power( t, d ) ) <= ( 60 + 20 * d ) * eps * tol + 60 * eps * ref::absq( power( t, d ) ), "reproduction", [&]{ return std::string( mc::Str() << who << "does not reproduce the " << what << " of x^" << d << " at " << static_cast< double >( t ) << ": " << static_cast< double >( s ) << " instead of " << static_cast< double >( power( t, d ) ) ); } );
    }
    for ( int i = 0; i < N && Symmetric< SP >::value; ++i )
    {
      T const m = Tab::fn( N - 1 - i, Seq{} )( -t );
      mc::check( ref::absq( v[i] - sign * Q( m ) ) <= 100 * eps * a[i], "mirror", [&]{ return std::string( mc::Str() << who << what << "<" << i << "> at " << static_cast< double >( t ) << " does not mirror <" << N - 1 - i << ">" ); } );
    }
    mc::state( mc::mix( mc::hashString( who ), 1000000 + k ) );
    return;
  }
  int const i = mc::choose( N, "basis" );
  auto const f = Tab::fn( i, Seq{} );
  int const form = mc::choose( 2, "form" );
  if ( form == 1 )
  {
    auto const g = Tab::cn( i, Seq{} );
    for ( int k = 0; k < numConst; ++k )
    {
      T const t = constPoint< T >( k ), c = g( k );
      Q const w = refFn( nodes, static_cast< size_t >( i ), t ), tol = 40 * eps * refAbs( nodes, static_cast< size_t >( i ), t );
      mc::step();
      mc::check( ref::absq( c - w ) <= tol && ref::absq( Q( c ) - f( t ) ) <= tol, "constexpr", [&]{ return std::string( mc::Str() << who << "constant " << what << "<" << i << "> at " << static_cast< double >( t ) << " is " << static_cast< double >( c ) << ", at run time " << static_cast< double >( f( t ) ) << ", exactly " << static_cast< double >( w ) ); } );
      mc::state( mc::mix( mc::hashString( who ), static_cast< uint64_t >( 2000000 + i * 100 + k ) ) );
    }
    return;
  }
  for ( size_t k = 0; k < pts.size(); ++k )
  {
    T const t = pts[k];
    T const got = f( t );
    Q const w = refFn( nodes, static_cast< size_t >( i ), t ), tol = 40 * eps * refAbs( nodes, static_cast< size_t >( i ), t );
    mc::step();
    auto where = [&]{ return std::string( mc::Str() << who << what << "<" << i << ">( " << static_cast< double >( t ) << " ) = " << static_cast< double >( got ) << ", exactly " << static_cast< double >( w ) ); };
    mc::check( ref::absq( got - w ) <= tol, what, where );
    if ( mc::tracing() && k % 9 == 0 ) mc::note( where() );
    mc::state( mc::mix( mc::hashString( who ), static_cast< uint64_t >( i * 1000 ) + k ) );
  }
}
template< typename T, template< typename, int > typename SP, int... O > static void add( mc::Cases & c, char const * n, std::integer_sequence< int, O... > ) { ( c.emplace_back( n, [=]{ basis< T, O + 1, SP >( n ); } ), ... ); }
template< typename T > static void basisOfOne( mc::Cases & c ) { c.emplace_back( "GaussLegendre", []{ basis< T, 0, shiva::GaussLegendreSpacing >( "GaussLegendre" ); } ); }
static void body()
{
  static mc::Cases c;
  if ( c.empty() )
  {
    using O3 = std::make_integer_sequence< int, 3 >; using O8 = std::make_integer_sequence< int, 8 >;
#if PART == 0
    using T = double;
#elif PART == 1
    using T = float;
#else
    using T = long double;
#endif
    add< T, shiva::GaussLobattoSpacing >( c, "GaussLobatto", O8{} ); add< T, shiva::EqualSpacing >( c, "Equal", O8{} ); add< T, shiva::GaussLegendreSpacing >( c, "GaussLegendre", O3{} );
    basisOfOne< T >( c ); add< T, Uneven >( c, "Uneven", std::make_integer_sequence< int, 5 >{} );
    // more equally spaced points
    c.emplace_back( "Equal", []{ basis< T, 9, shiva::EqualSpacing >( "Equal" ); } ); c.emplace_back( "Equal", []{ basis< T, 10, shiva::EqualSpacing >( "Equal" ); } ); c.emplace_back( "Equal", []{ basis< T, 12, shiva::EqualSpacing >( "Equal" ); } );
    c.emplace_back( "Equal", []{ basis< T, PART == 1 ? 14 : 13, shiva::EqualSpacing >( "Equal" ); } ); c.emplace_back( "Equal", []{ basis< T, PART == 1 ? 15 : 17, shiva::EqualSpacing >( "Equal" ); } );
  }
  mc::pickCase( c );
}
MC_MAIN( body )
