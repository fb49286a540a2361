// C21: one program that uses every public component, at run time and in constant evaluation, and prints what it gets.
// Lines: <name> <i|d|f> <c|r> values...   (integers exact, double or float precision; constant evaluation or run time)
#include "shiva/Shiva.hpp"
#include "shiva/common/pmpl.hpp"
#include "shiva/common/CArray.hpp"
#include "shiva/common/IndexTypes.hpp"
#include "shiva/common/LinearIndex.hpp"
#include "shiva/common/MathUtilities.hpp"
#include "shiva/common/MultiIndex.hpp"
#include "shiva/common/NestedSequenceUtilities.hpp"
#include "shiva/common/SequenceUtilities.hpp"
#include "shiva/common/types.hpp"
#include "shiva/functions/bases/BasisProduct.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/quadrature/Quadrature.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/geometry/shapes/NSimplex.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/geometry/mapping/JacobianTransforms.hpp"
#include "shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp"
#include <array>
#include <cstdio>
#include <string>
#include <type_traits>
#ifndef PART
#define PART 0
#endif
namespace sf = shiva::functions;
namespace sg = shiva::geometry;
namespace fe = shiva::discretizations::finiteElementMethod;
namespace su = shiva::geometry::utilities;
namespace sm = shiva::mathUtilities;

template< typename T, int N > struct Vals { T v[N] = {}; int n = 0; constexpr void add( T x ) { v[n++] = x; } };

template< typename T, int N > static void put( std::string const & name, char const * when, Vals< T, N > const & r )
{
  std::printf( "%s %s %s", name.c_str(), std::is_integral_v< T > ? "i" : sizeof( T ) == 4 ? "f" : "d", when );
  for ( int k = 0; k < r.n; ++k )
  {
    if constexpr ( std::is_integral_v< T > ) std::printf( " %lld", static_cast< long long >( r.v[k] ) );
    else std::printf( " %.17g", static_cast< double >( r.v[k] ) );
  }
  std::printf( "\n" );
}
#if defined( __GNUC__ )
#define KEEP __attribute__( ( noinline ) )
#endif
template< typename T > KEEP T launder( T const x ) { T volatile y = x; return y; }
// F{}( x... ) on -1, 0, 1 and numbers that are not exact in binary, once as a constant and once on values the compiler cannot know.
template< typename T > constexpr T number( int const x ) { return x % 16 == 0 ? static_cast< T >( x ) / 16 : static_cast< T >( x ) / static_cast< T >( 15.7 ); }
template< typename F, int... X > KEEP void both( std::string const & name )
{
  using T = typename F::T;
  constexpr auto c = F{} ( number< T >( X ) ... );
  put( name, "c", c );
  put( name, "r", F{} ( launder( number< T >( X ) ) ... ) );
}
template< typename F > KEEP void ints( std::string const & name )
{
  constexpr auto c = F{} ( 1 );
  put( name, "c", c );
  put( name, "r", F{} ( launder( 1 ) ) );
}

#if PART == 0
// ---- arrays, indices, sequences, integer mathematics ----------------------------------------------------------
template< typename T, int... D > struct Fill
{
  static constexpr int N = ( D * ... * 1 );
  constexpr Vals< long long, N + sizeof...( D ) + 2 > operator()( int const one ) const
  {
    shiva::CArrayNd< T, D... > a{};
    Vals< long long, N + sizeof...( D ) + 2 > r;
    for ( int k = 0; k < N; ++k ) a.data()[k] = static_cast< T >( k * 3 + one );
    if constexpr ( sizeof...( D ) == 3 )
    {
      constexpr int e[] = { D... };
      for ( int k = e[2] - 1; k >= 0; --k ) for ( int i = 0; i < e[0]; ++i ) for ( int j = 0; j < e[1]; ++j ) { r.add( static_cast< long long >( a( i, j, k ) ) ); a( i, j, k ) = static_cast< T >( i - j + k ); }
      if constexpr ( ( ( D > 1 ) && ... ) ) r.add( static_cast< long long >( a.template operator()< 1, 0, 1 >() ) );
    }
    else
    {
      constexpr int e[] = { D..., 1 };
      for ( int i = 0; i < e[0]; ++i ) for ( int j = 0; j < e[1]; ++j ) { if constexpr ( sizeof...( D ) == 2 ) { r.add( static_cast< long long >( a( i, j ) ) ); a( i, j ) = static_cast< T >( j - i ); } else { r.add( static_cast< long long >( a( i ) ) ); a( i ) = static_cast< T >( -i ); } }
    }
    ( ( r.add( D ) ), ... );
    return r;
  }
};
// Every element through slices, mixed with whole-array accesses, by indices of several types.
template< typename X, int A, int B, int C > struct Slices
{
  constexpr Vals< long long, 2 * A * B * C + 2 * A * B + 8 > operator()( int const one ) const
  {
    shiva::CArrayNd< int, A, B, C > a{};
    shiva::CArrayNd< short, A > v{};
    Vals< long long, 2 * A * B * C + 2 * A * B + 8 > r;
    for ( X i = 0; i < static_cast< X >( A ); ++i )
    {
      v[i] = static_cast< short >( i * 3 );
      for ( X j = 0; j < static_cast< X >( B ); ++j ) for ( X k = 0; k < static_cast< X >( C ); ++k ) { if ( ( i + j + k ) % 2 ) a[i][j][k] = one + i * 100 + j * 10 + k; else a[i]( j, k ) = -( i * 100 + j * 10 + k ); }
    }
    auto const & c = a;
    for ( X i = 0; i < static_cast< X >( A ); ++i )
    {
      auto const s = c[i];
      for ( X j = 0; j < static_cast< X >( B ); ++j ) { auto const t = s[j]; r.add( t( 0 ) ); r.add( v( i ) ); for ( X k = 0; k < static_cast< X >( C ); ++k ) { r.add( t[k] ); r.add( c( i, j, k ) ); } }
    }
    r.add( c.size() ); r.add( c.template extent< 0 >() ); r.add( c.template extent< 2 >() ); r.add( c.rank() ); r.add( c[0].size() );
    return r;
  }
};
template< int... D > struct Walk
{
  constexpr Vals< int, 400 > operator()( int const one ) const
  {
    Vals< int, 400 > r;
    shiva::MultiIndexRange< int, D... > m{}; m.data[0] = one - 1;
    shiva::forRange( m, [&]( auto const & i ) constexpr { r.add( shiva::linearIndex( i ) * one ); } );
    shiva::MultiIndexRangeI< D... > q{}; q.data[sizeof...( D ) - 1] = one;
    shiva::forRange( q, [&]( auto const & i ) constexpr { r.add( i.data[0] * 10 + i.data[sizeof...( D ) - 1] ); } );
    return r;
  }
};
struct TemplateStyle { Vals< int, 60 > & r; template< int... I > constexpr int operator()() const { ( ( r.add( I ) ), ... ); return sizeof...( I ); } };
struct Sequences
{
  constexpr Vals< int, 60 > operator()( int const one ) const
  {
    Vals< int, 60 > r;
    shiva::forSequence< 4 >( [&]( auto const i ) constexpr { r.add( decltype( i )::value * one ); } );
    shiva::forSequence< 3 >( TemplateStyle{ r } );
    shiva::forNestedSequence< 2, 3 >( [&]( auto const i, auto const j ) constexpr { r.add( decltype( i )::value * 10 + decltype( j )::value ); } );
    r.add( shiva::executeSequence< 3 >( TemplateStyle{ r } ) );
    r.add( shiva::executeSequence< 4 >( []( auto const a, auto const... i ) constexpr { return a + ( decltype( i )::value + ... ); }, one ) );
    r.add( shiva::IntPackPeeler< 2, 7, 8, 9 >::value() );
    return r;
  }
};
struct Mathematics
{
  constexpr Vals< long long, 60 > operator()( int const one ) const
  {
    Vals< long long, 60 > r;
    r.add( sm::pow< int, 3 >( 7 * one ) ); r.add( sm::pow< long long, 13 >( -11 * one ) ); r.add( sm::pow< unsigned, 0 >( 0u ) ); r.add( sm::pow< short, 7 >( static_cast< short >( 4 * one ) ) );
    r.add( sm::factorial< int, 12 >::value ); r.add( sm::factorial< long long, 20 >::value ); r.add( sm::factorial< int, 0 >::value );
    r.add( sm::binomialCoefficient< int, 12, 5 >::value ); r.add( sm::binomialCoefficient< long long, 20, 10 >::value ); r.add( sm::binomialCoefficient< int, 4, 0 >::value );
    return r;
  }
};
template< int N > struct ShapeCounts
{
  constexpr Vals< int, 30 > operator()( int const one ) const
  {
    Vals< int, 30 > r;
    using C = sg::NCube< double, N, -1, 1, 1 >; using S = sg::NSimplex< double, N, 0, 1, 1 >;
    r.add( C::numVertices() * one ); r.add( C::numEdges() ); r.add( C::numFaces() ); r.add( C::numCells() ); if constexpr ( N > 0 ) r.add( C::numHyperFaces() );
    r.add( S::numVertices() * one ); r.add( S::numEdges() ); r.add( S::numFaces() ); r.add( S::numCells() ); if constexpr ( N > 0 ) r.add( S::numHyperFaces() );
    r.add( C::numDims() ); r.add( S::numDims() );
    return r;
  }
};
template< template< typename, int, int, int, int > class S, typename R, int N, int MIN, int MAX, int DIV > struct Measure
{
  using T = R;
  constexpr Vals< R, 5 > operator()( R const one ) const { using X = S< R, N, MIN, MAX, DIV >; Vals< R, 5 > r; r.add( X::minCoord() * one ); r.add( X::maxCoord() ); r.add( X::length() ); r.add( X::volume() ); return r; }
};
template< template< typename, int, int, int, int > class S, int... K > static void measures( char const * n, std::integer_sequence< int, K... > )
{
  ( both< Measure< S, double, K + 1, -1, 2, 3 >, 16 >( std::string( n ) + std::to_string( K ) ), ... );
  ( both< Measure< S, double, K + 1, -7, -2, 4 >, 16 >( std::string( n ) + "n" + std::to_string( K ) ), ... );
  ( both< Measure< S, float, K + 1, 0, 5, 2 >, 16 >( std::string( n ) + "f" + std::to_string( K ) ), ... );
}
template< int... K > static void counts( std::integer_sequence< int, K... > ) { ( ints< ShapeCounts< K > >( "counts" + std::to_string( K ) ), ... ); }
// run time only: views, kernels, slices
static void views()
{
  int buf[24]; for ( int k = 0; k < 24; ++k ) buf[k] = launder( k );
  shiva::CArrayViewNd< int, 2, 3, 4 > w( buf );
  shiva::CArrayViewNd< int const, 2, 3, 4 > c( buf );
  Vals< long long, 100 > r;
  for ( int i = 0; i < 2; ++i ) for ( int j = 0; j < 3; ++j ) for ( int k = 0; k < 4; ++k ) { w[i][j][k] += 100 * i; w( i, j, k ) -= j; r.add( c( i, j, k ) ); r.add( &w( i, j, k ) - buf ); }
  r.add( w.size() ); r.add( w.rank() );
  double d[3] = { 1, 2, launder( 3.0 ) };
#if defined( SHIVA_ENABLE_DEVICE ) // C25 covers kernels
  d[0] += d[2]; d[1] *= 3;
#else
  shiva::pmpl::genericKernelWrapper( 3, d, []( double * p ) { p[0] += p[2]; p[1] *= 3; } );
#endif
  for ( double x : d ) r.add( static_cast< long long >( x ) );
  for ( int k = 0; k < 5; ++k ) r.add( shiva::linearIndex( launder( k ) ) );
  long long l = 0; shiva::forSequence< 5 >( [&]( auto i ) { l = l * 7 + decltype( i )::value; } ); r.add( l );
  put( "views", "r", r );
}
int main()
{
  ints< Fill< int, 5 > >( "fill5" ); ints< Fill< long, 2, 3 > >( "fill23" ); ints< Fill< double, 3, 4, 2 > >( "fill342" ); ints< Fill< float, 2, 1, 5 > >( "fill215" ); ints< Fill< unsigned char, 4, 4 > >( "fill44" ); ints< Fill< int, 2, 2, 2 > >( "fill222" );
  ints< Slices< int, 7, 3, 2 > >( "slices732" ); ints< Slices< long, 2, 9, 3 > >( "slices293" ); ints< Slices< unsigned char, 5, 6, 7 > >( "slices567" ); ints< Slices< unsigned long, 11, 1, 2 > >( "slices1112" ); ints< Slices< short, 1, 2, 20 > >( "slices1220" );
  ints< Fill< int, 140 > >( "fill140" ); ints< Fill< long long, 11, 13 > >( "fill1113" ); ints< Fill< int, 6, 5, 7 > >( "fill657" );
  ints< Walk< 3 > >( "walk3" ); ints< Walk< 2, 4 > >( "walk24" ); ints< Walk< 3, 2, 4 > >( "walk324" ); ints< Walk< 2, 3, 1, 2 > >( "walk2312" ); ints< Walk< 13 > >( "walk13" ); ints< Walk< 7, 6 > >( "walk76" ); ints< Walk< 2, 1, 3, 2, 3 > >( "walk21323" );
  ints< Sequences >( "sequences" ); ints< Mathematics >( "mathematics" );
  counts( std::make_integer_sequence< int, 10 >{} );
  measures< sg::NCube >( "cube", std::make_integer_sequence< int, 6 >{} ); measures< sg::NSimplex >( "simplex", std::make_integer_sequence< int, 6 >{} );
  views();
}

#elif PART == 1
// ---- spacings, quadrature, one-dimensional bases --------------------------------------------------------------
template< typename S, typename T, int... I > static void points( std::string const & name, std::integer_sequence< int, I... > )
{
  Vals< T, sizeof...( I ) > a, b; constexpr Vals< T, sizeof...( I ) > c = []{ Vals< T, sizeof...( I ) > v; ( ( v.add( S::template coordinate< I >() ) ), ... ); return v; } ();
  ( ( a.add( S::coordinate( launder( I ) ) ), b.add( S::template coordinate< I >() ) ), ... );
  put( name, "c", c ); put( name, "r", a ); put( name, "r", b );
  constexpr Vals< T, sizeof...( I ) > d = []{ Vals< T, sizeof...( I ) > v; ( ( v.add( S::coordinate( I ) ) ), ... ); return v; } ();
  put( name, "c", d );
}
template< typename Q, typename T, int... I > static void weights( std::string const & name, std::integer_sequence< int, I... > )
{
  constexpr Vals< T, sizeof...( I ) > c = []{ Vals< T, sizeof...( I ) > v; ( ( v.add( Q::template weight< I >() ) ), ... ); return v; } ();
  Vals< T, sizeof...( I ) > a; ( ( a.add( Q::template weight< I >() ) ), ... );
  put( name, "c", c ); put( name, "r", a );
}
template< typename Q, typename T, int... I > static void weightsR( std::string const & name, std::integer_sequence< int, I... > )
{
  constexpr Vals< T, sizeof...( I ) > c = []{ Vals< T, sizeof...( I ) > v; ( ( v.add( Q::weight( I ) ) ), ... ); return v; } ();
  Vals< T, sizeof...( I ) > a; ( ( a.add( Q::weight( launder( I ) ) ) ), ... );
  put( name, "c", c ); put( name, "r", a );
}
template< typename R, typename B, int I > struct Values { using T = R; constexpr Vals< T, 16 > operator()( T const a, T const b, T const c, T const d, T const e ) const { Vals< T, 16 > r; for ( T const x : { a, b, c, d, e } ) r.add( B::template value< I >( x ) ); return r; } };
template< typename R, typename B, int I > struct Gradients { using T = R; constexpr Vals< T, 16 > operator()( T const a, T const b, T const c, T const d, T const e ) const { Vals< T, 16 > r; for ( T const x : { a, b, c, d, e } ) r.add( B::template gradient< I >( x ) ); return r; } };
template< typename T, typename B, int... I > static void basis( std::string const & name, std::integer_sequence< int, I... > )
{
  ( both< Values< T, B, I >, -16, -7, 0, 5, 13 >( name + ".v" + std::to_string( I ) ), ... );
  ( both< Gradients< T, B, I >, -16, -7, 0, 5, 13 >( name + ".g" + std::to_string( I ) ), ... );
}
template< typename T, template< typename, int > class S, int N > static void spacing( std::string const & n ) { points< S< T, N >, T >( n + std::to_string( N ), std::make_integer_sequence< int, N >{} ); }
template< typename T, int O, template< typename, int > class S > static void one( std::string const & n ) { basis< T, sf::LagrangeBasis< T, O, S > >( n + std::to_string( O ), std::make_integer_sequence< int, O + 1 >{} ); }
template< typename T > static void all( std::string const & t )
{
  using shiva::EqualSpacing; using shiva::GaussLegendreSpacing; using shiva::GaussLobattoSpacing;
  spacing< T, EqualSpacing, 2 >( t + "eq" ); spacing< T, EqualSpacing, 3 >( t + "eq" ); spacing< T, EqualSpacing, 4 >( t + "eq" ); spacing< T, EqualSpacing, 7 >( t + "eq" ); spacing< T, EqualSpacing, 11 >( t + "eq" );
  spacing< T, GaussLegendreSpacing, 1 >( t + "gl" ); spacing< T, GaussLegendreSpacing, 2 >( t + "gl" ); spacing< T, GaussLegendreSpacing, 3 >( t + "gl" ); spacing< T, GaussLegendreSpacing, 4 >( t + "gl" );
  spacing< T, GaussLobattoSpacing, 2 >( t + "lo" ); spacing< T, GaussLobattoSpacing, 3 >( t + "lo" ); spacing< T, GaussLobattoSpacing, 4 >( t + "lo" ); spacing< T, GaussLobattoSpacing, 5 >( t + "lo" ); spacing< T, GaussLobattoSpacing, 6 >( t + "lo" ); spacing< T, GaussLobattoSpacing, 7 >( t + "lo" ); spacing< T, GaussLobattoSpacing, 8 >( t + "lo" ); spacing< T, GaussLobattoSpacing, 9 >( t + "lo" );
#define WB( Q, N ) weights< shiva::Q< T, N >, T >( t + #Q #N, std::make_integer_sequence< int, N >{} ); weightsR< shiva::Q< T, N >, T >( t + #Q #N, std::make_integer_sequence< int, N >{} );
#define WC( Q, N ) weights< shiva::Q< T, N >, T >( t + #Q #N, std::make_integer_sequence< int, N >{} );
  WB( QuadratureGaussLegendre, 2 ) WB( QuadratureGaussLegendre, 3 ) WB( QuadratureGaussLegendre, 4 )
  WB( QuadratureGaussLobatto, 2 ) WB( QuadratureGaussLobatto, 3 ) WB( QuadratureGaussLobatto, 4 ) WB( QuadratureGaussLobatto, 5 )
  WC( QuadratureGaussLobatto, 6 ) WC( QuadratureGaussLobatto, 7 ) WC( QuadratureGaussLobatto, 8 ) WC( QuadratureGaussLobatto, 9 )
}
int main()
{
  all< double >( "d" ); all< float >( "f" );
  one< double, 1, shiva::GaussLobattoSpacing >( "lo" ); one< double, 2, shiva::GaussLobattoSpacing >( "lo" ); one< double, 3, shiva::GaussLobattoSpacing >( "lo" ); one< double, 4, shiva::GaussLobattoSpacing >( "lo" ); one< double, 5, shiva::GaussLobattoSpacing >( "lo" ); one< double, 6, shiva::GaussLobattoSpacing >( "lo" );
  one< double, 1, shiva::EqualSpacing >( "eq" ); one< double, 2, shiva::EqualSpacing >( "eq" ); one< double, 3, shiva::EqualSpacing >( "eq" ); one< double, 5, shiva::EqualSpacing >( "eq" );
  one< double, 1, shiva::GaussLegendreSpacing >( "gl" ); one< double, 2, shiva::GaussLegendreSpacing >( "gl" ); one< double, 3, shiva::GaussLegendreSpacing >( "gl" );
  one< float, 1, shiva::GaussLobattoSpacing >( "flo" ); one< float, 3, shiva::GaussLobattoSpacing >( "flo" ); one< float, 2, shiva::EqualSpacing >( "feq" );
}

#else
// ---- products, elements, mappings -----------------------------------------------------------------------------
template< typename T, int O > using L = sf::LagrangeBasis< T, O, shiva::GaussLobattoSpacing >;
template< typename T, int O > using E = sf::LagrangeBasis< T, O, shiva::EqualSpacing >;
template< typename T, int O > using G = sf::LagrangeBasis< T, O, shiva::GaussLegendreSpacing >;

template< typename R, typename... B > struct Product
{
  using T = R; static constexpr int D = sizeof...( B ); static constexpr int N = ( B::numSupportPoints * ... );
  template< typename... X > constexpr Vals< R, N * ( D + 1 ) > operator()( X const... x ) const
  {
    using P = sf::BasisProduct< R, B... >;
    R const c[D] = { x... };
    Vals< R, N * ( D + 1 ) > r;
    P::supportLoop( [&]( auto const... i ) constexpr
    {
      r.add( P::template value< decltype( i )::value... >( c ) );
      auto const g = P::template gradient< decltype( i )::value... >( c );
      for ( int d = 0; d < D; ++d ) r.add( g( d ) );
    } );
    return r;
  }
};
template< typename R, typename... B > struct Element
{
  using T = R; static constexpr int D = sizeof...( B ); static constexpr int N = ( B::numSupportPoints * ... );
  template< typename... X > constexpr Vals< R, 3 * ( D + 1 ) > operator()( X const... x ) const
  {
    using P = fe::ParentElement< R, sg::NCube< R, D, -1, 1, 1 >, B... >;
    R const c[D] = { x... };
    shiva::CArrayNd< R, B::numSupportPoints... > f{};
    Vals< R, 3 * ( D + 1 ) > r;
    for ( int k = 0; k < N; ++k ) f.data()[k] = static_cast< R >( ( k * 7 ) % 11 - 4 ) / static_cast< R >( 4.3 );
    r.add( P::value( c, f ) ); auto const g = P::gradient( c, f ); for ( int d = 0; d < D; ++d ) r.add( g( d ) );
    return r;
  }
};
template< typename R, typename... B > struct Mapping
{
  using T = R;
  constexpr Vals< R, 40 > operator()( R const x, R const y, R const z ) const
  {
    using Shape = sg::InterpolatedShape< R, sg::Cube< R >, B... >;
    using M = sg::LinearTransform< R, Shape >;
    M m{};
    constexpr int N = ( B::numSupportPoints * ... );
    for ( int k = 0; k < 3 * N; ++k ) m.getData().data()[k] = static_cast< R >( ( k * 7 ) % 11 ) / static_cast< R >( 1.9 ) + static_cast< R >( k ) / 8;
    R const c[3] = { x, y, z };
    Vals< R, 40 > r;
    typename M::JacobianType J{}; R det{};
    su::jacobian( m, c, J ); for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) r.add( J( i, j ) );
    su::inverseJacobian( m, c, J, det ); r.add( det ); for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) r.add( J( i, j ) );
    auto const K = su::jacobian( m, c ); for ( int i = 0; i < 3; ++i ) r.add( K( i, 2 ) );
    su::jacobian< shiva::QuadratureGaussLegendre< R, 2 >, 1, 0, 1 >( m, J ); for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) r.add( J( i, j ) );
    auto const t = su::inverseJacobian( m, c ); using std::get; r.add( get< 0 >( t ) ); r.add( get< 1 >( t )( 2, 1 ) );
    return r;
  }
};
template< typename R > struct Boxes
{
  using T = R;
  constexpr Vals< R, 60 > operator()( R const x, R const y, R const z ) const
  {
    using std::get;
    Vals< R, 60 > r;
    R const h[3] = { x, y, z };
    sg::Scaling< R > s; s.setData( h );
    typename sg::Scaling< R >::JacobianType J{}; R det{};
    su::jacobian( s, J ); for ( int i = 0; i < 3; ++i ) r.add( J( i ) );
    su::inverseJacobian( s, J, det ); r.add( det ); for ( int i = 0; i < 3; ++i ) r.add( J( i ) );
    auto const j = su::jacobian( s ); for ( int i = 0; i < 3; ++i ) r.add( j( i ) );
    auto const t = su::inverseJacobian( s ); r.add( get< 0 >( t ) ); r.add( get< 1 >( t )( 1 ) );
    sg::UniformScaling< R > u; u.setData( z );
    typename sg::UniformScaling< R >::JacobianType U{};
    su::jacobian( u, U ); r.add( U( 0 ) ); su::inverseJacobian( u, U, det ); r.add( U( 0 ) ); r.add( det );
    auto const v = su::inverseJacobian( u ); r.add( get< 0 >( v ) ); r.add( get< 1 >( v )( 0 ) ); r.add( su::jacobian( u )( 0 ) );
    R m[3][3] = { { x, 1, 2 }, { -1, y, 3 }, { 2, 1, z } };
    sm::inverse( m, det ); r.add( det ); for ( auto & row : m ) for ( R const e : row ) r.add( e );
    shiva::CArrayNd< R, 3, 3 > c{}; for ( int k = 0; k < 9; ++k ) c.data()[k] = ( k % 4 ) * x + k * k;
    sm::inverse( c, det ); r.add( det ); for ( int k = 0; k < 9; ++k ) r.add( c.data()[k] );
    r.add( sm::pow< R, 5 >( x ) );
    return r;
  }
};
int main()
{
  both< Product< double, L< double, 3 > >, 5 >( "p1" );
  both< Product< double, L< double, 1 >, E< double, 3 > >, 5, -11 >( "p2" );
  both< Product< double, G< double, 2 >, L< double, 1 >, E< double, 2 > >, 5, -11, 2 >( "p3" );
  both< Product< double, L< double, 1 >, L< double, 2 >, L< double, 1 >, E< double, 2 > >, 5, -11, 2, 13 >( "p4" );
  both< Product< float, L< float, 2 >, L< float, 1 > >, -3, 9 >( "pf" );
  both< Element< double, L< double, 4 > >, 3 >( "e1" );
  both< Element< double, L< double, 2 >, E< double, 3 > >, 3, -9 >( "e2" );
  both< Element< double, L< double, 1 >, L< double, 3 >, G< double, 1 > >, 3, -9, 14 >( "e3" );
  both< Element< float, L< float, 2 >, L< float, 1 >, L< float, 2 > >, 3, -9, 14 >( "ef" );
  both< Mapping< double, L< double, 1 >, L< double, 1 >, L< double, 1 > >, 3, -9, 14 >( "m111" );
  both< Mapping< double, L< double, 1 >, L< double, 2 >, L< double, 1 > >, 1, 7, -4 >( "m121" );
  both< Mapping< float, L< float, 1 >, L< float, 1 >, L< float, 1 > >, 3, -9, 14 >( "mf" );
  both< Boxes< double >, 24, 40, 8 >( "boxes" ); both< Boxes< float >, 24, 40, 8 >( "boxesf" );
}
#endif
