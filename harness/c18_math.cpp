// C18: integer powers, factorials and binomial coefficients wherever the result fits the type.
#include "mc/mc.hpp"
#include "shiva/common/MathUtilities.hpp"
#include <cmath>
#include <limits>
#ifndef PART
#define PART 0
#endif
namespace mu = shiva::mathUtilities;
using I128 = __int128;
static std::string str( I128 v ) { if ( v == 0 ) return "0"; bool const neg = v < 0; std::string s; while ( v != 0 ) { int const d = static_cast< int >( v % 10 ); s.insert( s.begin(), static_cast< char >( '0' + ( d < 0 ? -d : d ) ) ); v /= 10; } return neg ? "-" + s : s; }

template< typename T > constexpr bool fits( I128 v ) { return v >= static_cast< I128 >( std::numeric_limits< T >::min() ) && v <= static_cast< I128 >( std::numeric_limits< T >::max() ); }
// base^e as I128 when it and every intermediate fit T (T's product is computed in T after promotion)
template< typename T > static bool power( I128 b, int e, I128 & r )
{
  r = 1;
  for ( int k = 0; k < e; ++k ) { r *= b; if ( !fits< T >( r ) ) return false; }
  return true;
}
template< typename T, int E > static void powOne()
{
  // all bases whose power fits: walk outwards from zero until it does not fit
  mc::Str s; s << "pow<" << mc::typeName< T >() << "," << E << ">";
  std::string const who = s;
  long const cap = E <= 1 ? ( mc::thorough() ? 200000 : 20000 ) : mc::thorough() ? 2000000 : 50000;
  for ( int sign = 1; sign >= -1; sign -= 2 )
    for ( long b = sign > 0 ? 0 : -1; std::labs( b ) <= cap; b += sign )
    {
      if ( !fits< T >( b ) ) break;
      I128 w;
      if ( !power< T >( b, E, w ) ) break;
      T const base = static_cast< T >( b );
      T const got = mu::pow< T, E >( base );
      mc::check( static_cast< I128 >( got ) == w, "pow", [&]{ return who + "(" + std::to_string( b ) + ") is " + str( static_cast< I128 >( got ) ) + ", not " + str( w ); } );
      mc::step();
      if ( ( b & 1023 ) == 0 ) { mc::alive(); mc::state( mc::mix( mc::hashString( who ), static_cast< uint64_t >( b ) ) ); }
      mc::observe( static_cast< uint64_t >( got ) );
    }
  // the largest base that fits
  if constexpr ( E >= 1 )
  {
    long double const r = std::pow( static_cast< long double >( std::numeric_limits< T >::max() ), 1.0L / E );
    for ( I128 b = static_cast< I128 >( r ) + 2; b > 0 && b > static_cast< I128 >( r ) - 3; --b )
      for ( int sign = 1; sign >= ( std::numeric_limits< T >::is_signed ? -1 : 1 ); sign -= 2 )
      {
        I128 w;
        if ( !fits< T >( sign * b ) || !power< T >( sign * b, E, w ) ) continue;
        T const got = mu::pow< T, E >( static_cast< T >( sign * b ) );
        mc::check( static_cast< I128 >( got ) == w, "pow", [&]{ return who + "(" + str( sign * b ) + ") is " + str( static_cast< I128 >( got ) ) + ", not " + str( w ); } );
        mc::step();
      }
  }
  // constant evaluation
  static constexpr T c1 = mu::pow< T, E >( T( 1 ) ), c0 = mu::pow< T, E >( T( 0 ) );
  mc::check( c1 == T( 1 ) && c0 == T( E == 0 ? 1 : 0 ), "constant pow", who );
  if constexpr ( ( I128( 1 ) << E ) <= static_cast< I128 >( std::numeric_limits< T >::max() ) ) { static constexpr T c2 = mu::pow< T, E >( T( 2 ) ); mc::check( static_cast< I128 >( c2 ) == ( I128( 1 ) << E ), "constant pow", who ); }
  if constexpr ( std::numeric_limits< T >::is_signed ) { static constexpr T cm = mu::pow< T, E >( T( -1 ) ); mc::check( cm == T( E % 2 ? -1 : 1 ), "constant pow", who ); }
}
template< typename F, int E > static void fpowOne()
{
  F const bases[] = { 0, 1, F( -1 ), 2, F( -0.5 ), F( 1.5 ), F( 0.1 ), F( -3.25 ), F( 1e-3 ), 10, F( 1.0009765625 ), F( 1024 ) };
  mc::Str s; s << "pow<" << mc::typeName< F >() << "," << E << ">";
  std::string const who = s;
  F const b = bases[mc::choose( 12, "base" )];
  if ( E < 0 && b == 0 ) return;
  long double w = 1; for ( int k = 0; k < std::abs( E ); ++k ) w *= b;
  // a reciprocal of what does not fit is no number
  if ( E < 0 ) { if ( std::fabs( w ) > std::numeric_limits< F >::max() || std::fabs( w ) < std::numeric_limits< F >::min() ) return; w = 1 / w; }
  F const got = mu::pow< F, E >( b );
  if ( std::fabs( w ) > std::numeric_limits< F >::max() || ( w != 0 && std::fabs( w ) < std::numeric_limits< F >::min() ) ) return;
  mc::check( std::fabs( got - w ) <= ( std::abs( E ) + 2 ) * static_cast< long double >( std::numeric_limits< F >::epsilon() ) * std::fabs( w ), "pow", [&]{ mc::Str m; m << who << "(" << b << ") is " << got << ", not " << static_cast< double >( w ); return std::string( m ); } );
  mc::step(); mc::state( mc::mix( mc::hashString( who ), mc::hashDouble( static_cast< double >( b ) ) ) ); mc::observe( static_cast< double >( got ) );
}
// negative exponents of integers: the bases whose power is an integer
template< typename T, int E > static void recipOne()
{
  mc::Str s; s << "pow<" << mc::typeName< T >() << "," << E << ">";
  for ( int b : { 1, -1 } )
  {
    if ( b < 0 && !std::numeric_limits< T >::is_signed ) continue;
    T const got = mu::pow< T, E >( static_cast< T >( b ) );
    mc::check( static_cast< I128 >( got ) == ( b > 0 || E % 2 == 0 ? 1 : -1 ), "pow", [&]{ return std::string( s ) + "(" + std::to_string( b ) + ") is " + str( static_cast< I128 >( got ) ); } );
    mc::step(); mc::state( mc::mix( mc::hashString( s ), static_cast< uint64_t >( b + 1 ) ) );
  }
  static constexpr T c = mu::pow< T, E >( std::numeric_limits< T >::is_signed ? static_cast< T >( -1 ) : T( 1 ) );
  mc::check( static_cast< I128 >( c ) == ( std::numeric_limits< T >::is_signed && E % 2 ? -1 : 1 ), "constant pow", s );
}
template< typename T, int... E > static void recips( mc::Cases & c ) { ( c.emplace_back( "pow", []{ recipOne< T, E >(); } ), ... ); }
template< typename T, int... E > static void pows( mc::Cases & c, std::integer_sequence< int, E... > ) { ( c.emplace_back( "pow", []{ powOne< T, E >(); } ), ... ); }
template< typename T, int... E > static void fpows( mc::Cases & c, std::integer_sequence< int, E... > ) { ( c.emplace_back( "pow", []{ fpowOne< T, E >(); } ), ... ); }

static constexpr I128 fact( int n ) { I128 r = 1; for ( int k = 2; k <= n; ++k ) r *= k; return r; }
template< typename T > static constexpr int maxFact() { int n = 0; while ( fits< T >( fact( n + 1 ) ) ) ++n; return n; }
static I128 pascal( int n, int k ) { I128 row[40] = { 1 }; for ( int i = 1; i <= n; ++i ) for ( int j = i; j > 0; --j ) row[j] += row[j - 1]; return k < 0 || k > n ? 0 : row[k]; }

template< typename T, int N > static void factOne()
{
  static constexpr T v = mu::factorial< T, static_cast< T >( N ) >::value;
  mc::Str s; s << "factorial<" << mc::typeName< T >() << "," << N << ">";
  mc::check( static_cast< I128 >( v ) == fact( N ), "factorial", [&]{ return std::string( s ) + " is " + str( static_cast< I128 >( v ) ) + ", not " + str( fact( N ) ); } );
  mc::check( std::is_same_v< decltype( v ), T const >, "factorial type", std::string( s ) );
  mc::step(); mc::state( mc::hashString( s ) );
}
template< typename T, int N, int K > static void binOne()
{
  static constexpr T v = mu::binomialCoefficient< T, static_cast< T >( N ), static_cast< T >( K ) >::value;
  mc::Str s; s << "binomialCoefficient<" << mc::typeName< T >() << "," << N << "," << K << ">";
  mc::check( static_cast< I128 >( v ) == pascal( N, K ), "binomial", [&]{ return std::string( s ) + " is " + str( static_cast< I128 >( v ) ) + ", not " + str( pascal( N, K ) ); } );
  mc::check( v == mu::binomialCoefficient< T, static_cast< T >( N ), static_cast< T >( N - K ) >::value, "binomial symmetry", std::string( s ) );
  mc::step(); mc::state( mc::hashString( s ) );
}
template< typename T, int N, int... K > static void binRow( std::integer_sequence< int, K... > ) { ( binOne< T, N, K >(), ... ); }
template< typename T, int... N > static void integers( mc::Cases & c, std::integer_sequence< int, N... > )
{
  ( c.emplace_back( "factorial", []{ factOne< T, N >(); } ), ... );
  ( c.emplace_back( "binomial row", []{ binRow< T, N >( std::make_integer_sequence< int, N + 1 >{} ); } ), ... );
}
template< typename T > static void integersOf( mc::Cases & c ) { integers< T >( c, std::make_integer_sequence< int, maxFact< T >() + 1 >{} ); }

static void body()
{
  static mc::Cases c;
  if ( c.empty() )
  {
#if PART == 0
    pows< int >( c, std::make_integer_sequence< int, 34 >{} ); pows< long >( c, std::make_integer_sequence< int, 66 >{} ); pows< unsigned long >( c, std::make_integer_sequence< int, 66 >{} );
    pows< long long >( c, std::integer_sequence< int, 0, 1, 2, 3, 10, 39, 62 >{} );
#elif PART == 5   // a light selection for an optimizing clang
    pows< int >( c, std::integer_sequence< int, 0, 1, 2, 3, 4, 5, 7, 8, 15, 30, 31 >{} ); pows< short >( c, std::integer_sequence< int, 0, 1, 2, 3, 14 >{} ); pows< unsigned long >( c, std::integer_sequence< int, 0, 1, 2, 3, 63 >{} ); pows< unsigned char >( c, std::integer_sequence< int, 0, 1, 2, 3, 7 >{} );
    fpows< float >( c, std::integer_sequence< int, 0, 1, 2, 3, 8, 25 >{} ); fpows< double >( c, std::integer_sequence< int, 0, 1, 2, 3, 8, 51 >{} );
#elif PART == 1
    pows< short >( c, std::make_integer_sequence< int, 18 >{} ); pows< signed char >( c, std::make_integer_sequence< int, 10 >{} ); pows< unsigned char >( c, std::make_integer_sequence< int, 10 >{} ); pows< unsigned short >( c, std::make_integer_sequence< int, 18 >{} ); pows< unsigned >( c, std::make_integer_sequence< int, 34 >{} );
    recips< int, -1, -2, -3, -7, -32 >( c ); recips< long, -1, -2, -63 >( c ); recips< short, -1, -4, -5 >( c ); recips< unsigned, -1, -2 >( c ); recips< signed char, -1, -2 >( c );
    fpows< float >( c, std::integer_sequence< int, -1, -2, -3, -5, -8, -11 >{} ); fpows< double >( c, std::integer_sequence< int, -1, -2, -3, -7, -16, -50 >{} ); fpows< long double >( c, std::integer_sequence< int, -1, -2, -9 >{} );
    fpows< float >( c, std::make_integer_sequence< int, 40 >{} ); fpows< double >( c, std::make_integer_sequence< int, 70 >{} ); fpows< long double >( c, std::make_integer_sequence< int, 12 >{} );
#elif PART == 2
    integersOf< int >( c ); integersOf< long >( c ); integersOf< unsigned >( c );
#else
    integersOf< unsigned long >( c ); integers< long long >( c, std::make_integer_sequence< int, 14 >{} ); integersOf< short >( c ); integersOf< unsigned short >( c ); integersOf< signed char >( c ); integersOf< unsigned char >( c );
#endif
  }
  mc::pickCase( c );
}
MC_MAIN( body )
