// C12: product bases, interpolated shapes and parent elements against products of their own 1D functions.
#include "mc/mc.hpp"
#include "harness/shapes.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/bases/BasisProduct.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/geometry/shapes/NSimplex.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp"
#include <array>
#include <cmath>
#include <limits>
#include <vector>
#ifndef PART
#define PART 0
#endif
namespace sf = shiva::functions;
namespace sg = shiva::geometry;
template< typename T, int O > using L = sf::LagrangeBasis< T, O, shiva::GaussLobattoSpacing >;
template< typename T, int O > using E_ = sf::LagrangeBasis< T, O, shiva::EqualSpacing >;
template< typename T, int O > using G = sf::LagrangeBasis< T, O, shiva::GaussLegendreSpacing >;
// a basis that is not a Lagrange basis: BF i is ( x + 2 ) ^ ( i + 1 ) * 3, so no symmetry hides a mix-up
template< typename T, int N > struct Pow
{
  static constexpr int numSupportPoints = N;
  template< int I > static constexpr T value( T const & x ) { T r = 3; for ( int k = 0; k <= I; ++k ) r *= ( x + 2 ); return r; }
  template< int I > static constexpr T gradient( T const & x ) { T r = 3 * ( I + 1 ); for ( int k = 0; k < I; ++k ) r *= ( x + 2 ); return r; }
};
template< typename B > struct Nm;
template< typename T, int O > struct Nm< L< T, O > > { static std::string s() { return "Lobatto" + std::to_string( O ); } };
template< typename T, int O > struct Nm< E_< T, O > > { static std::string s() { return "Equal" + std::to_string( O ); } };
template< typename T, int O > struct Nm< G< T, O > > { static std::string s() { return "Legendre" + std::to_string( O ); } };
template< typename T, int N > struct Nm< Pow< T, N > > { static std::string s() { return "Power" + std::to_string( N ); } };

// coordinate containers
template< typename T, int D > struct ByValue { T v[D]; T operator[]( int i ) const { return v[i]; } };
template< typename T, int D > struct Raw { T v[D]; static constexpr char const * name = "array"; auto const & get() const { return v; } };
template< typename T, int D > struct StdA { std::array< T, D > v; static constexpr char const * name = "std::array"; auto const & get() const { return v; } };
template< typename T, int D > struct Vec { std::vector< T > v = std::vector< T >( D ); static constexpr char const * name = "std::vector"; auto const & get() const { return v; } };
template< typename T, int D > struct Ptr { T v[D]; T const * p = v; static constexpr char const * name = "pointer"; auto const & get() const { return p; } };
template< typename T, int D > struct CA { shiva::CArrayNd< T, D > v{}; static constexpr char const * name = "CArrayNd"; auto const & get() const { return v; } };
template< typename T, int D > struct CV { T v[D]; shiva::CArrayViewNd< T const, D > w{ v }; static constexpr char const * name = "CArrayViewNd"; auto const & get() const { return w; } };
template< typename T, int D > struct Fn { ByValue< T, D > v; static constexpr char const * name = "by-value indexable"; auto const & get() const { return v; } };
template< typename T, int D > struct Long { T v[D + 2]; static constexpr char const * name = "longer array"; auto const & get() const { return v; } };

template< typename T, typename... B > struct Prod
{
  static constexpr int D = sizeof...( B );
  using S = Sh< B::numSupportPoints... >;
  static constexpr int NB = prod( S{} );
  using P = sf::BasisProduct< T, B... >;
  using I = sg::InterpolatedShape< T, sg::NCube< T, D, -1, 1, 1 >, B... >;
  using X = shiva::discretizations::finiteElementMethod::ParentElement< T, sg::NCube< T, D, -1, 1, 1 >, B... >;
  using Gr = std::array< T, D >;
  static std::string who() { std::string s; ( ( s += ( s.empty() ? "" : "*" ) + Nm< B >::s() ), ... ); return s + " " + mc::typeName< T >(); }

  template< typename K, int l, typename C, size_t... d > static T value( C const & c, std::index_sequence< d... > ) { return K::template value< digitOf( S{}, l, d )... >( c ); }
  template< typename K, int l, typename C, size_t... d > static Gr grad( C const & c, std::index_sequence< d... > ) { auto const g = K::template gradient< digitOf( S{}, l, d )... >( c ); static_assert( decltype( g )::size() == D ); return Gr{ g( static_cast< int >( d ) )... }; }
  template< typename K, int l, typename C > static T v1( C const & c ) { return value< K, l >( c, std::make_index_sequence< D >{} ); }
  template< typename K, int l, typename C > static Gr g1( C const & c ) { return grad< K, l >( c, std::make_index_sequence< D >{} ); }
  template< typename K, typename C, int... l > static T valueOf( int i, C const & c, std::integer_sequence< int, l... > ) { using F = T ( * )( C const & ); static constexpr F f[] = { &v1< K, l, C >... }; return f[i]( c ); }
  template< typename K, typename C, int... l > static Gr gradOf( int i, C const & c, std::integer_sequence< int, l... > ) { using F = Gr ( * )( C const & ); static constexpr F f[] = { &g1< K, l, C >... }; return f[i]( c ); }
  using SeqB = std::make_integer_sequence< int, NB >;

  // 1D functions of direction d, by run-time index
  template< typename Bd, int... i > static T val1( int k, T x, std::integer_sequence< int, i... > ) { T const r[] = { Bd::template value< i >( x )... }; return r[k]; }
  template< typename Bd, int... i > static T der1( int k, T x, std::integer_sequence< int, i... > ) { T const r[] = { Bd::template gradient< i >( x )... }; return r[k]; }
  static void oneD( int const * idx, T const * x, T * v, T * g )
  {
    int d = 0;
    ( ( v[d] = val1< B >( idx[d], x[d], std::make_integer_sequence< int, B::numSupportPoints >{} ), g[d] = der1< B >( idx[d], x[d], std::make_integer_sequence< int, B::numSupportPoints >{} ), ++d ), ... );
  }
  static void compare( char const * kind, char const * cont, int const * idx, T const * x, T got, Gr const & gg )
  {
    T v[D], g[D];
    oneD( idx, x, v, g );
    long double const eps = std::numeric_limits< T >::epsilon();
    auto where = [&]{ mc::Str s; s << kind << " " << who() << " (" << cont << ") function"; for ( int d = 0; d < D; ++d ) s << " " << idx[d]; s << " at"; for ( int d = 0; d < D; ++d ) s << " " << x[d]; return std::string( s ); };
    long double w = 1; for ( int d = 0; d < D; ++d ) w *= v[d];
    mc::check( std::fabs( got - w ) <= 16 * eps * std::fabs( w ) + eps * 1e-6L, "value", [&]{ return where() + " has value " + std::to_string( static_cast< double >( got ) ) + ", not " + std::to_string( static_cast< double >( w ) ); } );
    for ( int q = 0; q < D; ++q )
    {
      long double e = 1; for ( int d = 0; d < D; ++d ) e *= d == q ? g[d] : v[d];
      mc::check( std::fabs( gg[static_cast< size_t >( q )] - e ) <= 16 * eps * std::fabs( e ) + eps * 1e-6L, "gradient", [&]{ return where() + " has gradient component " + std::to_string( q ) + " = " + std::to_string( static_cast< double >( gg[static_cast< size_t >( q )] ) ) + ", not " + std::to_string( static_cast< double >( e ) ); } );
    }
    mc::step();
    mc::observe( static_cast< double >( got ) );
    if ( mc::tracing() ) mc::note( where() + " = " + std::to_string( static_cast< double >( got ) ) );
  }
  static void pickCoord( T * x )
  {
    for ( int d = 0; d < D; ++d )
    {
      T const c[] = { T( -0.8125 + 0.046875 * d ), T( 0.21875 + 0.0625 * d ), T( d % 2 ? 1.40625 : 1.0 ), T( -1 ), T( 0 ), T( 1 ) - T( 1.0e-4 ) * ( d + 1 ), T( 3.0e-4 ) * ( d + 1 ) };
      x[d] = c[mc::choose( D <= 2 ? 7 : D == 3 ? 4 : 2, "coordinate" )];
    }
  }
  template< typename K > static void kind( char const * name )
  {
    T x[D]; pickCoord( x );
    for ( int l = 0; l < NB; ++l )
    {
      int idx[D]; for ( int d = 0; d < D; ++d ) idx[d] = digitOf( S{}, l, d );
      T const a[D] = {}; (void) a;
      using C = T[D];
      T before[D]; for ( int d = 0; d < D; ++d ) before[d] = x[d];
      compare( name, "array", idx, x, valueOf< K, C >( l, x, SeqB{} ), gradOf< K, C >( l, x, SeqB{} ) );
      for ( int d = 0; d < D; ++d ) mc::check( x[d] == before[d], "coordinate changed", [&]{ return who(); } );
      uint64_t h = mc::hashString( name + who() ); for ( int d = 0; d < D; ++d ) h = mc::mix( h, mc::hashDouble( static_cast< double >( x[d] ) ) );
      mc::state( mc::mix( h, static_cast< uint64_t >( l ) ) );
    }
  }
  template< typename K, typename C > static void container( char const * name, C && c )
  {
    T x[D]; pickCoord( x );
    auto & m = c.v;
    for ( int d = 0; d < D; ++d ) { if constexpr ( std::is_class_v< std::remove_reference_t< decltype( m ) > > ) const_cast< T & >( put( m, d ) ) = x[d]; else m[d] = x[d]; }
    using CT = std::remove_cv_t< std::remove_reference_t< decltype( c.get() ) > >;
    for ( int l = 0; l < NB; ++l )
    {
      int idx[D]; for ( int d = 0; d < D; ++d ) idx[d] = digitOf( S{}, l, d );
      compare( name, std::remove_reference_t< C >::name, idx, x, valueOf< K, CT >( l, c.get(), SeqB{} ), gradOf< K, CT >( l, c.get(), SeqB{} ) );
      mc::state( mc::mix( mc::mix( mc::hashString( name + who() + std::remove_reference_t< C >::name ), static_cast< uint64_t >( l ) ), mc::hashDouble( static_cast< double >( x[0] + 10 * x[D - 1] ) ) ) );
    }
  }
  template< typename M > static T & put( M & m, int d ) { return m[static_cast< size_t >( d )]; }
  static T & put( ByValue< T, D > & m, int d ) { return m.v[d]; }
  static T & put( shiva::CArrayNd< T, D > & m, int d ) { return m( d ); }
  template< typename K > static void containers( char const * name )
  {
    switch ( mc::choose( 8, "container" ) )
    {
      case 0: container< K >( name, StdA< T, D >{} ); break;
      case 1: container< K >( name, Vec< T, D >{} ); break;
      case 2: container< K >( name, Ptr< T, D >{} ); break;
      case 3: container< K >( name, CA< T, D >{} ); break;
      case 4: { CV< T, D > c; container< K >( name, c ); } break;
      case 5: container< K >( name, Fn< T, D >{} ); break;
      case 6: container< K >( name, Long< T, D >{} ); break;
      default: kind< K >( name ); break;
    }
  }
  // constant evaluation
  template< typename K, int l, size_t... d > static constexpr auto ctv( std::index_sequence< d... > ) { T const x[D] = { T( 0.21875 + 0.0625 * static_cast< int >( d ) )... }; return K::template value< digitOf( S{}, l, d )... >( x ); }
  template< typename K, int l, size_t... d > static constexpr auto ctg( std::index_sequence< d... > ) { T const x[D] = { T( 0.21875 + 0.0625 * static_cast< int >( d ) )... }; return K::template gradient< digitOf( S{}, l, d )... >( x ); }
  template< typename K, int l > static void ctOne( char const * name )
  {
    static constexpr T v = ctv< K, l >( std::make_index_sequence< D >{} );
    static constexpr auto g = ctg< K, l >( std::make_index_sequence< D >{} );
    T x[D]; int idx[D]; Gr gg;
    for ( int d = 0; d < D; ++d ) { x[d] = T( 0.21875 + 0.0625 * d ); idx[d] = digitOf( S{}, l, d ); gg[static_cast< size_t >( d )] = g( d ); }
    compare( name, "constant", idx, x, v, gg );
  }
  template< typename K, int... l > static void ctAll( char const * name, std::integer_sequence< int, l... > ) { ( ctOne< K, l >( name ), ... ); }

  template< typename K > static void loop( char const * name )
  {
    std::vector< std::vector< int > > t, w;
    auto f = [&]( auto... i ) { constexpr int v[] = { decltype( i )::value... }; t.push_back( std::vector< int >( v, v + sizeof...( i ) ) ); };
    if ( mc::flip( "rvalue" ) ) K::supportLoop( [&]( auto... i ) { constexpr int v[] = { decltype( i )::value... }; t.push_back( std::vector< int >( v, v + sizeof...( i ) ) ); } );
    else K::supportLoop( f );
    for ( int l = 0; l < NB; ++l ) { std::vector< int > v; for ( int d = 0; d < D; ++d ) v.push_back( digitOf( S{}, l, d ) ); w.push_back( v ); }
    mc::step();
    mc::state( mc::hashString( name + who() + "loop" ) );
    mc::check( t == w, "supportLoop", [&]{ return std::string( name ) + " " + who() + ": the support loop visits " + std::to_string( t.size() ) + " indices instead of " + std::to_string( w.size() ) + " or in another order"; } );
  }
  static void consts()
  {
    int const n[] = { B::numSupportPoints... };
    bool ok = P::numDims == D && I::numDims == D && X::numDims == D && P::IndexType::NUM_INDICES == D && I::numVertices == ( 1 << D );
    for ( int d = 0; d < D; ++d ) ok = ok && P::IndexType::range( d ) == n[d] && X::numSupportPoints[d] == n[d];
    ok = ok && std::is_same_v< typename P::numSupportPoints, std::integer_sequence< int, B::numSupportPoints... > > && std::is_same_v< typename I::numSupportPointsSequence, std::integer_sequence< int, B::numSupportPoints... > >;
    ok = ok && std::is_same_v< typename P::CoordType, T[D] > && std::is_same_v< typename I::CoordType, T[D] > && std::is_same_v< typename X::CoordType, T[D] > && std::is_same_v< typename P::RealType, T >;
    mc::check( ok, "counts", [&]{ return who() + ": dimensions or support counts are wrong"; } );
  }
  template< bool full > static void run()
  {
    int const c = mc::choose( full ? 12 : 6, "what" );
    switch ( c )
    {
      case 0: kind< P >( "BasisProduct" ); break;
      case 1: kind< I >( "InterpolatedShape" ); break;
      case 2: kind< X >( "ParentElement" ); break;
      case 3: loop< P >( "BasisProduct" ); break;
      case 4: loop< I >( "InterpolatedShape" ); break;
      case 5: consts(); break;
      default:
        {
          if constexpr ( full ) switch ( c )
          {
            case 6: containers< P >( "BasisProduct" ); break;
            case 7: containers< I >( "InterpolatedShape" ); break;
            case 8: containers< X >( "ParentElement" ); break;
            case 9: ctAll< P >( "BasisProduct", SeqB{} ); break;
            case 10: ctAll< I >( "InterpolatedShape", SeqB{} ); break;
            default: ctAll< X >( "ParentElement", SeqB{} ); break;
          }
        }
    }
  }
};
template< typename... B > struct Bases {};
template< typename T, typename... B > static void one( mc::Cases & c ) { using P = Prod< T, B... >; c.emplace_back( P::who(), []{ P::template run< false >(); } ); }
template< typename T, typename... B > static void all( mc::Cases & c ) { using P = Prod< T, B... >; c.emplace_back( P::who(), []{ P::template run< true >(); } ); }
template< typename T, typename A, typename... B > static void pairsWith( mc::Cases & c ) { ( one< T, A, B >( c ), ... ); }
template< typename T, typename... B > static void pairs( mc::Cases & c, Bases< B... > ) { ( pairsWith< T, B, B... >( c ), ... ); }
template< typename T, typename A, typename A2, typename... B > static void triplesWith2( mc::Cases & c ) { ( one< T, A, A2, B >( c ), ... ); }
template< typename T, typename A, typename... B > static void triplesWith( mc::Cases & c ) { ( triplesWith2< T, A, B, B... >( c ), ... ); }
template< typename T, typename... B > static void triples( mc::Cases & c, Bases< B... > ) { ( triplesWith< T, B, B... >( c ), ... ); }

static void body()
{
  static mc::Cases c;
  if ( c.empty() )
  {
    using T = double;
#if PART == 0
    all< T, L< T, 1 > >( c ); all< T, L< T, 2 > >( c ); one< T, L< T, 5 > >( c ); all< T, E_< T, 3 > >( c ); all< T, G< T, 3 > >( c ); all< T, Pow< T, 3 > >( c ); one< T, L< T, 8 > >( c );
    pairs< T >( c, Bases< L< T, 1 >, L< T, 3 >, E_< T, 2 >, G< T, 1 >, Pow< T, 2 > >{} );
#elif PART == 1
    all< T, L< T, 1 >, Pow< T, 3 > >( c ); all< T, E_< T, 2 >, L< T, 3 > >( c ); all< float, L< float, 2 >, E_< float, 1 > >( c ); all< long double, L< long double, 1 >, G< long double, 2 > >( c );
    all< T, L< T, 1 >, E_< T, 2 >, Pow< T, 2 > >( c );
    all< float, L< float, 1 >, L< float, 2 >, E_< float, 3 > >( c );
#elif PART == 2
    triples< T >( c, Bases< L< T, 1 >, E_< T, 2 >, Pow< T, 3 > >{} );
    one< T, L< T, 3 >, L< T, 1 >, E_< T, 2 > >( c );
#elif PART == 4
    // high orders in one direction or another
    one< T, L< T, 8 >, E_< T, 1 > >( c ); one< T, E_< T, 1 >, L< T, 8 > >( c ); one< T, G< T, 3 >, E_< T, 7 > >( c ); one< T, L< T, 4 >, L< T, 6 > >( c ); one< float, L< float, 1 >, L< float, 6 > >( c );
    one< T, L< T, 5 >, L< T, 1 >, E_< T, 2 > >( c ); one< T, L< T, 1 >, L< T, 6 >, E_< T, 1 > >( c ); one< T, E_< T, 1 >, Pow< T, 2 >, L< T, 7 > >( c ); one< T, L< T, 4 >, E_< T, 1 >, L< T, 4 > >( c );
    one< T, L< T, 1 >, L< T, 1 >, L< T, 5 >, Pow< T, 1 > >( c );
#elif PART == 5
    // seven and eight directions
    one< T, Pow< T, 2 >, L< T, 1 >, Pow< T, 1 >, E_< T, 1 >, Pow< T, 1 >, Pow< T, 1 >, L< T, 2 > >( c );
    one< T, Pow< T, 1 >, Pow< T, 1 >, L< T, 1 >, Pow< T, 1 >, Pow< T, 2 >, Pow< T, 1 >, L< T, 1 >, Pow< T, 1 > >( c );
#else
    all< T, L< T, 1 >, E_< T, 2 >, Pow< T, 1 >, G< T, 1 > >( c );
    one< T, Pow< T, 2 >, L< T, 1 >, E_< T, 2 >, L< T, 1 > >( c );
    one< T, E_< T, 2 >, L< T, 1 >, L< T, 2 >, Pow< T, 2 > >( c );
    one< T, L< T, 1 >, L< T, 1 >, L< T, 1 >, L< T, 1 > >( c );
    one< T, L< T, 1 >, Pow< T, 2 >, E_< T, 1 >, Pow< T, 1 >, E_< T, 2 > >( c );
    one< T, Pow< T, 1 >, L< T, 1 >, Pow< T, 2 >, E_< T, 1 >, Pow< T, 1 >, L< T, 2 > >( c );
#endif
  }
  mc::pickCase( c );
}
MC_MAIN( body )
