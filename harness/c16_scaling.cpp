// C16: box and cube mappings, all short sequences of updates and queries against a model of the edge lengths.
#include "mc/mc.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/bases/BasisProduct.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/geometry/mapping/JacobianTransforms.hpp"
#include <array>
#include <cmath>
#include <limits>
namespace sg = shiva::geometry;
namespace u = shiva::geometry::utilities;

// both kinds of cell behind one face
template< typename T > struct Box
{
  static constexpr bool uniform = false;
  static constexpr int N = 3;
  static char const * name() { return "Scaling"; }
  using Cell = sg::Scaling< T >;
  static T get( Cell const & c, int d ) { return c.getData()[d]; }
  static void setAll( Cell & c, T const * h ) { T const x[3] = { h[0], h[1], h[2] }; c.setData( x ); }
  static void setFrom( Cell & c, Cell const & from ) { c.setData( from.getData() ); }
  static T & ref( Cell & c, int d ) { return c.setData()[d]; }
};
template< typename T > struct Cube_
{
  static constexpr bool uniform = true;
  static constexpr int N = 1;
  static char const * name() { return "UniformScaling"; }
  using Cell = sg::UniformScaling< T >;
  static T get( Cell const & c, int ) { return c.getData(); }
  static void setAll( Cell & c, T const * h ) { c.setData( h[0] ); }
  static void setFrom( Cell & c, Cell const & from ) { c.setData( from.getData() ); }
  static T & ref( Cell & c, int ) { return c.setData(); }
};
template< typename T, typename K > struct Run
{
  using Cell = typename K::Cell;
  using Jac = typename Cell::JacobianType;
  static std::string who() { return std::string( K::name() ) + " " + mc::typeName< T >(); }
  static bool near( T a, long double b ) { return std::fabs( a - b ) <= 8 * static_cast< long double >( std::numeric_limits< T >::epsilon() ) * std::fabs( b ); }
  static std::string lens( T const * h ) { mc::Str s; for ( int d = 0; d < K::N; ++d ) s << ( d ? "," : "" ) << h[d]; return s; }
  static void judgeJ( char const * form, Jac const & J, T const * h ) { for ( int d = 0; d < K::N; ++d ) mc::check( near( J( d ), static_cast< long double >( h[d] ) / 2 ), "jacobian", [&]{ mc::Str s; s << who() << " " << form << ": component " << d << " is " << J( d ) << " for edges " << lens( h ); return std::string( s ); } ); mc::step(); }
  static void judgeI( char const * form, Jac const & I, T det, T const * h )
  {
    long double w = 1;
    for ( int d = 0; d < 3; ++d ) w *= static_cast< long double >( h[K::uniform ? 0 : d] ) / 2;
    for ( int d = 0; d < K::N; ++d ) mc::check( near( I( d ), 2 / static_cast< long double >( h[d] ) ), "inverse", [&]{ mc::Str s; s << who() << " " << form << ": component " << d << " is " << I( d ) << " for edges " << lens( h ); return std::string( s ); } );
    mc::check( near( det, w ), "determinant", [&]{ mc::Str s; s << who() << " " << form << ": determinant " << det << " for edges " << lens( h ) << ", not " << static_cast< double >( w ); return std::string( s ); } );
    mc::step(); mc::observe( static_cast< double >( det ) );
  }
  static void data( Cell const & c, T const * h, char const * when ) { for ( int d = 0; d < K::N; ++d ) mc::check( K::get( c, d ) == h[d], "data", [&]{ mc::Str s; s << who() << " " << when << ": edge " << d << " reads " << K::get( c, d ) << ", not " << h[d]; return std::string( s ); } ); }

  static void queries( Cell const & c, T const * h, T fill )
  {
    Jac J, I; T det = fill;
    for ( int d = 0; d < K::N; ++d ) { J( d ) = fill; I( d ) = fill; }
    u::jacobian( c, J ); judgeJ( "jacobian", J, h );
    u::inverseJacobian( c, I, det ); judgeI( "inverseJacobian", I, det, h );
    judgeJ( "returned jacobian", u::jacobian( c ), h );
    auto const t = u::inverseJacobian( c );
    using std::get;
    judgeI( "returned inverseJacobian", get< 1 >( t ), get< 0 >( t ), h );
    data( c, h, "after a query" );
  }
  static T const * lengths( int k ) { static T const t[][3] = { { 2, 3, 5 }, { T( 0.5 ), 7, T( 1e-3 ) }, { 4096, T( 0.3 ), 1 }, { T( 11.75 ), T( 0.0625 ), T( 1e4 ) } }; return t[k]; }
  static void copyLen( T * to, T const * from ) { for ( int d = 0; d < 3; ++d ) to[d] = K::uniform ? from[0] : from[d]; }

  static void sequences()
  {
    Cell a, b;
    T ha[3] = { 1, 1, 1 }, hb[3] = { 1, 1, 1 };
    data( a, ha, "default" );
    int const depth = mc::thorough() ? 5 : 4;
    uint64_t seen = mc::hashString( who() );
    for ( int k = 0; k < depth; ++k )
    {
      int const op = mc::choose( 11, "op" );
      Cell & c = op & 1 ? b : a; T * h = op & 1 ? hb : ha; // operations 0 to 5
      switch ( op )
      {
        case 0: case 1: { T const * x = lengths( ( k + op ) % 4 ); K::setAll( c, x ); copyLen( h, x ); } break;
        case 2: case 3: { int const d = ( k + 1 ) % K::N; K::ref( c, d ) = T( 0.75 ) + k; h[d] = T( 0.75 ) + k; if ( K::uniform ) h[1] = h[2] = h[0]; } break;
        case 4: case 5: { Cell const & cc = c; T const f[] = { std::numeric_limits< T >::quiet_NaN(), 0, -5, std::numeric_limits< T >::max() }; queries( cc, h, f[k % 4] ); } break;
        case 6: b = a; copyLen( hb, ha ); break;
        case 7: { Cell const copy( b ); a = copy; copyLen( ha, hb ); } break;
        case 8: K::setFrom( a, a ); break;
        case 9: K::setFrom( b, a ); copyLen( hb, ha ); break;
        default: { K::ref( a, K::N - 1 ) *= 2; ha[K::N - 1] *= 2; if ( K::uniform ) ha[1] = ha[2] = ha[0]; } break;
      }
      data( a, ha, "after an operation" ); data( b, hb, "after an operation" );
      for ( int d = 0; d < 3; ++d ) seen = mc::mix( mc::mix( seen, mc::hashDouble( static_cast< double >( ha[d] ) ) ), mc::hashDouble( static_cast< double >( hb[d] ) ) );
      mc::state( seen );
    }
    queries( a, ha, 1 ); queries( b, hb, std::numeric_limits< T >::quiet_NaN() );
  }
  static void grid()
  {
    T const v[] = { 1, -2, 3, T( 0.1 ), T( 1e-3 ), T( 7.5 ), T( 1e5 ) };
    T h[3] = { 1, 1, 1 };
    // all edges alike in magnitude, or of any of these magnitudes together
    bool const far = mc::flip( "far scales" );
    constexpr bool F = sizeof( T ) == 4;
    T const m[] = { T( F ? 1.3e-11 : 1.3e-90 ), T( F ? 1.7e-9 : 1.7e-40 ), T( F ? 1.1e-3 : 1.1e-10 ), T( F ? 0.7 : 0.7e-9 ), T( F ? 3.7e4 : 3.7e10 ), T( F ? 2.3e9 : 2.3e40 ), T( F ? 1.9e11 : 1.9e90 ) };
    if ( far ) { int const k = mc::choose( 7, "magnitude" ); for ( int d = 0; d < K::N; ++d ) h[d] = m[k] * ( 1 + T( mc::choose( 3, "edge" ) ) / 3 ); }
    else for ( int d = 0; d < K::N; ++d ) h[d] = v[mc::choose( 7, "edge" )];
    if ( K::uniform ) h[1] = h[2] = h[0];
    Cell c; K::setAll( c, h );
    data( c, h, "after setData" );
    queries( c, h, mc::flip( "dirty output" ) ? std::numeric_limits< T >::quiet_NaN() : T( 42 ) );
    uint64_t s = mc::hashString( who() ); for ( int d = 0; d < 3; ++d ) s = mc::mix( s, mc::hashDouble( static_cast< double >( h[d] ) ) );
    mc::state( s );
    // the general mapped cell with the same corners
    using B = shiva::functions::LagrangeBasis< T, 1, shiva::GaussLobattoSpacing >;
    using G = sg::LinearTransform< T, sg::InterpolatedShape< T, sg::Cube< T >, B, B, B > >;
    G g;
    for ( int i = 0; i < 2; ++i ) for ( int j = 0; j < 2; ++j ) for ( int k = 0; k < 2; ++k ) { int const n[3] = { i, j, k }; for ( int d = 0; d < 3; ++d ) g.getData()( i, j, k, d ) = ( 2 * n[d] - 1 ) * h[d] / 2; }
    T const x[3] = { T( 0.25 ), T( -0.5 ), T( 0.75 ) };
    typename G::JacobianType J, I; T det, det2; Jac Js, Is;
    u::jacobian( g, x, J ); u::jacobian( c, Js ); u::inverseJacobian( g, x, I, det ); u::inverseJacobian( c, Is, det2 );
    T const tol = 32 * std::numeric_limits< T >::epsilon();
    T big = h[0]; for ( int d = 1; d < 3; ++d ) if ( h[d] > big ) big = h[d];
    for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j )
    {
      int const q = K::uniform ? 0 : i;
      mc::check( std::fabs( J( i, j ) - ( i == j ? Js( q ) : T( 0 ) ) ) <= tol * std::fabs( h[i] ), "agrees with the general cell", [&]{ return who() + ": Jacobian for edges " + lens( h ); } );
      if ( i == j ) mc::check( std::fabs( I( i, i ) - Is( q ) ) <= tol * std::fabs( Is( q ) ), "agrees with the general cell", [&]{ return who() + ": inverse for edges " + lens( h ); } );
    }
    mc::check( std::fabs( det - det2 ) <= tol * std::fabs( det2 ), "agrees with the general cell", [&]{ return who() + ": determinant for edges " + lens( h ); } );
    mc::check( Cell::jacobianIsConstInCell(), "constant Jacobian", [&]{ return who(); } );
  }
  static constexpr std::array< T, 4 > ct()
  {
    Cell c{};
    if constexpr ( K::uniform ) { c.setData( T( 3 ) ); c.setData() *= 2; } else { T const h[3] = { 2, 3, 5 }; c.setData( h ); c.setData()[1] = 6; }
    Jac J{}, I{}; T d{};
    u::jacobian( c, J ); u::inverseJacobian( c, I, d );
    return { J( 0 ), J( K::N - 1 ), I( K::N - 1 ), d };
  }
  static void constant()
  {
    static constexpr auto r = ct();
    T const w[4] = { K::uniform ? T( 3 ) : T( 1 ), K::uniform ? T( 3 ) : T( 2.5 ), K::uniform ? T( 1 ) / 3 : T( 2 ) / 5, K::uniform ? T( 27 ) : T( 7.5 ) };
    for ( size_t k = 0; k < 4; ++k ) mc::check( near( r[k], w[k] ), "constant evaluation", [&]{ mc::Str s; s << who() << " value " << k << " is " << r[k] << ", not " << w[k]; return std::string( s ); } );
    static constexpr Cell d{};
    data( d, lengthsOne(), "default constant" );
  }
  static T const * lengthsOne() { static T const o[3] = { 1, 1, 1 }; return o; }
  static void run()
  {
    switch ( mc::choose( 3, "what" ) ) { case 0: sequences(); break; case 1: grid(); break; default: constant(); }
  }
};
static void body()
{
  static mc::Cases const c{
    { "box double", []{ Run< double, Box< double > >::run(); } }, { "box float", []{ Run< float, Box< float > >::run(); } },
    { "cube double", []{ Run< double, Cube_< double > >::run(); } }, { "cube float", []{ Run< float, Cube_< float > >::run(); } },
    { "cube long double", []{ Run< long double, Cube_< long double > >::run(); } }, { "box long double", []{ Run< long double, Box< long double > >::run(); } } };
  mc::pickCase( c );
}
MC_MAIN( body )
