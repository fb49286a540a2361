// C15: 3x3 inverses over all matrices of an alphabet, and inverse Jacobians of mapped cells.
#include "mc/mc.hpp"
#include "shiva/common/MathUtilities.hpp"
#include "shiva/common/CArray.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/bases/BasisProduct.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/geometry/mapping/JacobianTransforms.hpp"
#include <array>
#include <cmath>
#include <limits>
#ifndef PART
#define PART 0
#endif
using Q = __float128;
static Q absq( Q x ) { return x < 0 ? -x : x; }
static std::string qs( Q x ) { char b[40]; std::snprintf( b, 40, "%.12g", static_cast< double >( x ) ); return b; }
struct M3 { Q a[3][3]; };

static Q cof( M3 const & m, int i, int j )   // signed cofactor
{
  int const r[2] = { ( i + 1 ) % 3, ( i + 2 ) % 3 }, c[2] = { ( j + 1 ) % 3, ( j + 2 ) % 3 };
  return m.a[r[0]][c[0]] * m.a[r[1]][c[1]] - m.a[r[0]][c[1]] * m.a[r[1]][c[0]];
}
static Q cofAbs( M3 const & m, int i, int j )
{
  int const r[2] = { ( i + 1 ) % 3, ( i + 2 ) % 3 }, c[2] = { ( j + 1 ) % 3, ( j + 2 ) % 3 };
  return absq( m.a[r[0]][c[0]] * m.a[r[1]][c[1]] ) + absq( m.a[r[0]][c[1]] * m.a[r[1]][c[0]] );
}
static Q det( M3 const & m ) { Q d = 0; for ( int j = 0; j < 3; ++j ) d += m.a[0][j] * cof( m, 0, j ); return d; }
static Q detAbs( M3 const & m ) { Q d = 0; for ( int j = 0; j < 3; ++j ) d += absq( m.a[0][j] ) * cofAbs( m, 0, j ); return d; }
static std::string show( M3 const & m ) { std::string s = "[ "; for ( int i = 0; i < 3; ++i ) { for ( int j = 0; j < 3; ++j ) s += qs( m.a[i][j] ) + " "; s += i < 2 ? "; " : "]"; } return s; }

// got: claimed inverse and determinant of m; extra: relative uncertainty of m's entries
template< typename T, typename G > static void judge( char const * form, M3 const & m, G const & got, T d, Q extra = 0 )
{
  Q const eps = static_cast< Q >( std::numeric_limits< T >::epsilon() ) * 16 + extra * 4;
  Q const D = det( m ), DA = detAbs( m );
  if ( absq( D ) <= DA * eps * 64 ) return;   // not invertible at this precision
  mc::check( absq( d - D ) <= eps * DA, "determinant", [&]{ return std::string( form ) + ": determinant of " + show( m ) + " reported as " + qs( d ) + ", not " + qs( D ); } );
  Q const rd = eps * DA / absq( D );
  for ( int i = 0; i < 3; ++i )
    for ( int j = 0; j < 3; ++j )
    {
      Q const w = cof( m, j, i ) / D;
      Q const tol = eps * cofAbs( m, j, i ) / absq( D ) + absq( w ) * rd * 2;
      mc::check( absq( got( i, j ) - w ) <= tol, "inverse", [&]{ return std::string( form ) + ": inverse of " + show( m ) + " has entry (" + std::to_string( i ) + "," + std::to_string( j ) + ") = " + qs( got( i, j ) ) + ", not " + qs( w ); } );
    }
  mc::step();
}

template< typename T > static void both( M3 const & m )
{
  uint64_t h = mc::hashString( mc::typeName< T >() );
  T raw[3][3]; shiva::CArrayNd< T, 3, 3 > arr;
  for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) { raw[i][j] = static_cast< T >( m.a[i][j] ); arr( i, j ) = raw[i][j]; h = mc::mix( h, mc::hashDouble( static_cast< double >( raw[i][j] ) ) ); }
  mc::state( h );
  M3 r; for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) r.a[i][j] = raw[i][j];
  if ( det( r ) == 0 ) return;
  T d1 = std::numeric_limits< T >::quiet_NaN(), d2 = T( -77 );
  shiva::mathUtilities::inverse( raw, d1 );
  shiva::mathUtilities::inverse( arr, d2 );
  judge< T >( "array", r, [&]( int i, int j ) -> T { return raw[i][j]; }, d1 );
  judge< T >( "CArray", r, [&]( int i, int j ) -> T { return arr( i, j ); }, d2 );
  T buf[9]; for ( int k = 0; k < 9; ++k ) buf[k] = static_cast< T >( m.a[k / 3][k % 3] );
  shiva::CArrayViewNd< T, 3, 3 > view( buf );
  T d3 = 0;
  shiva::mathUtilities::inverse( view, d3 );
  judge< T >( "view", r, [&]( int i, int j ) -> T { return buf[3 * i + j]; }, d3 );
  // the inverse of the inverse
  if ( d1 == d1 && d1 != 0 )
  {
    T d4; M3 v; for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) v.a[i][j] = raw[i][j];
    shiva::mathUtilities::inverse( raw, d4 );
    judge< T >( "array again", v, [&]( int i, int j ) -> T { return raw[i][j]; }, d4 );
  }
  mc::observe( static_cast< double >( d1 ) );
}

// All matrices over a small alphabet. The first rows are choices; the rest are walked inside an execution.
template< typename T > static void alphabet( std::vector< int > const & al )
{
  int const n = static_cast< int >( al.size() );
  M3 m;
  for ( int k = 0; k < 4; ++k ) m.a[k / 3][k % 3] = al[static_cast< size_t >( mc::choose( n, "entry" ) )];
  int c[5] = {};
  for (;; )
  {
    for ( int k = 0; k < 5; ++k ) m.a[( k + 4 ) / 3][( k + 4 ) % 3] = al[static_cast< size_t >( c[k] )];
    both< T >( m );
    int k = 4; while ( k >= 0 && ++c[k] == n ) c[k--] = 0;
    if ( k < 0 ) break;
  }
}
// Permutations, signs and magnitudes
template< typename T > static void permuted()
{
  static int const P[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
  int const * p = P[mc::choose( 6, "permutation" )];
  double const big = sizeof( T ) == 4 ? 1e8 : 1e60;
  double const mag[] = { 1, 1 / big, big, 0.001, 3 };
  M3 m{};
  for ( int i = 0; i < 3; ++i ) m.a[i][p[i]] = static_cast< T >( ( mc::flip( "sign" ) ? -1 : 1 ) * mag[mc::choose( 5, "magnitude" )] );
  if ( mc::flip( "off diagonal" ) ) m.a[0][p[1]] = m.a[1][p[1]] / 4;
  T x = 1; for ( int i = 0; i < 3; ++i ) x *= static_cast< T >( m.a[i][p[i]] );
  for ( int i = 0; i < 3; ++i ) for ( int k = 0; k < 3; ++k ) if ( k != i ) { T const y = static_cast< T >( m.a[i][p[i]] * m.a[k][p[k]] ); if ( !( std::fabs( y ) > std::numeric_limits< T >::min() * 1e4 && std::fabs( y ) < std::numeric_limits< T >::max() / 1e4 ) ) return; }
  if ( !( std::fabs( x ) > std::numeric_limits< T >::min() * 1e4 && std::fabs( 1 / x ) > std::numeric_limits< T >::min() * 1e4 ) ) return;
  both< T >( m );
}
// scaled dense matrices
template< typename T > static void scaled()
{
  static int const base[4][9] = { { 2, 1, 0, -1, 3, 4, 5, -2, 1 }, { 7, 2, 3, 4, -5, 6, 1, 8, 9 }, { 0, 2, 1, 1, 0, -3, 4, 1, 0 }, { -1, 2, -3, 4, 5, -6, 7, 8, 10 } };
  int const * b = base[mc::choose( 4, "matrix" )];
  double const sc[] = { 1, 0.125, -3, 1e-5, 2e4 };
  M3 m; Q r[3], c[3];
  for ( int i = 0; i < 3; ++i ) { r[i] = sc[mc::choose( 5, "row scale" )]; c[i] = sc[mc::choose( 3, "column scale" )]; }
  for ( int k = 0; k < 9; ++k ) m.a[k / 3][k % 3] = static_cast< T >( b[k] * r[k / 3] * c[k % 3] );
  both< T >( m );
}
// products of triangular matrices of integers: exact, with a determinant far below the products of their entries
template< typename T > static void triangular()
{
  static double const al[] = { 0, 1, -2, 31, sizeof( T ) == 4 ? 17 : 1000 };
  double const diag[] = { 1, -1, 2, 0.5 };
  double l[3], u[3], d[3];
  for ( double & x : l ) x = al[mc::choose( 5, "lower" )];
  d[0] = diag[mc::choose( 4, "diagonal" )]; d[1] = mc::flip( "sign" ) ? -1 : 1; d[2] = mc::flip( "sign" ) ? -1 : 1;
  bool const swapped = mc::flip( "rows exchanged" );
  for ( int k = 0; k < 125; ++k )
  {
    u[0] = al[k % 5]; u[1] = al[k / 5 % 5]; u[2] = al[k / 25];
    double const L[3][3] = { { 1, 0, 0 }, { l[0], 1, 0 }, { l[1], l[2], 1 } }, U[3][3] = { { d[0], u[0], u[1] }, { 0, d[1], u[2] }, { 0, 0, d[2] } };
    M3 m;
    for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) { double s = 0; for ( int n = 0; n < 3; ++n ) s += L[i][n] * U[n][j]; m.a[swapped ? ( i + 1 ) % 3 : i][j] = static_cast< T >( s ); }
    both< T >( m );
  }
}
template< typename T, int K > static constexpr std::array< T, 10 > ctInverse()
{
  T m[3][3] = { { T( 2 + K ), 1, 0 }, { T( -1 ), 3, T( 4 ) }, { 5, T( -2 ), T( 1 - K ) } };
  T d{};
  shiva::mathUtilities::inverse( m, d );
  return { m[0][0], m[0][1], m[0][2], m[1][0], m[1][1], m[1][2], m[2][0], m[2][1], m[2][2], d };
}
template< typename T, int K > static constexpr std::array< T, 10 > ctInverseC()
{
  shiva::CArrayNd< T, 3, 3 > m{ T( 2 + K ), T( 1 ), T( 0 ), T( -1 ), T( 3 ), T( 4 ), T( 5 ), T( -2 ), T( 1 - K ) };
  T d{};
  shiva::mathUtilities::inverse( m, d );
  return { m( 0, 0 ), m( 0, 1 ), m( 0, 2 ), m( 1, 0 ), m( 1, 1 ), m( 1, 2 ), m( 2, 0 ), m( 2, 1 ), m( 2, 2 ), d };
}
template< typename T, int K > static void ct()
{
  static constexpr auto a = ctInverse< T, K >();
  static constexpr auto b = ctInverseC< T, K >();
  M3 const m{ { { 2 + K, 1, 0 }, { -1, 3, 4 }, { 5, -2, 1 - K } } };
  judge< T >( "constant array", m, [&]( int i, int j ) -> T { return a[static_cast< size_t >( 3 * i + j )]; }, a[9] );
  judge< T >( "constant CArray", m, [&]( int i, int j ) -> T { return b[static_cast< size_t >( 3 * i + j )]; }, b[9] );
}

// ---- inverse Jacobians ----
namespace sg = shiva::geometry;
template< typename T, int O, int P = O > using Shape = sg::InterpolatedShape< T, sg::NCube< T, 3, -1, 1, 1 >, shiva::functions::LagrangeBasis< T, O, shiva::GaussLobattoSpacing >, shiva::functions::LagrangeBasis< T, P, shiva::GaussLobattoSpacing >, shiva::functions::LagrangeBasis< T, O, shiva::GaussLobattoSpacing > >;
template< typename T, typename I, int nA, int nB > static void cells()
{
  using Cell = sg::LinearTransform< T, I >;
  // node positions: an affine map per cell plus a distortion of one node
  static int const affine[8][9] = { { 1, 0, 0, 0, 1, 0, 0, 0, 1 }, { 0, 2, 0, 0, 0, 3, 1, 0, 0 }, { 0, 0, 1, 0, 2, 0, 3, 0, 0 }, { -1, 0, 0, 0, 1, 0, 0, 0, 2 }, { 2, 1, 0, 0, 2, 1, 1, 0, 3 }, { 1, 2, 3, -1, 1, 4, 2, 0, -5 }, { 4, 1, -1, 0, 1, 0, 2, 0, 1 }, { 0, -1, 0, -1, 0, 0, 1, 1, -1 } };
  int const * A = affine[mc::choose( 8, "map" )];
  int const nn = nA * nB * nA, bad = mc::choose( nn + 1, "distorted node" ), dir = bad == nn ? 0 : mc::choose( 3, "direction" );
  T x[3]; T const cs[] = { T( -0.5 ), T( 0.875 ), T( 1 ) };
  for ( int d = 0; d < 3; ++d ) x[d] = cs[mc::choose( d == 1 ? 3 : 2, "coordinate" )];
  int const form = mc::choose( 3, "form" );
  Cell c;
  // nodes at equally parametrized positions of each direction (the reference uses the code's own Jacobian checked by C14)
  int l = 0;
  for ( int i = 0; i < nA; ++i ) for ( int j = 0; j < nB; ++j ) for ( int k = 0; k < nA; ++k, ++l )
  {
    T const xi[3] = { T( 2 * i ) / ( nA - 1 ) - 1, T( 2 * j ) / ( nB - 1 ) - 1, T( 2 * k ) / ( nA - 1 ) - 1 };
    for ( int r = 0; r < 3; ++r ) c.getData()( i, j, k, r ) = T( 5 * r ) + A[3 * r] * xi[0] + A[3 * r + 1] * xi[1] + A[3 * r + 2] * xi[2] + ( l == bad && r == dir ? T( 0.375 ) : T( 0 ) );
  }
  typename Cell::JacobianType J, inv; T d = T( 9 );
  sg::utilities::jacobian( c, x, J );
  M3 m; for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) { m.a[i][j] = J( i, j ); inv( i, j ) = form == 1 ? std::numeric_limits< T >::quiet_NaN() : T( 3 ); }
  char const * name = "inverseJacobian";
  if ( form == 0 ) sg::utilities::inverseJacobian( c, x, inv, d );
  else if ( form == 1 ) { std::array< T, 3 > const y{ x[0], x[1], x[2] }; sg::utilities::inverseJacobian( c, y, inv, d ); name = "inverseJacobian(std::array)"; }
  else { auto const t = sg::utilities::inverseJacobian( c, x ); using std::get; d = get< 0 >( t ); inv = get< 1 >( t ); name = "returned inverseJacobian"; }
  judge< T >( name, m, [&]( int i, int j ) -> T { return inv( i, j ); }, d, static_cast< Q >( std::numeric_limits< T >::epsilon() ) * 8 );
  uint64_t h = mc::mix( mc::hashString( name ), static_cast< uint64_t >( bad * 8 + dir ) ); for ( int k = 0; k < 9; ++k ) h = mc::mix( h, mc::hashDouble( static_cast< double >( m.a[k / 3][k % 3] ) ) );
  mc::state( h ); mc::observe( static_cast< double >( d ) );
  if ( mc::tracing() ) mc::note( std::string( name ) + " of " + show( m ) + ": determinant " + qs( d ) );
}

static void body()
{
  static mc::Cases c;
  if ( c.empty() )
  {
    using S = std::vector< int >;
#if PART == 0
    c.emplace_back( "double {-2,0,1,3}", []{ alphabet< double >( S{ -2, 0, 1, 3 } ); } );
    c.emplace_back( "float {-1,0,2}", []{ alphabet< float >( S{ -1, 0, 2 } ); } );
    if ( mc::thorough() ) { c.emplace_back( "double {-2,-1,0,1,3}", []{ alphabet< double >( S{ -2, -1, 0, 1, 3 } ); } ); c.emplace_back( "float {-3,0,1,4}", []{ alphabet< float >( S{ -3, 0, 1, 4 } ); } ); c.emplace_back( "long double {-3,0,1,4}", []{ alphabet< long double >( S{ -3, 0, 1, 4 } ); } ); }
#elif PART == 1
    c.emplace_back( "double permuted", []{ permuted< double >(); } );
    c.emplace_back( "float permuted", []{ permuted< float >(); } );
    c.emplace_back( "double triangular", []{ triangular< double >(); } );
    c.emplace_back( "float triangular", []{ triangular< float >(); } );
    c.emplace_back( "double scaled", []{ scaled< double >(); } );
    c.emplace_back( "float scaled", []{ scaled< float >(); } );
    c.emplace_back( "long double scaled", []{ scaled< long double >(); } );
    c.emplace_back( "constant", []{ ct< double, 0 >(); ct< double, 3 >(); ct< float, 1 >(); } );
#else
    c.emplace_back( "cells of order 1", []{ cells< double, Shape< double, 1 >, 2, 2 >(); } );
    c.emplace_back( "cells of orders 1,2,1", []{ cells< double, Shape< double, 1, 2 >, 2, 3 >(); } );
    c.emplace_back( "cells of order 1 float", []{ cells< float, Shape< float, 1 >, 2, 2 >(); } );
#endif
  }
  mc::pickCase( c );
}
MC_MAIN( body )
