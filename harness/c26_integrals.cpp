// C26: quantities assembled from shape, quadrature, Jacobian, inverse and element gradients on mapped hexahedra,
// against exact integrals of the trilinear map (products of rational 1D integrals, no quadrature).
#include "mc/mc.hpp"
#include "harness/elems.hpp"
#include "shiva/functions/bases/BasisProduct.hpp"
#include "shiva/functions/quadrature/Quadrature.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/geometry/mapping/JacobianTransforms.hpp"
#include "shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp"
#include <array>
#ifndef PART
#define PART 0
#endif
namespace sg = shiva::geometry;
namespace su = shiva::geometry::utilities;
namespace fe = shiva::discretizations::finiteElementMethod;
using std::size_t;

// ---- cells and exact integrals -----------------------------------------------------------------------------------
struct Hex { double x[8][3]; };   // corner k = a + 2 b + 4 c
inline int bit( int k, int d ) { return ( k >> d ) & 1; }
inline double sgn( int k, int d ) { return bit( k, d ) ? 1 : -1; }

// integral of dNa/dxi0 dNb/dxi1 dNc/dxi2 (times Nd) over the parent cube: a product of 1D integrals
struct Tensors
{
  double v[8][8][8], m[8][8][8][8];
  Tensors()
  {
    for ( int a = 0; a < 8; ++a ) for ( int b = 0; b < 8; ++b ) for ( int c = 0; c < 8; ++c )
    {
      int const n[3] = { a, b, c };
      double p = 1;
      for ( int d = 0; d < 3; ++d )
      {
        double const der = sgn( n[d], d ) / 2, s = sgn( n[( d + 1 ) % 3], d ), t = sgn( n[( d + 2 ) % 3], d );
        p *= der * ( 2 + 2 * s * t / 3 ) / 4;
      }
      v[a][b][c] = p;
      for ( int e = 0; e < 8; ++e )
      {
        double q = 1;
        for ( int d = 0; d < 3; ++d )
        {
          double const der = sgn( n[d], d ) / 2, s = sgn( n[( d + 1 ) % 3], d ), t = sgn( n[( d + 2 ) % 3], d ), r = sgn( e, d );
          q *= der * ( 2 + 2 * ( s * t + s * r + t * r ) / 3 ) / 8;
        }
        m[a][b][c][e] = q;
      }
    }
  }
};
inline Tensors const & tensors() { static Tensors const t; return t; }
// volume and first moments; corners taken relative to corner 0 to keep the reference well conditioned
struct Exact { double vol, mom[3]; };
inline Exact exact( Hex const & h )
{
  auto const & t = tensors();
  double y[8][3];
  for ( int k = 0; k < 8; ++k ) for ( int i = 0; i < 3; ++i ) y[k][i] = h.x[k][i] - h.x[0][i];
  long double vol = 0, mom[3] = { 0, 0, 0 };
  // det( dx/dxi ) summed over the corners a, b, c of the three columns
  for ( int a = 0; a < 8; ++a ) for ( int b = 0; b < 8; ++b )
  {
    double const cx = y[a][1] * y[b][2] - y[a][2] * y[b][1], cy = y[a][2] * y[b][0] - y[a][0] * y[b][2], cz = y[a][0] * y[b][1] - y[a][1] * y[b][0];
    if ( cx == 0 && cy == 0 && cz == 0 ) continue;
    for ( int c = 0; c < 8; ++c )
    {
      double const det = cx * y[c][0] + cy * y[c][1] + cz * y[c][2];
      if ( det == 0 ) continue;
      vol += static_cast< long double >( det ) * t.v[a][b][c];
      for ( int e = 0; e < 8; ++e ) for ( int i = 0; i < 3; ++i ) mom[i] += static_cast< long double >( det ) * t.m[a][b][c][e] * y[e][i];
    }
  }
  Exact r; r.vol = static_cast< double >( vol );
  for ( int i = 0; i < 3; ++i ) r.mom[i] = static_cast< double >( mom[i] + vol * h.x[0][i] );
  return r;
}
inline std::string text( Hex const & h ) { mc::Str s; for ( int k = 0; k < 8; ++k ) s << "(" << h.x[k][0] << "," << h.x[k][1] << "," << h.x[k][2] << ")"; return s; }

inline Hex cube() { Hex h; for ( int k = 0; k < 8; ++k ) for ( int i = 0; i < 3; ++i ) h.x[k][i] = bit( k, i ); return h; }
inline int const PERM[6][3] = { { 0, 1, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 1, 0, 2 }, { 0, 2, 1 }, { 2, 1, 0 } };
// A transformation of space: the axes are permuted, stretched, sheared and shifted
struct Move { int perm; double stretch[3], shear, shift[3]; double det() const { return ( perm < 3 ? 1 : -1 ) * stretch[0] * stretch[1] * stretch[2]; } };
inline Move pickMove( int perms )
{
  static double const S[4][3] = { { 1, 1, 1 }, { 2, 0.25, 1 }, { 1e-3, 1e-3, 1e-3 }, { 1, 8, 1024 } };
  static double const T[3][3] = { { 0, 0, 0 }, { 3, -5.5, 0.125 }, { -1000, 64, 512 } };
  Move m;
  m.perm = mc::choose( perms, "axes" );
  int const s = mc::choose( 5, "stretch" );
  for ( int i = 0; i < 3; ++i ) m.stretch[i] = S[s % 4][i];
  m.shear = s == 4 ? 0.5 : 0;
  int const t = s == 2 ? 0 : mc::choose( 3, "shift" );
  for ( int i = 0; i < 3; ++i ) m.shift[i] = T[t][i];
  return m;
}
inline Hex moved( Hex const & h, Move const & m )
{
  Hex r;
  for ( int k = 0; k < 8; ++k )
  {
    double y[3]; for ( int i = 0; i < 3; ++i ) y[i] = h.x[k][PERM[m.perm][i]] * m.stretch[i];
    y[0] += m.shear * y[2];
    for ( int i = 0; i < 3; ++i ) r.x[k][i] = y[i] + m.shift[i];
  }
  return r;
}
// errors of the coordinates themselves, in units of the smallest edge scale
inline double spread( Hex const & h )
{
  double big = 0, ext[3];
  for ( int i = 0; i < 3; ++i ) { double lo = h.x[0][i], hi = lo; for ( int k = 1; k < 8; ++k ) { lo = std::min( lo, h.x[k][i] ); hi = std::max( hi, h.x[k][i] ); } ext[i] = hi - lo; for ( int k = 0; k < 8; ++k ) big = std::max( big, std::fabs( h.x[k][i] ) / ext[i] ); }
  return 1 + big;
}

// ---- assembly with the library -----------------------------------------------------------------------------------
template< typename T > using Geo = sg::InterpolatedShape< T, sg::Cube< T >, L< T, 1 >, L< T, 1 >, L< T, 1 > >;
template< typename T > using Map = sg::LinearTransform< T, Geo< T > >;
template< typename T > constexpr double TOL = sizeof( T ) == 4 ? 4e-5 : 2e-11;

struct Result
{
  double vol = 0, mom[3] = { 0, 0, 0 }, fieldIntegral = 0, gradError = 0;
  std::vector< double > mass, stiff, load;
};

template< typename T > static Map< T > mapOf( Hex const & h )
{
  Map< T > m;
  T c[8][3];
  for ( int k = 0; k < 8; ++k ) for ( int i = 0; i < 3; ++i ) c[k][i] = static_cast< T >( h.x[k][i] );
  m.setData( c );
  return m;
}

// points and weights of a 1D rule
template< typename T, typename QR, int... q > static void rule( T * x, T * w, std::integer_sequence< int, q... > ) { ( ( x[q] = QR::template coordinate< q >(), w[q] = QR::template weight< q >() ), ... ); }

// The Jacobian at a point, through one of the ways the library offers.
template< typename T, typename QR, int n, int l > static void atPoint( Map< T > const & m, typename Map< T >::JacobianType & J ) { su::jacobian< QR, l / n / n, l / n % n, l % n >( m, J ); }
template< typename T, typename QR, int n, int... l > static void atAnyPoint( Map< T > const & m, int k, typename Map< T >::JacobianType & J, std::integer_sequence< int, l... > )
{
  using F = void ( * )( Map< T > const &, typename Map< T >::JacobianType & );
  static F const f[] = { &atPoint< T, QR, n, l >... };
  f[k]( m, J );
}

template< typename T, typename QR, int n, bool MATRICES, typename... B > struct Assembly
{
  static constexpr int N = ( B::numSupportPoints * ... );
  using E = fe::ParentElement< T, sg::Cube< T >, B... >;
  using P = shiva::functions::BasisProduct< T, B... >;
  // the field u = c0 + c . x is given at the support points of the element; form selects among equivalent calls
  static Result run( Hex const & h, int form, double const ( &c )[4] )
  {
    Map< T > const map = mapOf< T >( h );
    T qx[n], qw[n];
    rule< T, QR >( qx, qw, std::make_integer_sequence< int, n >{} );
    // positions of the support points, by the definition of the map
    shiva::CArrayNd< T, B::numSupportPoints... > nodal[3], field;
    {
      int k = 0;
      P::supportLoop( [&]( auto const... i )
      {
        T const xi[3] = { B::template coordinate< decltype( i )::value >()... };
        double y[3] = { 0, 0, 0 };
        for ( int a = 0; a < 8; ++a ) for ( int d = 0; d < 3; ++d ) y[d] += ( 1 + sgn( a, 0 ) * xi[0] ) * ( 1 + sgn( a, 1 ) * xi[1] ) * ( 1 + sgn( a, 2 ) * xi[2] ) / 8 * h.x[a][d];
        double v = c[0];
        for ( int d = 0; d < 3; ++d ) { nodal[d]( decltype( i )::value... ) = static_cast< T >( y[d] ); v += c[d + 1] * y[d]; }
        field( decltype( i )::value... ) = static_cast< T >( v );
        ++k;
      } );
      mc::check( k == N, "support", [&]{ return std::string( "supportLoop visits another number of support points" ); } );
    }
    Result r;
    if ( MATRICES ) { r.mass.assign( N * N, 0 ); r.stiff.assign( N * N, 0 ); }
    r.load.assign( N, 0 );
    for ( int l = 0; l < n * n * n; ++l )
    {
      int const q[3] = { l / n / n, l / n % n, l % n };
      T const xi[3] = { qx[q[0]], qx[q[1]], qx[q[2]] };
      typename Map< T >::JacobianType inv; T det = -77;
      inv.data()[0] = 5; inv.data()[4] = -3;
      if ( form == 0 ) su::inverseJacobian( map, xi, inv, det );
      else if ( form == 1 ) { auto const t = su::inverseJacobian( map, xi ); using std::get; det = get< 0 >( t ); inv = get< 1 >( t ); }
      else if ( form == 2 ) { su::jacobian( map, xi, inv ); shiva::mathUtilities::inverse( inv, det ); }
      else if ( form == 3 )
      {
        T m[3][3]; auto const J = su::jacobian( map, xi );
        for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) m[i][j] = J( i, j );
        shiva::mathUtilities::inverse( m, det );
        for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) inv( i, j ) = m[i][j];
      }
      else
      {
        if constexpr ( n <= 3 ) atAnyPoint< T, QR, n >( map, l, inv, std::make_integer_sequence< int, n * n * n >{} );
        else su::jacobian( map, xi, inv );
        shiva::mathUtilities::inverse( inv, det );
      }
      double const w = static_cast< double >( qw[q[0]] ) * qw[q[1]] * qw[q[2]], dV = w * det;
      r.vol += dV;
      for ( int d = 0; d < 3; ++d ) r.mom[d] += dV * E::value( xi, nodal[d] );
      r.fieldIntegral += dV * E::value( xi, field );
      // physical gradient of the field
      auto const g = E::gradient( xi, field );
      for ( int i = 0; i < 3; ++i )
      {
        double s = 0;
        for ( int j = 0; j < 3; ++j ) s += static_cast< double >( g( j ) ) * inv( j, i );
        r.gradError = std::max( r.gradError, std::fabs( s - c[i + 1] ) );
        if ( !( s == s ) ) r.gradError = 1e300;
      }
      double val[N], grad[N][3];
      int k = 0;
      P::supportLoop( [&]( auto const... i )
      {
        val[k] = E::template value< decltype( i )::value... >( xi );
        auto const gp = E::template gradient< decltype( i )::value... >( xi );
        for ( int d = 0; d < 3; ++d ) { grad[k][d] = 0; for ( int j = 0; j < 3; ++j ) grad[k][d] += static_cast< double >( gp( j ) ) * inv( j, d ); }
        ++k;
      } );
      for ( int a = 0; a < N; ++a )
      {
        r.load[static_cast< size_t >( a )] += dV * val[a];
        if ( MATRICES ) for ( int b = 0; b < N; ++b )
        {
          r.mass[static_cast< size_t >( a * N + b )] += dV * val[a] * val[b];
          r.stiff[static_cast< size_t >( a * N + b )] += dV * ( grad[a][0] * grad[b][0] + grad[a][1] * grad[b][1] + grad[a][2] * grad[b][2] );
        }
      }
      mc::step();
    }
    return r;
  }
  static std::string who() { std::string s; ( ( s += ( s.empty() ? "" : "*" ) + Info< B >::name() ), ... ); return s + " " + mc::typeName< T >() + ", " + std::to_string( n ) + " points"; }
};

inline std::vector< double > nodalField( Hex const & h, double const ( &c )[4], std::vector< std::array< double, 3 > > const & xi )
{
  std::vector< double > u;
  for ( auto const & p : xi )
  {
    double v = c[0];
    for ( int a = 0; a < 8; ++a ) for ( int d = 0; d < 3; ++d ) v += c[d + 1] * ( 1 + sgn( a, 0 ) * p[0] ) * ( 1 + sgn( a, 1 ) * p[1] ) * ( 1 + sgn( a, 2 ) * p[2] ) / 8 * h.x[a][d];
    u.push_back( v );
  }
  return u;
}
template< typename... B > static std::vector< std::array< double, 3 > > supportPoints()
{
  std::vector< std::array< double, 3 > > r;
  std::vector< ref::Q > const n[3] = { Info< B >::nodes()... };
  for ( ref::Q x : n[0] ) for ( ref::Q y : n[1] ) for ( ref::Q z : n[2] ) r.push_back( { static_cast< double >( x ), static_cast< double >( y ), static_cast< double >( z ) } );
  return r;
}

// Everything a single assembly has to satisfy. smooth: the cell keeps its Jacobian away from zero.
template< typename T, typename QR, int n, bool MATRICES, typename... B > static Result verify( Hex const & h, int form, char const * qn )
{
  using A = Assembly< T, QR, n, MATRICES, B... >;
  static double const FIELD[4] = { 0.75, 2, -1.5, 0.5 };
  double c[4]; for ( int i = 0; i < 4; ++i ) c[i] = FIELD[i];
  Exact const e = exact( h );
  // field slopes scaled to the cell, so that every direction matters
  double ext[3], box = 1, reach = 0;
  for ( int i = 0; i < 3; ++i ) { double lo = h.x[0][i], hi = lo, far = 0; for ( int k = 0; k < 8; ++k ) { lo = std::min( lo, h.x[k][i] ); hi = std::max( hi, h.x[k][i] ); far = std::max( far, std::fabs( h.x[k][i] ) ); } ext[i] = hi - lo; box *= ext[i]; c[i + 1] /= ext[i]; reach = std::max( reach, far / ext[i] ); }
  double const s = spread( h ), tol = TOL< T > * s;
  Result const r = A::run( h, form, c );
  auto const where = [&]( char const * what, double got, double want ) { mc::Str m; m << A::who() << " " << qn << " form " << form << ", cell " << text( h ) << ": " << what << " is " << got << ", not " << want; return std::string( m ); };
  mc::check( std::fabs( r.vol - e.vol ) <= tol * box, "volume", [&]{ return where( "the volume", r.vol, e.vol ); } );
  mc::check( ( r.vol > 0 ) == ( e.vol > 0 ), "orientation", [&]{ return where( "the sign of the volume", r.vol, e.vol ); } );
  for ( int i = 0; i < 3; ++i ) mc::check( std::fabs( r.mom[i] - e.mom[i] ) <= tol * box * ext[i] * s, "moment", [&]{ return where( "a first moment", r.mom[i], e.mom[i] ); } );
  double const integral = c[0] * e.vol + c[1] * e.mom[0] + c[2] * e.mom[1] + c[3] * e.mom[2];
  mc::check( std::fabs( r.fieldIntegral - integral ) <= tol * box * s * 8, "field integral", [&]{ return where( "the integral of a linear field", r.fieldIntegral, integral ); } );
  double smallest = std::min( ext[0], std::min( ext[1], ext[2] ) ), largest = std::max( ext[0], std::max( ext[1], ext[2] ) );
  double const gtol = tol * 64 * ( largest / smallest ) / smallest * s;
  mc::check( r.gradError <= gtol, "physical gradient", [&]{ return where( "the error of the physical gradient of a linear field", r.gradError, 0 ); } );
  double total = 0; for ( double x : r.load ) total += x;
  mc::check( std::fabs( total - e.vol ) <= tol * box * 8, "load", [&]{ return where( "the sum of the integrals of the basis functions", total, e.vol ); } );
  mc::observe( r.vol ); mc::observe( r.fieldIntegral );
  if ( MATRICES )
  {
    constexpr int N = A::N;
    double sum = 0, big = 0, mbig = 0;
    for ( double x : r.mass ) { sum += x; mbig = std::max( mbig, std::fabs( x ) ); }
    for ( double x : r.stiff ) big = std::max( big, std::fabs( x ) );
    mc::check( std::fabs( sum - e.vol ) <= tol * box * N, "mass sum", [&]{ return where( "the sum of the mass matrix", sum, e.vol ); } );
    for ( int a = 0; a < N; ++a )
    {
      double row = 0, mrow = 0;
      for ( int b = 0; b < N; ++b )
      {
        size_t const p = static_cast< size_t >( a * N + b ), q = static_cast< size_t >( b * N + a );
        row += r.stiff[p]; mrow += r.mass[p];
        mc::check( std::fabs( r.stiff[p] - r.stiff[q] ) <= tol * big, "stiffness symmetric", [&]{ return where( "the stiffness matrix is not symmetric: an entry", r.stiff[p], r.stiff[q] ); } );
        mc::check( std::fabs( r.mass[p] - r.mass[q] ) <= tol * mbig, "mass symmetric", [&]{ return where( "the mass matrix is not symmetric: an entry", r.mass[p], r.mass[q] ); } );
      }
      mc::check( std::fabs( row ) <= tol * big * N * 4, "stiffness rows", [&]{ return where( "the sum of a row of the stiffness matrix", row, 0 ); } );
      mc::check( std::fabs( mrow - r.load[static_cast< size_t >( a )] ) <= tol * mbig * N * 4, "mass rows", [&]{ return where( "the sum of a row of the mass matrix", mrow, r.load[static_cast< size_t >( a )] ); } );
      mc::check( ( r.stiff[static_cast< size_t >( a * N + a )] > 0 ) == ( e.vol > 0 ), "stiffness diagonal", [&]{ return where( "a diagonal entry of the stiffness matrix", r.stiff[static_cast< size_t >( a * N + a )], e.vol ); } );
    }
    // energies of linear fields
    static auto const pts = supportPoints< B... >();
    double const f1[4] = { 0, c[1], 0, c[3] }, f2[4] = { c[0], c[1], c[2], -c[3] };
    double f1s[4], f2s[4]; for ( int i = 0; i < 4; ++i ) { f1s[i] = f1[i]; f2s[i] = f2[i]; }
    Hex centred = h; for ( int k = 0; k < 8; ++k ) for ( int i = 0; i < 3; ++i ) centred.x[k][i] -= h.x[0][i];
    auto const u = nodalField( centred, f1s, pts ), v = nodalField( centred, f2s, pts );
    double energy = 0, m1 = 0;
    for ( int a = 0; a < N; ++a ) for ( int b = 0; b < N; ++b ) { energy += u[static_cast< size_t >( a )] * r.stiff[static_cast< size_t >( a * N + b )] * v[static_cast< size_t >( b )]; m1 += r.mass[static_cast< size_t >( a * N + b )] * v[static_cast< size_t >( b )]; }
    double want = 0, mag = 0; for ( int i = 1; i < 4; ++i ) { want += f1[i] * f2[i]; mag += std::fabs( f1[i] * f2[i] ); }
    want *= e.vol;
    double const mwant = f2[0] * e.vol + f2[1] * ( e.mom[0] - h.x[0][0] * e.vol ) + f2[2] * ( e.mom[1] - h.x[0][1] * e.vol ) + f2[3] * ( e.mom[2] - h.x[0][2] * e.vol );
    mc::check( std::fabs( energy - want ) <= tol * 64 * N * big * 8 + tol * mag * box, "energy", [&]{ return where( "the energy product of two linear fields", energy, want ); } );
    mc::check( std::fabs( m1 - mwant ) <= tol * 64 * N * box, "mass product", [&]{ return where( "the integral of a linear field through the mass matrix", m1, mwant ); } );
  }
  if ( mc::tracing() ) { mc::Str m; m << A::who() << " " << qn << " cell " << text( h ) << " volume " << r.vol << " exact " << e.vol << " gradient error " << r.gradError; mc::note( m ); }
  uint64_t hash = mc::hashString( A::who() + qn ); for ( int k = 0; k < 8; ++k ) for ( int i = 0; i < 3; ++i ) hash = mc::mix( hash, mc::hashDouble( h.x[k][i] ) );
  mc::state( hash );
  return r;
}

template< typename T, int n > using GL = shiva::QuadratureGaussLegendre< T, n >;
template< typename T, int n > using LO = shiva::QuadratureGaussLobatto< T, n >;

static void same( Hex const & h, char const * what, std::vector< double > const & a, std::vector< double > const & b, double factor, double tol )
{
  double big = 0; for ( double x : b ) big = std::max( big, std::fabs( x * factor ) );
  for ( size_t i = 0; i < a.size(); ++i ) mc::check( std::fabs( a[i] - factor * b[i] ) <= tol * big, what, [&]{ mc::Str m; m << what << ": entry " << i << " is " << a[i] << ", not " << factor * b[i] << "; cell " << text( h ); return std::string( m ); } );
}

// every corner takes one of three displacements
static Hex manyCells()
{
  Hex h = cube();
  for ( int k = 0; k < 8; ++k )
  {
    int const c = k == 0 ? mc::choose( 3, "corner" ) : mc::choose( k < 6 || !mc::thorough() ? 3 : 4, "corner" );
    for ( int i = 0; i < 3; ++i ) h.x[k][i] += c == 0 ? 0 : c == 1 ? ( i == k % 3 ? 0.1875 : -0.0625 ) : c == 3 ? 0.0625 * ( i - k % 3 ) : ( i == ( k + 1 ) % 3 ? -0.15625 : 0.125 );
  }
  return h;
}
// up to two displaced coordinates
static Hex fewCells()
{
  Hex h = cube();
  int const a = mc::choose( 25, "displaced" );
  if ( a > 0 )
  {
    h.x[( a - 1 ) / 3][( a - 1 ) % 3] += 0.25;
    int const b = mc::choose( a, "displaced" );
    if ( b > 0 ) h.x[( b - 1 ) / 3][( b - 1 ) % 3] -= 0.1875;
  }
  return h;
}
// the wedge-like, twisted and skewed cells for the expensive elements
static Hex someCells()
{
  Hex h = cube();
  int const k = mc::choose( 6, "cell" );
  for ( int c = 0; c < 8; ++c )
  {
    double * x = h.x[c];
    if ( k == 1 ) { x[0] += 0.25 * x[1] * x[2]; x[1] -= 0.25 * x[0]; }
    if ( k == 2 ) { double const t = x[2] * 0.5; double const y = x[0]; x[0] = x[0] - t * x[1]; x[1] = x[1] + t * y; }
    if ( k == 3 ) { if ( c == 7 ) { x[0] += 0.5; x[1] += 0.25; x[2] -= 0.25; } }
    if ( k == 4 ) { x[0] *= 1 + 0.5 * x[2]; x[1] *= 1 - 0.5 * x[2]; }
    if ( k == 5 ) { for ( int i = 0; i < 3; ++i ) x[i] += ( ( c * 7 + i * 5 ) % 11 - 5 ) / 32.0; }
  }
  return h;
}

// matrices from two or more rules that integrate them exactly agree; translating, permuting and stretching act as geometry dictates
template< typename T, typename Q1, int n1, typename Q2, int n2, typename... B > static void matrices( Hex const & h, Move const & m, bool exactStiffness )
{
  int const form = mc::choose( 5, "form" );
  Hex const g = moved( h, m );
  double const tol = TOL< T > * spread( g ) * 4;
  Result const a = verify< T, Q1, n1, true, B... >( g, form, "rule 1" );
  Result const b = verify< T, Q2, n2, true, B... >( g, ( form + 2 ) % 5, "rule 2" );
  same( g, "rules disagree on the mass matrix", b.mass, a.mass, 1, tol );
  same( g, "rules disagree on the load", b.load, a.load, 1, tol );
  if ( exactStiffness ) same( g, "rules disagree on the stiffness matrix", b.stiff, a.stiff, 1, tol * 8 );
  // undo the shift: nothing changes
  Move z = m; z.shift[0] = z.shift[1] = z.shift[2] = 0;
  Result const c = Assembly< T, Q1, n1, true, B... >::run( moved( h, z ), form, { 1, 1, 1, 1 } );
  same( g, "mass matrix of a shifted cell", a.mass, c.mass, 1, tol );
  same( g, "stiffness matrix of a shifted cell", a.stiff, c.stiff, 1, tol * 64 );
  // undo everything: the mass matrix changes by the determinant
  Result const d = Assembly< T, Q1, n1, true, B... >::run( h, form, { 1, 1, 1, 1 } );
  same( g, "mass matrix of a transformed cell", a.mass, d.mass, m.det(), tol );
  if ( m.stretch[0] == m.stretch[1] && m.stretch[1] == m.stretch[2] && m.shear == 0 )
    same( g, "stiffness matrix of a transformed cell", a.stiff, d.stiff, m.det() / m.stretch[0] / m.stretch[0], tol * 64 );
}
// the corners listed along permuted parent axes: the same element with its nodes renumbered
template< typename T, typename QR, int n, typename B > static void renumbered( Hex const & h )
{
  constexpr int M = B::numSupportPoints, N = M * M * M;
  int const * p = PERM[mc::choose( 6, "renumbering" )];
  Hex g;
  for ( int k = 0; k < 8; ++k ) { int const j = bit( k, p[0] ) + 2 * bit( k, p[1] ) + 4 * bit( k, p[2] ); for ( int i = 0; i < 3; ++i ) g.x[k][i] = h.x[j][i]; }
  double const sign = ( p == PERM[0] || p == PERM[1] || p == PERM[2] ) ? 1 : -1;
  Result const a = verify< T, QR, n, true, B, B, B >( h, 0, "in order" ), b = verify< T, QR, n, true, B, B, B >( g, 1, "renumbered" );
  std::vector< double > mass( a.mass ), stiff( a.stiff );
  auto const image = [&]( int k ) { int const d[3] = { k / M / M, k / M % M, k % M }; return ( d[p[0]] * M + d[p[1]] ) * M + d[p[2]]; };
  for ( int i = 0; i < N; ++i ) for ( int j = 0; j < N; ++j ) { mass[static_cast< size_t >( i * N + j )] = a.mass[static_cast< size_t >( image( i ) * N + image( j ) )]; stiff[static_cast< size_t >( i * N + j )] = a.stiff[static_cast< size_t >( image( i ) * N + image( j ) )]; }
  same( h, "mass matrix of a renumbered cell", b.mass, mass, sign, TOL< T > * 64 );
  same( h, "stiffness matrix of a renumbered cell", b.stiff, stiff, sign, TOL< T > * 64 );
}

// boxes through the scaling maps against the same boxes through the general map
template< typename T, typename QR, int n > static void boxes()
{
  static double const H[5] = { 1, 0.25, 3, 1e-4, 4096 };
  double h[3]; int i0 = mc::choose( 5, "length" );
  bool const uniform = mc::flip( "uniform" );
  h[0] = H[i0]; h[1] = uniform ? h[0] : H[mc::choose( 5, "length" )]; h[2] = uniform ? h[0] : H[mc::choose( 5, "length" )];
  Hex box = cube(); for ( int k = 0; k < 8; ++k ) for ( int i = 0; i < 3; ++i ) box.x[k][i] *= h[i];
  Result const a = verify< T, QR, n, true, L< T, 1 >, L< T, 1 >, L< T, 1 > >( box, mc::choose( 5, "form" ), "box" );
  using P = shiva::functions::BasisProduct< T, L< T, 1 >, L< T, 1 >, L< T, 1 > >;
  T qx[n], qw[n];
  rule< T, QR >( qx, qw, std::make_integer_sequence< int, n >{} );
  sg::Scaling< T > s; sg::UniformScaling< T > u;
  T const len[3] = { static_cast< T >( h[0] ), static_cast< T >( h[1] ), static_cast< T >( h[2] ) };
  s.setData( len ); u.setData( len[0] );
  T det = 0, inv[3];
  if ( uniform ) { auto const t = su::inverseJacobian( u ); using std::get; det = get< 0 >( t ); inv[0] = inv[1] = inv[2] = get< 1 >( t )( 0 ); }
  else { typename sg::Scaling< T >::JacobianType J; su::inverseJacobian( s, J, det ); for ( int i = 0; i < 3; ++i ) inv[i] = J( i ); }
  std::vector< double > mass( 64, 0 ), stiff( 64, 0 );
  double vol = 0;
  for ( int l = 0; l < n * n * n; ++l )
  {
    int const q[3] = { l / n / n, l / n % n, l % n };
    T const xi[3] = { qx[q[0]], qx[q[1]], qx[q[2]] };
    double const dV = static_cast< double >( qw[q[0]] ) * qw[q[1]] * qw[q[2]] * det;
    vol += dV;
    double val[8], grad[8][3]; int k = 0;
    P::supportLoop( [&]( auto const... i ) { val[k] = P::template value< decltype( i )::value... >( xi ); auto const g = P::template gradient< decltype( i )::value... >( xi ); for ( int d = 0; d < 3; ++d ) grad[k][d] = static_cast< double >( g( d ) ) * inv[d]; ++k; } );
    for ( int x = 0; x < 8; ++x ) for ( int y = 0; y < 8; ++y ) { mass[static_cast< size_t >( x * 8 + y )] += dV * val[x] * val[y]; stiff[static_cast< size_t >( x * 8 + y )] += dV * ( grad[x][0] * grad[y][0] + grad[x][1] * grad[y][1] + grad[x][2] * grad[y][2] ); }
    mc::step();
  }
  double const want = h[0] * h[1] * h[2];
  mc::check( std::fabs( vol - want ) <= TOL< T > * want, "box volume", [&]{ mc::Str m; m << "scaling map: volume " << vol << " of the box " << h[0] << "x" << h[1] << "x" << h[2]; return std::string( m ); } );
  same( box, "mass matrix of a box", mass, a.mass, 1, TOL< T > * 16 );
  same( box, "stiffness matrix of a box", stiff, a.stiff, 1, TOL< T > * 64 );
}

template< typename T > static void volumes()
{
  Hex h = manyCells();
  int const k = mc::choose( 4, "move" );
  Move const m = k == 0 ? Move{ 0, { 1, 1, 1 }, 0, { 0, 0, 0 } } : k == 1 ? Move{ 1, { 2, 0.5, 16 }, 0, { 5, -3, 1 } } : k == 2 ? Move{ 3, { 1, 3, 0.25 }, 0.5, { 0, 0, 0 } } : Move{ 5, { 0.125, 0.25, 0.125 }, -0.25, { 2, 2, -2 } };
  h = moved( h, m );
  verify< T, GL< T, 2 >, 2, false, L< T, 1 >, L< T, 1 >, L< T, 1 > >( h, k, "Gauss-Legendre" );
  verify< T, LO< T, 3 >, 3, false, L< T, 1 >, L< T, 1 >, L< T, 1 > >( h, 4, "Gauss-Lobatto" );
}

static void body()
{
  using T = double;
  using F = float;
#if PART == 0
  volumes< T >();
#elif PART == 1
  Hex const h = fewCells();
  Move const m = pickMove( mc::thorough() ? 6 : 2 );
  matrices< T, GL< T, 3 >, 3, LO< T, 4 >, 4, L< T, 1 >, L< T, 1 >, L< T, 1 > >( h, m, false );
#elif PART == 2
  switch ( mc::choose( 4, "what" ) )
  {
    case 0: { Hex const h = fewCells(); renumbered< T, GL< T, 2 >, 2, L< T, 1 > >( h ); } break;
    case 1: { Hex const h = someCells(); renumbered< T, GL< T, 3 >, 3, L< T, 2 > >( h ); } break;
    case 2: boxes< T, GL< T, 3 >, 3 >(); break;
    default: { Hex const h = someCells(); Move const m = pickMove( 6 ); matrices< T, LO< T, 5 >, 5, GL< T, 4 >, 4, L< T, 1 >, EQ< T, 1 >, L< T, 1 > >( h, m, false ); } break;
  }
#elif PART == 3
  Hex const h = someCells();
  Move const m = pickMove( mc::thorough() ? 6 : 3 );
  switch ( mc::choose( 2, "element" ) )
  {
    case 0: matrices< T, GL< T, 4 >, 4, LO< T, 6 >, 6, L< T, 2 >, L< T, 2 >, EQ< T, 2 > >( h, m, false ); break;
    default: matrices< T, LO< T, 7 >, 7, LO< T, 6 >, 6, L< T, 1 >, L< T, 2 >, EQ< T, 3 > >( h, m, false ); break;
  }
#elif PART == 4
  switch ( mc::choose( 2, "what" ) )
  {
    case 0: { Hex const h = someCells(); Move m = pickMove( 6 ); for ( double & x : m.shift ) x = std::fabs( x ) > 10 ? 1 : x; matrices< F, GL< F, 3 >, 3, LO< F, 4 >, 4, L< F, 1 >, L< F, 1 >, L< F, 1 > >( h, m, false ); } break;
    default: boxes< F, GL< F, 3 >, 3 >(); break;
  }
#else
  // affine cells: the Jacobian is constant, so the stiffness matrix is integrated exactly too; Lobatto rules of many points
  Hex h = cube();
  double const k = mc::choose( 3, "skew" ) * 0.25;
  for ( int c = 0; c < 8; ++c ) { h.x[c][0] += k * h.x[c][1]; h.x[c][2] -= k * h.x[c][0]; }
  Move const m = pickMove( 6 );
  switch ( mc::choose( 3, "element" ) )
  {
    case 0: matrices< T, GL< T, 2 >, 2, LO< T, 8 >, 8, L< T, 1 >, L< T, 1 >, L< T, 1 > >( h, m, true ); break;
    case 1: matrices< T, GL< T, 3 >, 3, LO< T, 9 >, 9, L< T, 1 >, G< T, 2 >, L< T, 2 > >( h, m, true ); break;
    default: matrices< T, GL< T, 4 >, 4, LO< T, 5 >, 5, L< T, 3 >, EQ< T, 1 >, G< T, 1 > >( h, m, true ); break;
  }
#endif
}
MC_MAIN( body )
