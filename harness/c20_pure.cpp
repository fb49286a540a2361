// C20: the same calls in threads under every schedule within a preemption bound, nested in callbacks, and after any
// short history: each gives what it gives alone in a fresh process.
#include "mc/mc.hpp"
#include "mc/sched.hpp"
#include "shiva/common/pmpl.hpp"
#include "shiva/common/IndexTypes.hpp"
#include "shiva/common/MathUtilities.hpp"
#include "shiva/common/SequenceUtilities.hpp"
#include "shiva/functions/bases/BasisProduct.hpp"
#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/quadrature/Quadrature.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/geometry/shapes/NSimplex.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/geometry/mapping/JacobianTransforms.hpp"
#include "shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp"
#include <cmath>

namespace sf = shiva::functions;
namespace sg = shiva::geometry;
namespace u = shiva::geometry::utilities;
using L1 = sf::LagrangeBasis< double, 1, shiva::GaussLobattoSpacing >;
using L2 = sf::LagrangeBasis< double, 2, shiva::GaussLobattoSpacing >;
using L3 = sf::LagrangeBasis< double, 3, shiva::GaussLobattoSpacing >;
using E2 = sf::LagrangeBasis< double, 2, shiva::EqualSpacing >;
using Sq = sg::NCube< double, 2, -1, 1, 1 >;
using Hex = sg::InterpolatedShape< double, sg::Cube< double >, L1, L1, L1 >;
using Hex12 = sg::InterpolatedShape< double, sg::Cube< double >, L1, L2, L1 >;
using Cell = sg::LinearTransform< double, Hex >;
using Cell12 = sg::LinearTransform< double, Hex12 >;
using PE = shiva::discretizations::finiteElementMethod::ParentElement< double, Sq, L1, E2 >;
using PE3 = shiva::discretizations::finiteElementMethod::ParentElement< double, sg::Cube< double >, L1, L1, L1 >;
using PEf = shiva::discretizations::finiteElementMethod::ParentElement< float, sg::NCube< float, 2, -1, 1, 1 >, sf::LagrangeBasis< float, 1, shiva::GaussLobattoSpacing >, sf::LagrangeBasis< float, 2, shiva::GaussLobattoSpacing > >;

constexpr int MAXOUT = 44;
struct Out { double v[MAXOUT]; int n; };
struct Put { Out & o; void operator()( double x ) { if ( o.n < MAXOUT ) o.v[o.n++] = x; } };

// read-only inputs shared by everything
struct Inputs
{
  double x2[2][2] = { { 0.25, -0.5 }, { -0.75, 0.125 } };
  double x3[2][3] = { { 0.25, -0.5, 0.75 }, { -0.75, 0.125, 1.0 } };
  shiva::CArrayNd< double, 2, 3 > field[2] = { { 1.0, 2.0, 4.0, 8.0, -16.0, 32.0 }, { -1.5, 0.5, 3.0, 7.0, 5.0, -2.0 } };
  shiva::CArrayNd< double, 2, 2, 2 > field3[2] = { { 1.0, 2.0, 4.0, 8.0, -16.0, 32.0, 3.0, 5.0 }, { -1.5, 0.5, 3.0, 7.0, 5.0, -2.0, 9.0, 11.0 } };
  shiva::CArrayNd< float, 2, 3 > fieldf[2] = { { 1.0f, 2.0f, 4.0f, 8.0f, -16.0f, 32.0f }, { -1.5f, 0.5f, 3.0f, 7.0f, 5.0f, -2.0f } };
  float xf[2][2] = { { 0.25f, -0.5f }, { -0.75f, 0.125f } };
  Cell cell[2];
  Cell12 cell12[2];
  sg::Scaling< double > box[2];
  sg::UniformScaling< double > cube[2];
  double matrix[2][9] = { { 2, 1, 0, -1, 3, 4, 5, -2, 1 }, { 7, 2, 3, 4, -5, 6, 1, 8, 9 } };
  Inputs()
  {
    for ( int v = 0; v < 2; ++v )
    {
      for ( int k = 0; k < 24; ++k ) cell[v].getData().data()[k] = ( ( k * 7 + 3 * v ) % 11 ) * 0.5 + k * ( v ? -0.25 : 0.125 );
      for ( int k = 0; k < 36; ++k ) cell12[v].getData().data()[k] = ( ( k * 5 + v ) % 13 ) * 0.5 - k * ( v ? 0.25 : -0.125 );
      double const h[3] = { 2.0 + v, 3.0 - v, 0.5 + v };
      box[v].setData( h ); cube[v].setData( 1.5 + v );
    }
  }
};
static Inputs inputs;

// user callbacks: scheduling points, and places to nest another call
struct Nest { int at = -1, seen = 0; void ( *f )( int, Out & ) = nullptr; int v = 0; Out out{}; bool did = false; };
static thread_local Nest * nest = nullptr;
static void callback()
{
  sched::point();
  Nest * const n = nest;
  if ( n && n->seen++ == n->at ) { nest = nullptr; n->out.n = 0; n->f( n->v, n->out ); n->did = true; nest = n; }
}
template< typename A > struct Field      // functor field with a user callback
{
  A const & a;
  template< typename... I > double operator()( I... i ) const { callback(); return a( i... ); }
};
struct Coord { double const * x; double operator[]( int i ) const { callback(); return x[i]; } };

static void oLagrange( int v, Out & o ) { Put p{ o }; double const x = inputs.x3[v][0]; p( L3::value< 0 >( x ) ); p( L3::value< 2 >( x ) ); p( L3::gradient< 1 >( x ) ); p( L3::gradient< 3 >( x ) ); }
static void oLagrangeCallback( int v, Out & o ) { Put p{ o }; Coord const c{ inputs.x2[v] }; using P = sf::BasisProduct< double, L2, E2 >; p( P::value< 1, 2 >( c ) ); auto const g = P::gradient< 2, 0 >( c ); p( g( 0 ) ); p( g( 1 ) ); }
static void oProduct( int v, Out & o ) { Put p{ o }; using P = sf::BasisProduct< double, L1, L2, E2 >; p( P::value< 1, 2, 0 >( inputs.x3[v] ) ); auto const g = P::gradient< 0, 1, 2 >( inputs.x3[v] ); for ( int k = 0; k < 3; ++k ) p( g( k ) ); }
static void oSupportLoop( int v, Out & o ) { Put p{ o }; double s = 0; Hex::supportLoop( [&]( auto... i ) { callback(); s += Hex::value< decltype( i )::value... >( inputs.x3[v] ) * ( 1 + ( decltype( i )::value + ... ) ); } ); p( s ); }
static void oElementValue( int v, Out & o ) { Put p{ o }; p( PE::value( inputs.x2[v], inputs.field[1 - v] ) ); }
static void oElementGradient( int v, Out & o ) { Put p{ o }; auto const g = PE::gradient( inputs.x2[v], inputs.field[v] ); p( g( 0 ) ); p( g( 1 ) ); }
static void oElementFunctor( int v, Out & o ) { Put p{ o }; using F = Field< shiva::CArrayNd< double, 2, 3 > >; p( PE::value( inputs.x2[v], F{ inputs.field[v] } ) ); auto const g = PE::gradient( inputs.x2[v], F{ inputs.field[1 - v] } ); p( g( 0 ) ); p( g( 1 ) ); }
static void oElementFloat( int v, Out & o ) { Put p{ o }; p( PEf::value( inputs.xf[v], inputs.fieldf[v] ) ); auto const g = PEf::gradient( inputs.xf[v], inputs.fieldf[v] ); p( g( 0 ) ); p( g( 1 ) ); }
static void oElement3( int v, Out & o ) { Put p{ o }; p( PE3::value( inputs.x3[v], inputs.field3[v] ) ); auto const g = PE3::gradient( inputs.x3[v], inputs.field3[v] ); for ( int k = 0; k < 3; ++k ) p( g( k ) ); }
template< typename J > static void all( Put & p, J const & j ) { for ( int k = 0; k < J::size(); ++k ) p( j.data()[k] ); }
static void oJacobian( int v, Out & o ) { Put p{ o }; Cell::JacobianType J; u::jacobian( inputs.cell[v], inputs.x3[v], J ); all( p, J ); }
static void oJacobianCallback( int v, Out & o ) { Put p{ o }; Cell::JacobianType J; Coord const c{ inputs.x3[v] }; u::jacobian( inputs.cell[v], c, J ); all( p, J ); }
static void oJacobianQ( int v, Out & o ) { Put p{ o }; Cell::JacobianType J; using Q = shiva::QuadratureGaussLegendre< double, 2 >; if ( v ) u::jacobian< Q, 1, 0, 1 >( inputs.cell[v], J ); else u::jacobian< Q, 0, 1, 1 >( inputs.cell[v], J ); all( p, J ); }
static void oInverse( int v, Out & o ) { Put p{ o }; Cell::JacobianType J; double d; u::inverseJacobian( inputs.cell[v], inputs.x3[v], J, d ); all( p, J ); p( d ); }
static void oReturned( int v, Out & o ) { Put p{ o }; using std::get; auto const J = u::jacobian( inputs.cell12[v], inputs.x3[v] ); all( p, J ); auto const t = u::inverseJacobian( inputs.cell12[v], inputs.x3[v] ); p( get< 0 >( t ) ); all( p, get< 1 >( t ) ); }
static void oScaling( int v, Out & o ) { Put p{ o }; sg::Scaling< double >::JacobianType J; double d; u::jacobian( inputs.box[v], J ); all( p, J ); u::inverseJacobian( inputs.box[v], J, d ); all( p, J ); p( d ); }
static void oUniform( int v, Out & o ) { Put p{ o }; using std::get; p( u::jacobian( inputs.cube[v] )( 0 ) ); auto const t = u::inverseJacobian( inputs.cube[v] ); p( get< 0 >( t ) ); p( get< 1 >( t )( 0 ) ); }
static void oMatrix( int v, Out & o ) { Put p{ o }; double m[3][3]; shiva::CArrayNd< double, 3, 3 > c; for ( int k = 0; k < 9; ++k ) { m[k / 3][k % 3] = inputs.matrix[v][k]; c.data()[k] = inputs.matrix[1 - v][k]; } double d, e; shiva::mathUtilities::inverse( m, d ); shiva::mathUtilities::inverse( c, e ); p( d ); p( e ); for ( int k = 0; k < 9; ++k ) { p( m[k / 3][k % 3] ); p( c.data()[k] ); } }
static void oMatrixShared( int v, Out & o )   // in place, in the output that lies next to another thread's
{
  o.n = 12;
  double ( &m )[3][3] = *reinterpret_cast< double ( * )[3][3] >( o.v );
  for ( int k = 0; k < 9; ++k ) m[k / 3][k % 3] = inputs.matrix[v][k];
  shiva::mathUtilities::inverse( m, o.v[9] );
  o.v[10] = shiva::mathUtilities::pow< double, 5 >( inputs.x2[v][0] ); o.v[11] = v;
}
static void oViews( int v, Out & o )
{
  // an array over the output itself
  o.n = 6;
  double ( &buf )[6] = *reinterpret_cast< double ( * )[6] >( o.v );
  shiva::CArrayViewNd< double, 2, 3 > w( buf );
  for ( int i = 0; i < 2; ++i ) for ( int j = 0; j < 3; ++j ) { if ( j & 1 ) w( i, j ) = inputs.field[v]( i, j ) * 2; else w[i][j] = inputs.field[v][i][j] + 1; }
  w( 1, 1 ) = w( 0, 2 ) + inputs.field[v].operator()< 1, 2 >();
}
static void oRange( int v, Out & o ) { Put p{ o }; using M = shiva::MultiIndexRange< int, 2, 3, 2 >; double s = 0, k = 1; M m{}; m.data[0] = v; shiva::forRange( m, [&]( auto const & i ) { callback(); s += k * shiva::linearIndex( i ); k += 1 + i.data[1]; } ); p( s ); p( k ); }
static void oRangeI( int v, Out & o ) { Put p{ o }; using M = shiva::MultiIndexRangeI< 3, 2 >; double s = 0, k = 1; M m{}; m.data[1] = v; shiva::forRange( m, [&]( auto const & i ) { callback(); s += k * ( i.data[0] + 10 * i.data[1] ); k *= 1.5; } ); p( s ); }
static void oSequence( int v, Out & o ) { Put p{ o }; double s = v; shiva::forSequence< 5 >( [&]( auto i ) { callback(); s = s * 2 + decltype( i )::value; } ); p( s ); auto const r = shiva::executeSequence< 4 >( [&]( auto... i ) { callback(); return inputs.x2[v][0] * ( 0 + ... + ( decltype( i )::value + 1 ) ); } ); p( r ); }
static void oNested( int v, Out & o ) { Put p{ o }; double s = v; shiva::forNestedSequence< 2, 3 >( [&]( auto i, auto j ) { callback(); s = s * 3 + decltype( i )::value * 10 + decltype( j )::value; } ); p( s ); }
static void oSpacing( int v, Out & o ) { Put p{ o }; for ( int i = v; i < 4; ++i ) { p( shiva::GaussLegendreSpacing< double, 4 >::coordinate( i ) ); p( shiva::GaussLobattoSpacing< double, 4 >::coordinate( i ) ); p( shiva::EqualSpacing< double, 4 >::coordinate( i ) ); p( shiva::QuadratureGaussLegendre< double, 4 >::weight( i ) ); p( shiva::QuadratureGaussLobatto< double, 4 >::weight( i ) ); } p( shiva::GaussLobattoSpacing< double, 7 >::coordinate( 1 + v ) ); }
static void oShapes( int v, Out & o ) { Put p{ o }; if ( v ) { p( sg::NCube< double, 4, -1, 2, 3 >::volume() ); p( sg::NCube< double, 4, -1, 2, 3 >::numFaces() ); } else { p( sg::NSimplex< double, 3, -1, 2, 3 >::volume() ); p( sg::NSimplex< double, 5, 0, 1, 1 >::numCells() ); } }
static void oKernel( int v, Out & o ) { o.n = 3; for ( int k = 0; k < 3; ++k ) o.v[k] = inputs.x3[v][k]; shiva::pmpl::genericKernelWrapper( 3, o.v, []( double * d ) { callback(); for ( int k = 0; k < 3; ++k ) d[k] = d[k] * 2 + k; } ); }
static void oSetData( int v, Out & o ) { Put p{ o }; Cell c; double n[8][3]; for ( int k = 0; k < 24; ++k ) n[k / 3][k % 3] = k * ( 1 + v ); c.setData( n ); p( c.getData()( 0, 1, 0, 2 ) ); p( c.getData()( 1, 0, 1, 0 ) ); p( c.getData()( 0, 0, 1, 1 ) ); }
// the same point and the same indices in one basis after another
template< typename B > static void basisOps( Put & p, double const ( &x )[2] )
{
  p( B::template value< 1 >( x[0] ) ); p( B::template gradient< 1 >( x[0] ) );
  using P = sf::BasisProduct< double, B, B >;
  p( P::template value< 1, 1 >( x ) ); p( P::template value< 0, 1 >( x ) );
  auto const g = P::template gradient< 1, 1 >( x ); p( g( 0 ) ); p( g( 1 ) );
  auto const h = P::template gradient< 0, 1 >( x ); p( h( 0 ) ); p( h( 1 ) );
}
static void oBases( int v, Out & o ) { Put p{ o }; if ( v ) basisOps< L2 >( p, inputs.x2[0] ); else basisOps< L3 >( p, inputs.x2[0] ); }
static void oBases2( int v, Out & o ) { Put p{ o }; if ( v ) basisOps< E2 >( p, inputs.x2[0] ); else basisOps< sf::LagrangeBasis< double, 3, shiva::EqualSpacing > >( p, inputs.x2[0] ); }
static void oBases3( int v, Out & o ) { Put p{ o }; if ( v ) basisOps< L1 >( p, inputs.x2[0] ); else basisOps< sf::LagrangeBasis< double, 2, shiva::GaussLegendreSpacing > >( p, inputs.x2[0] ); }
// objects at the same address whose contents differ from call to call
static thread_local Cell moved;
static void oMoved( int v, Out & o )
{
  Put p{ o };
  for ( int k = 0; k < 24; ++k ) moved.getData().data()[k] = inputs.cell[v].getData().data()[k];
  Cell::JacobianType J; double d;
  u::jacobian( moved, inputs.x3[0], J ); all( p, J ); u::inverseJacobian( moved, inputs.x3[0], J, d ); p( d ); all( p, J );
  u::jacobian< shiva::QuadratureGaussLegendre< double, 2 >, 1, 0, 1 >( moved, J ); all( p, J );
}
static thread_local double point3[3]; static thread_local double point2[2]; static thread_local shiva::CArrayNd< double, 2, 3 > moving;
static void oMovedPoint( int v, Out & o )
{
  Put p{ o };
  for ( int k = 0; k < 3; ++k ) { point3[k] = inputs.x3[v][k]; if ( k < 2 ) point2[k] = inputs.x2[v][k]; }
  for ( int k = 0; k < 6; ++k ) moving.data()[k] = inputs.field[v].data()[k];
  p( PE::value( point2, moving ) ); auto const g = PE::gradient( point2, moving ); p( g( 0 ) ); p( g( 1 ) );
  Cell::JacobianType J; u::jacobian( inputs.cell[0], point3, J ); all( p, J );
  p( PE::value< 1, 2 >( point2 ) );
}
static thread_local double mat[3][3];
static void oMovedMatrix( int v, Out & o )
{
  Put p{ o }; double d;
  for ( int k = 0; k < 9; ++k ) mat[k / 3][k % 3] = inputs.matrix[v][k];
  shiva::mathUtilities::inverse( mat, d ); p( d );
  for ( int k = 0; k < 9; ++k ) p( mat[k / 3][k % 3] );
  p( shiva::mathUtilities::pow< double, 3 >( inputs.x2[v][0] ) );
}

struct Op { char const * name; void ( *f )( int, Out & ); bool callback; };
static Op const ops[] = {
  { "LagrangeBasis", oLagrange, false }, { "BasisProduct of a callback coordinate", oLagrangeCallback, true }, { "BasisProduct", oProduct, false }, { "supportLoop", oSupportLoop, true }, { "element value", oElementValue, false },
  { "element gradient", oElementGradient, false }, { "element with functor field", oElementFunctor, true }, { "element float", oElementFloat, false }, { "element 3D", oElement3, false }, { "jacobian", oJacobian, false }, { "jacobian at a callback coordinate", oJacobianCallback, true },
  { "jacobian at a quadrature point", oJacobianQ, false }, { "inverseJacobian", oInverse, false }, { "returned inverseJacobian", oReturned, false }, { "Scaling", oScaling, false }, { "UniformScaling", oUniform, false }, { "3x3 inverse", oMatrix, false },
  { "3x3 inverse in place", oMatrixShared, false }, { "arrays and views", oViews, false }, { "forRange", oRange, true }, { "forRange of int", oRangeI, true }, { "forSequence", oSequence, true }, { "forNestedSequence", oNested, true }, { "spacings and quadrature", oSpacing, false },
  { "shapes", oShapes, false }, { "genericKernelWrapper", oKernel, true }, { "setData", oSetData, false },
  { "bases at one point", oBases, false }, { "other bases at that point", oBases2, false }, { "more bases at that point", oBases3, false }, { "Jacobian of a refilled transform", oMoved, false }, { "values at a moved point", oMovedPoint, false }, { "inverse of a refilled matrix", oMovedMatrix, false } };
static constexpr int NOPS = sizeof( ops ) / sizeof( ops[0] );

// the result of an operation in a process where nothing else has been called
static Out fresh( int k, int v, char const * when )
{
  Out r{};
  int fd[2]; if ( pipe( fd ) != 0 ) mc::fatal( "pipe" );
  pid_t const pid = fork();
  if ( pid == 0 ) { Out o{}; ops[k].f( v, o ); ssize_t const w = write( fd[1], &o, sizeof o ); _exit( w == sizeof o ? 0 : 1 ); }
  close( fd[1] );
  if ( read( fd[0], &r, sizeof( Out ) ) != sizeof( Out ) ) { mc::violation( "crash", std::string( ops[k].name ) + " crashes in a fresh process" + when ); r = Out{}; }
  close( fd[0] ); int st; waitpid( pid, &st, 0 );
  return r;
}
static Out alone[NOPS][2];
static unsigned char inputBytes[sizeof( Inputs )];
static void baseline()
{
  // each in a process where nothing else has been called
  std::memcpy( inputBytes, &inputs, sizeof inputs );
  for ( int k = 0; k < NOPS; ++k )
    for ( int v = 0; v < 2; ++v ) alone[k][v] = fresh( k, v, "" );
}
static bool same( Out const & a, Out const & b ) { return a.n == b.n && std::memcmp( a.v, b.v, sizeof( double ) * static_cast< size_t >( a.n ) ) == 0; }
static void judge( int k, int v, Out const & o, char const * key, std::string const & where )
{
  mc::step();
  mc::check( same( o, alone[k][v] ), key, [&]{ mc::Str s; s << ops[k].name << " (input " << v << ") " << where << " gives"; for ( int i = 0; i < o.n && i < 10; ++i ) s << " " << o.v[i]; s << ", alone"; for ( int i = 0; i < alone[k][v].n && i < 10; ++i ) s << " " << alone[k][v].v[i]; return std::string( s ); } );
}
static void inputsKept( std::string const & where ) { mc::check( std::memcmp( inputBytes, &inputs, sizeof inputs ) == 0, "inputs changed", [&]{ return where + " changed its inputs"; } ); }

struct Slots { Out o[4]; };
static void threads( int const * k, int const * v, int n, int bound, bool writesOnly = false )
{
  static Slots slots;
  std::memset( static_cast< void * >( &slots ), 0, sizeof slots );
  std::vector< std::function< void() > > bodies;
  std::string where = "beside";
  for ( int t = 0; t < n; ++t )
  {
    Out * const o = &slots.o[t];
    void ( *f )( int, Out & ) = ops[k[t]].f; int const w = v[t];
    bodies.push_back( [=]{ sched::enter(); f( w, *o ); sched::leave(); } );
    where += std::string( t ? "," : "" ) + " " + ops[k[t]].name;
  }
  sched::Report const r = sched::run( bodies, bound, writesOnly );
  for ( int t = 0; t < n; ++t ) judge( k[t], v[t], slots.o[t], "schedule", where );
  for ( auto const & s : r.races ) mc::check( false, "race", [&]{ return where + ": " + s; } );
  inputsKept( where );
  mc::step( r.points );
  uint64_t h = mc::hashString( where ); h = mc::mix( h, static_cast< uint64_t >( r.switches ) ); for ( int c : mc::E().chosen ) h = mc::mix( h, static_cast< uint64_t >( c ) );
  mc::state( h ); mc::observe( static_cast< uint64_t >( r.points ) );
  if ( mc::tracing() ) mc::note( where + ": " + std::to_string( r.points ) + " scheduling points, " + std::to_string( r.switches ) + " switches, " + std::to_string( r.races.size() ) + " races" );
}
static void twoSame( int op )
{
  int const w = mc::choose( 2, "inputs" );
  int const k[2] = { op, op }, v[2] = { 0, w };
  if ( mc::flip( "every access" ) ) threads( k, v, 2, mc::thorough() ? 2 : 1 );
  else threads( k, v, 2, mc::thorough() ? 3 : 2, true );
}
static void twoDifferent( int a, int b ) { int const k[2] = { a, b }, v[2] = { 0, 1 }; threads( k, v, 2, 1, !mc::thorough() ); }
static void three( int a, int b, int c ) { int const k[3] = { a, b, c }, v[3] = { 0, 1, 0 }; threads( k, v, 3, 1, !mc::thorough() ); }

static void history( int first )
{
  int const depth = mc::thorough() ? 4 : 3;
  std::string h;
  for ( int d = 0; d < depth; ++d )
  {
    int const k = d == 0 ? first : mc::choose( NOPS, "op" ), v = d < 2 ? mc::choose( 2, "input" ) : 0;
    for ( int w = v; w < ( d == 2 ? 2 : v + 1 ); ++w )
    {
      Out o{};
      ops[k].f( w, o );
      judge( k, w, o, "history", "after" + ( h.empty() ? " nothing" : h ) );
      inputsKept( ops[k].name );
    }
    h += std::string( " " ) + ops[k].name;
    mc::state( mc::mix( mc::hashString( h ), static_cast< uint64_t >( v ) ) );
  }
  if ( mc::tracing() ) mc::note( h );
}
static void reentrant( int outer )
{
  if ( !ops[outer].callback ) return;
  int const inner = mc::choose( NOPS, "inner" ), v = mc::choose( 2, "inputs" ), w = mc::choose( 2, "inner inputs" );
  Nest n; n.at = 1 << 30; nest = &n;
  Out o{}; ops[outer].f( v, o ); nest = nullptr;
  int const calls = n.seen;
  judge( outer, v, o, "history", "first" );
  mc::check( calls > 0, "callback", ops[outer].name );
  if ( calls == 0 ) return;
  n = Nest(); n.at = mc::choose( calls, "at" ); n.f = ops[inner].f; n.v = w; nest = &n;
  o = Out{}; ops[outer].f( v, o ); nest = nullptr;
  mc::check( n.did, "callback", "the callback was not called again" );
  std::string const where = "in callback " + std::to_string( n.at ) + " of " + ops[outer].name;
  judge( outer, v, o, "re-entrancy", std::string( "around a nested " ) + ops[inner].name );
  judge( inner, w, n.out, "re-entrancy", where );
  inputsKept( where );
  mc::state( mc::hashString( where + ops[inner].name ) );
}

// the same call again after one of its numbers has changed, and once more after it has been changed back
static std::vector< void * > const & numbers( std::vector< char > & isFloat )
{
  static std::vector< void * > r; static std::vector< char > f;
  if ( r.empty() )
  {
    auto add = [&]( double * p, int n ) { for ( int k = 0; k < n; ++k ) { r.push_back( p + k ); f.push_back( 0 ); } };
    auto addF = [&]( float * p, int n ) { for ( int k = 0; k < n; ++k ) { r.push_back( p + k ); f.push_back( 1 ); } };
    for ( int v = 0; v < 2; ++v )
    {
      add( inputs.x2[v], 2 ); add( inputs.x3[v], 3 ); add( &inputs.field[v].data()[0], 6 ); add( &inputs.field3[v].data()[0], 8 ); addF( &inputs.fieldf[v].data()[0], 6 ); addF( inputs.xf[v], 2 );
      add( inputs.matrix[v], 9 );
      if ( v == 0 || mc::thorough() ) { add( &inputs.cell[v].getData().data()[0], 24 ); add( &inputs.cell12[v].getData().data()[0], 36 ); add( inputs.box[v].setData(), 3 ); add( &inputs.cube[v].setData(), 1 ); }
    }
  }
  isFloat = f;
  return r;
}
static void neighbours( int k )
{
  std::vector< char > isFloat;
  auto const & all = numbers( isFloat );
  int const n = mc::choose( static_cast< int >( all.size() ), "number" );
  void * const p = all[static_cast< size_t >( n )];
  bool const flt = isFloat[static_cast< size_t >( n )];
  auto get = [&]{ return flt ? static_cast< double >( *static_cast< float * >( p ) ) : *static_cast< double * >( p ); };
  auto set = [&]( double x ) { if ( flt ) *static_cast< float * >( p ) = static_cast< float >( x ); else *static_cast< double * >( p ) = x; };
  double const old = get();
  // nearly the same, another, negated
  double const to[] = { flt ? old * ( 1 + 0x1p-20 ) + 0x1p-22 : old * ( 1 + 0x1p-40 ) + 0x1p-42, old + 0.5, -old };
  int const kinds = mc::thorough() ? 3 : 2;
  Out want[3];
  for ( int d = 0; d < kinds; ++d ) { set( to[d] ); want[d] = fresh( k, 0, " after a change of its inputs" ); set( old ); }
  for ( int d = 0; d < kinds; ++d )
  {
    Out o{};
    ops[k].f( 0, o );
    judge( k, 0, o, "history", "before a change of one number of its inputs" );
    set( to[d] );
    o = Out{}; ops[k].f( 0, o );
    mc::step();
    mc::check( same( o, want[d] ), "history", [&]{ mc::Str s; s << ops[k].name << " after the same call with number " << n << " of the inputs at " << old << ", now at " << to[d] << ", gives"; for ( int i = 0; i < o.n && i < 10; ++i ) s << " " << o.v[i]; s << ", alone"; for ( int i = 0; i < want[d].n && i < 10; ++i ) s << " " << want[d].v[i]; return std::string( s ); } );
    set( old );
  }
  Out o{}; ops[k].f( 0, o );
  judge( k, 0, o, "history", "after a change of one number of its inputs was undone" );
  inputsKept( ops[k].name );
  mc::state( mc::mix( mc::hashString( ops[k].name ), static_cast< uint64_t >( n ) ) );
}

static void body()
{
  static bool once = false;
  if ( !once ) { once = true; }
  static mc::Cases c;
  if ( c.empty() )
  {
#if PART == 0
    for ( int k = 0; k < NOPS; ++k ) c.emplace_back( std::string( "two threads of " ) + ops[k].name, [=]{ twoSame( k ); } );
#elif PART == 1
    for ( int a = 0; a < NOPS; ++a ) for ( int b = a + 1; b < NOPS; ++b ) c.emplace_back( "two threads", [=]{ twoDifferent( a, b ); } );
    for ( int a = 0; a < NOPS; ++a ) c.emplace_back( "three threads", [=]{ three( a, a, ( a + 5 ) % NOPS ); } );
#elif PART == 2
    for ( int k = 0; k < NOPS; ++k ) c.emplace_back( "history", [=]{ history( k ); } );
#elif PART == 4
    for ( int k = 0; k < NOPS; ++k ) c.emplace_back( "neighbouring inputs", [=]{ neighbours( k ); } );
#else
    for ( int k = 0; k < NOPS; ++k ) if ( ops[k].callback ) c.emplace_back( "re-entrancy", [=]{ reentrant( k ); } );
#endif
  }
  mc::pickCase( c );
}
int main( int argc, char ** argv )
{
  baseline();
  return mc::run( argc, argv, body );
}
