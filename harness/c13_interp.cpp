// C13: interpolated values and gradients against sums over reference basis functions.
#include "mc/mc.hpp"
#include "harness/elems.hpp"
#include "shiva/functions/bases/BasisProduct.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp"
#include <array>
#ifndef PART
#define PART 0
#endif
namespace sg = shiva::geometry;
namespace fe = shiva::discretizations::finiteElementMethod;

// field functor: returns by value and records which degrees of freedom are read
template< typename T, typename S > struct Functor;
template< typename T, int... N > struct Functor< T, Sh< N... > >
{
  T const * data;
  std::vector< char > * read;
  bool * bad;
  T operator()( std::conditional_t< true, int, decltype( N ) >... i ) const
  {
    int const idx[] = { i... }, n[] = { N... };
    int l = 0;
    for ( size_t d = 0; d < sizeof...( N ); ++d ) { if ( idx[d] < 0 || idx[d] >= n[d] ) { *bad = true; return T( 0 ); } l = l * n[d] + idx[d]; }
    ( *read )[static_cast< size_t >( l )] = 1;
    return data[l];
  }
};

template< typename T, typename... B > struct El
{
  static constexpr int D = sizeof...( B );
  using S = Sh< B::numSupportPoints... >;
  static constexpr int N = prod( S{} );
  using P = fe::ParentElement< T, sg::NCube< T, D, -1, 1, 1 >, B... >;
  using Array = shiva::CArrayNd< T, B::numSupportPoints... >;
  using Q = ref::Q;
  static constexpr Q PAD = 0.25;   // keeps the rounding scale away from zero at nodes
  static std::string who() { std::string s; ( ( s += ( s.empty() ? "" : "*" ) + Info< B >::name() ), ... ); return s + " " + mc::typeName< T >(); }
  static RefTensor const & tensor() { static RefTensor const r{ { Info< B >::nodes()... } }; return r; }

  struct Point { T x[D]; std::vector< Q > v, va; std::vector< std::vector< Q > > g, ga; };
  static Point const & pickPoint()
  {
    static std::map< std::vector< int >, Point > cache;
    std::vector< int > c;
    auto const & t = tensor();
    T x[D];
    for ( int d = 0; d < D; ++d )
    {
      int const n = dimAt( S{}, d );
      int const nodes = D == 1 ? n : D == 2 ? ( n < 3 ? n : 3 ) : D > 5 && d > 1 && d < D - 1 ? 0 : 1;
      int const others = D <= 2 ? 5 : D == 3 ? 3 : 1;
      int const k = mc::choose( nodes + others, "coordinate" );
      c.push_back( k );
      T const o[] = { T( -0.3125 + 0.09375 * d ), T( 0.71875 - 0.125 * d ), T( d % 2 ? 0.99987 : -0.99984 ), T( 0 ), T( 1.5 ) };
      x[d] = k < nodes ? static_cast< T >( t.nodes[static_cast< size_t >( d )][static_cast< size_t >( D <= 2 ? k : n - 1 )] ) : o[k - nodes];
    }
    Point & p = cache[c];
    if ( p.v.empty() )
    {
      std::vector< Q > q;
      for ( int d = 0; d < D; ++d ) { p.x[d] = x[d]; q.push_back( x[d] ); }
      t.eval( q, p.v, p.g, p.va, p.ga, PAD );
    }
    return p;
  }
  static Q tol() { return relTol< T, B... >() * D; }

  template< typename G_ > static void compare( char const * what, Point const & p, T const * f, T val, G_ const & grad )
  {
    Q v = 0, va = 0;
    for ( int l = 0; l < N; ++l ) { v += p.v[static_cast< size_t >( l )] * f[l]; va += p.va[static_cast< size_t >( l )] * ref::absq( f[l] ); }
    auto where = [&]{ mc::Str s; s << who() << " " << what << " at"; for ( int d = 0; d < D; ++d ) s << " " << p.x[d]; s << " of the field"; for ( int l = 0; l < N && l < 30; ++l ) s << " " << f[l]; return std::string( s ); };
    mc::check( ref::absq( val - v ) <= tol() * va, "value", [&]{ return where() + ": value " + qs( val ) + ", not " + qs( v ); } );
    for ( int q = 0; q < D; ++q )
    {
      Q g = 0, ga = 0;
      for ( int l = 0; l < N; ++l ) { g += p.g[static_cast< size_t >( l )][static_cast< size_t >( q )] * f[l]; ga += p.ga[static_cast< size_t >( l )][static_cast< size_t >( q )] * ref::absq( f[l] ); }
      mc::check( ref::absq( grad( q ) - g ) <= tol() * ga, "gradient", [&]{ return where() + ": gradient component " + std::to_string( q ) + " is " + qs( grad( q ) ) + ", not " + qs( g ); } );
    }
    mc::step(); mc::observe( static_cast< double >( val ) );
    if ( mc::tracing() ) mc::note( where() + " = " + qs( val ) );
  }
  static void evaluate( Point const & p, T const * f )
  {
    uint64_t h = mc::hashString( who() );
    for ( int d = 0; d < D; ++d ) h = mc::mix( h, mc::hashDouble( static_cast< double >( p.x[d] ) ) );
    for ( int l = 0; l < N; ++l ) h = mc::mix( h, mc::hashDouble( static_cast< double >( f[l] ) ) );
    mc::state( h );
    T x[D]; for ( int d = 0; d < D; ++d ) x[d] = p.x[d];
    {
      Array a;
      for ( int l = 0; l < N; ++l ) a.data()[l] = f[l];
      Array const & c = a;
      T const v = P::value( x, c );
      compare( "array", p, f, v, P::gradient( x, c ) );
      for ( int l = 0; l < N; ++l ) mc::check( a.data()[l] == f[l], "field changed", [&]{ return who() + ": evaluation changed the field"; } );
    }
    {
      T buf[N]; for ( int l = 0; l < N; ++l ) buf[l] = f[l];
      shiva::CArrayViewNd< T const, B::numSupportPoints... > const w( buf );
      T const v = P::value( x, w );
      compare( "view", p, f, v, P::gradient( x, w ) );
      for ( int l = 0; l < N; ++l ) mc::check( buf[l] == f[l], "field changed", [&]{ return who() + ": evaluation changed the viewed field"; } );
    }
    {
      std::vector< char > readV( static_cast< size_t >( N ) ), readG( readV ); bool bad = false;
      Functor< T, S > const fv{ f, &readV, &bad }, fg{ f, &readG, &bad };
      T const v = P::value( x, fv );
      compare( "functor", p, f, v, P::gradient( x, fg ) );
      mc::check( !bad, "out of range read", [&]{ return who() + ": a degree of freedom outside of the element is read"; } );
    }
    for ( int d = 0; d < D; ++d ) mc::check( x[d] == p.x[d], "coordinate changed", [&]{ return who() + ": evaluation changed the coordinate"; } );
  }

  // close to the zeros of many basis functions: one degree of freedom still contributes its own function, however small
  template< int l, size_t... d > static void own( T const * x, T & v, T * g, std::index_sequence< d... > )
  {
    constexpr auto at = []( int const dir ) constexpr { int r = l; for ( int k = D - 1; k > dir; --k ) r /= dimAt( S{}, k ); return r % dimAt( S{}, dir ); };
    T c[D]; for ( int k = 0; k < D; ++k ) c[k] = x[k];
    v = P::template value< at( static_cast< int >( d ) )... >( c );
    auto const gr = P::template gradient< at( static_cast< int >( d ) )... >( c );
    for ( int k = 0; k < D; ++k ) g[k] = gr( k );
  }
  template< size_t... l > static void ownAll( T const * x, T * v, T ( *g )[D], std::index_sequence< l... > ) { ( own< static_cast< int >( l ) >( x, v[l], g[l], std::make_index_sequence< D >{} ), ... ); }
  static void near()
  {
    auto const & t = tensor();
    constexpr bool F = sizeof( T ) == 4;
    T const delta = F ? T( 1.0e-3 ) : T( 2.0e-5 );
    T x[D], f[N], v[N], g[N][D];
    uint64_t h = mc::hashString( who() + "near" );
    for ( int d = 0; d < D; ++d )
    {
      int const n = dimAt( S{}, d );
      auto const & nodes = t.nodes[static_cast< size_t >( d )];
      switch ( mc::choose( D <= 3 ? 4 : D <= 5 ? 2 : d < 1 || d == D - 1 ? 2 : 1, "closeness" ) )
      {
        case 0: x[d] = static_cast< T >( nodes[static_cast< size_t >( n - 1 )] ) - delta; break;
        case 1: x[d] = static_cast< T >( nodes[0] ) + delta * 2; break;
        case 2: x[d] = static_cast< T >( nodes[static_cast< size_t >( n / 2 )] ) + delta; break;
        default: x[d] = T( 0.3125 );
      }
      h = mc::mix( h, mc::hashDouble( static_cast< double >( x[d] ) ) );
    }
    ownAll( x, v, g, std::make_index_sequence< N >{} );
    T const big[] = { 1, T( -1.0e6 ), T( F ? 1.0e9 : 1.0e12 ) };
    T const scale = big[mc::choose( 3, "scale" )];
    Q const tol = F ? 1e-3 : 1e-6;
    for ( int l = 0; l < N; ++l )
    {
      for ( T & y : f ) y = 0;
      f[l] = scale;
      Array a; for ( int k = 0; k < N; ++k ) a.data()[k] = f[k];
      Array const & c = a;
      Q const val = P::value( x, c ); auto const gr = P::gradient( x, c );
      auto where = [&]{ mc::Str s; s << who() << " at"; for ( int d = 0; d < D; ++d ) s << " " << x[d]; s << " of the field that is " << scale << " in degree of freedom " << l << " and 0 in the others"; return std::string( s ); };
      auto same = [&]( Q got, Q want ) { return ref::absq( got - want ) <= tol * ref::absq( want ) + Q( F ? 1e-32 : 1e-200 ); };
      mc::step(); mc::state( h + static_cast< uint64_t >( l ) );
      mc::check( same( val, Q( v[l] ) * scale ), "small contribution", [&]{ return where() + ": value " + qs( val ) + ", not " + qs( Q( v[l] ) * scale ); } );
      for ( int q = 0; q < D; ++q ) mc::check( same( gr( q ), Q( g[l][q] ) * scale ), "small contribution to the gradient", [&]{ return where() + ": gradient component " + std::to_string( q ) + " is " + qs( gr( q ) ) + ", not " + qs( Q( g[l][q] ) * scale ); } );
      mc::observe( static_cast< double >( val ) );
    }
  }

  static T monomial( T const * x, int const * k ) { T r = 1; for ( int d = 0; d < D; ++d ) for ( int j = 0; j < k[d]; ++j ) r *= x[d]; return r; }
  static void run()
  {
    T f[N];
    for ( T & t : f ) t = 0;
    auto const & t = tensor();
    switch ( mc::choose( 5, "field" ) )
    {
      case 3: near(); break;
      case 0:
      {
        Point const & p = pickPoint();
        constexpr bool F = sizeof( T ) == 4;
        T const scale[] = { 1, T( -3.0e5 ), T( 1.0e-9 ), T( F ? 1.0e-25 : -1.0e-200 ), T( F ? -1.0e22 : 1.0e180 ) };
        f[mc::choose( N, "unit" )] = scale[mc::choose( 5, "scale" )];
        evaluate( p, f );
      } break;
      case 1:
      {
        // all fields over an alphabet, for the smaller elements; rotations of a fixed field for the others
        Point const & p = pickPoint();
        if ( N <= 4 ) for ( T & v : f ) { T const a[] = { T( -1.5 ), 0, 2, 7 }; v = a[mc::choose( N <= 3 ? 4 : 3, "dof" )]; }
        else if ( N <= 8 && D <= 3 ) for ( T & v : f ) v = mc::flip( "dof" ) ? T( 1.25 ) : T( -2 );
        else { int const r = mc::choose( N, "rotation" ); for ( int l = 0; l < N; ++l ) f[l] = T( ( ( l + r ) % N * 37 ) % 19 ) - T( 6.5 ); }
        // squares of the tiny ones underflow
        if ( mc::flip( "tiny" ) ) for ( T & v : f ) v *= T( sizeof( T ) == 4 ? 1.0e-25 : 1.0e-190 );
        evaluate( p, f );
      } break;
      case 2:
      {
        // a monomial within the per-direction orders is reproduced with its gradient
        Point const & p = pickPoint();
        int k[D];
        for ( int d = 0; d < D; ++d ) k[d] = mc::choose( dimAt( S{}, d ), "power" );
        for ( int l = 0; l < N; ++l ) { auto const i = t.index( l ); T x[D]; for ( int d = 0; d < D; ++d ) x[d] = static_cast< T >( t.nodes[static_cast< size_t >( d )][static_cast< size_t >( i[static_cast< size_t >( d )] )] ); f[l] = monomial( x, k ); }
        evaluate( p, f );
        Array a; for ( int l = 0; l < N; ++l ) a.data()[l] = f[l];
        Array const & c = a;
        T const v = P::value( p.x, c ); auto const g = P::gradient( p.x, c );
        Q scale = 1; for ( int l = 0; l < N; ++l ) scale += p.va[static_cast< size_t >( l )];
        mc::check( ref::absq( v - monomial( p.x, k ) ) <= tol() * scale * 4, "reproduction", [&]{ return who() + ": a polynomial of the element's orders is not reproduced"; } );
        for ( int q = 0; q < D; ++q )
        {
          Q w = 1, gs = 1; for ( int d = 0; d < D; ++d ) { int const e = d == q ? k[d] - 1 : k[d]; if ( d == q ) w *= k[d]; for ( int j = 0; j < e; ++j ) w *= p.x[d]; }
          for ( int l = 0; l < N; ++l ) gs += p.ga[static_cast< size_t >( l )][static_cast< size_t >( q )];
          mc::check( ref::absq( g( q ) - w ) <= tol() * gs * 4, "reproduction of gradient", [&]{ return who() + ": the gradient of a polynomial of the element's orders is not reproduced"; } );
        }
      } break;
      default:
      {
        // successive evaluations of different fields at different points
        Point const & p = pickPoint();
        for ( int l = 0; l < N; ++l ) f[l] = T( l * l % 11 ) - 3;
        Array a; for ( int l = 0; l < N; ++l ) a.data()[l] = -f[l] * 2;
        Array const & c = a;
        T other[D]; for ( int d = 0; d < D; ++d ) other[d] = T( 0.5 ) - p.x[d];
        (void) P::value( other, c ); (void) P::gradient( other, c );
        evaluate( p, f );
        if constexpr ( CT ) constant();
      } break;
    }
  }
  static constexpr bool CT = N <= 12;
  static constexpr Array ctField() { Array a{}; for ( int l = 0; l < N; ++l ) a.data()[l] = T( ( l * 5 ) % 7 ) - 2; return a; }
  struct CX { T x[D]; };
  static constexpr CX ctPoint() { CX c{}; for ( int d = 0; d < D; ++d ) c.x[d] = T( 0.21875 + 0.0625 * d ); return c; }
  static void constant()
  {
    static constexpr Array f = ctField();
    static constexpr CX x = ctPoint();
    static constexpr T v = P::value( x.x, f );
    static constexpr auto g = P::gradient( x.x, f );
    Point p; std::vector< Q > q;
    for ( int d = 0; d < D; ++d ) { p.x[d] = x.x[d]; q.push_back( x.x[d] ); }
    tensor().eval( q, p.v, p.g, p.va, p.ga, PAD );
    compare( "constant", p, f.data(), v, g );
  }
};
template< typename T, typename... B > static void one( mc::Cases & c ) { using P = El< T, B... >; c.emplace_back( P::who(), []{ P::run(); } ); }

static void body()
{
  static mc::Cases c;
  if ( c.empty() )
  {
    using T = double; using F = float;
#if PART == 0
    one< T, L< T, 1 > >( c ); one< T, L< T, 2 > >( c ); one< T, L< T, 3 > >( c ); one< T, L< T, 5 > >( c ); one< T, L< T, 8 > >( c ); one< T, EQ< T, 2 > >( c ); one< T, EQ< T, 4 > >( c ); one< T, G< T, 1 > >( c ); one< T, G< T, 3 > >( c ); one< F, L< F, 2 > >( c ); one< F, EQ< F, 3 > >( c ); one< long double, L< long double, 4 > >( c );
#elif PART == 1
    one< T, L< T, 1 >, L< T, 1 > >( c ); one< T, L< T, 1 >, L< T, 2 > >( c ); one< T, L< T, 3 >, EQ< T, 1 > >( c ); one< T, EQ< T, 2 >, G< T, 2 > >( c ); one< T, G< T, 1 >, L< T, 3 > >( c ); one< T, L< T, 2 >, L< T, 2 > >( c ); one< F, L< F, 1 >, L< F, 2 > >( c ); one< T, L< T, 5 >, L< T, 1 > >( c );
#elif PART == 2
    one< T, L< T, 1 >, L< T, 1 >, L< T, 1 > >( c ); one< T, L< T, 1 >, L< T, 2 >, L< T, 3 > >( c ); one< T, L< T, 3 >, L< T, 1 >, EQ< T, 2 > >( c ); one< T, EQ< T, 2 >, L< T, 3 >, L< T, 1 > >( c ); one< F, L< F, 1 >, L< F, 1 >, L< F, 2 > >( c ); one< T, G< T, 1 >, EQ< T, 1 >, L< T, 2 > >( c );
#elif PART == 4
    // high orders in one direction or another, and five directions
    one< T, L< T, 8 >, L< T, 1 > >( c ); one< T, EQ< T, 1 >, L< T, 7 > >( c ); one< T, L< T, 4 >, L< T, 5 > >( c ); one< F, L< F, 6 >, EQ< F, 1 > >( c );
    one< T, L< T, 1 >, L< T, 6 >, L< T, 1 > >( c ); one< T, L< T, 1 >, G< T, 1 >, L< T, 8 > >( c ); one< T, L< T, 5 >, EQ< T, 1 >, G< T, 1 > >( c );
    one< T, L< T, 1 >, EQ< T, 1 >, L< T, 2 >, G< T, 1 >, L< T, 1 > >( c ); one< F, L< F, 1 >, L< F, 1 >, EQ< F, 2 >, L< F, 1 > >( c );
#elif PART == 5
    // six and more directions
    one< T, L< T, 1 >, EQ< T, 1 >, L< T, 1 >, G< T, 1 >, L< T, 1 >, L< T, 1 > >( c ); one< F, L< F, 1 >, L< F, 1 >, L< F, 1 >, L< F, 1 >, L< F, 1 >, L< F, 1 > >( c );
    one< T, L< T, 1 >, L< T, 1 >, EQ< T, 1 >, L< T, 1 >, L< T, 1 >, L< T, 1 >, L< T, 1 > >( c );
#else
    one< T, L< T, 2 >, L< T, 2 >, L< T, 2 > >( c ); one< T, L< T, 1 >, EQ< T, 2 >, L< T, 1 >, G< T, 1 > >( c ); one< T, EQ< T, 2 >, L< T, 1 >, L< T, 1 >, L< T, 1 > >( c );
#endif
  }
  mc::pickCase( c );
}
MC_MAIN( body )
