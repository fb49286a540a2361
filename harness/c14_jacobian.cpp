// C14: Jacobians of mapped cells against the derivative of the node map.
#include "mc/mc.hpp"
#include "harness/elems.hpp"
#include "shiva/functions/bases/BasisProduct.hpp"
#include "shiva/functions/quadrature/Quadrature.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/geometry/mapping/JacobianTransforms.hpp"
#include <array>
#ifndef PART
#define PART 0
#endif
namespace sg = shiva::geometry;
namespace u = shiva::geometry::utilities;

template< typename T, typename... B > struct El
{
  static constexpr int D = sizeof...( B );
  using S = Sh< B::numSupportPoints... >;
  static constexpr int N = prod( S{} );
  using I = sg::InterpolatedShape< T, sg::NCube< T, D, -1, 1, 1 >, B... >;
  using Cell = sg::LinearTransform< T, I >;
  using Jac = typename Cell::JacobianType;
  using Q = ref::Q;
  static constexpr Q PAD = 0.25;
  static std::string who() { std::string s; ( ( s += ( s.empty() ? "" : "*" ) + Info< B >::name() ), ... ); return s + " " + mc::typeName< T >(); }
  static RefTensor const & tensor() { static RefTensor const r{ { Info< B >::nodes()... } }; return r; }
  using Nodes = std::array< std::array< T, D >, static_cast< size_t >( N ) >;   // by row-major multi-index

  struct Point { T x[D]; std::vector< Q > v, va; std::vector< std::vector< Q > > g, ga; };
  static Point point( T const * x )
  {
    Point p; std::vector< Q > q;
    for ( int d = 0; d < D; ++d ) { p.x[d] = x[d]; q.push_back( x[d] ); }
    tensor().eval( q, p.v, p.g, p.va, p.ga, PAD );
    return p;
  }
  static Point const & pickPoint()
  {
    static std::map< std::vector< int >, Point > cache;
    std::vector< int > c;
    T x[D];
    for ( int d = 0; d < D; ++d )
    {
      T const o[] = { T( -0.3125 + 0.09375 * d ), T( d == 1 ? -1 : 1 ), T( 0.71875 - 0.125 * d ), T( 1.25 ), T( 0 ), T( d == 0 ? 0.9999 : -0.9998 ), T( d == 1 ? 1 : -1 ) };
      c.push_back( mc::choose( D == 2 ? 7 : N <= 8 ? 6 : 4, "coordinate" ) );
      x[d] = o[c.back()];
    }
    auto it = cache.find( c );
    if ( it == cache.end() ) it = cache.emplace( c, point( x ) ).first;
    return it->second;
  }
  static Q tol() { return relTol< T, B... >() * D; }
  static void compare( std::string const & what, Point const & p, Nodes const & X, Jac const & J )
  {
    for ( int i = 0; i < D; ++i )
      for ( int j = 0; j < D; ++j )
      {
        Q w = 0, s = 0;
        for ( size_t a = 0; a < static_cast< size_t >( N ); ++a ) { Q const xa = X[a][static_cast< size_t >( i )]; w += p.g[a][static_cast< size_t >( j )] * xa; s += p.ga[a][static_cast< size_t >( j )] * ref::absq( xa ); }
        mc::check( ref::absq( J( i, j ) - w ) <= tol() * s, "jacobian", [&]{
          mc::Str m; m << who() << " " << what << " at"; for ( int d = 0; d < D; ++d ) m << " " << p.x[d];
          m << ": J(" << i << "," << j << ") is " << qs( J( i, j ) ) << ", not " << qs( w ) << "; nodes"; for ( int a = 0; a < N && a < 27; ++a ) { m << " ("; for ( int d = 0; d < D; ++d ) m << ( d ? "," : "" ) << X[static_cast< size_t >( a )][static_cast< size_t >( d )]; m << ")"; } return std::string( m ); } );
        mc::observe( static_cast< double >( J( i, j ) ) );
      }
    mc::step();
    if ( mc::tracing() ) { mc::Str m; m << who() << " " << what; for ( int i = 0; i < D; ++i ) for ( int j = 0; j < D; ++j ) m << " " << J( i, j ); mc::note( m ); }
    uint64_t h = mc::hashString( who() + what );
    for ( int d = 0; d < D; ++d ) h = mc::mix( h, mc::hashDouble( static_cast< double >( p.x[d] ) ) );
    for ( auto const & n : X ) for ( T v : n ) h = mc::mix( h, mc::hashDouble( static_cast< double >( v ) ) );
    mc::state( h );
  }
  static void dirty( Jac & J, int k )
  {
    for ( int i = 0; i < D * D; ++i ) J.data()[i] = k == 0 ? T( 0 ) : k == 1 ? T( 7.25 + i ) : k == 2 ? std::numeric_limits< T >::quiet_NaN() : std::numeric_limits< T >::max();
  }
  template< size_t... d > static T & coord( Cell & c, int l, int i, std::index_sequence< d... > ) { return c.getData()( digitOf( S{}, l, static_cast< int >( d ) )..., i ); }
  template< size_t... d > static T const & coordC( Cell const & c, int l, int i, std::index_sequence< d... > ) { return c.getData()( digitOf( S{}, l, static_cast< int >( d ) )..., i ); }
  static constexpr auto DSeq = std::make_index_sequence< D >{};
  static void put( Cell & c, Nodes const & X ) { for ( int l = 0; l < N; ++l ) for ( int i = 0; i < D; ++i ) coord( c, l, i, DSeq ) = X[static_cast< size_t >( l )][static_cast< size_t >( i )]; }
  static void unchanged( Cell const & c, Nodes const & X ) { for ( int l = 0; l < N; ++l ) for ( int i = 0; i < D; ++i ) mc::check( coordC( c, l, i, DSeq ) == X[static_cast< size_t >( l )][static_cast< size_t >( i )], "cell changed", [&]{ return who() + ": a query changed the node coordinates"; } ); }

  // base cells
  static Nodes base( int k )
  {
    Nodes X;
    auto const & t = tensor();
    for ( int l = 0; l < N; ++l )
    {
      auto const idx = t.index( l );
      T xi[D]; for ( int d = 0; d < D; ++d ) xi[d] = static_cast< T >( t.nodes[static_cast< size_t >( d )][static_cast< size_t >( idx[static_cast< size_t >( d )] )] );
      for ( int i = 0; i < D; ++i )
      {
        T & x = X[static_cast< size_t >( l )][static_cast< size_t >( i )];
        if ( k == 0 ) x = xi[i];
        else if ( k == 1 ) x = T( 10 * ( i + 1 ) ) + 2 * xi[( i + 1 ) % D] - xi[i] / 2;
        else if ( k == 2 ) x = xi[i] + T( ( ( l * 7 + i * 5 ) % 13 ) - 6 ) / 16;
        else x = T( 1000 ) + xi[i] * T( 0.001 ) * T( i + 1 );
      }
    }
    return X;
  }
  template< typename QR, int... q > static void quad( Cell const & c, Nodes const & X, std::string const & name )
  {
    Jac J; dirty( J, mc::choose( 2, "output" ) * 2 );
    u::jacobian< QR, q... >( c, J );
    T const x[] = { T( QR::template coordinate< q >() )... };
    compare( name, point( x ), X, J );
    unchanged( c, X );
  }
  template< typename QR, int n, int l > static void quadAt( Cell const & c, Nodes const & X, std::string const & name )
  {
    if constexpr ( D == 2 ) quad< QR, l / n, l % n >( c, X, name ); else quad< QR, l / n / n, l / n % n, l % n >( c, X, name );
  }
  template< typename QR, int n, int... l > static void quadAll( Cell const & c, Nodes const & X, std::string const & name, std::integer_sequence< int, l... > )
  {
    using F = void ( * )( Cell const &, Nodes const &, std::string const & );
    F const f[] = { &quadAt< QR, n, l >... };
    f[mc::choose( sizeof...( l ), "quadrature point" )]( c, X, name );
  }
  template< template< typename, int > typename QR, int n > static void quadRule( Cell const & c, Nodes const & X, std::string const & name ) 
  {
    if constexpr ( D == 3 && n == 3 && N > 8 ) quadAll< QR< T, n >, n >( c, X, name + "3", std::integer_sequence< int, 1, 5, 12, 19, 24 >{} );
    else if constexpr ( D == 3 && n == 2 && N > 8 ) quadAll< QR< T, n >, n >( c, X, name + "2", std::integer_sequence< int, 1, 2, 3, 4 >{} );
    else quadAll< QR< T, n >, n >( c, X, name + std::to_string( n ), std::make_integer_sequence< int, D == 2 ? n * n : n * n * n >{} );
  }

  // coordinates given by their own type
  struct ByValue { T v[D]; T operator[]( int i ) const { return v[i]; } };
  static void at( Cell const & c, Nodes const & X, Point const & p, int container, int out )
  {
    Jac J; dirty( J, out );
    T x[D]; for ( int d = 0; d < D; ++d ) x[d] = p.x[d];
    if ( container == 0 ) { u::jacobian( c, x, J ); compare( "jacobian(array)", p, X, J ); }
    else if ( container == 1 ) { std::vector< T > const v( x, x + D ); u::jacobian( c, v, J ); compare( "jacobian(vector)", p, X, J ); }
    else if ( container == 2 ) { ByValue b; for ( int d = 0; d < D; ++d ) b.v[d] = x[d]; u::jacobian( c, b, J ); compare( "jacobian(indexable)", p, X, J ); }
    else
    {
      T y[3] = {}; for ( int d = 0; d < D; ++d ) y[d] = x[d];
      if ( container == 3 ) { auto const R = u::jacobian( c, y ); compare( "returned jacobian", p, X, R ); }
      else
      {
        // the same output used again
        u::jacobian( c, x, J ); u::jacobian( c, x, J ); compare( "repeated jacobian", p, X, J );
      }
    }
    for ( int d = 0; d < D; ++d ) mc::check( x[d] == p.x[d], "coordinate changed", [&]{ return who(); } );
    unchanged( c, X );
  }
  static void histories()
  {
    // cells A and B, one output; all sequences of operations
    Cell cell[2]; Nodes X[2] = { base( 0 ), base( 2 ) }; Jac J; dirty( J, 1 );
    put( cell[0], X[0] ); put( cell[1], X[1] );
    T const pa[] = { T( 0.25 ), T( -0.5 ), T( 0.125 ) }, pb[] = { T( -0.75 ), T( 1 ), T( 0.5 ) };
    static Point const P[2] = { point( pa ), point( pb ) };
    int const depth = mc::thorough() ? 4 : 3;
    for ( int k = 0; k < depth; ++k )
    {
      int const op = mc::choose( D == 3 && ( N <= 8 || mc::thorough() ) ? 11 : 9, "op" ), c = op & 1;
      if ( op < 4 ) { u::jacobian( cell[c], P[op / 2].x, J ); compare( "history", P[op / 2], X[c], J ); }
      else if ( op < 6 )
      {
        int const l = N - 1 - k % N; coord( cell[c], l, 1, DSeq ) += T( 0.5 ); X[c][static_cast< size_t >( l )][1] += T( 0.5 );
        Nodes const Y = base( 1 ); for ( int i = 0; i < D; ++i ) { coord( cell[c], k % N, i, DSeq ) = Y[static_cast< size_t >( k % N )][static_cast< size_t >( i )]; X[c][static_cast< size_t >( k % N )][static_cast< size_t >( i )] = Y[static_cast< size_t >( k % N )][static_cast< size_t >( i )]; }
      }
      else if ( op == 6 ) { cell[1] = cell[0]; X[1] = X[0]; }
      else if ( op > 8 )
      {
        // the nodes set again from a list: a box, or a cell of no particular shape
        if constexpr ( D == 3 )
        {
          X[0] = base( op == 9 ? 0 : 2 );
          int const nA = dimAt( S{}, 0 ), nB = dimAt( S{}, 1 );
          T raw[N][3];
          for ( int l = 0; l < N; ++l ) for ( int i = 0; i < 3; ++i ) raw[digitOf( S{}, l, 0 ) + nA * ( digitOf( S{}, l, 1 ) + nB * digitOf( S{}, l, 2 ) )][i] = X[0][static_cast< size_t >( l )][static_cast< size_t >( i )];
          cell[0].setData( raw );
        }
      }
      else if ( op == 7 ) { Cell const copy( cell[1] ); cell[0] = copy; X[0] = X[1]; }
      else
      {
        using QR = shiva::QuadratureGaussLegendre< T, 2 >;
        if constexpr ( D == 2 ) u::jacobian< QR, 1, 0 >( cell[0], J ); else u::jacobian< QR, 1, 0, 1 >( cell[0], J );
        T const x[] = { QR::template coordinate< 1 >(), QR::template coordinate< 0 >(), QR::template coordinate< 1 >() };
        static Point const p = point( x );
        compare( "history quadrature", p, X[0], J );
      }
    }
    for ( int c = 0; c < 2; ++c ) { u::jacobian( cell[c], P[0].x, J ); compare( "end of history", P[0], X[c], J ); unchanged( cell[c], X[c] ); }
  }
  // setData: node k of the list is ( k % nA, k / nA % nB, k / nA / nB ); 3D cells
  template< typename C > static void setFrom( C const & coords, Nodes const & X, char const * name )
  {
    Cell c; put( c, base( 1 ) );
    c.setData( coords );
    unchangedSet( c, X, name );
    Jac J; T const pa[] = { T( 0.25 ), T( -0.5 ), T( 0.125 ) }; static Point const p = point( pa );
    u::jacobian( c, p.x, J ); compare( std::string( "after setData " ) + name, p, X, J );
  }
  static void unchangedSet( Cell const & c, Nodes const & X, char const * name )
  {
    for ( int l = 0; l < N; ++l ) for ( int i = 0; i < D; ++i )
      mc::check( coordC( c, l, i, DSeq ) == X[static_cast< size_t >( l )][static_cast< size_t >( i )], "setData", [&]{ mc::Str m; m << who() << ": setData(" << name << ") puts another node at"; for ( int d = 0; d < D; ++d ) m << " " << digitOf( S{}, l, d ); return std::string( m ); } );
  }
  static void setData()
  {
    if constexpr ( D == 3 )
    {
      Nodes const X = base( mc::choose( 4, "cell" ) );
      int const nA = dimAt( S{}, 0 ), nB = dimAt( S{}, 1 );
      std::vector< std::array< T, 3 > > list( static_cast< size_t >( N ) );
      for ( int l = 0; l < N; ++l ) list[static_cast< size_t >( digitOf( S{}, l, 0 ) + nA * ( digitOf( S{}, l, 1 ) + nB * digitOf( S{}, l, 2 ) ) )] = X[static_cast< size_t >( l )];
      switch ( mc::choose( 4, "list" ) )
      {
        case 0: setFrom( list, X, "vector of arrays" ); break;
        case 1: { T raw[N][3]; for ( int k = 0; k < N; ++k ) for ( int i = 0; i < 3; ++i ) raw[k][i] = list[static_cast< size_t >( k )][static_cast< size_t >( i )]; setFrom( raw, X, "array" ); } break;
        case 2: { shiva::CArrayNd< T, N, 3 > a; for ( int k = 0; k < N; ++k ) for ( int i = 0; i < 3; ++i ) a( k, i ) = list[static_cast< size_t >( k )][static_cast< size_t >( i )]; setFrom( a, X, "CArrayNd" ); } break;
        default: { T raw[N][3]; T * rows[N]; for ( int k = 0; k < N; ++k ) { rows[k] = raw[k]; for ( int i = 0; i < 3; ++i ) raw[k][i] = list[static_cast< size_t >( k )][static_cast< size_t >( i )]; } setFrom( rows, X, "pointers" ); } break;
      }
    }
  }
  static constexpr Cell ctCell() { Cell c{}; for ( int k = 0; k < N * D; ++k ) c.getData().data()[k] = T( ( k * 7 ) % 11 ) / 4 + T( k ) / 8; return c; }
  struct CX { T x[3]; };
  static constexpr Jac ctJac( Cell const & c, CX const & x ) { Jac J{}; u::jacobian( c, x.x, J ); return J; }
  static void constant()
  {
    if constexpr ( N <= 8 )
    {
      static constexpr Cell c = ctCell();
      static constexpr CX x{ { T( 0.21875 ), T( -0.28125 ), T( 0.34375 ) } };
      static constexpr Jac J = ctJac( c, x );
      Nodes X; for ( int l = 0; l < N; ++l ) for ( int i = 0; i < D; ++i ) X[static_cast< size_t >( l )][static_cast< size_t >( i )] = c.getData().data()[l * D + i];
      compare( "constant", point( x.x ), X, J );
    }
  }
  // close to the zeros of gradients: a single displaced node contributes exactly its own gradient, however small, times its displacement
  template< int l, size_t... d > static void own( T const * x, T * g, std::index_sequence< d... > )
  {
    T c[D]; for ( int k = 0; k < D; ++k ) c[k] = x[k];
    auto const gr = I::template gradient< digitOf( S{}, l, static_cast< int >( d ) )... >( c );
    for ( int k = 0; k < D; ++k ) g[k] = gr( k );
  }
  template< size_t... l > static void ownAll( T const * x, T ( *g )[D], std::index_sequence< l... > ) { ( own< static_cast< int >( l ) >( x, g[l], DSeq ), ... ); }
  static void near()
  {
    constexpr bool F = sizeof( T ) == 4;
    T const deltas[] = { T( F ? 1.0e-3 : 2.0e-5 ), T( F ? 3.0e-5 : 1.0e-10 ) };
    T x[D], g[N][D];
    for ( int d = 0; d < D; ++d )
    {
      auto const & nodes = tensor().nodes[static_cast< size_t >( d )];
      int const k = mc::choose( 4, "closeness" );
      x[d] = k == 2 ? T( 0.3125 ) : k == 3 ? deltas[1] : static_cast< T >( k ? nodes.back() : nodes[nodes.size() / 2] ) - deltas[0] * T( k ? 1 : -1 );
    }
    ownAll( x, g, std::make_index_sequence< N >{} );
    T const big[] = { 1, T( -1.0e6 ), T( F ? 1.0e9 : 1.0e12 ) };
    T const scale = big[mc::choose( 3, "scale" )];
    Q const tol = F ? 1e-3 : 1e-6;
    uint64_t h = mc::hashString( who() + "near" ); for ( T y : x ) h = mc::mix( h, mc::hashDouble( static_cast< double >( y ) ) );
    for ( int l = 0; l < N; ++l )
    {
      int const i = l % D;
      Nodes X; for ( auto & n : X ) n.fill( 0 );
      X[static_cast< size_t >( l )][static_cast< size_t >( i )] = scale;
      Cell c; put( c, X );
      Jac J; dirty( J, 1 );
      u::jacobian( c, x, J );
      mc::step(); mc::state( mc::mix( h, static_cast< uint64_t >( l ) + ( scale > 0 ? 1000 : 0 ) + ( scale > 1 ? 2000 : 0 ) ) );
      for ( int a = 0; a < D; ++a )
        for ( int b = 0; b < D; ++b )
        {
          Q const w = a == i ? Q( g[l][b] ) * scale : Q( 0 );
          mc::check( ref::absq( J( a, b ) - w ) <= tol * ref::absq( w ) + ( a == i ? Q( std::numeric_limits< T >::epsilon() ) * 256 * ref::absq( scale ) : Q( 0 ) ), "small contribution", [&]{ mc::Str m; m << who() << " at"; for ( int d = 0; d < D; ++d ) m << " " << x[d]; m << ", only node " << l << " is not at the origin, with coordinate " << i << " = " << scale << ": J(" << a << "," << b << ") is " << qs( J( a, b ) ) << ", not " << qs( w ); return std::string( m ); } );
        }
    }
  }
  static void run()
  {
    switch ( mc::choose( 7, "what" ) )
    {
      case 0:
      {
        Point const & p = pickPoint();
        Nodes X; for ( auto & n : X ) n.fill( 0 );
        T const mag[] = { T( 3.5 ), T( sizeof( T ) == 4 ? -1.0e-20 : -1.0e-160 ) };
        X[static_cast< size_t >( mc::choose( N, "node" ) )][static_cast< size_t >( mc::choose( D, "direction" ) )] = mag[mc::choose( 2, "magnitude" )];
        Cell c; put( c, X );
        at( c, X, p, 0, 1 );
      } break;
      case 1:
      {
        Point const & p = pickPoint();
        Nodes const X = base( mc::choose( 4, "cell" ) );
        Cell c; put( c, X );
        int const k = mc::choose( 5, "form" );
        at( c, X, p, k, k == 3 ? 0 : mc::choose( 4, "output" ) );
      } break;
      case 2:
      {
        Nodes const X = base( mc::choose( 4, "cell" ) );
        Cell c; put( c, X );
        switch ( mc::choose( 5, "rule" ) )
        {
          case 0: quadRule< shiva::QuadratureGaussLegendre, 2 >( c, X, "Gauss-Legendre" ); break;
          case 1: quadRule< shiva::QuadratureGaussLegendre, 3 >( c, X, "Gauss-Legendre" ); break;
          case 2: quadRule< shiva::QuadratureGaussLobatto, 2 >( c, X, "Gauss-Lobatto" ); break;
          case 3: quadRule< shiva::QuadratureGaussLobatto, 3 >( c, X, "Gauss-Lobatto" ); break;
          default:
            if constexpr ( D == 2 ) quadRule< shiva::QuadratureGaussLegendre, 4 >( c, X, "Gauss-Legendre" );
            else quadAt< shiva::QuadratureGaussLegendre< T, 4 >, 4, 27 >( c, X, "Gauss-Legendre4" );
        }
      } break;
      case 3: histories(); break;
      case 4: setData(); break;
      case 5: near(); break;
      default: constant(); mc::check( !Cell::jacobianIsConstInCell() && Cell::numDims == D && Cell::numVertices == ( 1 << D ), "constants", [&]{ return who(); } ); break;
    }
  }
};
template< typename T, typename... B > static void one( mc::Cases & c ) { using P = El< T, B... >; c.emplace_back( P::who(), []{ P::run(); } ); }

static void body()
{
  static mc::Cases c;
  if ( c.empty() )
  {
    using T = double; using F = float;
#if PART == 0
    one< T, L< T, 1 >, L< T, 1 > >( c ); one< T, L< T, 1 >, L< T, 2 > >( c ); one< T, L< T, 3 >, EQ< T, 1 > >( c ); one< T, EQ< T, 2 >, G< T, 2 > >( c ); one< F, L< F, 2 >, L< F, 1 > >( c );
#elif PART == 1
    one< T, L< T, 1 >, L< T, 1 >, L< T, 1 > >( c );
#elif PART == 2
    one< T, L< T, 1 >, EQ< T, 2 >, L< T, 1 > >( c );
#elif PART == 3
    one< T, L< T, 2 >, L< T, 2 >, L< T, 2 > >( c );
#elif PART == 4
    one< T, L< T, 1 >, L< T, 2 >, L< T, 3 > >( c );
#elif PART == 6
    one< T, L< T, 4 >, L< T, 5 > >( c ); one< T, L< T, 8 >, EQ< T, 1 > >( c ); one< T, L< T, 1 >, L< T, 6 > >( c );
    one< T, L< T, 5 >, L< T, 1 >, L< T, 1 > >( c );
#elif PART == 7
    one< T, L< T, 1 >, L< T, 8 >, L< T, 1 > >( c ); one< T, G< T, 1 >, EQ< T, 1 >, L< T, 4 > >( c );
#else
    one< F, L< F, 1 >, EQ< F, 1 >, L< F, 1 > >( c );
    one< T, L< T, 2 >, L< T, 1 >, L< T, 1 > >( c );
#endif
  }
  mc::pickCase( c );
}
MC_MAIN( body )
