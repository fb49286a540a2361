// C02: all operation histories over owning arrays, views and slices, against a model of plain buffers.
#include "mc/mc.hpp"
#include "harness/shapes.hpp"
#include "shiva/common/CArray.hpp"
#include <array>
#include <complex>
#include <cstring>
#include <limits>
#include <memory>
#include <type_traits>
#include <string>
#include <utility>

#ifndef PART
#define PART 0
#endif

template< int... D > static std::string shapeName( Sh< D... > ) { std::string s; ( ( s += ( s.empty() ? "" : "x" ) + std::to_string( D ) ), ... ); return s; }

// element e of an object of shape S, by run-time indices / compile-time indices / chained brackets
template< typename A, int... D, size_t... K >
static decltype(auto) rt( A & a, Sh< D... >, int e, std::index_sequence< K... > ) { return a( digitOf( Sh< D... >{}, e, static_cast< int >( K ) )... ); }
template< typename A, typename S > static decltype(auto) rt( A & a, S s, int e ) { return rt( a, s, e, std::make_index_sequence< rankOf( S{} ) >{} ); }

template< typename T, typename A, typename S, int L, size_t... K >
static T * ctOne( A & a, std::index_sequence< K... > ) { return const_cast< T * >( &a.template operator()< digitOf( S{}, L, static_cast< int >( K ) )... >() ); }
template< typename T, typename A, typename S, int... L >
static T * ctPtr( A & a, int e, std::integer_sequence< int, L... > )
{
  using F = T * ( * )( A & );
  static constexpr F t[] = { +[]( A & x ) { return ctOne< T, A, S, L >( x, std::make_index_sequence< rankOf( S{} ) >{} ); }... };
  return t[e]( a );
}
template< typename T, typename S, typename A > static T * ct( A & a, int e ) { return ctPtr< T, A, S >( a, e, std::make_integer_sequence< int, prod( S{} ) >{} ); }

template< typename A, typename S, int I = 0 >
static decltype(auto) br( A && a, S s, int e )
{
  if constexpr ( I + 1 == rankOf( S{} ) ) return a[digitOf( s, e, I )];
  else return br< decltype( a[0] ), S, I + 1 >( a[digitOf( s, e, I )], s, e );
}

// the k-th value: one that a narrower or differently signed type would not hold
template< typename T > static constexpr T val( int k )
{
  if constexpr ( std::is_same_v< T, double > ) return ( k % 2 ? 1 : -1 ) * ( k + 0.1 );
  else if constexpr ( std::is_floating_point_v< T > ) return static_cast< T >( ( k % 2 ? 1 : -1 ) * ( k + 0.25 ) );
  else if constexpr ( std::is_unsigned_v< T > ) return static_cast< T >( std::numeric_limits< T >::max() - static_cast< T >( k ) );
  else return static_cast< T >( k % 2 ? std::numeric_limits< T >::max() - static_cast< T >( k ) : std::numeric_limits< T >::min() + static_cast< T >( k ) );
}

template< typename T, typename S > struct World;
template< typename T, int... D >
struct World< T, Sh< D... > >
{
  using S = Sh< D... >;
  static constexpr int N = prod( S{} );
  static constexpr int R = sizeof...( D );
  static constexpr int D0 = dimAt( S{}, 0 );
  static constexpr int SUB = N / D0;
  static constexpr int PAD = 3;
  using Own = shiva::CArrayNd< T, D... >;
  using View = shiva::CArrayViewNd< T, D... >;
  using CView = shiva::CArrayViewNd< T const, D... >;

  struct Raw { T pre[PAD]; T data[N]; T post[PAD]; };

  struct Boxed { T pre[PAD]; Own a; T post[PAD]; };
  Boxed bA{}, bB{};
  Own & A = bA.a;
  Own & B = bB.a;
  Raw raw{};
  View V{ raw.data };                       // from an array
  View V2{ &raw.data[0] };                  // from a pointer
  View V3{ V };                             // copy of a view
  View W{ &A.data()[0] };                   // view of an owning array's storage
  View W2{ A.data() };                      // same, from the array itself
  CView CV{ &raw.data[0] };
  CView CW{ A.data() };
  View const VC{ raw.data };                // const view object
  // model
  std::array< T, N > mA{}, mB{}, mR{};
  int serial = 0;

  World()
  {
    for ( Boxed * b : { &bA, &bB } ) for ( int i = 0; i < PAD; ++i ) { b->pre[i] = T( -7 ); b->post[i] = T( -9 ); }
    for ( int i = 0; i < PAD; ++i ) { raw.pre[i] = T( -7 ); raw.post[i] = T( -9 ); }
    for ( int i = 0; i < N; ++i ) { raw.data[i] = T( 50 + i ); mR[i] = T( 50 + i ); }
  }

  // a writer stores v at element e through one kind of handle and form
  struct Writer { char const * name; int store; void ( *set )( World &, int, T ); };
  struct Reader { char const * name; int store; T ( *get )( World &, int ); };
  static std::vector< Writer > const & writers()
  {
    static std::vector< Writer > const w = [] {
      std::vector< Writer > r;
      r.push_back( { "A(i)", 0, []( World & w, int e, T v ) { rt( w.A, S{}, e ) = v; } } );
      r.push_back( { "A[i]", 0, []( World & w, int e, T v ) { br( w.A, S{}, e ) = v; } } );
      r.push_back( { "A<i>", 0, []( World & w, int e, T v ) { *ct< T, S >( w.A, e ) = v; } } );
      r.push_back( { "A.data", 0, []( World & w, int e, T v ) { w.A.data()[e] = v; } } );
      r.push_back( { "W(i)", 0, []( World & w, int e, T v ) { rt( w.W, S{}, e ) = v; } } );
      r.push_back( { "W2[i]", 0, []( World & w, int e, T v ) { br( w.W2, S{}, e ) = v; } } );
      r.push_back( { "B(i)", 1, []( World & w, int e, T v ) { rt( w.B, S{}, e ) = v; } } );
      r.push_back( { "V(i)", 2, []( World & w, int e, T v ) { rt( w.V, S{}, e ) = v; } } );
      r.push_back( { "V[i]", 2, []( World & w, int e, T v ) { br( w.V, S{}, e ) = v; } } );
      r.push_back( { "V2<i>", 2, []( World & w, int e, T v ) { *ct< T, S >( w.V2, e ) = v; } } );
      r.push_back( { "V3(i)", 2, []( World & w, int e, T v ) { rt( w.V3, S{}, e ) = v; } } );
      r.push_back( { "raw", 2, []( World & w, int e, T v ) { w.raw.data[e] = v; } } );
      if constexpr ( R >= 2 )
      {
        using Sub = typename SubShape< S >::type;
        r.push_back( { "slice(A)(i)", 0, []( World & w, int e, T v ) { auto s = w.A[e / SUB]; rt( s, Sub{}, e % SUB ) = v; } } );
        r.push_back( { "slice(A)<i>", 0, []( World & w, int e, T v ) { auto s = w.A[e / SUB]; *ct< T, Sub >( s, e % SUB ) = v; } } );
        r.push_back( { "copy of slice(A)", 0, []( World & w, int e, T v ) { auto s = w.A[e / SUB]; auto s2 = s; br( s2, Sub{}, e % SUB ) = v; } } );
        r.push_back( { "slice(V)(i)", 2, []( World & w, int e, T v ) { auto s = w.V[e / SUB]; rt( s, Sub{}, e % SUB ) = v; } } );
        r.push_back( { "slice(W)[i]", 0, []( World & w, int e, T v ) { auto s = w.W[e / SUB]; br( s, Sub{}, e % SUB ) = v; } } );
      }
      return r;
    }();
    return w;
  }
  template< typename > struct SubShape;
  template< int F, int... Rst > struct SubShape< Sh< F, Rst... > > { using type = Sh< Rst... >; };

  static std::vector< Reader > const & readers()
  {
    static std::vector< Reader > const w = [] {
      std::vector< Reader > r;
      r.push_back( { "A(i)", 0, []( World & w, int e ) -> T { return rt( w.A, S{}, e ); } } );
      r.push_back( { "const A(i)", 0, []( World & w, int e ) -> T { return rt( std::as_const( w.A ), S{}, e ); } } );
      r.push_back( { "const A[i]", 0, []( World & w, int e ) -> T { return br( std::as_const( w.A ), S{}, e ); } } );
      r.push_back( { "const A<i>", 0, []( World & w, int e ) -> T { return *ct< T, S >( std::as_const( w.A ), e ); } } );
      r.push_back( { "W[i]", 0, []( World & w, int e ) -> T { return br( w.W, S{}, e ); } } );
      r.push_back( { "CW(i)", 0, []( World & w, int e ) -> T { return rt( w.CW, S{}, e ); } } );
      r.push_back( { "CW[i]", 0, []( World & w, int e ) -> T { return br( w.CW, S{}, e ); } } );
      r.push_back( { "B[i]", 1, []( World & w, int e ) -> T { return br( w.B, S{}, e ); } } );
      r.push_back( { "const B(i)", 1, []( World & w, int e ) -> T { return rt( std::as_const( w.B ), S{}, e ); } } );
      r.push_back( { "V(i)", 2, []( World & w, int e ) -> T { return rt( w.V, S{}, e ); } } );
      r.push_back( { "V3[i]", 2, []( World & w, int e ) -> T { return br( w.V3, S{}, e ); } } );
      r.push_back( { "CV(i)", 2, []( World & w, int e ) -> T { return rt( w.CV, S{}, e ); } } );
      r.push_back( { "CV<i>", 2, []( World & w, int e ) -> T { return *ct< T const, S >( w.CV, e ); } } );
      r.push_back( { "const V(i)", 2, []( World & w, int e ) -> T { return rt( w.VC, S{}, e ); } } );
      r.push_back( { "const V[i]", 2, []( World & w, int e ) -> T { return br( w.VC, S{}, e ); } } );
      r.push_back( { "raw", 2, []( World & w, int e ) -> T { return w.raw.data[e]; } } );
      if constexpr ( R >= 2 )
      {
        using Sub = typename SubShape< S >::type;
        r.push_back( { "slice(const A)(i)", 0, []( World & w, int e ) -> T { auto s = std::as_const( w.A )[e / SUB]; return rt( s, Sub{}, e % SUB ); } } );
        r.push_back( { "slice(CV)(i)", 2, []( World & w, int e ) -> T { auto const s = w.CV[e / SUB]; return rt( s, Sub{}, e % SUB ); } } );
        r.push_back( { "slice(const V)(i)", 2, []( World & w, int e ) -> T { auto const s = w.VC[e / SUB]; return rt( s, Sub{}, e % SUB ); } } );
      }
      return r;
    }();
    return w;
  }

  template< int... I > static Own listOf( T base, std::integer_sequence< int, I... > ) { return Own{ ( I ? val< T >( 500 + I ) : base )... }; }
  template< int... K > static Own construct( int k, T base, std::integer_sequence< int, K... > )
  {
    using F = Own ( * )( T );
    static constexpr F t[] = { +[]( T b ) { return listOf( b, std::make_integer_sequence< int, K >{} ); }... };
    return t[k]( base );
  }
  static Own passThrough( Own a ) { return a; }

  void verify( std::string const & last )
  {
    for ( auto const & r : readers() )
    {
      T const * m = r.store == 0 ? mA.data() : r.store == 1 ? mB.data() : mR.data();
      for ( int e = 0; e < N; ++e )
      {
        T const got = r.get( *this, e );
        mc::check( got == m[e], "value", [&]{ return std::string( mc::Str() << shapeName( S{} ) << " after " << last << ": " << r.name << " element " << e << " reads " << got << ", not " << m[e] ); } );
      }
    }
    for ( int i = 0; i < PAD; ++i )
      mc::check( raw.pre[i] == T( -7 ) && raw.post[i] == T( -9 ) && bA.pre[i] == T( -7 ) && bA.post[i] == T( -9 ) && bB.pre[i] == T( -7 ) && bB.post[i] == T( -9 ), "canary",
                 [&]{ return "an element outside the storage changed after " + last; } );
    uint64_t h = mc::hashString( shapeName( S{} ) );
    for ( int e = 0; e < N; ++e ) h = mc::mix( mc::mix( mc::mix( h, static_cast< uint64_t >( mA[e] ) ), static_cast< uint64_t >( mB[e] ) ), static_cast< uint64_t >( mR[e] ) );
    mc::state( h );
    mc::observe( h );
  }

  void run( int depth )
  {
    verify( "construction" );
    std::string hist;
    // slices taken before the history and used during it
    if constexpr ( R >= 2 )
    {
      using Sub = typename SubShape< S >::type;
      auto sA = A[D0 - 1];
      auto sV = V[D0 - 1];
      auto const csA = std::as_const( A )[D0 - 1];
      for ( int d = 0; d < depth; ++d )
      {
        hist += stepOnce( true, [&]( int which, int e, T v ) { if ( which == 0 ) rt( sA, Sub{}, e ) = v; else br( sV, Sub{}, e ) = v; } ) + "; ";
        verify( hist );
        for ( int e = 0; e < SUB; ++e )
        {
          mc::check( rt( sA, Sub{}, e ) == mA[( D0 - 1 ) * SUB + e] && br( csA, Sub{}, e ) == mA[( D0 - 1 ) * SUB + e], "old-slice", [&]{ return "a slice of A taken earlier is stale after " + hist; } );
          mc::check( rt( sV, Sub{}, e ) == mR[( D0 - 1 ) * SUB + e], "old-slice", [&]{ return "a slice of a view taken earlier is stale after " + hist; } );
        }
      }
    }
    else
      for ( int d = 0; d < depth; ++d ) { hist += stepOnce( false, []( int, int, T ) {} ) + "; "; verify( hist ); }
    mc::note( hist );
  }

  template< typename OLD > std::string stepOnce( bool hasOld, OLD && old )
  {
    int const nw = static_cast< int >( writers().size() );
    static constexpr int NOPS = 7;
    int const c = mc::choose( nw + NOPS + ( hasOld ? 2 : 0 ), "op" );
    T const v = val< T >( 60 + 7 * ++serial );
    mc::step();
    if ( c < nw )
    {
      Writer const & w = writers()[static_cast< size_t >( c )];
      int const e = mc::choose( N, "element" );
      w.set( *this, e, v );
      ( w.store == 0 ? mA : w.store == 1 ? mB : mR )[e] = v;
      return std::string( w.name ) + "@" + std::to_string( e );
    }
    switch ( c - nw )
    {
      case 0: A = B; mA = mB; return "A=B";
      case 1: B = A; mB = mA; return "B=A";
      case 2: { Own c2( A ); rt( c2, S{}, 0 ) = v; B = std::move( c2 ); mB = mA; mB[0] = v; return "C(A),C[0]=v,B=move(C)"; }
      case 3: std::swap( A, B ); std::swap( mA, mB ); return "swap";
      case 4: B = passThrough( A ); mB = mA; return "B=f(A)";
      case 5: { Own const & self = A; A = self; return "A=A"; }
      case 6:
      {
        int const k = mc::choose( N + 1, "listed" );
        A = construct( k, v, std::make_integer_sequence< int, N + 1 >{} );
        for ( int e = 0; e < N; ++e ) mA[e] = e >= k ? T( 0 ) : e ? val< T >( 500 + e ) : v;
        return "A={" + std::to_string( k ) + " values}";
      }
      default:
      {
        int const which = c - nw - 7, e = mc::choose( SUB, "element" );
        old( which, e, v );
        ( which == 0 ? mA : mR )[( D0 - 1 ) * SUB + e] = v;
        return which == 0 ? "earlier slice of A@" + std::to_string( e ) : "earlier slice of V@" + std::to_string( e );
      }
    }
  }
};

template< typename T, typename S > static void add( mc::Cases & c, int depth )
{
  c.emplace_back( std::string( mc::typeName< T >() ) + " " + shapeName( S{} ), [=]{ auto w = std::make_unique< World< T, S > >(); w->run( depth ); } );
}

template< typename Own, typename COwn, typename T, int... I > static void make( void * p, int h, std::integer_sequence< int, I... > )
{
  if ( h == 0 ) new ( p ) Own{ val< T >( I + 1 )... };
  else if ( h == 1 ) new ( p ) Own( val< T >( I + 1 )... );
  else new ( p ) COwn{ val< T >( I + 1 )... };
}
// construction into dirty memory: elements that are not listed are zero; constants hold what they were given
template< typename T, int... D, int... K > static void dirty( Sh< D... > s, std::integer_sequence< int, K... > )
{
  using Own = shiva::CArrayNd< T, D... >;
  using COwn = shiva::CArrayNd< T const, D... >;
  constexpr int N = prod( Sh< D... >{} );
  int const k = mc::choose( N + 1, "listed" );
  int const how = mc::choose( 3, "how" );
  alignas( 32 ) unsigned char mem[sizeof( Own ) + 16];
  std::memset( mem, 0xab, sizeof mem );
  using F = void ( * )( void *, int );
  static constexpr F t[] = { +[]( void * p, int h ) { make< Own, COwn, T >( p, h, std::make_integer_sequence< int, K >{} ); }... };
  t[k]( mem, how );
  T v[N];
  std::memcpy( v, mem, sizeof v );
  mc::step();
  mc::state( mc::mix( mc::hashString( shapeName( s ) ), static_cast< uint64_t >( k * 3 + how ) ) );
  for ( int e = 0; e < N; ++e )
    mc::check( v[e] == ( e < k ? val< T >( e + 1 ) : T( 0 ) ), "construction", [&]{ return std::string( mc::Str() << shapeName( s ) << " from " << k << " values: element " << e << " is " << v[e] ); } );
}
template< typename T, typename S > static void addDirty( mc::Cases & c )
{
  c.emplace_back( "construct " + shapeName( S{} ), []{ dirty< T >( S{}, std::make_integer_sequence< int, prod( S{} ) + 1 >{} ); } );
}

// scalars
template< typename T > static void scalars()
{
  T x[1] = { T( 3 ) };
  shiva::Scalar< T > s{ T( 5 ) };
  shiva::ScalarView< T > v{ x };
  shiva::ScalarView< T const > cv{ x };
  T ms = T( 5 ), mx = T( 3 );
  std::string hist;
  for ( int d = 0; d < 3; ++d )
  {
    T const val = T( 7 + d );
    switch ( mc::choose( 6, "op" ) )
    {
      case 0: s( 0 ) = val; ms = val; break;
      case 1: v( 0 ) = val; mx = val; break;
      case 2: s.data()[0] = val; ms = val; break;
      case 3: x[0] = val; mx = val; break;
      case 4: { shiva::ScalarView< T > v2( v ); v2[0] = val; mx = val; } break;
      case 5: { shiva::Scalar< T > s2( s ); s2[0] = val; } break;
    }
    mc::step();
    mc::check( s( 0 ) == ms && s[0] == ms && v( 0 ) == mx && v[0] == mx && cv( 0 ) == mx && x[0] == mx && s.size() == 1 && v.rank() == 1, "scalar", [&]{ return std::string( "scalar or scalar view out of step" ); } );
    mc::state( mc::mix( static_cast< uint64_t >( ms ), static_cast< uint64_t >( mx ) ) );
  }
}

// elements that are objects of their own: text, complex numbers, structures, flags, enumerations, arrays
struct Pair { int a; double b; bool operator==( Pair const & o ) const { return a == o.a && b == o.b; } };
enum class Kind : unsigned char { none, one, two };
using Inner = shiva::CArrayNd< int, 2 >;
struct Counted
{
  static inline long alive = 0;
  int v = 0;
  Counted() { ++alive; } Counted( int x ): v( x ) { ++alive; } Counted( Counted const & o ): v( o.v ) { ++alive; } Counted & operator=( Counted const & o ) = default; ~Counted() { --alive; v = -1; }
  bool operator==( Counted const & o ) const { return v == o.v; }
};
template< typename T > static bool sameAs( T const & a, T const & b ) { if constexpr ( std::is_same_v< T, Inner > ) return a( 0 ) == b( 0 ) && a( 1 ) == b( 1 ); else if constexpr ( std::is_floating_point_v< T > ) return std::memcmp( &a, &b, sizeof( T ) ) == 0; else return a == b; }
template< typename T > static T object( int k )
{
  if constexpr ( std::is_same_v< T, std::string > ) return std::string( static_cast< size_t >( k * 9 % 40 + 1 ), static_cast< char >( 'a' + k % 26 ) );
  else if constexpr ( std::is_same_v< T, std::complex< double > > ) return { k + 0.5, -3. * k };
  else if constexpr ( std::is_same_v< T, Pair > ) return { k, k / 3. };
  else if constexpr ( std::is_same_v< T, bool > ) return k % 2 == 0;
  else if constexpr ( std::is_same_v< T, Kind > ) return static_cast< Kind >( k % 3 );
  else if constexpr ( std::is_same_v< T, Inner > ) return Inner( k, -k );
  else if constexpr ( std::is_floating_point_v< T > )
  {
    // signed zeros, infinities, not-a-number, the smallest and the largest: kept bit for bit
    using L = std::numeric_limits< T >;
    T const v[] = { -T( 0 ), L::infinity(), -L::infinity(), L::quiet_NaN(), L::denorm_min(), L::max(), T( 0 ), -L::min(), L::lowest(), T( 1 ) / 3 };
    return v[k % 10];
  }
  else if constexpr ( std::is_pointer_v< T > ) { static char b[4096]; return b + k; }
  else return T( k );
}
template< typename T > static void objects()
{
  long const aliveBefore = Counted::alive;
  {
    using Own = shiva::CArrayNd< T, 2, 3 >;
    int const given = mc::choose( 7, "listed" ), depth = mc::thorough() ? 3 : 2;
    Own A = given == 0 ? Own{} : given == 1 ? Own{ object< T >( 1 ) } : given == 2 ? Own{ object< T >( 1 ), object< T >( 2 ) } : given == 3 ? Own{ object< T >( 1 ), object< T >( 2 ), object< T >( 3 ) }
            : given == 4 ? Own{ object< T >( 1 ), object< T >( 2 ), object< T >( 3 ), object< T >( 4 ) } : given == 5 ? Own{ object< T >( 1 ), object< T >( 2 ), object< T >( 3 ), object< T >( 4 ), object< T >( 5 ) }
            : Own( object< T >( 1 ), object< T >( 2 ), object< T >( 3 ), object< T >( 4 ), object< T >( 5 ), object< T >( 6 ) );
    Own B{};
    T buf[8] = { object< T >( 20 ), object< T >( 21 ), object< T >( 22 ), object< T >( 23 ), object< T >( 24 ), object< T >( 25 ), object< T >( 26 ), object< T >( 27 ) };
    T ( & mid )[6] = reinterpret_cast< T ( & )[6] >( buf[1] );
    shiva::CArrayViewNd< T, 2, 3 > V( mid );
    shiva::CArrayViewNd< T const, 2, 3 > const CV( mid );
    std::array< T, 6 > mA{}, mB{}; std::array< T, 8 > mV{};
    for ( int k = 0; k < given; ++k ) mA[static_cast< size_t >( k )] = object< T >( k + 1 );
    for ( int k = 0; k < 8; ++k ) mV[static_cast< size_t >( k )] = object< T >( 20 + k );
    auto slice = A[1];
    std::string hist = std::string( mc::typeName< T >() ) + ", " + std::to_string( given ) + " listed";
    auto const verify = [&]
    {
      Own const & cA = A;
      mc::step();
      bool ok = true;
      for ( int i = 0; i < 2; ++i )
        for ( int j = 0; j < 3; ++j )
        {
          size_t const e = static_cast< size_t >( 3 * i + j );
          ok = ok && sameAs< T >( A( i, j ), mA[e] ) && sameAs< T >( cA( i, j ), mA[e] ) && sameAs< T >( A[i][j], mA[e] ) && sameAs< T >( cA[i][j], mA[e] ) && sameAs< T >( A.data()[e], mA[e] ) && sameAs< T >( B( i, j ), mB[e] ) && sameAs< T >( V( i, j ), mV[e + 1] ) && sameAs< T >( CV[i][j], mV[e + 1] );
          if ( i == 1 ) ok = ok && &slice( j ) == &A( 1, j );
        }
      for ( size_t k = 0; k < 8; ++k ) ok = ok && sameAs< T >( buf[k], mV[k] );
      mc::check( ok, "value", [&]{ return hist; } );
      mc::state( mc::hashString( hist ) );
    };
    verify();
    for ( int d = 0; d < depth; ++d )
    {
      int const op = mc::choose( 12, "op" );
      int const e = op < 5 ? mc::choose( 6, "element" ) : 0, i = e / 3, j = e % 3;
      T const v = object< T >( 30 + 7 * d + e );
      size_t const u = static_cast< size_t >( e );
      switch ( op )
      {
        case 0: A( i, j ) = v; mA[u] = v; break;
        case 1: A[i][j] = v; mA[u] = v; break;
        case 2: V( i, j ) = v; mV[u + 1] = v; break;
        case 3: V[i][j] = v; mV[u + 1] = v; break;
        case 4: slice[j] = v; mA[static_cast< size_t >( 3 + j )] = v; break;
        case 5: B = A; mB = mA; break;
        case 6: A = B; mA = mB; break;
        case 7: { Own c( A ); c( 0, 0 ) = v; B = std::move( c ); mB = mA; mB[0] = v; break; }
        case 8: { Own c = std::move( B ); A = c; mA = mB; B = c; break; }
        case 9: std::swap( A, B ); std::swap( mA, mB ); break;
        case 10: { Own * p = new Own( A ); ( *p )( 1, 2 ) = v; B = *p; delete p; mB = mA; mB[5] = v; break; }
        default: A = Own{ v }; mA = {}; mA[0] = v;
      }
      hist += ", operation " + std::to_string( op ) + " on " + std::to_string( e );
      verify();
    }
  }
  mc::check( Counted::alive == aliveBefore, "lifetime", [&]{ return std::to_string( Counted::alive - aliveBefore ) + " elements too many are alive"; } );
}

// many elements: whole-array operations and writes at every index, all elements compared after each of them
template< typename T, int... D > static void large()
{
  using Own = shiva::CArrayNd< T, D... >;
  constexpr int N = ( D * ... );
  using Ptr = std::unique_ptr< Own >;
  Ptr A = std::make_unique< Own >(), B = std::make_unique< Own >();
  std::vector< T > buf( N ), mA( N ), mB( N ), mV( N );
  for ( int e = 0; e < N; ++e ) { buf[static_cast< size_t >( e )] = mV[static_cast< size_t >( e )] = T( 3 * e + 1 ); A->data()[e] = mA[static_cast< size_t >( e )] = T( 5 * e + 2 ); B->data()[e] = mB[static_cast< size_t >( e )] = T( -e ); }
  shiva::CArrayViewNd< T, D... > V( buf.data() );
  shiva::CArrayViewNd< T, D... > W( A->data() );
  int const depth = mc::thorough() ? 3 : 2;
  std::string hist = std::string( mc::typeName< T >() ) + ", " + std::to_string( N ) + " elements";
  using S = Sh< D... >;
  for ( int d = 0; d < depth; ++d )
  {
    int const op = mc::choose( 10, "op" );
    hist += ", operation " + std::to_string( op );
    switch ( op )
    {
      case 0: *B = *A; mB = mA; break;
      case 1: *A = *B; mA = mB; break;
      case 2: { Own * p = new Own( *A ); *B = *p; delete p; mB = mA; break; }
      case 3: { Own * p = new Own( std::move( *B ) ); *A = std::move( *p ); delete p; mA = mB; *B = *A; break; }
      case 4: std::swap( *A, *B ); std::swap( mA, mB ); break;
      case 5: *A = Own{ T( 9 ), T( 8 ), T( 7 ) }; std::fill( mA.begin(), mA.end(), T( 0 ) ); mA[0] = T( 9 ); mA[1] = T( 8 ); mA[2] = T( 7 ); break;
      case 6: *B = Own{}; std::fill( mB.begin(), mB.end(), T( 0 ) ); break;
      case 7: { int const e = N - 1 - d; rt( *A, S{}, e ) = T( 77 + d ); mA[static_cast< size_t >( e )] = T( 77 + d ); break; }
      case 8: { int const e = N / 2 + d; br( W, S{}, e ) = T( 55 + d ); mA[static_cast< size_t >( e )] = T( 55 + d ); break; }
      default: for ( int e = 0; e < N; ++e ) { rt( V, S{}, e ) = T( e + d ); mV[static_cast< size_t >( e )] = T( e + d ); }
    }
    mc::step();
    Own const & cA = *A;
    for ( int e = 0; e < N; ++e )
    {
      size_t const u = static_cast< size_t >( e );
      mc::check( rt( *A, S{}, e ) == mA[u] && br( cA, S{}, e ) == mA[u] && rt( W, S{}, e ) == mA[u] && &rt( W, S{}, e ) == &rt( *A, S{}, e ) && rt( *B, S{}, e ) == mB[u] && br( V, S{}, e ) == mV[u] && buf[u] == mV[u], "value", [&]{ return hist + ": element " + std::to_string( e ); } );
    }
    mc::state( mc::hashString( hist ) );
  }
}

static void body()
{
  static mc::Cases c;
  if ( c.empty() )
  {
    bool const t = mc::thorough();
#if PART == 0
    add< int, Sh< 2, 2 > >( c, t ? 4 : 3 );
    add< int, Sh< 3 > >( c, t ? 4 : 3 );
    c.emplace_back( "scalar double", scalars< double > );
    c.emplace_back( "scalar int", scalars< int > );
    c.emplace_back( "objects", objects< std::string > ); c.emplace_back( "objects", objects< std::complex< double > > ); c.emplace_back( "objects", objects< Pair > ); c.emplace_back( "objects", objects< bool > );
    c.emplace_back( "objects", objects< Kind > ); c.emplace_back( "objects", objects< Inner > ); c.emplace_back( "objects", objects< Counted > ); c.emplace_back( "objects", objects< char * > );
    c.emplace_back( "objects", objects< double > ); c.emplace_back( "objects", objects< float > );
    c.emplace_back( "large", large< int, 300 > ); c.emplace_back( "large", large< double, 17, 19 > ); c.emplace_back( "large", large< float, 2, 3, 5, 11 > ); c.emplace_back( "large", large< short, 1030 > ); c.emplace_back( "large", large< long, 2, 4099 > );
    addDirty< double, Sh< 3 > >( c ); addDirty< float, Sh< 2, 3 > >( c ); addDirty< int, Sh< 2, 2, 2 > >( c ); addDirty< double, Sh< 1 > >( c ); addDirty< long, Sh< 4 > >( c ); addDirty< unsigned long, Sh< 2, 2 > >( c ); addDirty< unsigned char, Sh< 3 > >( c ); addDirty< unsigned, Sh< 2, 1, 2 > >( c ); addDirty< long double, Sh< 2 > >( c ); addDirty< int, Sh< 3, 3 > >( c ); addDirty< short, Sh< 2, 3, 4 > >( c );
#elif PART == 1
    add< double, Sh< 2, 3 > >( c, t ? 3 : 2 );
    add< short, Sh< 3, 2 > >( c, t ? 3 : 2 );
    add< double, Sh< 1, 3 > >( c, 2 );
    add< long, Sh< 2, 1 > >( c, t ? 4 : 3 );
    add< unsigned char, Sh< 3 > >( c, 2 );
    add< unsigned long, Sh< 2, 2 > >( c, 2 );
#elif PART == 2
    add< int, Sh< 2, 2, 2 > >( c, t ? 3 : 2 );
    add< double, Sh< 2, 1, 3 > >( c, 2 );
    add< float, Sh< 1, 1, 2 > >( c, 2 );
    add< float, Sh< 2, 3, 2 > >( c, 2 );
#else
    add< int, Sh< 2, 3, 1, 2 > >( c, 2 );
    add< double, Sh< 3, 2, 3 > >( c, 2 );
    add< double, Sh< 1 > >( c, 3 );
#endif
  }
  mc::pickCase( c );
}
MC_MAIN( body )
