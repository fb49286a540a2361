// C01: every access form of every array flavour reaches the element at the row-major offset.
#include "mc/mc.hpp"
#include "harness/shapes.hpp"
#include "shiva/common/CArray.hpp"
#include <string>
#include <vector>
#include <sys/mman.h>

#ifndef PART
#define PART 0
#endif

struct Big { double a; int b; char c; };

template< int... D > static std::string shapeName( Sh< D... > ) { std::string s; ( ( s += ( s.empty() ? "" : "x" ) + std::to_string( D ) ), ... ); return s; }

enum { OWN, OWN_CONSTOBJ, VIEW, VIEW_CONSTOBJ, VIEW_CONSTELEM, NFLAV };
static char const * const flavName[] = { "CArrayNd", "const CArrayNd", "CArrayViewNd", "const CArrayViewNd", "CArrayViewNd<const>" };

// ---- access forms: each returns the address reached -----------------------------------------------------------
template< typename IT, typename A, size_t... K >
static void const * callAs( A & a, int const * idx, std::index_sequence< K... > ) { return &a( static_cast< IT >( idx[K] )... ); }
template< typename A, size_t... K >
static void const * callMixed( A & a, int const * idx, std::index_sequence< K... > )
{
  return &a( [&]{ if constexpr ( K % 4 == 0 ) return static_cast< long >( idx[K] ); else if constexpr ( K % 4 == 1 ) return static_cast< unsigned short >( idx[K] ); else if constexpr ( K % 4 == 2 ) return idx[K]; else return static_cast< unsigned >( idx[K] ); }()... );
}
template< typename A, size_t... K >
static void const * callLvalues( A & a, int const * idx, std::index_sequence< K... > )
{
  int const i[] = { idx[K]... };
  return &a( i[K]... );
}
static constexpr int NIT = 11;
static char const * const itName[] = { "int", "unsigned", "short", "unsigned short", "long", "unsigned long", "long long", "unsigned char", "signed char", "mixed", "lvalue" };

template< typename A, int R >
static void const * call( A & a, int const * idx, int it )
{
  using S = std::make_index_sequence< R >;
  switch ( it )
  {
    case 0: return callAs< int >( a, idx, S{} );
    case 1: return callAs< unsigned >( a, idx, S{} );
    case 2: return callAs< short >( a, idx, S{} );
    case 3: return callAs< unsigned short >( a, idx, S{} );
    case 4: return callAs< long >( a, idx, S{} );
    case 5: return callAs< unsigned long >( a, idx, S{} );
    case 6: return callAs< long long >( a, idx, S{} );
    case 7: return callAs< unsigned char >( a, idx, S{} );
    case 8: return callAs< signed char >( a, idx, S{} );
    case 9: return callMixed( a, idx, S{} );
    default: return callLvalues( a, idx, S{} );
  }
}

// slice k times with [], then call with run-time indices (k < R) or finish with [] (k == R)
template< typename A, int R >
static void const * slice( A & a, int const * idx, int k, int it, bool constHandle )
{
  if ( k == 0 ) return call< A, R >( a, idx, it );
  auto const at = [&]( auto f ) -> decltype(auto)
  {
    int const i = idx[0];
    switch ( it )
    {
      case 1: return f( static_cast< unsigned >( i ) );
      case 2: return f( static_cast< short >( i ) );
      case 3: return f( static_cast< unsigned short >( i ) );
      case 4: return f( static_cast< long >( i ) );
      case 5: return f( static_cast< unsigned long >( i ) );
      case 6: return f( static_cast< long long >( i ) );
      case 7: return f( static_cast< unsigned char >( i ) );
      case 8: return f( static_cast< signed char >( i ) );
      default: return f( i );
    }
  };
  if constexpr ( R == 1 )
    return at( [&]( auto i ) -> void const * { return &a[i]; } );
  else
  {
    using S = decltype( a[0] );
    if ( constHandle ) { S const s = at( [&]( auto i ) { return a[i]; } ); return slice< S const, R - 1 >( s, idx + 1, k - 1, it, constHandle ); }
    else { S s = at( [&]( auto i ) { return a[i]; } ); return slice< S, R - 1 >( s, idx + 1, k - 1, it, constHandle ); }
  }
}

// compile-time indices, after k slices
template< typename A, typename S, int L, int K0, size_t... K >
static void const * ctCall( A & a, std::index_sequence< K... > ) { return &a.template operator()< digitOf( S{}, L, static_cast< int >( K ) + K0 )... >(); }

// indices that are constants as the compile-time loops deliver them, alone and among run-time ones
template< int V, int K > static auto icOr( int const i ) { if constexpr ( K % 2 == 0 ) return std::integral_constant< int, V >{}; else return i; }
template< typename A, typename S, int L, size_t... K >
static void const * icCall( A & a, std::index_sequence< K... > )
{
  void const * const p = &a( std::integral_constant< int, digitOf( S{}, L, static_cast< int >( K ) ) >{} ... );
  void const * const q = &a( icOr< digitOf( S{}, L, static_cast< int >( K ) ), static_cast< int >( K ) >( digitOf( S{}, L, static_cast< int >( K ) ) )... );
  void const * const r = &a( icOr< digitOf( S{}, L, static_cast< int >( K ) ), static_cast< int >( K ) + 1 >( digitOf( S{}, L, static_cast< int >( K ) ) )... );
  return p == q && q == r ? p : nullptr;
}

template< typename A, typename S, int L >
static void const * ctAt( A & a, int k )
{
  constexpr int R = rankOf( S{} );
  if constexpr ( prod( S{} ) <= 32 ) { if ( k < 0 ) return icCall< A, S, L >( a, std::make_index_sequence< R >{} ); }
  if ( k == 0 ) return ctCall< A, S, L, 0 >( a, std::make_index_sequence< R >{} );
  if constexpr ( R >= 2 )
  {
    auto s = a[digitOf( S{}, L, 0 )];
    if ( k == 1 ) return ctCall< decltype( s ), S, L, 1 >( s, std::make_index_sequence< R - 1 >{} );
    if constexpr ( R >= 3 )
    {
      auto s2 = s[digitOf( S{}, L, 1 )];
      return ctCall< decltype( s2 ), S, L, 2 >( s2, std::make_index_sequence< R - 2 >{} );
    }
  }
  return nullptr;
}
template< typename A, typename S, size_t... L >
static void const * ct( A & a, int l, int k, std::index_sequence< L... > )
{
  using F = void const * ( * )( A &, int );
  static constexpr F table[] = { &ctAt< A, S, static_cast< int >( L ) >... };
  return table[l]( a, k );
}

template< int... D, size_t... K, typename A >
static void checkTraits( A const &, Sh< D... > s, std::index_sequence< K... >, std::string const & who )
{
  constexpr int dims[] = { D... };
  constexpr int ext[] = { A::template extent< static_cast< int >( K ) >()... };
  for ( size_t i = 0; i < sizeof...( D ); ++i )
    mc::check( ext[i] == dims[i], "extent", [&]{ return std::string( mc::Str() << who << ": extent<" << i << "> is " << ext[i] << ", not " << dims[i] ); } );
  mc::check( A::rank() == static_cast< int >( sizeof...( D ) ), "rank", [&]{ return std::string( mc::Str() << who << ": rank is " << A::rank() ); } );
  mc::check( A::size() == prod( s ), "size", [&]{ return std::string( mc::Str() << who << ": size is " << A::size() ); } );
}

// the elements looked at: all of them, or, of the largest shapes, those with every index at or next to an end or in the middle
template< int... D > static std::vector< int > const & elements( Sh< D... > )
{
  static std::vector< int > const list = []{
    std::vector< int > r{ 0 };
    bool const all = ( 1L * ... * D ) <= 5000;
    for ( int d : { D... } )
    {
      std::vector< int > n;
      for ( int b : r )
        for ( int i = 0; i < d; ++i )
        {
          if ( !all && i == 2 && d > 9 ) i = d / 2;
          else if ( !all && i == d / 2 + 1 && d > 9 ) i = d - 2;
          n.push_back( b * d + i );
        }
      r = n;
    }
    return r; }();
  return list;
}

template< typename A, typename T, int... D >
static void explore( A & a, T const * base, Sh< D... > s, std::string const & who )
{
  constexpr int R = sizeof...( D );
  constexpr int N = prod( Sh< D... >{} );
  constexpr bool smallShape = N <= 128;
  checkTraits( a, s, std::make_index_sequence< R >{}, who );
  int const dims[] = { D... };
  int const form = mc::choose( smallShape ? 3 : 2, "form" );        // 0 run-time indices, 1 slices, 2 compile-time indices
  int k = 0, it = 0; bool ch = false;
  if ( form == 0 ) it = mc::choose( NIT, "indexType" );
  if ( form == 1 ) { k = 1 + mc::choose( R, "slices" ); ch = mc::flip( "constHandle" ); it = mc::choose( 9, "indexType" ); }
  if ( form == 2 ) { constexpr int n = R >= 3 ? 3 : R; k = mc::choose( N <= 32 ? n + 1 : n, "slices" ); if ( k == n ) k = -1; }
  // every in-range index (inner loop rather than choices: the same call site is exercised for all of them)
  int idx[R] = {};
  for ( int l : elements( s ) )
  {
    bool fits = true;
    for ( int i = 0, r = l; i < R; ++i )
    {
      int st = 1; for ( int j = i + 1; j < R; ++j ) st *= dims[j];
      idx[i] = r / st; r %= st;
      if ( ( it == 7 && idx[i] > 255 ) || ( it == 8 && idx[i] > 127 ) || ( it == 2 && idx[i] > 32767 ) || ( ( it == 3 || it == 9 ) && idx[i] > 65535 ) ) fits = false;
    }
    if ( !fits ) continue;
    void const * p = nullptr;
    if ( form == 0 ) p = call< A, R >( a, idx, it );
    else if ( form == 1 ) p = slice< A, R >( a, idx, k, it, ch );
    else if constexpr ( smallShape ) p = ct< A, Sh< D... > >( a, l, k, std::make_index_sequence< N >{} );
    mc::step();
    T const * want = base + l;
    if ( mc::tracing() ) { std::string t = who + " index"; for ( int i : idx ) t += " " + std::to_string( i ); mc::note( t + " -> offset " + std::to_string( static_cast< T const * >( p ) - base ) ); }
    mc::check( p == want, "address", [&]{
      mc::Str m; m << who << ": index (";
      for ( int i = 0; i < R; ++i ) m << ( i ? "," : "" ) << idx[i];
      m << ") via " << ( form == 0 ? "run-time indices" : form == 1 ? "slices" : "compile-time indices" ) << " k=" << k << " type=" << itName[it] << " reaches offset " << ( static_cast< char const * >( p ) - reinterpret_cast< char const * >( base ) ) << " bytes, not " << static_cast< size_t >( l ) * sizeof( T );
      return std::string( m ); } );
    mc::state( mc::mix( mc::mix( mc::hashString( who ), static_cast< uint64_t >( form * 1000 + ( k + 1 ) * 100 + it * 2 + ch ) ), static_cast< uint64_t >( l ) ) );
    mc::observe( static_cast< uint64_t >( static_cast< char const * >( p ) - reinterpret_cast< char const * >( base ) ) );
  }
}

template< typename T, int... D >
static void caseShape( Sh< D... > s )
{
  int const flav = mc::choose( NFLAV, "flavour" );
  std::string who = std::string( flavName[flav] ) + "<" + ( sizeof( T ) == 24 ? "struct" : mc::typeName< T >() ) + "," + shapeName( s ) + ">";
  mc::note( who );
  constexpr int N = prod( Sh< D... >{} );
  constexpr bool large = N > ( 1 << 20 );
  if ( flav <= OWN_CONSTOBJ && large ) { mc::step(); return; }      // too large to own here
  if constexpr ( !large ) if ( flav == OWN )
  {
    shiva::CArrayNd< T, D... > a{};
    mc::check( sizeof( a.data() ) == N * sizeof( T ), "storage", [&]{ return who + ": storage is not exactly its elements"; } );
    explore( a, &a.data()[0], s, who );
  }
  if constexpr ( !large ) if ( flav == OWN_CONSTOBJ )
  {
    shiva::CArrayNd< T, D... > const a{};
    explore( a, &a.data()[0], s, who );
  }
  if ( flav > OWN_CONSTOBJ )
  {
    // address space is enough: no element is read or written
    static T * const buf = static_cast< T * >( mmap( nullptr, ( N + 2ul ) * sizeof( T ), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ) );
    if ( buf == MAP_FAILED ) { std::perror( "mmap" ); std::exit( 3 ); }
    T * p = buf + 1;
    if ( flav == VIEW ) { shiva::CArrayViewNd< T, D... > a( p ); explore( a, p, s, who ); }
    else if ( flav == VIEW_CONSTOBJ ) { shiva::CArrayViewNd< T, D... > const a( p ); explore( a, p, s, who ); }
    else { shiva::CArrayViewNd< T const, D... > a( p ); explore( a, p, s, who ); }
  }
}

// constant evaluation: values read from a constexpr array through every form
template< typename S > struct ConstArr;
template< int... D > struct ConstArr< Sh< D... > >
{
  template< int... V > static constexpr auto make( std::integer_sequence< int, V... > ) { return shiva::CArrayNd< int const, D... >{ V... }; }
  static constexpr auto arr = make( std::make_integer_sequence< int, prod( Sh< D... >{} ) >{} );
  template< int L, size_t... K > static constexpr int viaCall( std::index_sequence< K... > ) { return arr( digitOf( Sh< D... >{}, L, K )... ); }
  template< int L, size_t... K > static constexpr int viaCt( std::index_sequence< K... > ) { return arr.template operator()< digitOf( Sh< D... >{}, L, K )... >(); }
  template< int L > static constexpr int viaSlices()
  {
    constexpr int R = sizeof...( D );
    if constexpr ( R == 1 ) return arr[L];
    else if constexpr ( R == 2 ) return arr[digitOf( Sh< D... >{}, L, 0 )][digitOf( Sh< D... >{}, L, 1 )];
    else if constexpr ( R == 3 ) return arr[digitOf( Sh< D... >{}, L, 0 )][digitOf( Sh< D... >{}, L, 1 )][digitOf( Sh< D... >{}, L, 2 )];
    else return arr[digitOf( Sh< D... >{}, L, 0 )][digitOf( Sh< D... >{}, L, 1 )][digitOf( Sh< D... >{}, L, 2 )][digitOf( Sh< D... >{}, L, 3 )];
  }
  template< int... L > static void check( std::integer_sequence< int, L... > )
  {
    using I = std::make_index_sequence< sizeof...( D ) >;
    static constexpr int a[] = { viaCall< L >( I{} )... };
    static constexpr int b[] = { viaCt< L >( I{} )... };
    static constexpr int c[] = { viaSlices< L >()... };
    for ( int l = 0; l < prod( Sh< D... >{} ); ++l )
    {
      mc::step( 3 );
      mc::state( mc::mix( mc::hashString( shapeName( Sh< D... >{} ) + "const" ), static_cast< uint64_t >( l ) ) );
      mc::check( a[l] == l && b[l] == l && c[l] == l, "constexpr", [&]{ return std::string( mc::Str() << "constant evaluation on " << shapeName( Sh< D... >{} ) << " element " << l << ": " << a[l] << " " << b[l] << " " << c[l] ); } );
    }
  }
};

template< typename T, typename... S > static void add( mc::Cases & c, List< S... > )
{
  ( c.emplace_back( shapeName( S{} ), []{ caseShape< T >( S{} ); } ), ... );
}
template< typename... S > static void addConst( mc::Cases & c, List< S... > )
{
  ( c.emplace_back( shapeName( S{} ) + " constexpr", []{ ConstArr< S >::check( std::make_integer_sequence< int, prod( S{} ) >{} ); } ), ... );
}

static void body()
{
  static mc::Cases cases;
  if ( cases.empty() )
  {
#if PART == 0
    add< double >( cases, AllShapes< 4, 1 >::type{} );
    add< double >( cases, AllShapes< 4, 2 >::type{} );
    add< char >( cases, List< Sh< 3 >, Sh< 2, 3 >, Sh< 3, 2 >, Sh< 2, 3, 4 > >{} );
    add< Big >( cases, List< Sh< 4 >, Sh< 2, 3 >, Sh< 3, 2 >, Sh< 4, 3, 2 > >{} );
#elif PART == 1
    add< int >( cases, AllShapes< 3, 3 >::type{} );
#elif PART == 2
    add< float >( cases, AllShapes< 2, 4 >::type{} );
    add< double >( cases, List< Sh< 2, 3, 4, 5 >, Sh< 5, 4, 3, 2 >, Sh< 3, 1, 4, 2 >, Sh< 1, 3, 1, 5 > >{} );
#elif PART == 3
    add< int >( cases, List< Sh< 2, 2, 2, 2, 2 >, Sh< 1, 2, 3, 2, 1 >, Sh< 3, 1, 2, 1, 3 >, Sh< 2, 1, 3, 2, 4 >, Sh< 1, 1, 1, 1, 2 >, Sh< 2, 3, 1, 2, 2 > >{} );
    add< int >( cases, List< Sh< 7, 11 >, Sh< 13, 1, 5 >, Sh< 300, 2 >, Sh< 2, 300 >, Sh< 1000 >, Sh< 5, 70 >, Sh< 17, 9, 3 > >{} );
    add< char >( cases, List< Sh< 2, 300, 300 >, Sh< 300, 300, 2 >, Sh< 70000 >, Sh< 2, 70000 >, Sh< 66000, 3 >, Sh< 2, 2, 200, 200 >, Sh< 2, 30000, 30000 > >{} );
    add< double >( cases, List< Sh< 2, 10000, 10000 >, Sh< 40000, 3, 5 >, Sh< 33000 > >{} );
    add< int >( cases, List< Sh< 2, 2, 2, 2, 2, 2 >, Sh< 1, 2, 1, 3, 2, 1 >, Sh< 2, 1, 2, 1, 3, 1, 2 >, Sh< 1, 2, 1, 2, 1, 2, 1, 2 >, Sh< 3, 1, 2, 1, 2, 1, 3 >, Sh< 3, 2, 1, 1, 1, 2, 1, 2 >, Sh< 3, 1, 1, 2, 1, 1, 2, 1, 2 > >{} );
    addConst( cases, AllShapes< 4, 1 >::type{} );
    addConst( cases, AllShapes< 3, 2 >::type{} );
    addConst( cases, AllShapes< 3, 3 >::type{} );
    addConst( cases, List< Sh< 2, 3, 4, 5 >, Sh< 3, 1, 4, 2 > >{} );
#else
    add< double >( cases, AllShapes< 3, 4 >::type{} );
#endif
  }
  mc::pickCase( cases );
}
MC_MAIN( body )
