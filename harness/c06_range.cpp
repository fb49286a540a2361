// C06: forRange visits exactly the box from the start to the ranges, in lexicographic order, with one callable.
#include "mc/mc.hpp"
#include "harness/shapes.hpp"
#include "shiva/common/IndexTypes.hpp"
#include <functional>
#include <limits>
#include <memory>
#include <string>
#include <vector>
#ifndef PART
#define PART 0
#endif

template< typename B, B... R > static std::string name() { std::string s = std::string( mc::typeName< B >() ) + " ranges"; ( ( s += " " + std::to_string( static_cast< long >( R ) ) ), ... ); return s; }

// what the callback saw; an iteration that does not end is cut off
struct TooMany {};
struct Trace : std::vector< std::vector< long > >
{
  void push_back( std::vector< long > const & v ) { if ( size() >= 20000 ) throw TooMany{}; std::vector< std::vector< long > >::push_back( v ); }
};
static int copies = 0;
template< typename MI > struct Rec       // stateful functor that counts its copies and notes who is called
{
  Trace * t; std::vector< void const * > * who; int calls = 0;
  Rec( Trace * a, std::vector< void const * > * b ): t( a ), who( b ) {}
  Rec( Rec const & o ): t( o.t ), who( o.who ), calls( o.calls ) { copies++; }
  void add( MI const & m ) { std::vector< long > v; for ( auto x : m.data ) v.push_back( static_cast< long >( x ) ); t->push_back( v ); who->push_back( this ); calls++; }
  void operator()( MI const & m ) { add( m ); }
};
template< typename MI > struct MoveOnly
{
  std::unique_ptr< int > p = std::make_unique< int >( 1 ); Trace * t;
  void operator()( MI const & m ) { std::vector< long > v; for ( auto x : m.data ) v.push_back( static_cast< long >( x ) ); t->push_back( v ); *p += 1; }
};
static Trace * fnTrace;
template< typename MI > static void fn( MI & m ) { std::vector< long > v; for ( auto x : m.data ) v.push_back( static_cast< long >( x ) ); fnTrace->push_back( v ); }

template< int K > static void expectBox( Trace & t, long const * lo, long const * hi, std::vector< long > & cur )
{
  if ( static_cast< int >( cur.size() ) == K ) { t.push_back( cur ); return; }
  size_t const d = cur.size();
  for ( long v = lo[d]; v < hi[d]; ++v ) { cur.push_back( v ); expectBox< K >( t, lo, hi, cur ); cur.pop_back(); }
}
static std::string show( Trace const & t )
{
  std::string s;
  for ( size_t i = 0; i < t.size() && i < 14; ++i ) { s += "("; for ( size_t k = 0; k < t[i].size(); ++k ) s += ( k ? "," : "" ) + std::to_string( t[i][k] ); s += ")"; }
  return s + ( t.size() > 14 ? "..." : "" ) + "[" + std::to_string( t.size() ) + "]";
}

template< typename B, B... R > static void visit( bool deep )
{
  using MI = shiva::MultiIndexRange< B, R... >;
  constexpr int K = sizeof...( R );
  long const hi[] = { static_cast< long >( R )... };
  long lo[K];
  MI idx{};
  constexpr bool sgn = B( -1 ) < B( 0 );
  for ( int i = 0; i < K; ++i )
  {
    // a negative start, every start up to the range, and one beyond it
    int c;
    if ( K > 5 ) c = mc::choose( static_cast< int >( hi[i] ) + 1, "start" );
    else if ( hi[i] <= 20 ) c = mc::choose( static_cast< int >( hi[i] ) + 2 + ( sgn && deep ? 1 : 0 ), "start" );
    else
    {
      // a long range: starts around its two ends
      long const s[] = { 0, 1, 2, 3, hi[i] - 5, hi[i] - 4, hi[i] - 3, hi[i] - 2, hi[i] - 1, hi[i], hi[i] + 1, hi[i] + 2 };
      c = static_cast< int >( s[mc::choose( sgn ? 12 : 11, "start" )] );
    }
    lo[i] = c == hi[i] + 2 ? -1 : c;
    if ( lo[i] > static_cast< long >( std::numeric_limits< B >::max() ) ) lo[i] = hi[i];
    idx.data[i] = static_cast< B >( lo[i] );
  }
  Trace want, got;
  std::vector< long > cur;
  expectBox< K >( want, lo, hi, cur );
  bool const longer = want.size() > 400;
  int const kind = mc::choose( longer ? 4 : deep ? 11 : 5, "callable" );
  copies = 0;
  mc::step();
  try { switch ( kind )
  {
    case 0: shiva::forRange( idx, [&]( auto const & m ) { std::vector< long > v; for ( auto x : m.data ) v.push_back( static_cast< long >( x ) ); got.push_back( v ); } ); break;
    case 1:
    {
      std::vector< void const * > who;
      Rec< MI > r( &got, &who );
      shiva::forRange( idx, r );
      for ( auto w : who ) mc::check( w == &r, "same-callable", [&]{ return name< B, R... >() + ": a copy of the callable was called"; } );
      mc::check( r.calls == static_cast< int >( got.size() ) && copies == 0, "same-callable", [&]{ return name< B, R... >() + ": the callable passed lost its state or was copied"; } );
    }
    break;
    // what the callable returns is nobody's business
    case 2: shiva::forRange( idx, [&]( MI const & m ) { std::vector< long > v; for ( auto x : m.data ) v.push_back( static_cast< long >( x ) ); got.push_back( v ); return false; } ); break;
    case 3: shiva::forRange( idx, [&]( MI const & m ) { std::vector< long > v; for ( auto x : m.data ) v.push_back( static_cast< long >( x ) ); got.push_back( v ); return true; } ); break;
    case 4:
    {
      std::vector< void const * > who;
      shiva::forRange( idx, Rec< MI >( &got, &who ) );
      for ( auto w : who ) mc::check( w == who[0], "same-callable", [&]{ return name< B, R... >() + ": different objects were called"; } );
    }
    break;
    case 5: { MoveOnly< MI > m; m.t = &got; shiva::forRange( idx, m ); mc::check( *m.p == 1 + static_cast< int >( got.size() ), "same-callable", [&]{ return name< B, R... >(); } ); } break;
    case 6: { MoveOnly< MI > m; m.t = &got; shiva::forRange( idx, std::move( m ) ); } break;
    case 7: fnTrace = &got; shiva::forRange( idx, fn< MI > ); break;
    case 8: { std::function< void( MI const & ) > f = [&]( MI const & m ) { std::vector< long > v; for ( auto x : m.data ) v.push_back( static_cast< long >( x ) ); got.push_back( v ); }; shiva::forRange( idx, f ); } break;
    case 9: shiva::forRange( idx, [&]( auto & m ) { std::vector< long > v; for ( auto x : m.data ) v.push_back( static_cast< long >( x ) ); got.push_back( v ); return static_cast< int >( got.size() % 3 ) - 1; } ); break;
    default:
    {
      // nested iterations with an index of their own, of the same type
      Trace inner, outerGot;
      auto const f = [&]( MI const & m ) {
        MI j{};
        for ( int i = 0; i < K; ++i ) j.data[i] = static_cast< B >( lo[i] );
        inner.clear();
        shiva::forRange( j, [&]( MI const & q ) { std::vector< long > v; for ( auto x : q.data ) v.push_back( static_cast< long >( x ) ); inner.push_back( v ); } );
        mc::check( inner == want, "nested", [&]{ return name< B, R... >() + ": nested iteration saw " + show( inner ) + " instead of " + show( want ); } );
        std::vector< long > v; for ( auto x : m.data ) v.push_back( static_cast< long >( x ) ); got.push_back( v ); };
      shiva::forRange( idx, f );
    }
  } } catch ( TooMany const & ) {}
  size_t const n = got.size();
  mc::check( got == want, "visits", [&]{
    std::string s = name< B, R... >() + " from ("; for ( int i = 0; i < K; ++i ) s += ( i ? "," : "" ) + std::to_string( lo[i] );
    return s + ") visits " + show( got ) + " instead of " + show( want ); } );
  if ( mc::tracing() ) mc::note( show( got ) );
  uint64_t h = mc::hashString( name< B, R... >() ); for ( long l : lo ) h = mc::mix( h, static_cast< uint64_t >( l ) );
  mc::state( mc::mix( h, static_cast< uint64_t >( kind ) ) );
  mc::observe( static_cast< uint64_t >( n ) );
}

// constant evaluation: a number that depends on the order and multiplicity of all visits
template< typename B, B... R > static constexpr unsigned long signature( B s )
{
  shiva::MultiIndexRange< B, R... > i{};
  for ( auto & x : i.data ) x = s;
  unsigned long h = 7;
  shiva::forRange( i, [&]( auto const & m ) constexpr { for ( auto x : m.data ) h = h * 31 + static_cast< unsigned long >( x ) + 1; h = h * 17 + 5; } );
  return h;
}
template< typename B, B... R > static unsigned long expectSignature( long s )
{
  long const hi[] = { static_cast< long >( R )... }; long lo[sizeof...( R )]; for ( auto & x : lo ) x = s;
  Trace t; std::vector< long > cur; expectBox< sizeof...( R ) >( t, lo, hi, cur );
  unsigned long h = 7;
  for ( auto const & v : t ) { for ( long x : v ) h = h * 31 + static_cast< unsigned long >( x ) + 1; h = h * 17 + 5; }
  return h;
}

// ranges and starts far apart or at the ends of the type: the first calls of the iteration, or all of them where there are few
struct Enough {};
template< typename B, B... R > static void far()
{
  constexpr int K = sizeof...( R );
  constexpr size_t LIMIT = 40;
  using L = std::numeric_limits< B >;
  B const hi[] = { R... };
  std::array< B, K > s{};
  for ( size_t d = 0; d < K; ++d )
  {
    B const c[] = { static_cast< B >( hi[d] - 1 ), static_cast< B >( hi[d] - 3 ), hi[d], L::min(), 0, static_cast< B >( hi[d] / 2 ), static_cast< B >( L::max() / 2 ), static_cast< B >( hi[d] - 40 ), static_cast< B >( hi[d] / 4 * 3 ) };
    s[d] = c[mc::choose( 9, "start" )];
  }
  std::vector< std::array< B, K > > want, got;
  bool empty = false; for ( size_t d = 0; d < K; ++d ) empty = empty || !( s[d] < hi[d] );
  bool more = !empty;
  for ( auto c = s; more && want.size() < LIMIT; )
  {
    want.push_back( c );
    size_t d = K;
    for ( ;; )
    {
      if ( d-- == 0 ) { more = false; break; }
      if ( static_cast< B >( hi[d] - 1 ) != c[d] ) { ++c[d]; break; }
      c[d] = s[d];
    }
  }
  // calls without a visit come from an empty inner dimension: an outer one is then walked in vain, so keep those short
  if ( empty ) { bool seen = false; for ( size_t d = 0; d < K; ++d ) { if ( !( s[d] < hi[d] ) ) seen = true; if ( !seen && static_cast< unsigned long >( hi[d] ) - static_cast< unsigned long >( s[d] ) > 50 ) return; } }
  shiva::MultiIndexRange< B, R... > m{};
  for ( size_t d = 0; d < K; ++d ) m.data[d] = s[d];
  try
  {
    shiva::forRange( m, [&]( auto const & i ) { std::array< B, K > v{}; for ( size_t d = 0; d < K; ++d ) v[d] = i.data[d]; got.push_back( v ); if ( got.size() >= LIMIT ) throw Enough(); } );
  }
  catch ( Enough const & ) {}
  mc::step( got.size() + 1 );
  uint64_t h = mc::hashString( std::string( "far" ) + mc::typeName< B >() );
  for ( size_t d = 0; d < K; ++d ) h = mc::mix( mc::mix( h, static_cast< uint64_t >( s[d] ) ), static_cast< uint64_t >( hi[d] ) );
  mc::state( h ); mc::observe( static_cast< uint64_t >( got.size() ) );
  mc::check( got == want, "far range", [&]{ mc::Str o; o << mc::typeName< B >() << " ranges"; for ( B x : hi ) o << " " << +x; o << " from"; for ( B x : s ) o << " " << +x; o << ": " << got.size() << " calls (of the first " << LIMIT << ") instead of " << want.size(); for ( size_t k = 0; k < got.size() && k < want.size(); ++k ) if ( got[k] != want[k] ) { o << ", call " << k << " differs"; break; } return std::string( o ); } );
}

template< typename B, int... D > static void addOne( mc::Cases & c, Sh< D... > )
{
  bool const deep = sizeof...( D ) <= 2 || ( D + ... ) <= 5;
  c.emplace_back( name< B, static_cast< B >( D )... >(), [=]{ visit< B, static_cast< B >( D )... >( deep || mc::thorough() ); } );
}
template< typename B, typename... S > static void add( mc::Cases & c, List< S... > ) { ( addOne< B >( c, S{} ), ... ); }
template< int M > struct Dec;
template< typename B, int... D > static void addConst( mc::Cases & c, Sh< D... > )
{
  c.emplace_back( "constexpr " + name< B, static_cast< B >( D )... >(), []{
    static constexpr unsigned long a = signature< B, static_cast< B >( D )... >( 0 ), b = signature< B, static_cast< B >( D )... >( 1 );
    mc::step( 2 );
    mc::state( mc::hashString( "c" + name< B, static_cast< B >( D )... >() ) );
    mc::check( a == ( expectSignature< B, static_cast< B >( D )... >( 0 ) ) && b == ( expectSignature< B, static_cast< B >( D )... >( 1 ) ), "constexpr", [&]{ return name< B, static_cast< B >( D )... >() + ": constant evaluation visits something else"; } );
  } );
}
template< typename B, typename... S > static void addConsts( mc::Cases & c, List< S... > ) { ( addConst< B >( c, S{} ), ... ); }
// shapes with extents 0..M-1
template< typename L > struct Minus;
template< int... D > static Sh< ( D - 1 )... > minus( Sh< D... > );
template< typename... S > struct Minus< List< S... > > { using type = List< decltype( minus( S{} ) )... >; };
template< int M, int R > using Zero = typename Minus< typename AllShapes< M + 1, R >::type >::type;

static void body()
{
  static mc::Cases c;
  if ( c.empty() )
  {
#if PART == 0
    add< int >( c, Zero< 4, 1 >{} ); add< int >( c, Zero< 3, 2 >{} );
    add< long >( c, Zero< 3, 1 >{} ); add< long >( c, Zero< 3, 2 >{} ); add< unsigned >( c, Zero< 3, 1 >{} );
    addConsts< int >( c, Zero< 3, 2 >{} ); addConsts< long >( c, Zero< 2, 3 >{} );
#elif PART == 1
    add< int >( c, Zero< 3, 3 >{} );
    addConsts< int >( c, Zero< 2, 3 >{} );
#elif PART == 2
    add< unsigned long >( c, Zero< 2, 3 >{} ); add< short >( c, Zero< 2, 2 >{} ); add< unsigned char >( c, Zero< 3, 2 >{} );
    add< signed char >( c, Zero< 2, 2 >{} ); add< unsigned short >( c, Zero< 2, 2 >{} ); add< long long >( c, Zero< 2, 2 >{} );
    add< int >( c, List< Sh< 7 >, Sh< 5, 6 >, Sh< 6, 5 >, Sh< 5, 4, 3 > >{} );
    c.emplace_back( "far", far< long, 10000000000L > ); c.emplace_back( "far", far< long, std::numeric_limits< long >::max() > ); c.emplace_back( "far", far< unsigned long, std::numeric_limits< unsigned long >::max() > );
    c.emplace_back( "far", far< int, std::numeric_limits< int >::max() > ); c.emplace_back( "far", far< unsigned, std::numeric_limits< unsigned >::max() > ); c.emplace_back( "far", far< unsigned, 3000000000u > ); c.emplace_back( "far", far< long, 4294967299L > ); c.emplace_back( "far", far< int, 70000 > );
    c.emplace_back( "far", far< long, 5000000000L, 3L > ); c.emplace_back( "far", far< long, 3L, 5000000000L > ); c.emplace_back( "far", far< long, 4294967298L, 4294967297L > ); c.emplace_back( "far", far< int, 2147483647, 2147483646 > ); c.emplace_back( "far", far< unsigned long, 2ul, 1ul << 40, ( 1ul << 33 ) + 1 > ); c.emplace_back( "far", far< short, 32767, 32767 > );
#elif PART == 3
    add< int >( c, Zero< 2, 4 >{} );
    add< long >( c, List< Sh< 2, 3, 1, 2 >, Sh< 1, 3, 2, 3 >, Sh< 2, 1, 2, 1, 2 >, Sh< 1, 2, 1, 2, 2 > >{} );
    addConsts< int >( c, List< Sh< 2, 3, 2, 1 >, Sh< 1, 2, 3, 4 > >{} );
    // many dimensions, no two neighbours alike
    add< int >( c, List< Sh< 2, 3, 1, 2, 3 >, Sh< 2, 1, 3, 1, 2, 2 >, Sh< 1, 1, 1, 1, 1, 3 >, Sh< 3, 1, 2, 1, 2, 1 >, Sh< 2, 1, 2, 0, 1, 2 > >{} );
    add< int >( c, List< Sh< 1, 2, 1, 2, 1, 1, 3 >, Sh< 2, 1, 1, 1, 3, 1, 2 >, Sh< 1, 1, 2, 1, 1, 2, 1, 2 >, Sh< 2, 1, 1, 1, 1, 1, 2, 1 >, Sh< 1, 1, 1, 1, 1, 1, 1, 1, 2 >, Sh< 1, 2, 1, 1, 1, 1, 1, 1, 1, 2 > >{} );
    add< unsigned char >( c, List< Sh< 1, 2, 1, 1, 2, 2 >, Sh< 2, 1, 1, 1, 1, 2, 2 > >{} );
#elif PART == 4
    add< int >( c, Zero< 3, 4 >{} );
#else
    add< int >( c, List< Sh< 8 >, Sh< 9 >, Sh< 10 >, Sh< 11 >, Sh< 12 >, Sh< 13 >, Sh< 15 >, Sh< 16 >, Sh< 17 >, Sh< 19 >, Sh< 32 >, Sh< 33 >, Sh< 64 >, Sh< 65 >, Sh< 100 >, Sh< 128 >, Sh< 129 >, Sh< 255 >, Sh< 256 >, Sh< 257 >, Sh< 1000 >, Sh< 1025 >, Sh< 1500 >, Sh< 4097 > >{} );
    add< int >( c, List< Sh< 9, 2 >, Sh< 2, 9 >, Sh< 17, 3 >, Sh< 3, 17 >, Sh< 12, 11 >, Sh< 1500, 2 >, Sh< 2, 1500 >, Sh< 40, 40 >, Sh< 9, 1, 10 >, Sh< 2, 33, 2 >, Sh< 100, 2, 3 > >{} );
    add< long >( c, List< Sh< 11 >, Sh< 70 >, Sh< 2000 > >{} );
    add< unsigned char >( c, List< Sh< 11 >, Sh< 128 >, Sh< 255 >, Sh< 129, 2 > >{} );
    add< signed char >( c, List< Sh< 11 >, Sh< 127 >, Sh< 2, 127 > >{} );
    add< short >( c, List< Sh< 14 >, Sh< 1500 > >{} );
    add< unsigned >( c, List< Sh< 18 >, Sh< 300, 5 > >{} );
#endif
  }
  mc::pickCase( c );
}
MC_MAIN( body )
