// C07: static loops, nested static loops and pack expansion, observed through instrumented callables.
#include "mc/mc.hpp"
#include "harness/shapes.hpp"
#include "shiva/common/NestedSequenceUtilities.hpp"
#include "shiva/common/types.hpp"
#include <memory>
#include <string>
#include <vector>
#ifndef PART
#define PART 0
#endif

using Trace = std::vector< std::vector< int > >;
static Trace trace;
static int copies, objCopies;
static std::string show( Trace const & t )
{
  std::string s;
  for ( size_t i = 0; i < t.size() && i < 16; ++i ) { s += "("; for ( size_t k = 0; k < t[i].size(); ++k ) s += ( k ? "," : "" ) + std::to_string( t[i][k] ); s += ")"; }
  return s + "[" + std::to_string( t.size() ) + "]";
}
template< int... E > static Trace box()
{
  int const e[] = { E..., 1 };
  int const K = sizeof...( E );
  Trace t;
  for ( int d : e ) if ( d == 0 ) return t;
  std::vector< int > v( K, 0 );
  for (;; )
  {
    t.push_back( v );
    int d = K - 1;
    while ( d >= 0 && ++v[static_cast< size_t >( d )] == e[d] ) v[static_cast< size_t >( d-- )] = 0;
    if ( d < 0 ) return t;
  }
}
template< int... E > static std::string ends() { std::string s = "<"; ( ( s += std::to_string( E ) + "," ), ... ); s.back() = '>'; return s; }
static void expect( Trace const & want, char const * key, std::string const & what )
{
  mc::step();
  mc::check( trace == want, key, [&]{ return what + ": calls were " + show( trace ) + ", not " + show( want ); } );
  if ( mc::tracing() ) mc::note( what + " " + show( trace ) );
  mc::state( mc::hashString( what ) );
  mc::observe( static_cast< uint64_t >( trace.size() ) );
}

// the index arrives as a constant
template< typename I > constexpr int val( I ) { constexpr int v = I::value; static_assert( I{} == v ); return v; }

struct Counter            // parameter-style functor with state; notes copies
{
  int calls = 0; void const * self = nullptr; bool moved = false;
  Counter() {}
  Counter( Counter const & o ): calls( o.calls ) { copies++; }
  Counter( Counter && o ): calls( o.calls ) { copies++; o.moved = true; }
  template< typename... I > int operator()( I... i ) { if ( self && self != this ) copies++; self = this; trace.push_back( { val( i )... } ); return ++calls; }
};
struct TemplateCounter    // template-style functor with state
{
  int calls = 0; void const * self = nullptr;
  TemplateCounter() {}
  TemplateCounter( TemplateCounter const & o ): calls( o.calls ) { copies++; }
  template< int... I > int operator()() { if ( self && self != this ) copies++; self = this; trace.push_back( { I... } ); return ++calls; }
};
struct MoveOnlyF { std::unique_ptr< int > p = std::make_unique< int >( 0 ); template< typename... I > int operator()( I... i ) { trace.push_back( { val( i )... } ); return ++*p; } };
struct TemplateBool { template< int... I > bool operator()() { trace.push_back( { I... } ); return ( 0 + ... + I ) % 2 != 0; } };
static void reset() { trace.clear(); copies = 0; }
static void stateKept( int calls, int n, std::string const & what )
{
  mc::check( calls == n && copies == 0, "state", [&]{ return what + ": the callable passed has seen " + std::to_string( calls ) + " calls of " + std::to_string( n ) + ", copies " + std::to_string( copies ); } );
}
static Trace iota( int n ) { Trace t; for ( int i = 0; i < n; ++i ) t.push_back( { i } ); return t; }

// ---- forSequence ----------------------------------------------------------------------------------------------
template< int N > static void seqCase()
{
  std::string const w = "forSequence<" + std::to_string( N ) + "> ";
  int const kind = mc::choose( 12, "callable" );
  reset();
  Trace const want = iota( N );
  switch ( kind )
  {
    // what the callable returns does not steer the loop
    case 9: shiva::forSequence< N >( []( auto i ) { trace.push_back( { val( i ) } ); return false; } ); expect( want, "forSequence", w + "answering no" ); break;
    case 10: shiva::forSequence< N >( []( auto i ) { trace.push_back( { val( i ) } ); return val( i ) % 2 == 0; } ); expect( want, "forSequence", w + "answering yes and no" ); break;
    case 11: { TemplateBool b; shiva::forSequence< N >( b ); expect( want, "forSequence", w + "template functor answering no and yes" ); } break;
    case 0: shiva::forSequence< N >( []( auto i ) { trace.push_back( { val( i ) } ); } ); expect( want, "forSequence", w + "parameter lambda" ); break;
    case 1: { Counter c; shiva::forSequence< N >( c ); expect( want, "forSequence", w + "parameter functor" ); stateKept( c.calls, N, w ); } break;
    case 2: { Counter c; shiva::forSequence< N >( std::move( c ) ); expect( want, "forSequence", w + "rvalue functor" ); stateKept( c.calls, N, w ); } break;
    case 3: { TemplateCounter c; shiva::forSequence< N >( c ); expect( want, "forSequence", w + "template functor" ); stateKept( c.calls, N, w ); } break;
    case 4: shiva::forSequence< N >( TemplateCounter{} ); expect( want, "forSequence", w + "rvalue template functor" ); break;
    case 5:
    {
      Counter c;
      if constexpr ( N > 0 ) { auto const r = shiva::forSequence< N >( c ); expect( want, "forSequence", w + "result" ); mc::check( r == N, "result", [&]{ return w + "returns " + std::to_string( r ); } ); }
      else shiva::forSequence< N >( c );
    }
    break;
    case 6:
    {
      // mutable lambda by lvalue keeps its state from one loop to the next
      int seen = 0;
      auto f = [n = 0, &seen]( auto i ) mutable { trace.push_back( { val( i ) } ); seen = ++n; };
      shiva::forSequence< N >( f ); shiva::forSequence< N >( f );
      Trace two = want; two.insert( two.end(), want.begin(), want.end() );
      expect( two, "forSequence", w + "twice" );
      mc::check( seen == 2 * N, "state", [&]{ return w + "loses the state of a mutable callable"; } );
    }
    break;
    case 7:
    {
      // loops in loops
      shiva::forSequence< N >( []( auto i ) { shiva::forSequence< 2 >( [=]( auto j ) { trace.push_back( { val( i ), val( j ) } ); } ); } );
      expect( N > 0 ? box< N, 2 >() : Trace{}, "forSequence", w + "nested by hand" );
    }
    break;
    default:
    {
#if __cplusplus >= 202002L
      shiva::forSequence< N >( []< int I >() { trace.push_back( { I } ); } );
      expect( want, "forSequence", w + "template lambda" );
#else
      MoveOnlyF f; shiva::forSequence< N >( f ); expect( want, "forSequence", w + "move-only" ); mc::check( *f.p == N, "state", [&]{ return w; } );
#endif
    }
  }
}

// ---- forNestedSequence ----------------------------------------------------------------------------------------
template< int... E > constexpr unsigned long sig()
{
  unsigned long h = 7;
  shiva::forNestedSequence< E... >( [&]( auto const... i ) constexpr { ( ( h = h * 31 + static_cast< unsigned long >( decltype( i )::value ) + 1 ), ... ); h = h * 17 + 5; } );
  return h;
}
template< int... E > static unsigned long wantSig()
{
  unsigned long h = 7;
  for ( auto const & v : box< E... >() ) { for ( int x : v ) h = h * 31 + static_cast< unsigned long >( x ) + 1; h = h * 17 + 5; }
  return h;
}
template< int... E > static void nestedCase()
{
  std::string const w = "forNestedSequence" + ends< E... >() + " ";
  int const kind = mc::choose( 9, "callable" );
  reset();
  Trace const want = box< E... >();
  int const n = static_cast< int >( want.size() );
  switch ( kind )
  {
    case 0: shiva::forNestedSequence< E... >( []( auto... i ) { trace.push_back( { val( i )... } ); } ); expect( want, "nested", w + "lambda" ); break;
    case 1: { Counter c; shiva::forNestedSequence< E... >( c ); expect( want, "nested", w + "functor" ); stateKept( c.calls, n, w ); } break;
    case 2: { Counter c; shiva::forNestedSequence< E... >( std::move( c ) ); expect( want, "nested", w + "rvalue functor" ); stateKept( c.calls, n, w ); } break;
    case 3: { Counter c; shiva::forNestedSequence( std::integer_sequence< int, E... >{}, c ); expect( want, "nested", w + "from an integer sequence" ); stateKept( c.calls, n, w ); } break;
    case 4: { MoveOnlyF f; shiva::forNestedSequence< E... >( std::move( f ) ); expect( want, "nested", w + "move-only" ); } break;
    case 5: shiva::forNestedSequence< E... >( []( auto... i ) { trace.push_back( { val( i )... } ); return false; } ); expect( want, "nested", w + "answering no" ); break;
    case 6: shiva::forNestedSequence< E... >( []( auto... i ) { trace.push_back( { val( i )... } ); return true; } ); expect( want, "nested", w + "answering yes" ); break;
    case 7: shiva::forNestedSequence< E... >( []( auto... i ) { trace.push_back( { val( i )... } ); return ( 0 + ... + val( i ) ) % 2 == 0; } ); expect( want, "nested", w + "answering yes and no" ); break;
    default:
    {
      static constexpr unsigned long s = sig< E... >();
      mc::step();
      mc::state( mc::hashString( w + "constexpr" ) );
      mc::check( s == wantSig< E... >() && sig< E... >() == s, "nested-constexpr", [&]{ return w + ": constant evaluation visits something else"; } );
    }
  }
}

// ---- executeSequence ------------------------------------------------------------------------------------------
struct Obj { int id; Obj( int i ): id( i ) {} Obj( Obj const & o ): id( o.id ) { objCopies++; } Obj( Obj && o ): id( o.id ) { objCopies++; } };
static std::vector< std::string > argLog;
template< typename A > static std::string cat( A && a )
{
  return std::string( std::is_lvalue_reference_v< A > ? ( std::is_const_v< std::remove_reference_t< A > > ? "const&" : "&" ) : ( std::is_const_v< std::remove_reference_t< A > > ? "const&&" : "&&" ) ) + std::to_string( reinterpret_cast< uintptr_t >( &a ) );
}
template< typename T > struct IsIC : std::false_type {};
template< int I > struct IsIC< std::integral_constant< int, I > > : std::true_type {};

struct ParamAny           // parameter-style: takes everything, by forwarding reference
{
  int calls = 0;
  template< typename... A > int operator()( A &&... a )
  {
    std::vector< int > idx; bool afterIndex = false, order = true;
    auto one = [&]( auto && x ) {
      using X = std::remove_cv_t< std::remove_reference_t< decltype( x ) > >;
      if constexpr ( IsIC< X >::value ) { idx.push_back( X::value ); afterIndex = true; }
      else { order &= !afterIndex; argLog.push_back( cat( std::forward< decltype( x ) >( x ) ) ); } };
    ( one( std::forward< A >( a ) ), ... );
    mc::check( order, "arg-order", "an extra argument comes after an index" );
    trace.push_back( idx );
    return 100 + ++calls;
  }
};
template< typename... A > struct TemplExact   // template-style: exactly these arguments
{
  int calls = 0;
  template< int... I > int operator()( A... a ) { ( argLog.push_back( cat( static_cast< A >( a ) ) ), ... ); trace.push_back( { I... } ); return 100 + ++calls; }
};
template< typename F, size_t... K > static void unpack( F && f, std::index_sequence< K... > ) { f( std::integral_constant< int, static_cast< int >( K ) >{}... ); }
template< int N, typename... A > static void execOne( int const style )
{
  // A are Obj &, Obj const &, Obj &&
  std::string w = "executeSequence<" + std::to_string( N ) + "> with " + std::to_string( sizeof...( A ) ) + " argument(s) " + ( style ? "template" : "parameter" ) + "-style ";
  ( ( w += std::is_rvalue_reference_v< A > ? "&& " : std::is_const_v< std::remove_reference_t< A > > ? "const& " : "& " ), ... );
  reset(); argLog.clear(); objCopies = 0;
  Obj o[9] = { 1, 2, 3, 4, 5, 6, 7, 8, 9 };
  std::vector< std::string > wantArgs;
  int r = 0, calls = 0, k = 0;
  ( wantArgs.push_back( cat( static_cast< A >( o[k++] ) ) ), ... );
  auto run = [&]( auto & f, auto... K ) { r = shiva::executeSequence< N >( f, static_cast< A >( o[decltype( K )::value] )... ); calls = f.calls; };
  auto spread = [&]( auto & f, auto seq ) { unpack( [&]( auto... K ) { run( f, K... ); }, seq ); };
  auto go = [&]( auto & f ) { spread( f, std::make_index_sequence< sizeof...( A ) >{} ); };
  if ( style == 0 ) { ParamAny f; go( f ); }
  else if constexpr ( N > 0 ) { TemplExact< A... > f; go( f ); }
  else { ParamAny f; go( f ); }
  Trace want( 1 ); for ( int i = 0; i < N; ++i ) want[0].push_back( i );
  expect( want, "executeSequence", w );
  mc::check( r == 101 && calls == 1, "result", [&]{ return w + "returns " + std::to_string( r ) + " after " + std::to_string( calls ) + " call(s)"; } );
  mc::check( argLog == wantArgs && objCopies == 0, "arguments", [&]{ std::string s = w + "the callable received"; for ( auto const & a : argLog ) s += " " + a; s += ", not"; for ( auto const & a : wantArgs ) s += " " + a; return s + ", copies " + std::to_string( objCopies ); } );
}
template< int N, typename... A > static void execTree( int left, int const style )
{
  if ( left == 0 ) { execOne< N, A... >( style ); return; }
  if constexpr ( sizeof...( A ) < 3 )
    switch ( mc::choose( 3, "category" ) )
    {
      case 0: execTree< N, A..., Obj & >( left - 1, style ); break;
      case 1: execTree< N, A..., Obj const & >( left - 1, style ); break;
      default: execTree< N, A..., Obj && >( left - 1, style ); break;
    }
}
// many arguments: all of one category, and the categories in turn
template< int C > struct ArgCat { using type = Obj &; };
template<> struct ArgCat< 1 > { using type = Obj const &; };
template<> struct ArgCat< 2 > { using type = Obj &&; };
template< int N, int C, int STEP, int... K > static void execPattern( std::integer_sequence< int, K... >, int const style ) { execOne< N, typename ArgCat< ( C + K * STEP ) % 3 >::type... >( style ); }
template< int N, int M > static void execMany()
{
  int const style = mc::choose( 2, "style" );
  using Seq = std::make_integer_sequence< int, M >;
  switch ( mc::choose( 6, "pattern" ) )
  {
    case 0: execPattern< N, 0, 0 >( Seq{}, style ); break;
    case 1: execPattern< N, 1, 0 >( Seq{}, style ); break;
    case 2: execPattern< N, 2, 0 >( Seq{}, style ); break;
    case 3: execPattern< N, 0, 1 >( Seq{}, style ); break;
    case 4: execPattern< N, 1, 1 >( Seq{}, style ); break;
    default: execPattern< N, 2, 1 >( Seq{}, style ); break;
  }
}
template< int N > static void execCase() { int const style = mc::choose( 2, "style" ); execTree< N >( mc::choose( 4, "arguments" ), style ); }

template< int N > static void execValues()
{
  // results of every kind, lambdas, constant evaluation
  std::string const w = "executeSequence<" + std::to_string( N ) + "> ";
  auto const sum = shiva::executeSequence< N >( []( auto... i ) { return ( 0 + ... + ( decltype( i )::value * decltype( i )::value ) ); } );
  static constexpr long cs = shiva::executeSequence< N >( []( auto... i ) constexpr { long h = 3; ( ( h = h * 7 + decltype( i )::value ), ... ); return h; } );
  static constexpr long ca = shiva::executeSequence< N >( []( long a, long b, auto... i ) constexpr { long h = a * 1000 + b; ( ( h = h * 7 + decltype( i )::value ), ... ); return h; }, 4L, 9L );
  int s = 0; long h = 3, g = 4009; for ( int i = 0; i < N; ++i ) { s += i * i; h = h * 7 + i; g = g * 7 + i; }
  mc::step( 3 ); mc::state( mc::hashString( w ) );
  mc::check( sum == s && cs == h && ca == g, "values", [&]{ return w + "computes " + std::to_string( sum ) + " " + std::to_string( cs ) + " " + std::to_string( ca ); } );
  auto up = shiva::executeSequence< N >( []( std::unique_ptr< int > p, auto... i ) { *p += static_cast< int >( sizeof...( i ) ); return p; }, std::make_unique< int >( 5 ) );
  mc::check( *up == 5 + N, "values", [&]{ return w + "cannot pass a move-only argument through"; } );
#if __cplusplus >= 202002L
  static constexpr long c20 = shiva::executeSequence< N >( []< int... I >( long a ) constexpr { long q = a; ( ( q = q * 7 + I ), ... ); return q; }, 3L );
  mc::check( c20 == h, "values", [&]{ return w + "template lambda computes something else"; } );
#endif
  // an expansion inside an expansion
  auto nest = shiva::executeSequence< N >( []( auto... i ) { return ( 0 + ... + shiva::executeSequence< 3 >( []( auto a, auto... j ) { return ( ( decltype( a )::value * 10 ) * ... * ( decltype( j )::value + 1 ) ); }, i ) ); } );
  int wn = 0; for ( int i = 0; i < N; ++i ) wn += i * 10 * 6;
  mc::check( nest == wn, "values", [&]{ return w + "nested expansion gives " + std::to_string( nest ); } );
}

template< int N > static void execLong()
{
  // long expansions: every index, once, in order
  std::string const w = "executeSequence<" + std::to_string( N ) + "> ";
  reset();
  int const r = shiva::executeSequence< N >( []( int a, auto... i ) { trace.push_back( { val( i )... } ); return a + static_cast< int >( sizeof...( i ) ); }, 7 );
  Trace want( 1 ); for ( int i = 0; i < N; ++i ) want[0].push_back( i );
  expect( want, "executeSequence", w );
  mc::check( r == 7 + N, "result", [&]{ return w + "returns " + std::to_string( r ); } );
  static constexpr unsigned long cs = shiva::executeSequence< N >( []( auto... i ) constexpr { unsigned long h = 3; ( ( h = h * 7 + static_cast< unsigned long >( decltype( i )::value ) ), ... ); return h; } );
  unsigned long h = 3; for ( int i = 0; i < N; ++i ) h = h * 7 + static_cast< unsigned long >( i );
  mc::check( cs == h, "values", [&]{ return w + "computes something else in constant evaluation"; } );
}

// ---- integer packs --------------------------------------------------------------------------------------------
template< int... I > struct Holder { static constexpr int n = sizeof...( I ); static Trace all() { return Trace{ { I... } }; } };
template< int... V, size_t... K > static void peel( std::index_sequence< K... > )
{
  int const want[] = { V... };
  static constexpr int got[] = { shiva::IntPackPeeler< static_cast< int >( K ), V... >::value()... };
  for ( size_t k = 0; k < sizeof...( V ); ++k )
  {
    mc::step(); mc::state( mc::hashString( ends< V... >() ) + k );
    mc::check( got[k] == want[k], "peeler", [&]{ return "element " + std::to_string( k ) + " of " + ends< V... >() + " is " + std::to_string( got[k] ); } );
  }
  using A = typename shiva::SequenceAlias< Holder, std::integer_sequence< int, V... > >::type;
  mc::check( std::is_same_v< A, Holder< V... > > && std::is_same_v< shiva::int_sequence< V... >, std::integer_sequence< int, V... > >, "alias", [&]{ return "alias of " + ends< V... >(); } );
}
template< int... V > static void peelCase() { peel< V... >( std::make_index_sequence< sizeof...( V ) >{} ); }

template< int... I > static void peelLong( std::integer_sequence< int, I... > ) { peelCase< ( I * 37 + 5 ) % 101 ... >(); }
template< int N > static void peelLongCase() { peelLong( std::make_integer_sequence< int, N >{} ); }

template< int... E > static void addNested( mc::Cases & c, Sh< E... > ) { c.emplace_back( "nested" + ends< E... >(), nestedCase< E... > ); }
template< typename... S > static void addAll( mc::Cases & c, List< S... > ) { ( addNested( c, S{} ), ... ); }
template< int... D > static Sh< ( D - 1 )... > minus( Sh< D... > );
template< typename... S > static List< decltype( minus( S{} ) )... > minusAll( List< S... > );
template< int M, int R > using Zero = decltype( minusAll( typename AllShapes< M + 1, R >::type{} ) );
template< int... N > static void addSeq( mc::Cases & c, std::integer_sequence< int, N... > ) { ( c.emplace_back( "forSequence", seqCase< N > ), ... ); ( c.emplace_back( "values", execValues< N > ), ... ); }

static void body()
{
  static mc::Cases c;
  if ( c.empty() )
  {
#if PART == 0
    addSeq( c, std::make_integer_sequence< int, 10 >{} );
    c.emplace_back( "forSequence", seqCase< 33 > );
    c.emplace_back( "execute", execCase< 0 > ); c.emplace_back( "execute", execCase< 1 > ); c.emplace_back( "execute", execCase< 2 > );
    c.emplace_back( "peel", peelCase< 4 > ); c.emplace_back( "peel", peelCase< 3, 1, 4, 1, 5, 9, 2, 6 > ); c.emplace_back( "peel", peelCase< -1, 0, 7 > ); c.emplace_back( "peel", peelCase< 8, 8, 2 > );
    c.emplace_back( "peel", peelLongCase< 9 > ); c.emplace_back( "peel", peelLongCase< 10 > ); c.emplace_back( "peel", peelLongCase< 17 > ); c.emplace_back( "peel", peelLongCase< 33 > ); c.emplace_back( "peel", peelLongCase< 70 > );
#elif PART == 1
    c.emplace_back( "execute", execCase< 3 > ); c.emplace_back( "execute", execCase< 5 > );
    c.emplace_back( "execute", execMany< 2, 4 > ); c.emplace_back( "execute", execMany< 1, 5 > ); c.emplace_back( "execute", execMany< 3, 6 > ); c.emplace_back( "execute", execMany< 2, 9 > );
    addAll( c, Zero< 5, 1 >{} ); addAll( c, Zero< 4, 2 >{} );
#elif PART == 2
    addAll( c, Zero< 3, 3 >{} );
#elif PART == 4
    // long loops, at and past the powers of two (clang folds at most 256 operands)
    c.emplace_back( "forSequence", seqCase< 64 > ); c.emplace_back( "forSequence", seqCase< 65 > ); c.emplace_back( "forSequence", seqCase< 100 > );
    c.emplace_back( "forSequence", seqCase< 128 > ); c.emplace_back( "forSequence", seqCase< 129 > ); c.emplace_back( "forSequence", seqCase< 200 > );
    c.emplace_back( "execute", execLong< 16 > ); c.emplace_back( "execute", execLong< 17 > ); c.emplace_back( "execute", execLong< 33 > ); c.emplace_back( "execute", execLong< 64 > ); c.emplace_back( "execute", execLong< 65 > ); c.emplace_back( "execute", execLong< 129 > ); c.emplace_back( "execute", execLong< 200 > );
    addAll( c, List< Sh< 130, 2 >, Sh< 2, 130 >, Sh< 200 >, Sh< 1, 140 >, Sh< 12, 12 >, Sh< 17, 16 >, Sh< 7, 6, 5 >, Sh< 2, 2, 2, 2, 2, 2 >, Sh< 1, 1, 1, 1, 1, 1, 2 >, Sh< 3, 0, 130 > >{} );
#else
    addAll( c, Zero< 2, 4 >{} );
    addAll( c, List< Sh< 4, 3, 2, 3 >, Sh< 2, 1, 3, 2, 2 >, Sh< 5, 4, 3 > >{} );
#endif
  }
  mc::pickCase( c );
}
MC_MAIN( body )
