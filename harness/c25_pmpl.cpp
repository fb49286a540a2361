// C25: the kernel wrappers of pmpl.hpp, on the host and on an emulated device, under every single and double failing
// call, and the comparison helper.
#include "mc/mc.hpp"
#include "emu/emu.hpp"
#undef __host__
#undef __device__
#undef __global__
#undef __forceinline__
#if defined( DEVICE )
#define __host__
#define __device__
#define __global__
#define __forceinline__ inline
#endif
#include "shiva/common/pmpl.hpp"
#include <cmath>
#include <iomanip>
#include <memory>
#include <limits>
#include <sys/wait.h>
#ifdef SHIVA_ENABLE_DEVICE
static constexpr bool device = true;
#else
static constexpr bool device = false;
#endif
using emu::S;

// Runs f in a process of its own; what it prints, and how it ends: 0, a signal number, or -1.
template< typename F > static int child( F && f, std::string & text )
{
  static int const fd = memfd_create( "out", 0 );
  if ( ftruncate( fd, 0 ) != 0 ) mc::fatal( "ftruncate" );
  std::fflush( nullptr );
  pid_t const pid = fork();
  if ( pid < 0 ) mc::fatal( "fork" );
  if ( pid == 0 )
  {
    struct itimerval tv = {}; setitimer( ITIMER_REAL, &tv, nullptr );
    for ( int s : { SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM, SIGTRAP } ) signal( s, SIG_DFL );
    dup2( fd, 1 ); dup2( fd, 2 ); lseek( 1, 0, SEEK_SET );
    alarm( 20 );
    f();
    std::fflush( nullptr );
    _exit( 0 );
  }
  int st = 0;
  while ( waitpid( pid, &st, 0 ) < 0 && errno == EINTR ) {}
  mc::alive();
  long const n = lseek( fd, 0, SEEK_END );
  text.assign( static_cast< size_t >( n ), 0 );
  if ( n > 0 && pread( fd, &text[0], text.size(), 0 ) != n ) mc::fatal( "pread" );
  return WIFSIGNALED( st ) ? WTERMSIG( st ) : WEXITSTATUS( st ) == 0 ? 0 : -1;
}

struct Wide { double a; int b; char c[12]; };
static void make( char & v, int k ) { v = static_cast< char >( 40 + k ); }
static void make( int & v, int k ) { v = 1000003 * ( k + 1 ); }
static void make( double & v, int k ) { v = 0.1 + k * 3.7; }
static void make( Wide & v, int k ) { std::memset( &v, 0, sizeof v ); v.a = k + 0.25; v.b = -k; for ( int i = 0; i < 12; ++i ) v.c[i] = static_cast< char >( 10 * k + i ); }
static void change( char & v, int k ) { v = static_cast< char >( v + 30 + k ); }
static void change( int & v, int k ) { v = v / 3 + k; }
static void change( double & v, int k ) { v = v * 2 - k; }
static void change( Wide & v, int k ) { v.a *= 3; v.b += 7 * k + 1; v.c[11] = static_cast< char >( v.c[0] + k ); }
template< typename T > static bool same( T const & a, T const & b ) { return std::memcmp( &a, &b, sizeof( T ) ) == 0; }

enum KernelFault { none, before, middle, after };

// What a kernel does with its data; copied to wherever it runs. MODE: how the callable is passed.
template< typename T > struct Kernel
{
  int n; KernelFault fault; T const * input;   // input: what it must find (host memory, read by the harness itself)
  void operator()( T * const p ) const
  {
    if ( S->pending ) emu::bad( "the kernel runs while another one does" );
    S->pending = true;
    ++S->runs;
    if ( !device || emu::access( p, static_cast< size_t >( n ) * sizeof( T ) ) )
    {
      if ( device && fault == before ) emu::kernelFails();
      else
        for ( int k = 0; k < n; ++k )
        {
          if ( device && fault == middle && k == n / 2 ) { emu::kernelFails(); break; }
          if ( !same( p[k], input[k] ) ) S->dataOk = false;
          change( p[k], k );
        }
      if ( device && fault == middle && n == 0 ) emu::kernelFails();
      if ( device && fault == after ) emu::kernelFails();
    }
    S->pending = false;
  }
};
struct Plain { KernelFault fault; void operator()() const { ++S->runs; if ( device && fault != none ) emu::kernelFails(); } };
template< typename K > struct Mutable : K { int calls = 0; Mutable( K const & k ): K( k ) {} template< typename... A > void operator()( A... a ) { ++calls; static_cast< K const & >( *this )( a... ); } };

// Calls the wrapper with the callable given as an rvalue, lvalue, const lvalue, lambda, mutable functor or reference to one.
template< typename K, typename CALL > static void pass( int const mode, K const k, CALL && call )
{
  switch ( mode )
  {
    case 0: call( K( k ) ); break;
    case 1: { K l( k ); call( l ); break; }
    case 2: { K const l( k ); call( l ); break; }
    case 3: call( [=]( auto... a ){ k( a... ); } ); break;
    case 4: call( Mutable< K >( k ) ); break;
    case 5: { Mutable< K > m( k ); call( m ); break; }
    case 6: { auto const l = [k, x = 3]( auto... a ) mutable { if ( ++x == 4 ) k( a... ); }; call( l ); break; }
    default: { struct MoveOnly { K k; std::unique_ptr< int > p; void operator()( std::conditional_t< std::is_same_v< K, Plain >, int, int > = 0 ) const { } }; (void) sizeof( MoveOnly ); call( K( k ) ); }
  }
}

static void reset()
{
  if ( !S ) { void * m = mmap( nullptr, sizeof( emu::Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ); if ( m == MAP_FAILED ) mc::fatal( "mmap" ); S = static_cast< emu::Shared * >( m ); }
  std::memset( static_cast< void * >( S ), 0, sizeof *S );
  S->fault[0] = S->fault[1] = -1;
  S->dataOk = true;
}
static std::string calls() { std::string s; for ( int k = 0; k < S->calls && k < 64; ++k ) { s += S->log[k].op; if ( S->log[k].failed ) s += '!'; } return s; }

// The wrapper was run in a child: judge what it left behind. shouldFail: some call other than a release failed.
static void judge( std::string const & who, int const end, std::string const & text, bool const abortOnError, KernelFault const kf, int const nBytes, bool const data )
{
  bool fatalFault = device && kf != none && S->runs > 0;
  for ( int k = 0; k < S->calls && k < 64; ++k ) if ( S->log[k].failed && S->log[k].op != 'F' ) fatalFault = true;
  bool const freeFault = S->faulted && !fatalFault;
  auto const say = [&]( char const * what ){ return [&, what]{ return who + ": " + what + " (calls " + calls() + ", " + std::to_string( S->runs ) + " executions, ended with " + std::to_string( end ) + ", printed '" + text.substr( 0, 120 ) + "')"; }; };
  mc::step();
  mc::state( mc::mix( mc::hashString( calls() ), static_cast< uint64_t >( S->runs * 8 + end * 64 + S->returned ) ) );
  mc::observe( mc::hashString( calls() + text ) );
  if ( mc::tracing() ) mc::note( who + ": calls " + calls() + ", ended with " + std::to_string( end ) );
  mc::check( S->nbad == 0, "misuse of the device", say( S->bad ) );
  mc::check( S->runs <= 1, "executed once", say( "executed more than once" ) );
  mc::check( end == 0 || end == SIGABRT, "crash", say( "the process crashed" ) );
  if ( !fatalFault )
  {
    mc::check( end == 0 && S->returned, "spurious abort", say( "ended although no kernel failed" ) );
    mc::check( S->runs == 1, "executed once", say( "not executed exactly once" ) );
    mc::check( S->dataOk, "data of the kernel", say( "the kernel was not given the data of the host buffer" ) );
    mc::check( S->afterOk, "data of the host", say( "the host buffer does not hold what the kernel left" ) );
    if ( !freeFault ) mc::check( text.empty(), "spurious report", say( "reports a failure though nothing failed" ) );
    if ( device && data ) mc::check( S->copiedIn == nBytes && S->copiedOut == nBytes, "sizes of the copies", [&]{ return who + ": copied " + std::to_string( S->copiedIn ) + " bytes in and " + std::to_string( S->copiedOut ) + " out, not " + std::to_string( nBytes ); } );
  }
  else
  {
    mc::check( !text.empty(), "report", say( "a failure is not reported" ) );
    mc::check( ( end == SIGABRT ) == abortOnError, "abort", say( abortOnError ? "did not abort although asked to" : "aborted although not asked to" ) );
  }
  if ( end == 0 )
  {
    mc::check( S->guardsOk, "beyond the data", say( "elements beyond the data changed" ) );
    mc::check( S->live == 0, "released", say( "device memory is not released" ) );
  }
}

template< typename T, int OVERLOAD > static void wrapper()
{
  reset();
  int const n = OVERLOAD == 1 ? mc::choose( 5, "elements" ) : 0;
  int const mode = mc::choose( 7, "callable" );
  bool const again = mc::flip( "second run" );   // a second kernel after the first
  int const ab = again ? 2 : mc::choose( 3, "abort" );   // default argument, true, false
  KernelFault const kf = device && !again ? static_cast< KernelFault >( mc::choose( 4, "kernel" ) ) : none;
  if ( device )
  {
    S->deferred = mc::flip( "deferred" );
    int const limit = again ? 13 : 7;
    S->fault[0] = mc::choose( limit, "failing call" ) - 1;
    if ( S->fault[0] >= 0 && ( mc::thorough() || mode == 0 ) ) { S->fault[1] = mc::choose( limit, "second failing call" ) - 1; if ( S->fault[1] <= S->fault[0] && S->fault[1] >= 0 ) return; }
  }
  bool const null = OVERLOAD == 1 && n == 0 && mc::flip( "null pointer" );   // an empty buffer need not exist
  constexpr int guard = 3;
  static T buffer[16], first[16], want[16];
  for ( int k = 0; k < 16; ++k ) make( buffer[k], k );
  std::memcpy( first, buffer, sizeof first );
  std::memcpy( want, buffer, sizeof want );
  int const rounds = again ? 2 : 1;
  std::string text;
  T * const data = null ? nullptr : buffer + guard;
  S->host = reinterpret_cast< char const * >( buffer + guard ); S->hostBytes = n * static_cast< long >( sizeof( T ) ); S->guardBytes = guard * static_cast< long >( sizeof( T ) );
  if ( !again )
  {
    for ( int k = 0; k < n; ++k ) change( want[guard + k], k );
    int const end = child( [&]
    {
      auto const finish = [&]
      {
        S->returned = true;
        if ( !emu::queue().empty() ) { emu::bad( "the wrapper returned before its kernel was done" ); emu::drain(); }
        S->afterOk = std::memcmp( buffer, want, sizeof want ) == 0;
        S->guardsOk = std::memcmp( buffer, want, guard * sizeof( T ) ) == 0 && std::memcmp( buffer + guard + n, want + guard + n, ( 16 - static_cast< size_t >( guard + n ) ) * sizeof( T ) ) == 0;
      };
      if constexpr ( OVERLOAD == 1 )
        pass( mode, Kernel< T >{ n, kf, first + guard }, [&]( auto && f ){ using F = decltype( f ); if ( ab == 0 ) shiva::pmpl::genericKernelWrapper( n, data, std::forward< F >( f ) ); else shiva::pmpl::genericKernelWrapper( n, data, std::forward< F >( f ), ab == 1 ); } );
      else
        pass( mode, Plain{ kf }, [&]( auto && f ){ using F = decltype( f ); if ( ab == 0 ) shiva::pmpl::genericKernelWrapper( std::forward< F >( f ) ); else shiva::pmpl::genericKernelWrapper( std::forward< F >( f ), ab == 1 ); } );
      finish();
    }, text );
    judge( mc::typeName< T >(), end, text, ab != 2, kf, static_cast< int >( S->hostBytes ), OVERLOAD == 1 );
  }
  else
  {
    // two runs in a row, never aborting: the second must not depend on the first unless that failed
    for ( int r = 0; r < rounds; ++r ) for ( int k = 0; k < n; ++k ) change( want[guard + k], k );
    int const end = child( [&]
    {
      for ( int r = 0; r < rounds; ++r )
      {
        if constexpr ( OVERLOAD == 1 )
        {
          static T input[16]; std::memcpy( input, buffer, sizeof input );
          pass( mode, Kernel< T >{ n, none, input + guard }, [&]( auto && f ){ shiva::pmpl::genericKernelWrapper( n, data, std::forward< decltype( f ) >( f ), false ); } );
        }
        else
          pass( mode, Plain{ none }, [&]( auto && f ){ shiva::pmpl::genericKernelWrapper( std::forward< decltype( f ) >( f ), false ); } );
      }
      S->returned = true;
      if ( !emu::queue().empty() ) { emu::bad( "the wrapper returned before its kernel was done" ); emu::drain(); }
      S->afterOk = std::memcmp( buffer, want, sizeof want ) == 0;
    }, text );
    mc::step();
    mc::state( mc::mix( mc::hashString( calls() ), 77 ) ); mc::observe( mc::hashString( calls() + text ) );
    auto const say = [&]{ return std::string( mc::typeName< T >() ) + ": calls " + calls() + ", ended with " + std::to_string( end ) + ", " + S->bad; };
    mc::check( end == 0 && S->returned && S->nbad == 0, "two runs", say );
    mc::check( S->live == 0, "released", say );
    if ( !S->faulted ) mc::check( S->runs == 2 && S->afterOk && S->dataOk && text.empty(), "two runs", say );
  }
}

#if !defined( DEVICE )
// callables that can only be moved, function pointers, and a count of destructions
static int plainCalls;
static void function() { ++plainCalls; }
static void dataFunction( int * p ) { ++plainCalls; p[0] += 5; }
static void hostOnly()
{
  plainCalls = 0;
  int d[3] = { 1, 2, 3 }, c = 0;
  switch ( mc::choose( 7, "callable" ) )
  {
    case 0: shiva::pmpl::genericKernelWrapper( &function ); mc::check( plainCalls == 1, "executed once", "function pointer" ); break;
    case 1: shiva::pmpl::genericKernelWrapper( function ); mc::check( plainCalls == 1, "executed once", "function" ); break;
    case 2: shiva::pmpl::genericKernelWrapper( 3, d, &dataFunction ); mc::check( plainCalls == 1 && d[0] == 6 && d[1] == 2 && d[2] == 3, "executed once", "data function" ); break;
    case 3: { auto p = std::make_unique< int >( 4 ); shiva::pmpl::genericKernelWrapper( [q = std::move( p ), &c]{ c += *q; } ); mc::check( c == 4, "executed once", "move-only callable" ); break; }
    case 4: { auto p = std::make_unique< int >( 4 ); shiva::pmpl::genericKernelWrapper( 3, d, [q = std::move( p )]( int * x ){ x[2] += *q; }, false ); mc::check( d[2] == 7 && d[0] == 1, "executed once", "move-only callable" ); break; }
    case 5:
    {
      // on the host the kernel is given the host buffer itself, whatever its length, also reached through captures
      int const n = mc::choose( 40, "elements" );
      static double b[64]; double seen = -1; double * where = nullptr;
      for ( int k = 0; k < 64; ++k ) b[k] = k;
      shiva::pmpl::genericKernelWrapper( n, b, [&]( double * x ){ where = x; if ( n > 0 ) { b[n - 1] = -7; seen = x[n - 1]; x[0] += 100; ++c; b[0] += 1000; } } );
      bool same = where == b;
      for ( int k = 0; k < 64; ++k ) same = same && b[k] == ( k == n - 1 ? -7 : k ) + ( k == 0 && n > 0 ? 1100 : 0 );
      mc::check( same && ( n == 0 || ( seen == -7 && c == 1 ) ), "data of the host", [&]{ return "a kernel on " + std::to_string( n ) + " elements was not given the host buffer itself"; } );
      break;
    }
    default:
      // kernels within kernels
      shiva::pmpl::genericKernelWrapper( 3, d, [&]( int * x ){ shiva::pmpl::genericKernelWrapper( 2, x + 1, [&]( int * y ){ shiva::pmpl::genericKernelWrapper( [&]{ y[1] += x[0] * 10; ++c; } ); y[0] = 9; } ); } );
      mc::check( c == 1 && d[0] == 1 && d[1] == 9 && d[2] == 13, "executed once", "nested kernels" );
  }
  mc::step();
}
struct Counted { static inline int alive = 0; int v = 3; Counted() { ++alive; } ~Counted() { --alive; v = -1; } };
static void deallocation()
{
  int const n = mc::choose( 4, "elements" );
  Counted * const c = new Counted[static_cast< size_t >( n )];
  double * const d = new double[static_cast< size_t >( n )];
  shiva::pmpl::deallocateData( c );
  shiva::pmpl::deallocateData( d );
  mc::check( Counted::alive == 0, "released", [&]{ return std::to_string( Counted::alive ) + " of " + std::to_string( n ) + " elements were not destroyed"; } );
  Counted::alive = 0;
  mc::step();
}
#else
// the portability names themselves, in every short order
static void layer()
{
  reset();
  std::string text;
  S->deferred = mc::flip( "deferred" );
  bool const managed = mc::flip( "managed" );
  int const n = 1 + mc::choose( 4, "elements" );
  int const free = mc::choose( 2, "deallocateData" );
  int const end = child( [&]
  {
    using namespace shiva;
    double h[4] = { 1, 2, 3, 4 };
    S->host = reinterpret_cast< char const * >( h ); S->hostBytes = sizeof h; S->guardBytes = 8;
    double * p = nullptr;
    deviceError_t e = deviceSuccess;
    if ( managed ) { deviceMallocManaged( &p, static_cast< size_t >( n ) * sizeof( double ) ) } else { deviceMalloc( &p, static_cast< size_t >( n ) * sizeof( double ) ) }
    if ( !emu::find( p ) || emu::find( p )->managed != managed ) emu::bad( "wrong kind of allocation" );
    deviceMemCpy( p, h, static_cast< size_t >( n ) * sizeof( double ), deviceMemcpyHostToDevice )
    pmpl::genericKernelWrapper( [=]{ ++S->runs; for ( int k = 0; k < n; ++k ) p[k] *= 10; } );
    deviceMemCpy( h, p, static_cast< size_t >( n ) * sizeof( double ), deviceMemcpyDeviceToHost )
    e = deviceDeviceSynchronize()
    if ( e != deviceSuccess ) emu::bad( deviceGetErrorString( e ) );
    if ( free ) pmpl::deallocateData( p ); else { deviceFree( p ) }
    S->dataOk = true;
    for ( int k = 0; k < 4; ++k ) if ( h[k] != ( k < n ? 10 : 1 ) * ( k + 1. ) ) S->dataOk = false;
    S->returned = true;
  }, text );
  mc::step(); mc::state( mc::mix( mc::hashString( calls() ), static_cast< uint64_t >( n ) ) ); mc::observe( mc::hashString( calls() ) );
  mc::check( end == 0 && S->returned && S->nbad == 0 && S->runs == 1 && S->dataOk && S->live == 0, "portability names", [&]{ return "calls " + calls() + ", ended with " + std::to_string( end ) + ", " + S->bad; } );
}
#endif

template< typename F > static void compareOne()
{
  using L = std::numeric_limits< F >;
  static std::vector< F > const v = []{
    std::vector< F > r { F( 0 ), F( 1 ), F( -1 ), F( 2 ), F( 3 ), F( -3 ), F( 100 ) };
    if constexpr ( !L::is_integer )
      for ( F x : { F( 0.5 ), F( 0.1 ), F( 1e-3 ), F( 1e-6 ), L::epsilon(), F( 1 ) + L::epsilon(), F( 1 ) - L::epsilon() / 2, F( 1 ) + F( 0.125 ), L::min(), L::denorm_min(), L::max(), -L::max(), F( 1e30 ), F( 1e-30 ), F( 3e-30 ), F( -1e-25 ) } ) r.push_back( x );
    else
      for ( F x : { L::max(), L::lowest(), F( L::max() / 2 ), F( 46341 ), F( -65536 ) } ) r.push_back( x );
    return r; }();
  F const a = v[static_cast< size_t >( mc::choose( static_cast< int >( v.size() ), "a" ) )];
  for ( F const b : v )
    for ( F const t : v )
    {
      if ( t < F( 0 ) ) continue;
      using X = long double;
      X const d = static_cast< X >( a ) - static_cast< X >( b );   // exact enough: see below
      X const m = d < 0 ? -d : d;
      if constexpr ( L::is_integer ) { if ( m > static_cast< X >( L::max() ) ) continue; }
      else
      {
        // leave out pairs whose distance is closer to the tolerance than rounding can tell
        if ( m > static_cast< X >( L::max() ) ) continue;
        X const s = 8 * static_cast< X >( L::epsilon() ) * ( std::fabs( static_cast< X >( a ) ) + std::fabs( static_cast< X >( b ) ) );
        if ( m != static_cast< X >( t ) && std::fabs( m - static_cast< X >( t ) ) < s ) continue;
        if ( m == static_cast< X >( t ) && static_cast< X >( static_cast< F >( a - b ) ) != d ) continue;
      }
      mc::step();
      bool const got = shiva::pmpl::check( a, b, t ), want = m < static_cast< X >( t );
      mc::check( got == want, "comparison", [&]{ mc::Str s; s << std::setprecision( 20 ) << "check( " << a << ", " << b << ", " << t << " ) is " << got; return std::string( s ); } );
    }
  mc::state( mc::mix( mc::hashString( mc::typeName< F >() ), mc::hashDouble( static_cast< double >( a ) ) ) ); mc::observe( static_cast< double >( a ) );
  static_assert( shiva::pmpl::check( F( 3 ), F( 2 ), F( 2 ) ) && !shiva::pmpl::check( F( 3 ), F( 2 ), F( 1 ) ) && shiva::pmpl::check( F( 3 ), F( 3 ), F( 1 ) ) && !shiva::pmpl::check( F( 1 ), F( 100 ), F( 50 ) ) );
}

static void body()
{
  static mc::Cases c;
  if ( c.empty() )
  {
    c.emplace_back( "no data", []{ wrapper< int, 0 >(); } );
    c.emplace_back( "data", []{ wrapper< int, 1 >(); } );
    c.emplace_back( "data", []{ wrapper< double, 1 >(); } );
    c.emplace_back( "data", []{ wrapper< char, 1 >(); } );
    c.emplace_back( "data", []{ wrapper< Wide, 1 >(); } );
#if !defined( DEVICE )
    c.emplace_back( "host callables", hostOnly );
    c.emplace_back( "deallocation", deallocation );
#else
    c.emplace_back( "layer", layer );
#endif
    c.emplace_back( "comparison", compareOne< float > );
    c.emplace_back( "comparison", compareOne< double > );
    c.emplace_back( "comparison", compareOne< long double > );
    c.emplace_back( "comparison", compareOne< int > );
  }
  mc::pickCase( c );
}
MC_MAIN( body )
