// A device runtime emulated on the host, for the CUDA and HIP configurations of the library. Device memory is a set of
// tracked allocations; kernels run at their launch or, deferred, at the next call that waits for them; every call can be
// made to fail. Misuse is recorded in shared memory, so that it survives an abort of the process.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace emu
{
enum Error { Success = 0, ErrorInvalidValue = 1, ErrorMemoryAllocation = 2, ErrorLaunch = 9, ErrorDirection = 21, ErrorUnknown = 99, ErrorIllegalAccess = 700, ErrorKernel = 719 };
enum Kind { HostToHost = 0, HostToDevice = 1, DeviceToHost = 2, DeviceToDevice = 3, Default = 4 };
struct Call { char op; long bytes; bool failed; };

// what the harness decides and reads
struct Shared
{
  int fault[2];          // indices of the calls that fail, or -1
  bool deferred;         // kernels run when waited for
  int calls;             // fault points so far
  Call log[64];
  int nbad; char bad[300];
  int runs;              // executions of the callable, counted by the callable
  long copiedIn, copiedOut, mallocs, frees, live;
  char const * host; long hostBytes, guardBytes;   // the buffer handed to the library
  bool returned; bool faulted; bool dataOk; bool afterOk; bool guardsOk; bool pending;
};
inline Shared * S = nullptr;

struct Alloc { char * p; long n; bool live; bool managed; };
inline std::vector< Alloc > & allocs() { static std::vector< Alloc > a; return a; }
inline std::vector< std::function< void() > > & queue() { static std::vector< std::function< void() > > q; return q; }
inline Error & sticky() { static Error e = Success; return e; }
inline Error & last() { static Error e = Success; return e; }

inline void bad( char const * what ) { if ( S->nbad++ == 0 ) std::snprintf( S->bad, sizeof S->bad, "%s", what ); }
inline bool fails( char op, long bytes )
{
  int const k = S->calls++;
  bool const f = k == S->fault[0] || k == S->fault[1];
  if ( k < 64 ) S->log[k] = { op, bytes, f };
  if ( f ) S->faulted = true;
  return f;
}
inline Alloc * find( void const * q, bool const dead = false )
{
  for ( auto & a : allocs() ) if ( ( a.live || dead ) && static_cast< char const * >( q ) >= a.p && static_cast< char const * >( q ) <= a.p + a.n ) return &a;
  return nullptr;
}
inline Error note( Error const e ) { if ( e != Success ) last() = e; return e; }
inline void drain()
{
  auto q = std::move( queue() );
  queue().clear();
  for ( auto & f : q ) if ( sticky() == Success ) f();
}
inline Error allocate( void ** p, size_t const n, bool const managed )
{
  if ( fails( 'M', static_cast< long >( n ) ) ) return note( ErrorMemoryAllocation );
  if ( sticky() != Success ) return note( sticky() );
  ++S->mallocs;
  if ( n == 0 ) { *p = nullptr; --S->mallocs; return Success; }
  char * const m = static_cast< char * >( std::malloc( n + 64 ) );
  std::memset( m, 0xA5, n + 64 );
  allocs().push_back( { m, static_cast< long >( n ), true, managed } );
  ++S->live;
  *p = m;
  return Success;
}
template< typename T > inline Error deviceAlloc( T ** p, size_t const n ) { return allocate( reinterpret_cast< void ** >( p ), n, false ); }
template< typename T > inline Error managedAlloc( T ** p, size_t const n, unsigned = 1 ) { return allocate( reinterpret_cast< void ** >( p ), n, true ); }
inline Error release( void const * p )
{
  drain();
  bool const f = fails( 'F', 0 );
  if ( p == nullptr ) return Success;
  for ( auto & a : allocs() )
    if ( a.p == p )
    {
      if ( !a.live ) continue;
      a.live = false; --S->live; ++S->frees;
      std::memset( a.p, 0xDD, static_cast< size_t >( a.n ) );
      return f ? note( ErrorUnknown ) : sticky() != Success ? note( sticky() ) : Success;
    }
  bad( "memory that is not allocated on the device is released" );
  return note( ErrorInvalidValue );
}
inline bool hostRange( void const * p, size_t const n )
{
  char const * const c = static_cast< char const * >( p );
  if ( c + n <= S->host - S->guardBytes || c >= S->host + S->hostBytes + S->guardBytes ) return true;   // some other memory
  return c >= S->host && c + n <= S->host + S->hostBytes;
}
inline Error copy( void * d, void const * s, size_t const n, Kind const k )
{
  drain();
  if ( fails( k == HostToDevice ? 'I' : k == DeviceToHost ? 'O' : 'C', static_cast< long >( n ) ) ) return note( ErrorUnknown );
  if ( sticky() != Success ) return note( sticky() );
  if ( n == 0 ) return Success;
  Alloc * const ad = find( d, true ), * const as = find( s, true );
  bool const toD = k == HostToDevice || k == DeviceToDevice || ( k == Default && ad ), fromD = k == DeviceToHost || k == DeviceToDevice || ( k == Default && as );
  if ( ( ad != nullptr ) != toD && !( ad && ad->managed ) ) { bad( toD ? "a copy to the device goes to host memory" : "a copy to the host goes to device memory" ); return note( ErrorDirection ); }
  if ( ( as != nullptr ) != fromD && !( as && as->managed ) ) { bad( fromD ? "a copy from the device reads host memory" : "a copy from the host reads device memory" ); return note( ErrorDirection ); }
  if ( ( ad && !ad->live ) || ( as && !as->live ) ) { bad( "a copy uses device memory after its release" ); return note( ErrorInvalidValue ); }
  if ( ( ad && static_cast< char * >( d ) + n > ad->p + ad->n ) || ( as && static_cast< char const * >( s ) + n > as->p + as->n ) ) { bad( "a copy goes beyond the device memory" ); return note( ErrorInvalidValue ); }
  if ( ( !ad && !hostRange( d, n ) ) || ( !as && !hostRange( s, n ) ) ) { bad( "a copy goes beyond the host buffer" ); return note( ErrorInvalidValue ); }
  std::memcpy( d, s, n );
  ( toD && !fromD ? S->copiedIn : fromD && !toD ? S->copiedOut : S->copiedIn ) += static_cast< long >( n );
  return Success;
}
inline Error synchronize()
{
  drain();
  if ( fails( 'S', 0 ) ) return note( ErrorUnknown );
  return note( sticky() );
}
inline Error getLastError() { Error const e = sticky() != Success ? sticky() : last(); last() = Success; return e; }
inline Error peekAtLastError() { return sticky() != Success ? sticky() : last(); }
inline char const * errorString( Error const e )
{
  switch ( e ) { case Success: return "no error"; case ErrorInvalidValue: return "invalid argument"; case ErrorMemoryAllocation: return "out of memory"; case ErrorLaunch: return "invalid configuration"; case ErrorDirection: return "invalid copy direction"; case ErrorIllegalAccess: return "an illegal memory access was encountered"; case ErrorKernel: return "unspecified launch failure"; default: return "unknown error"; }
}
// used by kernels
inline bool access( void const * p, size_t const n )
{
  Alloc * const a = find( p );
  if ( n == 0 || ( a && static_cast< char const * >( p ) + n <= a->p + a->n ) ) return true;
  if ( !S->faulted ) bad( a ? "the kernel is given less memory than its data" : "the kernel is given memory that is not on the device" );
  sticky() = ErrorIllegalAccess;
  return false;
}
inline void kernelFails() { sticky() = ErrorKernel; }

struct Dim { unsigned x, y, z; constexpr Dim( unsigned a = 1, unsigned b = 1, unsigned c = 1 ): x( a ), y( b ), z( c ) {} };
// NAME <<< CONFIG >>> ( ARGS ) is rewritten to ::emu::Launch( CONFIG )( callable, ARGS )
struct Launch
{
  Dim g, b;
  Launch( Dim const grid, Dim const block, size_t = 0, void * = nullptr ): g( grid ), b( block ) {}
  template< typename F, typename... A > void operator()( F && f, A && ... a ) const
  {
    if ( fails( 'K', static_cast< long >( g.x ) * g.y * g.z * b.x * b.y * b.z ) || g.x == 0 || b.x == 0 ) { last() = ErrorLaunch; return; }
    if ( sticky() != Success ) return;
    unsigned long const threads = static_cast< unsigned long >( g.x ) * g.y * g.z * b.x * b.y * b.z;
    auto args = std::make_shared< std::tuple< std::decay_t< A >... > >( std::forward< A >( a )... );
    auto work = [=]{ for ( unsigned long t = 0; t < threads && sticky() == Success; ++t ) std::apply( [&]( auto const & ... v ) { f( std::decay_t< decltype( v ) >( v )... ); }, *args ); };
    if ( S->deferred ) queue().push_back( work ); else work();
  }
};
}

#define __host__
#define __device__
#define __global__
#define __forceinline__ inline
#define __shared__
#define __constant__
