// Runtime behind -fsanitize=thread: compiled without it.
#include "mc/mc.hpp"
#include "mc/sched.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <unordered_map>

namespace sched
{
namespace
{
constexpr int MAXT = 4;
struct Clock { unsigned c[MAXT] = {}; void join( Clock const & o ) { for ( int i = 0; i < MAXT; ++i ) if ( o.c[i] > c[i] ) c[i] = o.c[i]; } };
struct Cell { unsigned w[MAXT] = {}, r[MAXT] = {}; };
struct Thread { pthread_t id; sem_t sem; int tid = 0; bool done = false; bool blocked = false; Clock clock; std::function< void() > const * body = nullptr; };
Thread * threads[MAXT];
int numThreads = 0, current = -1, left = 0;
bool running = false, coarse = false;
std::unordered_map< uintptr_t, Cell > * cells;
std::unordered_map< uintptr_t, Clock > * syncs;
Report report;
sem_t mainSem;

thread_local Thread * self = nullptr;
thread_local int active = 0;
thread_local bool inHook = false;
thread_local uintptr_t stackLo = 0, stackHi = 0;

void switchTo( int k )
{
  Thread * const me = self;
  report.switches++;
  current = k;
  sem_post( &threads[k]->sem );
  if ( me && !me->done ) sem_wait( &me->sem );
}
// Lets another thread run if the explorer says so. forced: the current one cannot go on.
void schedule( bool const forced )
{
  if ( !running || !self ) return;
  int other[MAXT], n = 0;
  for ( int k = 0; k < numThreads; ++k ) if ( k != self->tid && !threads[k]->done && !threads[k]->blocked ) other[n++] = k;
  if ( forced )
  {
    if ( n == 0 ) mc::fatal( "deadlock in the harness" );
    switchTo( other[n > 1 ? mc::choose( n, "next" ) : 0] );
    return;
  }
  report.points++;
  if ( n == 0 || left == 0 ) return;
  int const c = mc::choose( n + 1, "schedule" );
  if ( c > 0 ) { left--; switchTo( other[c - 1] ); }
}
void race( uintptr_t a, int t, bool wr, bool other, int u )
{
  if ( report.races.size() < 4 )
  {
    char b[200];
    std::snprintf( b, sizeof b, "thread %d %s memory that thread %d %s, with nothing between to order them", t, wr ? "writes" : "reads", u, other ? "writes" : "reads" );
    for ( auto const & r : report.races ) if ( r == b ) return;
    report.races.push_back( b );
  }
  (void) a;
}
void access( void const * p, size_t n, bool const wr )
{
  if ( !active || inHook || !running || !self ) return;
  uintptr_t const a = reinterpret_cast< uintptr_t >( p );
  if ( a >= stackLo && a < stackHi ) return;
  inHook = true;
  bool relevant = wr || !coarse;
  for ( uintptr_t x = a; x < a + n && !relevant; ++x )
  {
    auto const it = cells->find( x );
    if ( it != cells->end() ) for ( int u = 0; u < numThreads; ++u ) relevant = relevant || it->second.w[u];
  }
  if ( relevant ) schedule( false );
  int const t = self->tid;
  for ( uintptr_t x = a; x < a + n; ++x )
  {
    Cell & c = ( *cells )[x];
    for ( int u = 0; u < numThreads; ++u )
      if ( u != t )
      {
        if ( c.w[u] > self->clock.c[u] ) race( x, t, wr, true, u );
        if ( wr && c.r[u] > self->clock.c[u] ) race( x, t, wr, false, u );
      }
    ( wr ? c.w : c.r )[t] = self->clock.c[t];
  }
  inHook = false;
}
void sync( void const * p )
{
  if ( !running || !self ) return;
  Clock & c = ( *syncs )[reinterpret_cast< uintptr_t >( p )];
  self->clock.join( c );
  c = self->clock;
  self->clock.c[self->tid]++;
}
void atomicPoint( void const * p )
{
  if ( !active || inHook || !running || !self ) return;
  uintptr_t const a = reinterpret_cast< uintptr_t >( p );
  if ( a >= stackLo && a < stackHi ) return;
  inHook = true; schedule( false ); sync( p ); inHook = false;
}
void * entry( void * arg )
{
  self = static_cast< Thread * >( arg );
  pthread_attr_t at; pthread_getattr_np( pthread_self(), &at );
  void * lo; size_t sz; pthread_attr_getstack( &at, &lo, &sz ); pthread_attr_destroy( &at );
  stackLo = reinterpret_cast< uintptr_t >( lo ); stackHi = stackLo + sz;
  sem_wait( &self->sem );
  ( *self->body )();
  self->done = true;
  int other[MAXT], n = 0;
  for ( int k = 0; k < numThreads; ++k ) if ( !threads[k]->done && !threads[k]->blocked ) other[n++] = k;
  if ( n == 0 ) { current = -1; sem_post( &mainSem ); }
  else switchTo( other[n > 1 ? mc::choose( n, "next" ) : 0] );
  return nullptr;
}
} // namespace

Report run( std::vector< std::function< void() > > const & bodies, int preemptions, bool writesOnly )
{
  coarse = writesOnly;
  report = Report();
  cells = new std::unordered_map< uintptr_t, Cell >; syncs = new std::unordered_map< uintptr_t, Clock >;
  numThreads = static_cast< int >( bodies.size() ); left = preemptions;
  sem_init( &mainSem, 0, 0 );
  for ( int k = 0; k < numThreads; ++k )
  {
    Thread * t = threads[k] = new Thread;
    t->tid = k; t->body = &bodies[static_cast< size_t >( k )]; t->clock.c[k] = 1;
    sem_init( &t->sem, 0, 0 );
  }
  running = true;
  for ( int k = 0; k < numThreads; ++k ) if ( pthread_create( &threads[k]->id, nullptr, entry, threads[k] ) != 0 ) mc::fatal( "pthread_create" );
  int const first = mc::choose( numThreads, "first" );
  current = first;
  sem_post( &threads[first]->sem );
  sem_wait( &mainSem );
  for ( int k = 0; k < numThreads; ++k ) pthread_join( threads[k]->id, nullptr );
  running = false;
  for ( int k = 0; k < numThreads; ++k ) delete threads[k];
  delete cells; delete syncs;
  return report;
}
void point() { if ( active && !inHook ) { inHook = true; schedule( false ); inHook = false; } }
void enter() { active++; }
void leave() { active--; }
} // namespace sched

// Memory that is given back may be used by another thread without any race.
static void forget( void * p, size_t n ) { using namespace sched; if ( running && cells && self ) for ( uintptr_t x = reinterpret_cast< uintptr_t >( p ); n--; ++x ) cells->erase( x ); }
#include <malloc.h>
#include <new>
void * operator new( size_t n ) { void * p = std::malloc( n ? n : 1 ); if ( !p ) std::abort(); return p; }
void operator delete( void * p ) noexcept { if ( p && sched::active && !sched::inHook ) { sched::inHook = true; forget( p, malloc_usable_size( p ) ); sched::inHook = false; } std::free( p ); }
void operator delete( void * p, size_t ) noexcept { operator delete( p ); }

#define H extern "C" __attribute__( ( visibility( "default" ) ) )
H void __tsan_init() {}
H void __tsan_func_entry( void * ) {}
H void __tsan_func_exit() {}
#define RW( n ) \
  H void __tsan_read ## n( void * p ) { sched::access( p, n, false ); } \
  H void __tsan_write ## n( void * p ) { sched::access( p, n, true ); } \
  H void __tsan_read_write ## n( void * p ) { sched::access( p, n, true ); } \
  H void __tsan_unaligned_read ## n( void * p ) { sched::access( p, n, false ); } \
  H void __tsan_unaligned_write ## n( void * p ) { sched::access( p, n, true ); } \
  H void __tsan_unaligned_read_write ## n( void * p ) { sched::access( p, n, true ); } \
  H void __tsan_volatile_read ## n( void * p ) { sched::access( p, n, false ); } \
  H void __tsan_volatile_write ## n( void * p ) { sched::access( p, n, true ); } \
  H void __tsan_unaligned_volatile_read ## n( void * p ) { sched::access( p, n, false ); } \
  H void __tsan_unaligned_volatile_write ## n( void * p ) { sched::access( p, n, true ); }
RW( 1 ) RW( 2 ) RW( 4 ) RW( 8 ) RW( 16 )
H void __tsan_read_range( void * p, size_t n ) { sched::access( p, n, false ); }
H void __tsan_write_range( void * p, size_t n ) { sched::access( p, n, true ); }
H void __tsan_vptr_update( void * p, void * ) { sched::access( p, sizeof( void * ), true ); }
H void __tsan_vptr_read( void * p ) { sched::access( p, sizeof( void * ), false ); }
H void * __tsan_memcpy( void * d, void const * s, size_t n ) { sched::access( s, n, false ); sched::access( d, n, true ); return std::memcpy( d, s, n ); }
H void * __tsan_memmove( void * d, void const * s, size_t n ) { sched::access( s, n, false ); sched::access( d, n, true ); return std::memmove( d, s, n ); }
H void * __tsan_memset( void * d, int c, size_t n ) { sched::access( d, n, true ); return std::memset( d, c, n ); }
#define AT( n, T ) \
  H T __tsan_atomic ## n ## _load( T const volatile * p, int ) { sched::atomicPoint( const_cast< T const * >( p ) ); return __atomic_load_n( p, 5 ); } \
  H void __tsan_atomic ## n ## _store( T volatile * p, T v, int ) { sched::atomicPoint( const_cast< T * >( p ) ); __atomic_store_n( p, v, 5 ); } \
  H T __tsan_atomic ## n ## _exchange( T volatile * p, T v, int ) { sched::atomicPoint( const_cast< T * >( p ) ); return __atomic_exchange_n( p, v, 5 ); } \
  H T __tsan_atomic ## n ## _fetch_add( T volatile * p, T v, int ) { sched::atomicPoint( const_cast< T * >( p ) ); return __atomic_fetch_add( p, v, 5 ); } \
  H T __tsan_atomic ## n ## _fetch_sub( T volatile * p, T v, int ) { sched::atomicPoint( const_cast< T * >( p ) ); return __atomic_fetch_sub( p, v, 5 ); } \
  H T __tsan_atomic ## n ## _fetch_and( T volatile * p, T v, int ) { sched::atomicPoint( const_cast< T * >( p ) ); return __atomic_fetch_and( p, v, 5 ); } \
  H T __tsan_atomic ## n ## _fetch_or( T volatile * p, T v, int ) { sched::atomicPoint( const_cast< T * >( p ) ); return __atomic_fetch_or( p, v, 5 ); } \
  H T __tsan_atomic ## n ## _fetch_xor( T volatile * p, T v, int ) { sched::atomicPoint( const_cast< T * >( p ) ); return __atomic_fetch_xor( p, v, 5 ); } \
  H int __tsan_atomic ## n ## _compare_exchange_strong( T volatile * p, T * e, T v, int, int ) { sched::atomicPoint( const_cast< T * >( p ) ); return __atomic_compare_exchange_n( p, e, v, false, 5, 5 ); } \
  H int __tsan_atomic ## n ## _compare_exchange_weak( T volatile * p, T * e, T v, int, int ) { sched::atomicPoint( const_cast< T * >( p ) ); return __atomic_compare_exchange_n( p, e, v, false, 5, 5 ); }
AT( 8, unsigned char ) AT( 16, unsigned short ) AT( 32, unsigned int ) AT( 64, unsigned long )
H void __tsan_atomic_thread_fence( int ) {}
H void __tsan_atomic_signal_fence( int ) {}

// Initialization of function-local statics: at most one thread initializes, the others wait for it.
H int __cxa_guard_acquire( long long * gg )
{
  using namespace sched;
  unsigned char volatile * const g = reinterpret_cast< unsigned char * >( gg );
  for (;; )
  {
    if ( g[0] ) { if ( running && self && !inHook ) { inHook = true; sync( gg ); inHook = false; } return 0; }
    if ( !g[1] ) { g[1] = 1; return 1; }
    if ( !running || !self ) mc::fatal( "recursive initialization" );
    bool const h = inHook; inHook = true; schedule( true ); inHook = h;
  }
}
H void __cxa_guard_release( long long * gg )
{
  using namespace sched;
  if ( running && self && !inHook ) { inHook = true; sync( gg ); inHook = false; }
  unsigned char volatile * const g = reinterpret_cast< unsigned char * >( gg );
  g[0] = 1; g[1] = 0;
}
H void __cxa_guard_abort( long long * gg ) { reinterpret_cast< unsigned char * >( gg )[1] = 0; }
