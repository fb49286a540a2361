// Stateless exhaustive explorer: see DESIGN.md.
//
// A harness is a function body() that asks choose(n) for every decision of the environment or the driver, runs the
// real library, and check()s what it observes. mc::run() executes body() once for every possible sequence of answers,
// depth first in lexicographic order (so the first violation found has the smallest choices), and reports counts that
// are measured while running.
#pragma once

#include <csetjmp>
#include <csignal>
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc
{

struct Violation { std::string key, msg; std::vector< int > choices; long count = 0; };

struct Engine
{
  std::vector< int > chosen;        // answers of the current execution
  std::vector< int > arity;         // number of alternatives at each point of the current execution
  std::vector< int > prefix;        // answers to replay first
  std::vector< int > prefixArity;   // arities seen when the prefix was recorded (empty when replaying a file)
  std::vector< std::string > log;   // notes of the current execution
  bool tracing = false;
  bool thorough = false;
  bool violatedNow = false;
  int shardK = 0, shardN = 1;
  long executions = 0, nodes = 0, steps = 0, checks = 0, skipped = 0;
  std::unordered_set< uint64_t > states;
  std::unordered_set< uint64_t > outcomes;
  uint64_t outcome = 0;
  std::map< std::string, Violation > violations;
  std::vector< std::string > samples;
  volatile long heartbeat = 0;
  std::string outFile;
  bool isolate = false;             // every execution in a process of its own
  struct Shared { int volatile n; int chosen[1 << 16]; } * shared = nullptr;
  char crashFile[1024] = {0};
};

inline Engine & E() { static Engine e; return e; }

struct Abandon {};   // thrown to give up the current execution (sharding)

inline uint64_t mix( uint64_t h, uint64_t v )
{
  h ^= v + 0x9e3779b97f4a7c15ull + ( h << 6 ) + ( h >> 2 );
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}
inline uint64_t hashDouble( double d ) { uint64_t u; std::memcpy( &u, &d, 8 ); return u; }
inline uint64_t hashString( std::string const & s )
{
  uint64_t h = 1469598103934665603ull;
  for ( unsigned char c : s ) { h = ( h ^ c ) * 1099511628211ull; }
  return h;
}

[[noreturn]] inline void fatal( char const * fmt, ... )
{
  va_list a; va_start( a, fmt ); std::fprintf( stderr, "MC-ERROR: " ); std::vfprintf( stderr, fmt, a ); std::fprintf( stderr, "\n" ); va_end( a );
  _exit( 70 );
}

inline bool thorough() { return E().thorough; }

// A decision with n alternatives.
inline int choose( int const n, char const * label = "" )
{
  Engine & e = E();
  if ( n <= 0 ) fatal( "choose(%d) at %s", n, label );
  size_t const i = e.chosen.size();
  int c = 0;
  if ( i < e.prefix.size() )
  {
    c = e.prefix[i];
    if ( c < 0 || c >= n ) fatal( "divergence: choice %zu is %d of %d (%s)", i, c, n, label );
    if ( i < e.prefixArity.size() && e.prefixArity[i] != n ) fatal( "divergence: choice %zu had %d alternatives, now %d (%s)", i, e.prefixArity[i], n, label );
  }
  else
  {
    if ( e.chosen.empty() && e.shardN > 1 ) c = e.shardK;
    if ( c >= n ) { e.chosen.push_back( n - 1 ); e.arity.push_back( n ); e.skipped++; throw Abandon{}; }
    e.nodes++;
  }
  if ( e.shared && i < ( 1 << 16 ) ) { e.shared->chosen[i] = c; e.shared->n = static_cast< int >( i ) + 1; }
  e.chosen.push_back( c );
  e.arity.push_back( n );
  if ( e.tracing && label && *label ) { e.log.push_back( std::string( label ) + "=" + std::to_string( c ) ); }
  return c;
}
inline bool flip( char const * label = "" ) { return choose( 2, label ) != 0; }

// An API step performed on the real code and compared with the model.
inline void step( long const n = 1 ) { E().steps += n; }
// A canonical state reached.
inline void state( uint64_t const h ) { E().states.insert( h ); }
// Folds an observation into this execution's outcome.
inline void observe( uint64_t const v ) { E().outcome = mix( E().outcome, v ); }
inline void observe( double const v ) { E().outcome = mix( E().outcome, hashDouble( v ) ); }
inline void alive() { E().heartbeat = E().heartbeat + 1; }

inline void note( std::string const & s ) { if ( E().tracing ) E().log.push_back( s ); }
inline bool tracing() { return E().tracing; }

inline void violation( std::string const & key, std::string const & msg )
{
  Engine & e = E();
  e.violatedNow = true;
  auto it = e.violations.find( key );
  if ( it == e.violations.end() )
  {
    if ( e.violations.size() > 40 ) return;
    Violation v; v.key = key; v.msg = msg; v.choices = e.chosen; v.count = 1;
    e.violations.emplace( key, v );
  }
  else it->second.count++;
  if ( e.tracing ) e.log.push_back( "VIOLATED " + key + ": " + msg );
}

template< typename MSG >
inline bool check( bool const ok, char const * key, MSG && msg )
{
  E().checks++;
  if ( !ok )
  {
    if constexpr ( std::is_invocable_v< MSG > ) violation( key, msg() );
    else violation( key, msg );
  }
  return ok;
}
template< typename MSG >
inline bool check( bool const ok, std::string const & key, MSG && msg ) { return check( ok, key.c_str(), std::forward< MSG >( msg ) ); }

struct Str
{
  std::ostringstream o;
  Str() { o.precision( 17 ); }
  template< typename T > Str & operator<<( T const & t )
  {
    if constexpr ( std::is_same_v< T, signed char > || std::is_same_v< T, unsigned char > || std::is_same_v< T, char > ) o << static_cast< int >( t );
    else o << t;
    return *this;
  }
  operator std::string() const { return o.str(); }
};

inline std::string jsonStr( std::string const & s )
{
  std::string r = "\"";
  for ( unsigned char c : s )
  {
    if ( c == '"' || c == '\\' ) { r += '\\'; r += static_cast< char >( c ); }
    else if ( c < 0x20 || c >= 0x7f ) { char b[8]; std::snprintf( b, 8, "\\u%04x", c ); r += b; }
    else r += static_cast< char >( c );
  }
  return r + "\"";
}
inline std::string jsonInts( std::vector< int > const & v )
{
  std::string r = "[";
  for ( size_t i = 0; i < v.size(); ++i ) { if ( i ) r += ","; r += std::to_string( v[i] ); }
  return r + "]";
}

inline void writeResult( bool const exhaustive )
{
  Engine & e = E();
  if ( e.outFile.empty() ) return;
  FILE * f = std::fopen( e.outFile.c_str(), "w" );
  if ( !f ) fatal( "cannot write %s", e.outFile.c_str() );
  std::fprintf( f, "{\"executions\":%ld,\"nodes\":%ld,\"steps\":%ld,\"checks\":%ld,\"states\":%zu,\"outcomes\":%zu,\"exhaustive\":%s,\n\"violations\":[",
                e.executions, e.nodes, e.steps, e.checks, e.states.size(), e.outcomes.size(), exhaustive ? "true" : "false" );
  bool first = true;
  for ( auto const & kv : e.violations )
  {
    std::fprintf( f, "%s{\"key\":%s,\"msg\":%s,\"count\":%ld,\"choices\":%s}", first ? "" : ",\n", jsonStr( kv.second.key ).c_str(),
                  jsonStr( kv.second.msg ).c_str(), kv.second.count, jsonInts( kv.second.choices ).c_str() );
    first = false;
  }
  std::fprintf( f, "],\n\"samples\":[" );
  for ( size_t i = 0; i < e.samples.size(); ++i ) std::fprintf( f, "%s%s", i ? ",\n" : "", jsonStr( e.samples[i] ).c_str() );
  std::fprintf( f, "]}\n" );
  std::fclose( f );
}

// Writes a crash report without allocating.
inline void writeCrash( char const * what )
{
  Engine & e = E();
  int fd = e.crashFile[0] ? open( e.crashFile, O_WRONLY | O_CREAT | O_TRUNC, 0644 ) : 2;
  dprintf( fd, "{\"executions\":%ld,\"nodes\":%ld,\"steps\":%ld,\"checks\":%ld,\"states\":0,\"outcomes\":0,\"exhaustive\":false,\"violations\":[{\"key\":\"%s\",\"msg\":\"the harness process ended with %s while running the library\",\"count\":1,\"choices\":[", e.executions, e.nodes, e.steps, e.checks, what, what );
  if ( e.shared ) for ( int i = 0; i < e.shared->n; ++i ) dprintf( fd, "%s%d", i ? "," : "", e.shared->chosen[i] );
  else for ( size_t i = 0; i < e.chosen.size(); ++i ) dprintf( fd, "%s%d", i ? "," : "", e.chosen[i] );
  dprintf( fd, "]}],\"samples\":[]}\n" );
}

// Runs f, which is expected to (or might) end in abort(); returns true when it did. Text written to stderr
// meanwhile is captured.
struct AbortTrap
{
  static inline sigjmp_buf jmp;
  static inline volatile sig_atomic_t armed = 0;
};

inline void onCrash( int sig )
{
  if ( ( sig == SIGABRT || sig == SIGILL || sig == SIGTRAP ) && AbortTrap::armed )
  {
    AbortTrap::armed = 0;
    siglongjmp( AbortTrap::jmp, sig );
  }
  if ( E().shared ) _exit( 64 + sig );   // the parent reports it
  char const * n = sig == SIGABRT ? "crash:SIGABRT" : sig == SIGSEGV ? "crash:SIGSEGV" : sig == SIGFPE ? "crash:SIGFPE" : sig == SIGBUS ? "crash:SIGBUS" : sig == SIGILL ? "crash:SIGILL" : "crash";
  writeCrash( n );
  _exit( 71 );
}

struct StderrCapture
{
  int saved = -1, fd = -1;
  void open()
  {
    if ( fd < 0 )
    {
      char name[] = "/tmp/mc-stderr-XXXXXX";
      fd = mkstemp( name );
      if ( fd < 0 ) fatal( "mkstemp" );
      unlink( name );
      saved = dup( 2 );
    }
    if ( ftruncate( fd, 0 ) != 0 ) fatal( "ftruncate" );
    lseek( fd, 0, SEEK_SET );
    std::fflush( stderr );
    dup2( fd, 2 );
  }
  std::string close()
  {
    std::fflush( stderr );
    dup2( saved, 2 );
    off_t n = lseek( fd, 0, SEEK_END );
    std::string s( static_cast< size_t >( n ), '\0' );
    if ( n > 0 && pread( fd, &s[0], static_cast< size_t >( n ), 0 ) != n ) fatal( "pread" );
    return s;
  }
};

template< typename F >
inline bool aborts( F && f, std::string & text )
{
  static StderrCapture cap;
  cap.open();
  int volatile sig = sigsetjmp( AbortTrap::jmp, 1 );
  if ( sig == 0 )
  {
    AbortTrap::armed = 1;
    f();
    AbortTrap::armed = 0;
  }
  text = cap.close();
  return sig != 0;
}

inline void onAlarm( int )
{
  static long last = -1;
  static int same = 0;
  Engine & e = E();
  long const now = e.executions + e.heartbeat;
  if ( now == last ) { if ( ++same >= 6 ) { writeCrash( "hang" ); _exit( 72 ); } }
  else { same = 0; last = now; }
}

// Executions in processes of their own: static state of the library starts afresh in each.
struct Wire
{
  FILE * f;
  void num( long v ) { std::fwrite( &v, sizeof v, 1, f ); }
  void str( std::string const & s ) { num( static_cast< long >( s.size() ) ); std::fwrite( s.data(), 1, s.size(), f ); }
  bool getNum( long & v ) { return std::fread( &v, sizeof v, 1, f ) == 1; }
  bool getStr( std::string & s ) { long n; if ( !getNum( n ) ) return false; s.resize( static_cast< size_t >( n ) ); return std::fread( &s[0], 1, s.size(), f ) == s.size(); }
};
inline void isolated( void ( *body )() )
{
  Engine & e = E();
  if ( !e.shared ) { void * m = mmap( nullptr, sizeof( Engine::Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ); if ( m == MAP_FAILED ) fatal( "mmap" ); e.shared = static_cast< Engine::Shared * >( m ); }
  e.shared->n = 0;
  int fd[2];
  if ( pipe( fd ) != 0 ) fatal( "pipe" );
  std::fflush( nullptr );
  pid_t const pid = fork();
  if ( pid < 0 ) fatal( "fork" );
  if ( pid == 0 )
  {
    close( fd[0] );
    prctl( PR_SET_PDEATHSIG, SIGKILL );
    std::unordered_set< uint64_t > before; e.states.swap( before );
    long const nodes = e.nodes, steps = e.steps, checks = e.checks, skipped = e.skipped;
    std::map< std::string, Violation > none; e.violations.swap( none );
    bool abandoned = false;
    try { body(); } catch ( Abandon const & ) { abandoned = true; }
    Wire w{ fdopen( fd[1], "w" ) };
    w.num( abandoned ); w.num( static_cast< long >( e.chosen.size() ) );
    for ( size_t i = 0; i < e.chosen.size(); ++i ) { w.num( e.chosen[i] ); w.num( e.arity[i] ); }
    w.num( e.nodes - nodes ); w.num( e.steps - steps ); w.num( e.checks - checks ); w.num( e.skipped - skipped ); w.num( static_cast< long >( e.outcome ) );
    w.num( static_cast< long >( e.states.size() ) ); for ( uint64_t h : e.states ) w.num( static_cast< long >( h ) );
    w.num( static_cast< long >( e.log.size() ) ); for ( auto const & l : e.log ) w.str( l );
    w.num( static_cast< long >( e.violations.size() ) ); for ( auto const & v : e.violations ) { w.str( v.first ); w.str( v.second.msg ); w.num( v.second.count ); }
    w.num( 4242 );
    std::fclose( w.f );
    _exit( 0 );
  }
  close( fd[1] );
  Wire r{ fdopen( fd[0], "r" ) };
  long abandoned = 0, n = 0, c = 0, a = 0, nodes = 0, steps = 0, checks = 0, skipped = 0, outcome = 0, v = 0, end = 0;
  bool ok = r.getNum( abandoned ) && r.getNum( n );
  for ( long i = 0; ok && i < n; ++i ) { ok = r.getNum( c ) && r.getNum( a ); e.chosen.push_back( static_cast< int >( c ) ); e.arity.push_back( static_cast< int >( a ) ); }
  ok = ok && r.getNum( nodes ) && r.getNum( steps ) && r.getNum( checks ) && r.getNum( skipped ) && r.getNum( outcome );
  ok = ok && r.getNum( n ); for ( long i = 0; ok && i < n; ++i ) { ok = r.getNum( v ); e.states.insert( static_cast< uint64_t >( v ) ); }
  ok = ok && r.getNum( n ); for ( long i = 0; ok && i < n; ++i ) { std::string l; ok = r.getStr( l ); e.log.push_back( l ); }
  ok = ok && r.getNum( n );
  for ( long i = 0; ok && i < n; ++i )
  {
    std::string k, m; long cnt = 0;
    ok = r.getStr( k ) && r.getStr( m ) && r.getNum( cnt );
    if ( ok ) { violation( k, m ); }
  }
  ok = ok && r.getNum( end ) && end == 4242;
  std::fclose( r.f );
  int st = 0;
  while ( waitpid( pid, &st, 0 ) < 0 && errno == EINTR ) {}
  if ( !ok || st != 0 )
  {
    if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 70 ) _exit( 70 );
    // arities of a crashed execution are unknown: report it and go on with its siblings only as far as they are known
    e.chosen.assign( e.shared->chosen, e.shared->chosen + e.shared->n );
    violation( "crash", "the process running the library ended with status " + std::to_string( st ) );
    writeResult( false );
    _exit( 71 );
  }
  if ( abandoned ) throw Abandon{};
  e.nodes += nodes; e.steps += steps; e.checks += checks; e.skipped += skipped; e.outcome = static_cast< uint64_t >( outcome );
}

inline void runOne( void ( *body )() )
{
  Engine & e = E();
  if ( e.isolate )
  {
    e.chosen.clear(); e.arity.clear(); e.log.clear(); e.violatedNow = false; e.outcome = 0;
    try { isolated( body ); e.executions++; e.outcomes.insert( e.outcome ); } catch ( Abandon const & ) {}
    return;
  }
  e.chosen.clear(); e.arity.clear(); e.log.clear(); e.violatedNow = false; e.outcome = 0;
  try { body(); e.executions++; e.outcomes.insert( e.outcome ); }
  catch ( Abandon const & ) {}
}

inline int run( int argc, char ** argv, void ( *body )() )
{
  Engine & e = E();
  std::string replay;
  double maxSeconds = 0;
  for ( int i = 1; i < argc; ++i )
  {
    std::string a = argv[i];
    if ( a == "--out" ) { e.outFile = argv[++i]; std::snprintf( e.crashFile, sizeof e.crashFile, "%s", e.outFile.c_str() ); }
    else if ( a == "--replay" ) replay = argv[++i];
    else if ( a == "--thorough" ) e.thorough = true;
    else if ( a == "--isolate" ) e.isolate = true;
    else if ( a == "--max-seconds" ) maxSeconds = std::atof( argv[++i] );
    else if ( a == "--shard" ) { std::sscanf( argv[++i], "%d/%d", &e.shardK, &e.shardN ); }
    else fatal( "unknown argument %s", a.c_str() );
  }
#if defined( __SANITIZE_ADDRESS__ ) || defined( __SANITIZE_THREAD__ )
#elif defined( __has_feature )
#if !__has_feature( address_sanitizer ) && !__has_feature( thread_sanitizer )
#define MC_LIMIT_MEMORY
#endif
#else
#define MC_LIMIT_MEMORY
#endif
#if defined( MC_LIMIT_MEMORY )
  // code under test that runs away ends in a bad_alloc of its own and not in the way of all others
  struct rlimit lim; lim.rlim_cur = lim.rlim_max = ( e.thorough ? 12ul : 4ul ) << 30; setrlimit( RLIMIT_AS, &lim );
#endif
  static char stack[1 << 16];
  stack_t ss = {}; ss.ss_sp = stack; ss.ss_size = sizeof stack; sigaltstack( &ss, nullptr );
  struct sigaction sa = {}; sa.sa_handler = onCrash; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for ( int s : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGTRAP } ) sigaction( s, &sa, nullptr );
  struct sigaction al = {}; al.sa_handler = onAlarm; al.sa_flags = SA_RESTART; sigaction( SIGALRM, &al, nullptr );
  struct itimerval tv = {}; tv.it_interval.tv_sec = 10; tv.it_value.tv_sec = 10; setitimer( ITIMER_REAL, &tv, nullptr );

  if ( !replay.empty() )
  {
    std::stringstream s( replay == "-" ? "" : replay );
    std::string tok;
    while ( std::getline( s, tok, ',' ) ) if ( !tok.empty() ) e.prefix.push_back( std::atoi( tok.c_str() ) );
    e.tracing = true;
    runOne( body );
    for ( auto const & l : e.log ) std::printf( "  %s\n", l.c_str() );
    writeResult( false );
    return e.violations.empty() ? 0 : 1;
  }

  timespec t0; clock_gettime( CLOCK_MONOTONIC, &t0 );
  bool exhaustive = true;
  double violatedAt = 0;
  for (;; )
  {
    e.tracing = e.executions < 2;
    runOne( body );
    if ( e.tracing )
    {
      std::string s;
      for ( auto const & l : e.log ) { s += ( s.empty() ? "" : "; " ) + l; if ( s.size() > 1200 ) { s += " ..."; break; } }
      if ( !s.empty() ) e.samples.push_back( s );
    }
    // backtrack: next answer of the deepest point that has one left (in steps of shardN at the first point)
    size_t i = e.chosen.size();
    while ( i > 0 )
    {
      int const inc = i == 1 ? e.shardN : 1;
      if ( e.chosen[i - 1] + inc < e.arity[i - 1] )
      {
        e.prefix.assign( e.chosen.begin(), e.chosen.begin() + static_cast< long >( i ) );
        e.prefix[i - 1] += inc;
        e.prefixArity.assign( e.arity.begin(), e.arity.begin() + static_cast< long >( i ) );
        e.nodes++;
        break;
      }
      --i;
    }
    if ( i == 0 ) break;
    if ( !e.violations.empty() && ( e.executions & 63 ) == 0 )
    {
      // enough to report: look on for other kinds of violations for a while only
      timespec t1; clock_gettime( CLOCK_MONOTONIC, &t1 );
      if ( violatedAt == 0 ) violatedAt = static_cast< double >( t1.tv_sec );
      if ( static_cast< double >( t1.tv_sec ) - violatedAt > 25 ) { exhaustive = false; break; }
    }
    if ( maxSeconds > 0 && ( e.executions & 255 ) == 0 )
    {
      timespec t1; clock_gettime( CLOCK_MONOTONIC, &t1 );
      if ( static_cast< double >( t1.tv_sec - t0.tv_sec ) > maxSeconds ) { exhaustive = false; break; }
    }
  }
  writeResult( exhaustive );
  return e.violations.empty() ? 0 : 1;
}

// ---- helpers shared by harnesses -----------------------------------------------------------------------------

using Cases = std::vector< std::pair< std::string, std::function< void() > > >;

// Chooses one of the registered cases and runs it.
inline void pickCase( Cases const & cases )
{
  int const c = choose( static_cast< int >( cases.size() ), "case" );
  note( cases[static_cast< size_t >( c )].first );
  cases[static_cast< size_t >( c )].second();
}

template< typename T > inline char const * typeName()
{
  if constexpr ( std::is_same_v< T, float > ) return "float";
  else if constexpr ( std::is_same_v< T, double > ) return "double";
  else if constexpr ( std::is_same_v< T, long double > ) return "long double";
  else if constexpr ( std::is_same_v< T, int > ) return "int";
  else if constexpr ( std::is_same_v< T, unsigned > ) return "unsigned";
  else if constexpr ( std::is_same_v< T, short > ) return "short";
  else if constexpr ( std::is_same_v< T, unsigned short > ) return "unsigned short";
  else if constexpr ( std::is_same_v< T, long > ) return "long";
  else if constexpr ( std::is_same_v< T, unsigned long > ) return "unsigned long";
  else if constexpr ( std::is_same_v< T, long long > ) return "long long";
  else if constexpr ( std::is_same_v< T, unsigned long long > ) return "unsigned long long";
  else if constexpr ( std::is_same_v< T, signed char > ) return "signed char";
  else if constexpr ( std::is_same_v< T, unsigned char > ) return "unsigned char";
  else if constexpr ( std::is_same_v< T, char > ) return "char";
  else if constexpr ( std::is_same_v< T, bool > ) return "bool";
  else return "other";
}

} // namespace mc

#define MC_MAIN( body ) int main( int argc, char ** argv ) { return mc::run( argc, argv, body ); }
