// C19: what failed assertions write and when they stop the process.
#include "mc/mc.hpp"
#include "shiva/common/ShivaErrorHandling.hpp"
#include "shiva/common/ShivaMacros.hpp"
#include <cctype>
#include <fcntl.h>
#include <string>
#include <sys/wait.h>
#include <type_traits>

static bool has( std::string const & t, std::string const & s ) { return t.find( s ) != std::string::npos; }
static bool hasNumber( std::string const & t, long n )
{
  std::string const s = std::to_string( n );
  for ( size_t p = t.find( s ); p != std::string::npos; p = t.find( s, p + 1 ) )
  {
    bool const before = p > 0 && std::isdigit( static_cast< unsigned char >( t[p - 1] ) ), after = p + s.size() < t.size() && std::isdigit( static_cast< unsigned char >( t[p + s.size()] ) );
    if ( !before && !after ) return true;
  }
  return false;
}
static size_t count( std::string const & t, std::string const & s ) { size_t n = 0; for ( size_t p = t.find( s ); p != std::string::npos; p = t.find( s, p + 1 ) ) ++n; return n; }
static std::string shorten( std::string const & t ) { return t.size() < 200 ? t : t.substr( 0, 100 ) + "..." + t.substr( t.size() - 100 ); }

// what was written must hold the place once and the message once
static void judge( std::string const & who, std::string const & text, std::string const & file, long line, std::string const & msg )
{
  mc::step();
  mc::check( has( text, file ), "file", [&]{ return who + ": the file is missing from '" + shorten( text ) + "'"; } );
  size_t const p = text.find( file );
  if ( p != std::string::npos ) mc::check( hasNumber( text.substr( p + file.size() ), line ), "line", [&]{ return who + ": line " + std::to_string( line ) + " is missing from '" + shorten( text ) + "'"; } );
  mc::check( has( text, msg ), "message", [&]{ return who + ": the message '" + shorten( msg ) + "' is missing from '" + shorten( text ) + "'"; } );
  mc::state( mc::hashString( who + text ) );
  mc::observe( mc::hashString( text ) );
  if ( mc::tracing() ) mc::note( who + ": '" + shorten( text ) + "'" );
}
static std::string format( char const * fmt, ... ) { va_list a; va_start( a, fmt ); va_list b; va_copy( b, a ); int const n = vsnprintf( nullptr, 0, fmt, a ); va_end( a ); std::string s( static_cast< size_t >( n ) + 1, 0 ); vsnprintf( &s[0], s.size(), fmt, b ); va_end( b ); s.pop_back(); return s; }

// one direct call with the given arguments
template< typename... A > static void call( char const * name, char const * fmt, A... a )
{
  bool const stop = mc::flip( "abort" );
  static std::string const deep = [] { std::string r; for ( int k = 0; k < 60; ++k ) r += "/directory_" + std::to_string( k ); return r + "/file%s.cpp"; }();
  char const * files[] = { "someFile.cpp", "/a/long/path/with spaces/x%d.hpp", "f", deep.c_str(), "/home/somebody/projects/finite_elements/solvers/wave/kernels/ElasticKernel.cpp" };
  char const * const file = files[mc::choose( 5, "file" )];
  int const lines[] = { 1, 4711, 2147483647 };
  int const line = lines[mc::choose( 3, "line" )];
  std::string text;
  bool volatile returned = false;
  bool const died = mc::aborts( [&]{ shivaAssertionFailed( file, line, stop, fmt, a... ); returned = true; }, text );
  judge( name, text, file, line, format( fmt, a... ) );
  mc::check( died == stop && returned == !stop, "abort", [&]{ return std::string( name ) + ( died ? ": aborted though not asked to" : ": did not abort though asked to" ); } );
}
static void direct()
{
  switch ( mc::choose( 14, "format" ) )
  {
    case 0: call( "plain", "plain message" ); break;
    case 1: call( "int", "value %d of %i", -7, 2147483647 ); break;
    case 2: call( "long", "%ld and %lld and %lu", -9000000000L, 1LL << 62, ~0UL ); break;
    case 3: call( "intmax", "Index out of bounds: 0 < index(%jd) < dim(%jd)", static_cast< intmax_t >( -5000000000L ), static_cast< intmax_t >( 3 ) ); break;
    case 4: call( "string", "name '%s' and %s", "x y", "" ); break;
    case 5: call( "double", "%f %g %.17g %e", 1.5, 1e-300, 0.1, -2.5e10 ); break;
    case 6: call( "char", "%c%c", 'a', 'Z' ); break;
    case 7: call( "percent", "100%% of %d%%", 3 ); break;
    case 8: call( "width", "[%5d|%-6s|%05.1f|%*d]", 42, "ab", 2.25, 7, 9 ); break;
    case 9: call( "many", "%d %d %d %d %d %d %d %d %d %d %s %f %f %f %f %f %f %f %f %f", 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, "end", 1., 2., 3., 4., 5., 6., 7., 8., 9. ); break;
    case 10: call( "empty", "" ); break;
    case 11: call( "hex", "%x %#o %p", 255u, 8u, static_cast< void * >( nullptr ) ); break;
    case 12: call( "newlines", "first\nsecond %d\n\nlast", 5 ); break;
    default:
    {
      int const n[] = { 1, 100, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 5000, 65536, 300000 };
      std::string const s( static_cast< size_t >( n[mc::choose( 17, "length" )] ), 'q' );
      call( "long text", "<%s>", s.c_str() );
    }
  }
}
// sequences of failures that go on, then possibly one that stops
static void sequences()
{
  int const n = mc::choose( 5, "failures" );
  bool const last = mc::flip( "last aborts" );
  std::string text;
  int volatile done = 0;
  bool const died = mc::aborts( [&]{ for ( int k = 0; k < n; ++k ) { shivaAssertionFailed( "seq.cpp", 10 + k, false, "failure number <%d>", k ); done = done + 1; } if ( last ) shivaAssertionFailed( "seq.cpp", 99, true, "the <last>" ); }, text );
  size_t at = 0; bool ordered = true;
  for ( int k = 0; k < n; ++k ) { std::string const m = "failure number <" + std::to_string( k ) + ">"; size_t const p = text.find( m ); ordered = ordered && p != std::string::npos && p >= at && count( text, m ) == 1; at = p == std::string::npos ? at : p; }
  mc::check( done == n, "non-aborting failure returns", [&]{ return std::to_string( done ) + " of " + std::to_string( n ) + " failures returned"; } );
  mc::check( ordered, "each failure reported once, in order", [&]{ return "'" + shorten( text ) + "'"; } );
  mc::check( died == last && ( !last || has( text, "the <last>" ) ), "abort", "sequence" );
  if ( n == 0 && !last ) mc::check( text.empty(), "nothing without a failure", text );
  mc::step( n + last ); mc::state( mc::hashString( text ) );
}

// the macro; every use is described by (condition value) and the line it stands on
static int evaluations, arguments;
static bool cond( bool b ) { ++evaluations; return b; }
static int argument( int v ) { ++arguments; return v; }
static int otherBranch;

static void plain( bool b, int & line ) { line = __LINE__ + 1;
  SHIVA_ASSERT_MSG( cond( b ), "plain use %d", argument( 11 ) );
}
static void ifElse( bool b, int & line ) { line = __LINE__ + 2;
  if ( line > 0 )
    SHIVA_ASSERT_MSG( cond( b ), "if use %d", argument( 11 ) );
  else
    ++otherBranch;
}
static void elseIf( bool b, int & line ) { line = __LINE__ + 4;
  if ( line < 0 )
    ++otherBranch;
  else
    SHIVA_ASSERT_MSG( cond( b ), "else use %d", argument( 11 ) );
}
static void danglingElse( bool b, int & line ) { line = __LINE__ + 3;
  if ( line > 0 )
    if ( line > 1 )
      SHIVA_ASSERT_MSG( cond( b ), "nested use %d", argument( 11 ) );
    else
      ++otherBranch;
}
static void forLoop( bool b, int & line ) { line = __LINE__ + 2;
  for ( int k = 0; k < 1; ++k )
    SHIVA_ASSERT_MSG( cond( b ), "for use %d", argument( 11 ) );
}
static void whileBreak( bool b, int & line ) { line = __LINE__ + 3;
  int k = 0;
  while ( k++ < 1 )
    SHIVA_ASSERT_MSG( cond( b ), "while use %d", argument( 11 ) );
}
static void switchCase( bool b, int & line ) { line = __LINE__ + 3;
  switch ( line > 0 )
  {
    case 1: SHIVA_ASSERT_MSG( cond( b ), "switch use %d", argument( 11 ) ); break;
    default: ++otherBranch;
  }
}
static void lambda( bool b, int & line ) { line = __LINE__ + 1;
  auto f = [&]{ SHIVA_ASSERT_MSG( cond( b ), "lambda use %d", argument( 11 ) ); };
  f();
}
template< typename T > static void inTemplate( T b, int & line ) { line = __LINE__ + 1;
  SHIVA_ASSERT_MSG( ( std::is_same_v< T, bool > && cond( b ) ), "template use %d", argument( 11 ) );
}
static void noArguments( bool b, int & line ) { line = __LINE__ + 1;
  SHIVA_ASSERT_MSG( cond( b ), "no arguments" ); ++arguments;
}
static void operators( bool b, int & line ) { line = __LINE__ + 1;
  SHIVA_ASSERT_MSG( cond( b ) || false, "operator use %d", argument( 11 ) );
}
static void negated( bool b, int & line ) { line = __LINE__ + 1;
  SHIVA_ASSERT_MSG( !b ? !cond( true ) : cond( true ), "negated use %d", argument( 11 ) );
}
static void nestedUse( bool b, int & line ) { line = __LINE__ + 2;
  SHIVA_ASSERT_MSG( [&]{ SHIVA_ASSERT_MSG( true, "inner %d", 1 ); return true; }(), "outer %d", 1 );
  SHIVA_ASSERT_MSG( cond( b ), "nested lambda use %d", argument( 11 ) );
}
static void pointerCond( bool b, int & line ) { line = __LINE__ + 1;
  SHIVA_ASSERT_MSG( cond( b ) ? &line : nullptr, "pointer use %d", argument( 11 ) );
}
static void intCond( bool b, int & line ) { line = __LINE__ + 1;
  SHIVA_ASSERT_MSG( cond( b ) ? 256 : 0, "int use %d", argument( 11 ) );
}
static void doubleCond( bool b, int & line ) { line = __LINE__ + 1;
  SHIVA_ASSERT_MSG( cond( b ) ? 0.25 : 0.0, "double use %d", argument( 11 ) );
}
static void shadowing( bool b, int & line ) { int const fmt = 3, file = 1, callAbort = 0; (void) fmt; (void) file; (void) callAbort; line = __LINE__ + 1;
  SHIVA_ASSERT_MSG( cond( b ) && fmt == 3 && file + callAbort == 1, "shadow use %d", argument( 11 ) );
}
static constexpr int constantLine = __LINE__ + 1;
constexpr int constantUse( int v ) { SHIVA_ASSERT_MSG( v >= 0, "constant use %d", v ); return v + 1; }
static_assert( constantUse( 4 ) == 5 );
constexpr int constantLoop( int n ) { int s = 0; for ( int k = 0; k < n; ++k ) { SHIVA_ASSERT_MSG( k < n, "loop %d", k ); s += constantUse( k ); } return s; }
static_assert( constantLoop( 4 ) == 10 );

static void farLine( bool b, int & line ) { line = 2000000000;
#line 2000000000
  SHIVA_ASSERT_MSG( cond( b ), "far use %d", argument( 11 ) );
}
static char const deepName[] = "/home/somebody/projects/finite_elements/solvers/wave/kernels/with/a/very/long/path/that/goes/on/for/more/than/one/hundred/and/twenty/eight/characters/100%s/Elastic.cpp";
static void farFile( bool b, int & line ) { line = 77;
#line 77 "/home/somebody/projects/finite_elements/solvers/wave/kernels/with/a/very/long/path/that/goes/on/for/more/than/one/hundred/and/twenty/eight/characters/100%s/Elastic.cpp"
  SHIVA_ASSERT_MSG( cond( b ), "deep use %d", argument( 11 ) );
}
#line 200 "c19_assert.cpp"
struct Use { char const * name; void ( *f )( bool, int & ); char const * message; };
static Use const uses[] = {
  { "plain", plain, "plain use 11" }, { "if", ifElse, "if use 11" }, { "else", elseIf, "else use 11" }, { "nested if", danglingElse, "nested use 11" }, { "for", forLoop, "for use 11" }, { "while", whileBreak, "while use 11" },
  { "switch", switchCase, "switch use 11" }, { "lambda", lambda, "lambda use 11" }, { "template", inTemplate< bool >, "template use 11" }, { "no arguments", noArguments, "no arguments" }, { "operators", operators, "operator use 11" },
  { "negated", negated, "negated use 11" }, { "nested", nestedUse, "nested lambda use 11" }, { "pointer", pointerCond, "pointer use 11" }, { "int", intCond, "int use 11" }, { "double", doubleCond, "double use 11" }, { "shadowing", shadowing, "shadow use 11" }, { "far line", farLine, "far use 11" }, { "far file", farFile, "deep use 11" } };
static constexpr int numUses = sizeof( uses ) / sizeof( uses[0] );

static void macro()
{
  // a sequence of passing uses, then one that passes or fails
  int const before = mc::choose( 3, "passing before" );
  std::string text;
  int line = 0;
  for ( int k = 0; k < before; ++k )
  {
    Use const & u = uses[mc::choose( numUses, "use" )];
    evaluations = arguments = otherBranch = 0;
    bool const died = mc::aborts( [&]{ u.f( true, line ); }, text );
    mc::step();
    mc::check( !died && text.empty(), "a true condition has no effect", [&]{ return std::string( u.name ) + " wrote '" + text + "'"; } );
    mc::check( evaluations == 1, "condition evaluated once", [&]{ return std::string( u.name ) + ": " + std::to_string( evaluations ) + " evaluations"; } );
    mc::check( arguments == ( u.f == noArguments ), "message not formatted for a true condition", u.name );
    mc::check( otherBranch == 0, "branch structure", u.name );
  }
  Use const & u = uses[mc::choose( numUses, "use" )];
  evaluations = arguments = otherBranch = 0;
  bool const died = mc::aborts( [&]{ u.f( false, line ); }, text );
  judge( std::string( "macro " ) + u.name, text, u.f == farFile ? deepName : "c19_assert.cpp", line, u.message );
  mc::check( died, "a false condition aborts", u.name );
  mc::check( evaluations == 1, "condition evaluated once", [&]{ return std::string( u.name ) + ": " + std::to_string( evaluations ) + " evaluations"; } );
  mc::check( count( text, u.message ) == 1, "reported once", [&]{ return text; } );
  mc::check( otherBranch == 0, "branch structure", u.name );
}
static void runTimeOfConstant()
{
  int const v[] = { 0, 5, -1, -2147483647 };
  int const x = v[mc::choose( 4, "value" )];
  int volatile in = x;
  std::string text; int volatile out = 0;
  bool const died = mc::aborts( [&]{ out = constantUse( in ); }, text );
  mc::check( died == ( x < 0 ) && ( x < 0 || ( out == x + 1 && text.empty() ) ), "constant-evaluable function at run time", std::to_string( x ) );
  if ( x < 0 ) judge( "constant function", text, "c19_assert.cpp", constantLine, "constant use " + std::to_string( x ) );
  mc::step();
}
// standard error cannot be written to: what was asked for still decides whether the process stops
static void unwritable()
{
  int const how = mc::choose( 5, "standard error" ), n = mc::choose( 3, "failures before" );
  int const last = mc::choose( 4, "last" );   // nothing, goes on, stops, macro
  // the signal that stops a process: as usual, ignored, blocked, handled by a function that returns
  int const signals = mc::choose( 4, "signals" );
  bool const large = mc::flip( "large message" ), buffered = mc::flip( "buffered" );
  std::string const text( large ? 100000 : 3, 'z' );
  std::fflush( nullptr );
  pid_t const pid = fork();
  if ( pid < 0 ) mc::fatal( "fork" );
  if ( pid == 0 )
  {
    struct itimerval tv = {}; setitimer( ITIMER_REAL, &tv, nullptr );
    for ( int s : { SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM, SIGTRAP } ) signal( s, SIG_DFL );
    signal( SIGPIPE, SIG_IGN );
    if ( signals == 1 ) signal( SIGABRT, SIG_IGN );
    else if ( signals == 2 ) { sigset_t b; sigemptyset( &b ); sigaddset( &b, SIGABRT ); sigprocmask( SIG_BLOCK, &b, nullptr ); }
    else if ( signals == 3 ) signal( SIGABRT, []( int ) {} );
    alarm( 20 );
    int const full = open( "/dev/full", O_WRONLY ), null = open( "/dev/null", O_RDONLY );
    int fd[2]; if ( pipe( fd ) != 0 ) _exit( 9 ); close( fd[0] );
    if ( how == 0 ) close( 2 );
    else if ( how < 4 ) dup2( how == 1 ? ( full >= 0 ? full : fd[1] ) : how == 2 ? fd[1] : null, 2 );
    if ( buffered ) setvbuf( stderr, nullptr, _IOFBF, 4096 );
    for ( int k = 0; k < n; ++k ) shivaAssertionFailed( "u.cpp", k, false, "failure %d %s", k, text.c_str() );
    if ( last == 1 || last == 2 ) shivaAssertionFailed( "u.cpp", 9, last == 2, "last %s", text.c_str() );
    if ( last == 3 ) SHIVA_ASSERT_MSG( cond( false ), "last %s", text.c_str() );
    _exit( 43 );
  }
  int st = 0;
  while ( waitpid( pid, &st, 0 ) < 0 && errno == EINTR ) {}
  mc::alive(); mc::step();
  mc::state( mc::mix( static_cast< uint64_t >( st ), static_cast< uint64_t >( how * 64 + n * 8 + last ) ) );
  mc::observe( static_cast< uint64_t >( st ) );
  if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 9 ) mc::fatal( "pipe" );
  char const * const hows[] = { "closed", "full", "a pipe nobody reads", "read-only", "writable" };
  char const * const how2[] = { "", ", the abort signal is ignored", ", the abort signal is blocked", ", the abort signal is handled" };
  auto const say = [&]{ return std::string( "standard error is " ) + hows[how] + how2[signals] + ": " + ( WIFSIGNALED( st ) ? "ended by signal " + std::to_string( WTERMSIG( st ) ) : "went on" ); };
  if ( last >= 2 ) mc::check( WIFSIGNALED( st ) && WTERMSIG( st ) == SIGABRT, "abort", say );
  else mc::check( WIFEXITED( st ) && WEXITSTATUS( st ) == 43, "non-aborting failure returns", say );
}
static void body()
{
  static mc::Cases const c{ { "unwritable", unwritable }, { "direct", direct }, { "sequences", sequences }, { "macro", macro }, { "constant", runTimeOfConstant } };
  mc::pickCase( c );
}
MC_MAIN( body )
