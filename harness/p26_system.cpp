/* Histories of signal handlers, error handlers and floating-point traps. The
 * library keeps this state per process, so every history runs in a child. */
#include "mc.hpp"
#include "LvArrayConfig.hpp"
#include "Macros.hpp"
#include "system.hpp"
#include <fenv.h>
#include <signal.h>
#include <sys/wait.h>
#include <xmmintrin.h>

using namespace LvArray;

/* Runs f in a child; a violation there is one here.  Returns the wait status. */
template< typename F > static int inChild( F && f )
{
  fflush( stderr );
  pid_t const p = fork();
  if( p < 0 ) { perror( "fork" ); _exit( 3 ); }
  if( p == 0 ) { f(); _exit( 0 ); }
  int st = 0;
  while( waitpid( p, &st, 0 ) < 0 ) {}
  if( WIFEXITED( st ) && WEXITSTATUS( st ) == 101 ) { if( mc::g().st->msg[ 0 ] == 0 ) mc::violation( "see above" ); _exit( 101 ); }
  return st;
}
static std::string show( int st )
{ std::ostringstream o; if( WIFSIGNALED( st ) ) o << "killed by signal " << WTERMSIG( st ); else o << "exit status " << WEXITSTATUS( st ); return o.str(); }

// ---------------------------------------------------------------- signals
static int const FATAL[] = { SIGHUP, SIGINT, SIGQUIT, SIGILL, SIGTRAP, SIGABRT, SIGPOLL, SIGFPE, SIGBUS, SIGSEGV, SIGSYS, SIGPIPE, SIGTERM };
static volatile int gotBy, gotSig, gotN;
static void h1( int s ) { gotBy = 1; gotSig = s; ++gotN; }
static void h2( int s ) { gotBy = 2; gotSig = s; ++gotN; }
static void mine( int s ) { gotBy = 3; gotSig = s; ++gotN; }
using Handler = void ( * )( int );
static Handler const HANDLERS[] = { h1, h2, SIG_DFL, SIG_IGN };
static char const * const HNAMES[] = { "h1", "h2", "default", "ignore" };
static std::string nameOf( Handler h )
{ return h == h1 ? "h1" : h == h2 ? "h2" : h == mine ? "the program's own" : h == SIG_DFL ? "default" : h == SIG_IGN ? "ignore" : "unknown"; }
static Handler disposition( int s ) { struct sigaction a; sigaction( s, nullptr, &a ); return a.sa_handler; }
static bool fatal( int s ) { for( int f : FATAL ) if( f == s ) return true; return false; }

static void checkSignals( std::map< int, Handler > const & want )
{
  for( int s = 1; s < 32; ++s )
  {
    if( s == SIGKILL || s == SIGSTOP ) continue;
    Handler const w = want.at( s ), got = disposition( s );
    if( w != got ) mc::violation( std::string( strsignal( s ) ) + " goes to " + nameOf( got ) + ", expected " + nameOf( w ) );
    if( fatal( s ) && ( w == h1 || w == h2 || w == mine ) )
    {
      gotBy = gotSig = 0; gotN = 0;
      raise( s );
      MC_CHECK( gotN == 1 && gotSig == s && gotBy == ( w == h1 ? 1 : w == h2 ? 2 : 3 ), "delivery of " << strsignal( s ) << " reached handler " << gotBy << " with " << gotSig << " " << gotN << " times" );
    }
  }
}
static std::map< int, Handler > startWith( int start )
{
  std::map< int, Handler > m;
  for( int s = 1; s < 32; ++s )
  {
    if( s == SIGKILL || s == SIGSTOP ) continue;
    Handler h = SIG_DFL;
    if( start == 1 ) h = mine;
    if( start == 2 ) h = ( s % 3 == 0 ) ? mine : ( s % 3 == 1 ) ? SIG_IGN : SIG_DFL;
    if( s != SIGCHLD ) signal( s, h ); else h = disposition( s );
    m[ s ] = h;
  }
  return m;
}
static void signalHistories( int first, int depth )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    int const start = c.choose( 3, "initial" );
    int const n = depth;
    std::vector< int > ops( n );
    for( int i = 0; i < n; ++i )
    {
      ops[ i ] = i == 0 && first >= 0 ? first : c.choose( 8, "op" );
      c.noteIf( [&] { return ops[ i ] < 4 ? std::string( "set " ) + HNAMES[ ops[ i ] ] : ops[ i ] == 4 ? std::string( "reset" ) : ops[ i ] == 5 ? std::string( "stackTraceHandler" ) : ops[ i ] == 6 ? std::string( "the program installs its own" ) : std::string( "the program changes SIGPIPE and SIGTERM" ); } );
    }
    int const st = inChild( [&] {
      std::map< int, Handler > want = startWith( start ), before;
      bool saved = false;
      system::setErrorHandler( [] {} );
      for( int i = 0; i < n; ++i )
      {
        if( ops[ i ] == 4 )
        {
          system::resetSignalHandling();
          if( saved ) want = before;
          saved = false;
        }
        else if( ops[ i ] == 6 ) { for( int s : FATAL ) { signal( s, mine ); want[ s ] = mine; } }
        else if( ops[ i ] == 7 ) { signal( SIGPIPE, SIG_IGN ); want[ SIGPIPE ] = SIG_IGN; signal( SIGTERM, mine ); want[ SIGTERM ] = mine; }
        else
        {
          Handler const h = ops[ i ] == 5 ? SIG_DFL : HANDLERS[ ops[ i ] ];
          if( ops[ i ] == 5 ) system::stackTraceHandler( SIGTERM, true ); else system::setSignalHandling( h );
          if( !saved ) before = want;
          saved = true;
          for( int s : FATAL ) want[ s ] = h;
        }
        mc::g().st->executions = mc::g().executions;
        checkSignals( want );
      }
    } );
    MC_CHECK( WIFEXITED( st ) && WEXITSTATUS( st ) == 0, "the process ended: " << show( st ) );
    mc::outcome( uint64_t( start ) * 7919 + ops[ n - 1 ] + 31 * ops[ n > 1 ? n - 2 : 0 ] );
  } );
  mc::g().bound += "all histories of " + std::to_string( depth ) + " operations, checked after each; ";
}
#define SIGJOB( K ) MC_JOB( "signal histories " #K ) { signalHistories( K, mc::thorough() ? 6 : 5 ); }
SIGJOB( 0 )
SIGJOB( 1 )
SIGJOB( 2 )
SIGJOB( 3 )
SIGJOB( 4 )
SIGJOB( 5 )
SIGJOB( 6 )
SIGJOB( 7 )

/* The handler installed for a real fault is the one that runs, and the documented stack trace handler
 * prints the signal, calls the error handler once with default dispositions, or only prints. */
MC_JOB( "stack trace handler" )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    int const sig = c.choose( 66, "signal" ) - 1;
    bool const leave = c.flag( "exit" );
    bool const handlerSet = c.flag( "handler set" );
    int const st = inChild( [&] {
      system::setSignalHandling( h1 );
      static int calls = 0; static bool dflt = true;
      if( handlerSet ) system::setErrorHandler( [] { ++calls; for( int s : FATAL ) dflt = dflt && disposition( s ) == SIG_DFL; } );
      mc::captured().str( "" );
      std::cout.rdbuf( mc::captured().rdbuf() );
      signal( SIGUSR1, SIG_DFL );
      system::stackTraceHandler( sig, leave );
      if( leave && !handlerSet ) mc::violation( "returned although the default error handler aborts" );
      std::string const t = mc::captured().str();
      bool const inRange = sig >= 0 && sig < NSIG;
      std::string const head = "Received signal " + std::to_string( sig ) + ": " + ( inRange ? strsignal( sig ) : "" ) + "\n";
      MC_CHECK( ( t.find( "Received signal" ) != std::string::npos ) == inRange, "heading for signal " << sig << ": " << t );
      if( inRange ) MC_CHECK( t.find( head ) == 0, "heading: " << t.substr( 0, 100 ) << " expected " << head );
      MC_CHECK( ( t.find( "Floating point exception:" ) != std::string::npos ) == ( sig == SIGFPE ) , "details only for SIGFPE: " << t );
      MC_CHECK( t.find( "** StackTrace of " ) != std::string::npos && t.find( "Frame 0: " ) != std::string::npos, "no trace: " << t );
      MC_CHECK( calls == ( leave ? 1 : 0 ), "error handler called " << calls << " times" );
      MC_CHECK( dflt, "dispositions not default when the error handler runs" );
      for( int s : FATAL ) MC_CHECK( disposition( s ) == ( leave ? SIG_DFL : h1 ), "disposition after" );
      _exit( 7 );
    } );
    bool const aborts = leave && !handlerSet;
    if( aborts ) MC_CHECK( WIFSIGNALED( st ) && WTERMSIG( st ) == SIGABRT, "expected abort: " << show( st ) );
    else MC_CHECK( WIFEXITED( st ) && WEXITSTATUS( st ) == 7, "expected to return: " << show( st ) );
    mc::outcome( uint64_t( st ) * 100 + sig );
  } );
  mc::g().bound += "every signal number, out of range ones included; ";
}
MC_JOB( "floating point details" )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    int const m = c.choose( 32, "raised" );
    int const st = inChild( [&] {
      static int const K[] = { FE_DIVBYZERO, FE_INEXACT, FE_INVALID, FE_OVERFLOW, FE_UNDERFLOW };
      static char const * const N[] = { " Division by zero;", " Inexact result;", " Invalid argument;", " Overflow;", " Underflow;" };
      int mask = 0; for( int i = 0; i < 5; ++i ) if( m >> i & 1 ) mask |= K[ i ];
      mc::captured().str( "" );
      feclearexcept( FE_ALL_EXCEPT );
      fexcept_t fl; int const all = FE_ALL_EXCEPT; feraiseexcept( mask ); (void) fl; (void) all;
      mask = fetestexcept( FE_ALL_EXCEPT );
      system::stackTraceHandler( SIGFPE, false );
      std::string const t = mc::captured().str();
      for( int i = 0; i < 5; ++i ) MC_CHECK( ( t.find( N[ i ] ) != std::string::npos ) == ( ( mask & K[ i ] ) != 0 ), N[ i ] << " in: " << t.substr( 0, 300 ) );
    } );
    MC_CHECK( WIFEXITED( st ) && WEXITSTATUS( st ) == 0, show( st ) );
    mc::outcome( m );
  } );
}

// ---------------------------------------------------------------- error handler
MC_JOB( "error handler histories" )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    int const n = mc::thorough() ? 6 : 5;
    std::vector< int > ops( n );
    for( int & o : ops ) o = c.choose( 6, "op (set h1, set h2, set stateful, set empty, call, error)" );
    int const st = inChild( [&] {
      static int by = 0, calls = 0;
      int cur = 0;
      static std::string big( 100, 'x' );
      struct Thrown {};
      for( int o : ops )
      {
        by = 0; calls = 0;
        bool threw = false;
        try
        {
          if( o == 0 ) { system::setErrorHandler( [] { by = 1; ++calls; throw Thrown(); } ); cur = 1; }
          else if( o == 1 ) { system::setErrorHandler( [] { by = 2; ++calls; throw Thrown(); } ); cur = 2; }
          else if( o == 2 ) { std::string s = big; std::function< void() > f = [s] { by = s == big ? 3 : -1; ++calls; throw Thrown(); }; system::setErrorHandler( f ); f = nullptr; cur = 3; }
          else if( o == 3 ) system::setErrorHandler( std::function< void() >() );
          else if( o == 4 ) system::callErrorHandler();
          else LVARRAY_ERROR( "deliberate" );
        }
        catch( Thrown const & ) { threw = true; }
        if( cur == 0 && o >= 3 ) mc::violation( "an error without a handler must abort" );
        MC_CHECK( threw == ( o >= 3 ), "operation " << o << ( threw ? " reported" : " did not report" ) );
        if( o >= 3 ) MC_CHECK( by == cur && calls == 1, "handler " << by << " called " << calls << " times, expected handler " << cur << " once" );
      }
      _exit( 9 );
    } );
    bool aborts = false;
    for( int o : ops ) { if( o < 3 ) break; aborts = true; }
    if( aborts ) MC_CHECK( WIFSIGNALED( st ) && WTERMSIG( st ) == SIGABRT, "expected abort: " << show( st ) );
    else MC_CHECK( WIFEXITED( st ) && WEXITSTATUS( st ) == 9, "expected to return: " << show( st ) );
    mc::outcome( uint64_t( st ) * 100 + ops[ 0 ] * 6 + ops[ n - 1 ] );
  } );
  mc::g().bound += "all histories; ";
}

// ---------------------------------------------------------------- floating point
static int const KINDS[] = { FE_DIVBYZERO, FE_OVERFLOW, FE_INVALID, FE_UNDERFLOW, FE_INEXACT };
static int maskOf( int m ) { int r = 0; for( int i = 0; i < 5; ++i ) if( m >> i & 1 ) r |= KINDS[ i ]; return r; }
static int const DEFAULTS = FE_DIVBYZERO | FE_OVERFLOW | FE_INVALID;

/* Nested scopes are C++ scopes, so the history is run recursively. */
struct Fp
{
  mc::Chooser & c;
  std::vector< int > const & masks;
  int left;
  int enabled = 0;
  int depth = 0;
  void see( char const * what ) { int const e = fegetexcept(); if( e != enabled ) { fedisableexcept( FE_ALL_EXCEPT ); std::ostringstream o; o << what << ": enabled exceptions are " << e << ", expected " << enabled; mc::violation( o.str() ); } }
  void body()
  {
    while( left > 0 )
    {
      int const nm = int( masks.size() );
      int const op = c.choose( 3 * nm + 3 + ( depth > 0 ? 1 : 0 ), "op" );
      --left;
      if( op < 3 * nm )
      {
        int const m = masks[ op / 3 ];
        c.noteIf( [&] { std::ostringstream o; o << ( op % 3 == 0 ? "enable " : op % 3 == 1 ? "disable " : "scope " ) << m; return o.str(); } );
        int const before = enabled;
        if( op % 3 == 0 ) { enabled |= m; int const r = system::enableFloatingPointExceptions( m ); check( r, before ); see( "after enabling" ); }
        else if( op % 3 == 1 ) { enabled &= ~m; int const r = system::disableFloatingPointExceptions( m ); check( r, before ); see( "after disabling" ); }
        else
        {
          { system::FloatingPointExceptionGuard guard( m ); enabled &= ~m; see( "inside a scope" ); ++depth; body(); --depth; }
          enabled = before; see( "after leaving a scope" );
        }
      }
      else if( op == 3 * nm ) { int const before = enabled; enabled |= DEFAULTS; check( system::enableFloatingPointExceptions(), before ); see( "after enabling the defaults" ); }
      else if( op == 3 * nm + 1 ) { int const before = enabled; enabled &= ~DEFAULTS; check( system::disableFloatingPointExceptions(), before ); see( "after disabling the defaults" ); }
      else if( op == 3 * nm + 2 ) { int const before = enabled; { system::FloatingPointExceptionGuard guard; enabled &= ~DEFAULTS; see( "inside a default scope" ); ++depth; body(); --depth; } enabled = before; see( "after leaving a default scope" ); }
      else return;
    }
  }
  void check( int r, int want ) { if( r != want ) { fedisableexcept( FE_ALL_EXCEPT ); MC_EQ( r, want, "returned previous set" ); } }
};
static void fpHistories( std::vector< int > masks, int n )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    fedisableexcept( FE_ALL_EXCEPT );
    int const start = masks[ c.choose( int( masks.size() ), "initially enabled" ) ];
    if( start ) feenableexcept( start );
    Fp f{ c, masks, n, start };
    f.body();
    fedisableexcept( FE_ALL_EXCEPT );
    mc::outcome( uint64_t( f.enabled ) );
  } );
  mc::g().bound += "all nestings of " + std::to_string( n ) + " operations over " + std::to_string( masks.size() ) + " sets; ";
}
MC_JOB( "floating point nestings, all sets" ) { std::vector< int > m; for( int i = 0; i < 32; ++i ) m.push_back( maskOf( i ) ); fpHistories( m, mc::thorough() ? 3 : 2 ); }
MC_JOB( "floating point nestings, few sets" ) { fpHistories( { 0, FE_DIVBYZERO, FE_OVERFLOW | FE_INEXACT, FE_ALL_EXCEPT }, mc::thorough() ? 6 : 5 ); }

/* A floating-point fault reaches the handler last set iff its kind is enabled. */
MC_JOB( "traps" )
{
  MC_EQ( system::getDefaultFloatingPointExceptions(), DEFAULTS, "default set" );
  mc::enumerate( [&]( mc::Chooser & c ) {
    int const enable = maskOf( c.choose( 32, "enabled" ) ), disable = maskOf( c.choose( 32, "then disabled" ) );
    int const fault = c.choose( 6, "fault" );
    int const st = inChild( [&] {
      system::setSignalHandling( []( int s ) { _exit( s == SIGFPE ? 42 : 43 ); } );
      system::enableFloatingPointExceptions( enable );
      system::disableFloatingPointExceptions( disable );
      double volatile a = 1, b = 0, r;
      if( fault == 0 ) { r = a / b; }
      if( fault == 1 ) { a = 1e308; r = a * a; }
      if( fault == 2 ) { a = 0; r = a / b; }
      if( fault == 3 ) { a = 1e-300; r = a * a; }
      if( fault == 4 ) { b = 3; r = a / b; }
      if( fault == 5 ) { r = a + b; }
      (void) r;
    } );
    int const raised[] = { FE_DIVBYZERO, FE_OVERFLOW | FE_INEXACT, FE_INVALID, FE_UNDERFLOW | FE_INEXACT, FE_INEXACT, 0 };
    bool const trap = ( raised[ fault ] & enable & ~disable ) != 0;
    MC_CHECK( WIFEXITED( st ) && WEXITSTATUS( st ) == ( trap ? 42 : 0 ), "fault " << fault << " with " << enable << " enabled and " << disable << " disabled: " << show( st ) );
    mc::outcome( uint64_t( fault * 2 + trap ) );
  } );
}
MC_JOB( "setFPE" )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    int const start = maskOf( c.choose( 32, "initially enabled" ) );
    fedisableexcept( FE_ALL_EXCEPT ); if( start ) feenableexcept( start );
    system::setFPE();
    int const e = fegetexcept();
    fedisableexcept( FE_ALL_EXCEPT );
    MC_EQ( e, start | DEFAULTS, "enabled after setFPE" );
    double volatile tiny = 2.2250738585072014e-308, half = 0.5, denorm;
    uint64_t const bits = 1; memcpy( (void *) &denorm, &bits, 8 );
    double volatile const r = tiny * half, q = denorm * 1e300;
    MC_CHECK( r == 0.0, "denormal results are flushed to zero" );
    _MM_SET_FLUSH_ZERO_MODE( _MM_FLUSH_ZERO_OFF );
    double volatile const q2 = denorm * 1e300;
    MC_CHECK( q == 0.0 && q2 == 0.0, "denormal operands count as zero" );
    _mm_setcsr( 0x1f80 );
    mc::outcome( start );
  } );
}
MC_MAIN
