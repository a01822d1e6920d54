/* Bounded exhaustive exploration of real code.
 *
 *  - enumerate(): stateless depth-first search over choose(n) decisions; every
 *    combination of decisions is executed against the real code.
 *  - exploreHistories(): breadth-first search over operation histories.  A
 *    state is the history that reaches it, rebuilt on fresh objects; states
 *    with the same canonical key are merged, except up to `noMerge' operations,
 *    where every history is executed.
 *
 * One binary holds several jobs.  check.py runs each job in its own process and
 * reads the status file to learn which history was running when it died. */
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <csetjmp>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <utility>
#include <vector>

namespace mc
{

struct Status
{
  volatile int32_t len;
  volatile int32_t ops[ 1000 ];
  volatile uint64_t executions;
  char msg[ 8192 ];
  char text[ 8192 ];
};

struct Globals
{
  Status * st = nullptr;
  Status local;
  std::string tier = "quick";
  bool replay = false;
  std::vector< int > replayOps;
  bool verbose = false;
  double softBudget = 1e9;   // seconds
  std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
  // counters
  uint64_t states = 0, transitions = 0, executions = 0, nontrivial = 0;
  bool capped = false;
  std::string bound;
  std::vector< std::string > samples;
  std::unordered_set< uint64_t > outcomes;
  bool trackOutcomes = true;
};

inline Globals & g() { static Globals x; return x; }
inline bool thorough() { return g().tier == "thorough"; }
inline double elapsed()
{ return std::chrono::duration< double >( std::chrono::steady_clock::now() - g().t0 ).count(); }
inline bool outOfTime()
{
  if( elapsed() > g().softBudget ) { g().capped = true; return true; }
  return false;
}

inline std::string & context() { static std::string s; return s; }

/* Report that the property is broken on the history in the status block. */
[[noreturn]] inline void violation( std::string const & m )
{
  snprintf( g().st->msg, sizeof( g().st->msg ), "%s%s%s", m.c_str(), context().empty() ? "" : " | ", context().c_str() );
  fflush( stdout );
  fprintf( stderr, "VIOLATION: %s\n", g().st->msg );
  _exit( 101 );
}

#define MC_CHECK( COND, MSG ) \
  do { if( !( COND ) ) { std::ostringstream mc_oss; mc_oss << MSG << "   [" #COND << " is false, " << __FILE__ << ":" << __LINE__ << "]"; mc::violation( mc_oss.str() ); } } while( false )

#define MC_EQ( A, B, MSG ) \
  do { auto const & mc_a = ( A ); auto const & mc_b = ( B ); if( !( mc_a == mc_b ) ) { std::ostringstream mc_oss; \
    mc_oss << MSG << ": got " << mc_a << ", expected " << mc_b << "   [" #A ", " << __FILE__ << ":" << __LINE__ << "]"; mc::violation( mc_oss.str() ); } } while( false )

inline void sample( std::string const & s, size_t limit = 12 )
{ if( g().samples.size() < limit ) g().samples.push_back( s ); }

inline uint64_t hashBytes( void const * p, size_t n, uint64_t h = 1469598103934665603ull )
{
  unsigned char const * c = static_cast< unsigned char const * >( p );
  for( size_t i = 0; i < n; ++i ) { h ^= c[ i ]; h *= 1099511628211ull; h ^= h >> 29; }
  return h;
}

/* Record the observed outcome of an execution, to show that it is not vacuous. */
inline void outcome( uint64_t h )
{ if( g().outcomes.size() < 2000000 ) g().outcomes.insert( h ); }
inline void outcome( std::string const & s ) { outcome( hashBytes( s.data(), s.size() ) ); }

// ---------------------------------------------------------------------------
// Allocation balance
// ---------------------------------------------------------------------------
struct AllocCount { long long live = 0; long long calls = 0; long long bytes = 0; bool on = false; };
inline AllocCount & allocs() { static AllocCount a; return a; }

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define MC_ASAN 1
#endif

#ifdef MC_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks( void ( *m )( const volatile void *, size_t ), void ( *f )( const volatile void * ) );
inline void mallocHook( const volatile void *, size_t ) { AllocCount & a = allocs(); if( a.on ) { ++a.live; ++a.calls; } }
inline void freeHook( const volatile void * p ) { AllocCount & a = allocs(); if( a.on && p != nullptr ) --a.live; }
inline void installAllocHooks() { __sanitizer_install_malloc_and_free_hooks( mallocHook, freeHook ); }
#else
inline void installAllocHooks() {}
#endif

// ---------------------------------------------------------------------------
// Expected errors
// ---------------------------------------------------------------------------
struct ExpectedError {};
struct ErrorState
{
  enum Mode { UNEXPECTED, THROW, JUMP } mode = UNEXPECTED;
  int count = 0;
  sigjmp_buf env;
};
inline ErrorState & errorState() { static ErrorState e; return e; }

inline std::ostringstream & captured() { static std::ostringstream s; return s; }

/* To be installed as the library's error handler. */
inline void onError()
{
  ErrorState & e = errorState();
  ++e.count;
  if( e.mode == ErrorState::THROW ) throw ExpectedError{};
  if( e.mode == ErrorState::JUMP ) siglongjmp( e.env, 1 );
  std::string out = captured().str();
  violation( "unexpected error report on valid input: " + out.substr( 0, 1500 ) );
}

/* True if f() reported an error.  The handler jumps straight out of f (it may
 * be inside a noexcept function), so objects f was working on must be
 * considered lost afterwards. */
template< typename F >
bool reportsError( F && f )
{
  ErrorState & e = errorState();
  ErrorState::Mode const old = e.mode;
  e.mode = ErrorState::JUMP;
  volatile bool failed = false;
  if( sigsetjmp( e.env, 0 ) == 0 ) { f(); }
  else { failed = true; }
  e.mode = old;
  captured().str( "" );
  return failed;
}

/* Same, by exception (destructors run). */
template< typename F >
bool throwsError( F && f )
{
  ErrorState & e = errorState();
  ErrorState::Mode const old = e.mode;
  e.mode = ErrorState::THROW;
  bool failed = false;
  try { f(); } catch( ExpectedError const & ) { failed = true; }
  e.mode = old;
  captured().str( "" );
  return failed;
}

// ---------------------------------------------------------------------------
// Stateless depth-first enumeration
// ---------------------------------------------------------------------------
struct Diverged { std::string what; };

class Chooser
{
public:
  int choose( int n, char const * label = "" )
  {
    if( n <= 0 ) violation( std::string( "harness: choose(0) at " ) + label );
    size_t const d = m_depth++;
    if( d < m_pick.size() )
    {
      if( !g().replay && m_n[ d ] != n )
      { violation( std::string( "same decisions, different behaviour (nondeterminism) at decision " ) + label ); }
      if( g().replay ) { if( d >= m_n.size() ) m_n.resize( d + 1 ); m_n[ d ] = n; if( m_pick[ d ] >= n ) violation( "replay: decision out of range" ); }
    }
    else
    {
      m_pick.push_back( 0 );
      m_n.push_back( n );
      g().states += 1;
      g().transitions += n;
    }
    Status * s = g().st;
    if( d < 1000 ) { s->ops[ d ] = m_pick[ d ]; s->len = d + 1; }
    if( m_record ) { m_log << label << "=" << m_pick[ d ] << " "; }
    return m_pick[ d ];
  }
  bool flag( char const * label = "" ) { return choose( 2, label ) == 1; }
  int range( int lo, int hi, char const * label = "" ) { return lo + choose( hi - lo + 1, label ); }
  template< typename T > T const & pick( std::vector< T > const & v, char const * label = "" ) { return v[ choose( (int) v.size(), label ) ]; }
  /* Prune: this combination is outside the space (its children are not counted). */
  void note( std::string const & s ) { if( m_record ) m_log << s << " "; }
  bool recording() const { return m_record; }
  template< typename F > void noteIf( F && f ) { if( m_record ) m_log << f() << " "; }

  std::vector< int > m_pick, m_n;
  size_t m_depth = 0;
  bool m_record = false;
  std::ostringstream m_log;

  bool next()
  {
    m_pick.resize( m_depth ); m_n.resize( m_depth );
    while( !m_pick.empty() )
    {
      if( m_pick.back() + 1 < m_n.back() ) { ++m_pick.back(); return true; }
      m_pick.pop_back(); m_n.pop_back();
    }
    return false;
  }
};

struct Accounting
{
  bool leaks = true;
};

/* Run body and report whether heap blocks are left over. */
template< typename F >
long long leftover( F && body )
{
  AllocCount & a = allocs();
  a.live = 0; a.calls = 0; a.on = true;
  body();
  a.on = false;
  return a.live;
}

template< typename F >
void withLeakCheck( bool on, F && body )
{
  if( !on ) { body(); return; }
  long long l = leftover( body );
  /* The C++ runtime may allocate lazily once: only a leak that repeats counts. */
  for( int i = 0; i < 2 && l != 0; ++i ) l = leftover( body );
  if( l != 0 ) violation( l > 0 ? "heap memory leaked: " + std::to_string( l ) + " block(s) still allocated after the last owner was destroyed"
                                : "more blocks freed than allocated" );
}

template< typename BODY >
void enumerate( BODY && body, bool leakCheck = false, uint64_t maxExec = ~0ull )
{
  Globals & G = g();
  Chooser c;
  if( G.replay ) { c.m_pick = G.replayOps; c.m_n = G.replayOps; c.m_record = true; }
  uint64_t sampleAt = 1;
  uint64_t n = 0;
  std::string last;
  for(;; )
  {
    G.st->len = 0;
    ++n;
    bool const rec = G.replay || n == sampleAt;
    if( n == sampleAt ) sampleAt = sampleAt * 7 + 3;
    c.m_record = rec;
    withLeakCheck( leakCheck, [&] {
      if( c.m_record ) c.m_log.str( "" );
      c.m_depth = 0;
      body( c );
    } );
    G.executions += 1;
    G.st->executions = G.executions;
    if( rec ) sample( c.m_log.str() );
    if( G.replay ) break;
    if( !c.next() ) break;
    if( n >= maxExec || ( ( n & 255 ) == 0 && outOfTime() ) ) { G.capped = true; break; }
  }
  allocs().on = false;
}

// ---------------------------------------------------------------------------
// Breadth-first exploration of histories
// ---------------------------------------------------------------------------
struct Key
{
  std::string b;
  template< typename T > void add( T const & v ) { static_assert( std::is_trivially_copyable< T >::value, "" ); b.append( reinterpret_cast< char const * >( &v ), sizeof( v ) ); }
  void sep() { b.push_back( '\x7f' ); }
  template< typename C > void addAll( C const & c ) { add( (int) c.size() ); for( auto const & v : c ) add( v ); }
};

struct H128 { uint64_t a, b; bool operator==( H128 const & o ) const { return a == o.a && b == o.b; } };
struct H128Hash { size_t operator()( H128 const & h ) const { return h.a ^ ( h.b * 0x9e3779b97f4a7c15ull ); } };

struct HistoryOptions
{
  int depth = 4;
  int noMerge = 2;
  bool leakCheck = true;
  /* Only a leak that every one of this many runs of the same history repeats counts: runtimes allocate lazily. */
  int leakRuns = 3;
  uint64_t maxStates = 4000000;
};

/* SYS:  SYS( int start );  static int starts();  int nOps();  bool enabled( int op );
 *       void apply( int op );   // act on object and model, compare results
 *       void check();           // full comparison of object and model
 *       void key( Key & );      // canonical state
 *       static std::string startName( int ); std::string opName( int ); */
template< typename SYS >
void exploreHistories( HistoryOptions const & opt )
{
  Globals & G = g();
  using Hist = std::vector< int16_t >;   // [start, op, op, ...]

  auto publish = [&]( Hist const & h ) {
    Status * s = G.st;
    int n = 0;
    for( int16_t o : h ) if( n < 1000 ) s->ops[ n++ ] = o;
    s->len = n;
  };

  auto describe = [&]( Hist const & h ) {
    SYS sys( h[ 0 ] );
    std::ostringstream o;
    o << "[" << SYS::startName( h[ 0 ] ) << "]";
    for( size_t i = 1; i < h.size(); ++i ) o << " " << sys.opName( h[ i ] );
    return o.str();
  };

  auto publishText = [&]( std::string const & t ) { snprintf( G.st->text, sizeof( G.st->text ), "%s", t.c_str() ); };

  auto run = [&]( Hist const & h, std::string * keyOut, std::vector< int > * enabledOut, std::string * prefixKey ) {
    publish( h );
    SYS sys( h[ 0 ] );
    for( size_t i = 1; i < h.size(); ++i )
    {
      if( i + 1 == h.size() && prefixKey != nullptr ) { Key k; sys.key( k ); *prefixKey = k.b; }
      sys.apply( h[ i ] );
    }
    sys.check();
    if( keyOut != nullptr ) { Key k; sys.key( k ); *keyOut = k.b; }
    if( enabledOut != nullptr )
    {
      enabledOut->clear();
      int const n = sys.nOps();
      for( int o = 0; o < n; ++o ) if( sys.enabled( o ) ) enabledOut->push_back( o );
    }
  };

  auto runChecked = [&]( Hist const & h, std::string * keyOut, std::vector< int > * en ) {
    if( !opt.leakCheck ) { run( h, keyOut, en, nullptr ); return; }
    std::string k; std::vector< int > e;
    /* The outputs live outside the accounted region. */
    AllocCount & a = allocs();
    long long l = 0;
    for( int rep = 0; rep < opt.leakRuns; ++rep )
    {
      a.live = 0; a.on = true;
      { std::string kk; std::vector< int > ee; run( h, keyOut ? &kk : nullptr, en ? &ee : nullptr, nullptr );
        a.on = false;
        if( keyOut ) *keyOut = std::string( kk.data(), kk.size() );
        if( en ) *en = std::vector< int >( ee.begin(), ee.end() );
        long long const before = a.live;
        a.on = true;
        std::string().swap( kk ); std::vector< int >().swap( ee );
        a.on = false;
        (void) before; }
      l = a.live;
      if( l == 0 ) break;
    }
    if( l != 0 ) violation( l > 0 ? "heap memory leaked: " + std::to_string( l ) + " block(s) still allocated after every owner was destroyed"
                                  : "more blocks freed than allocated" );
  };

  if( G.replay )
  {
    Hist h( G.replayOps.begin(), G.replayOps.end() );
    publishText( "" );
    if( h.empty() ) h.push_back( 0 );
    std::string t = describe( Hist( h.begin(), h.begin() + 1 ) );
    {
      SYS sys( h[ 0 ] );
      std::ostringstream o; o << "[" << SYS::startName( h[ 0 ] ) << "]";
      for( size_t i = 1; i < h.size(); ++i ) o << " " << sys.opName( h[ i ] );
      publishText( o.str() );
      fprintf( stderr, "history: %s\n", o.str().c_str() );
    }
    std::string k; std::vector< int > e;
    runChecked( h, &k, &e );
    G.executions = 1;
    return;
  }

  std::unordered_set< H128, H128Hash > seen;
  auto mark = [&]( std::string const & k ) {
    H128 h{ hashBytes( k.data(), k.size() ), hashBytes( k.data(), k.size(), 0x1234567811223344ull ) };
    return seen.insert( h ).second;
  };

  struct Node { Hist h; std::vector< int16_t > en; };
  std::vector< Node > frontier, nextFrontier;

  for( int s = 0; s < SYS::starts(); ++s )
  {
    Hist h{ (int16_t) s };
    std::string k; std::vector< int > en;
    runChecked( h, &k, &en );
    ++G.executions; G.st->executions = G.executions;
    if( mark( k ) || true ) { ++G.states; frontier.push_back( { h, std::vector< int16_t >( en.begin(), en.end() ) } ); }
  }

  int depthDone = 0;
  uint64_t sampleAt = 5;
  for( int d = 1; d <= opt.depth && !G.capped; ++d )
  {
    nextFrontier.clear();
    for( Node const & node : frontier )
    {
      if( G.capped ) break;
      for( int16_t op : node.en )
      {
        Hist h = node.h; h.push_back( op );
        std::string k; std::vector< int > en;
        runChecked( h, &k, d < opt.depth ? &en : nullptr );
        ++G.executions; ++G.transitions; G.st->executions = G.executions;
        bool const fresh = mark( k );
        if( fresh ) { ++G.states; outcome( hashBytes( k.data(), k.size() ) ); }
        if( G.executions == sampleAt ) { sample( describe( h ) ); sampleAt = sampleAt * 6 + 1; }
        if( d < opt.depth && ( fresh || d < opt.noMerge ) )
        { nextFrontier.push_back( { std::move( h ), std::vector< int16_t >( en.begin(), en.end() ) } ); }
        if( ( G.executions & 127 ) == 0 && outOfTime() ) break;
        if( G.states > opt.maxStates ) { G.capped = true; break; }
      }
    }
    if( !G.capped ) depthDone = d;
    frontier.swap( nextFrontier );
    if( frontier.empty() && d < opt.depth ) { depthDone = opt.depth; G.bound += "(closed: no new state) "; break; }
  }
  G.bound += "histories of up to " + std::to_string( depthDone ) + " operations complete (all unmerged up to " + std::to_string( std::min( opt.noMerge, depthDone ) ) + "); ";
}

// ---------------------------------------------------------------------------
// Jobs and main
// ---------------------------------------------------------------------------
struct Job { std::string name; std::function< void() > body; bool thoroughOnly; };
inline std::vector< Job > & jobs() { static std::vector< Job > j; return j; }
struct Register
{ Register( std::string n, std::function< void() > f, bool t = false ) { jobs().push_back( { std::move( n ), std::move( f ), t } ); } };

#define MC_CAT2( A, B ) A ## B
#define MC_CAT( A, B ) MC_CAT2( A, B )
#define MC_JOB( NAME ) \
  static void MC_CAT( mcJob, __LINE__ )(); \
  static mc::Register MC_CAT( mcReg, __LINE__ )( NAME, MC_CAT( mcJob, __LINE__ ) ); \
  static void MC_CAT( mcJob, __LINE__ )()
#define MC_JOB_T( NAME ) \
  static void MC_CAT( mcJob, __LINE__ )(); \
  static mc::Register MC_CAT( mcReg, __LINE__ )( NAME, MC_CAT( mcJob, __LINE__ ), true ); \
  static void MC_CAT( mcJob, __LINE__ )()

inline std::string jsonEscape( std::string const & s )
{
  std::string o;
  for( char ch : s )
  {
    unsigned char c = (unsigned char) ch;
    if( c == '"' || c == '\\' ) { o += '\\'; o += ch; }
    else if( c < 32 || c > 126 ) { char b[ 8 ]; snprintf( b, sizeof( b ), "\\u%04x", c ); o += b; }
    else o += ch;
  }
  return o;
}

inline void ( *&setupHook() )() { static void ( *h )() = nullptr; return h; }

inline int mainImpl( int argc, char * * argv )
{
  Globals & G = g();
  std::string job, out, status;
  bool list = false;
  for( int i = 1; i < argc; ++i )
  {
    std::string a = argv[ i ];
    auto val = [&] { return std::string( argv[ ++i ] ); };
    if( a == "--list" ) list = true;
    else if( a == "--job" ) job = val();
    else if( a == "--tier" ) G.tier = val();
    else if( a == "--out" ) out = val();
    else if( a == "--status" ) status = val();
    else if( a == "--budget" ) G.softBudget = atof( val().c_str() );
    else if( a == "--replay" )
    {
      G.replay = true;
      std::stringstream ss( val() ); std::string t;
      while( std::getline( ss, t, ',' ) ) if( !t.empty() ) G.replayOps.push_back( atoi( t.c_str() ) );
    }
  }
  if( list )
  { for( Job const & j : jobs() ) if( !j.thoroughOnly || thorough() ) printf( "%s\n", j.name.c_str() ); return 0; }

  G.st = &G.local; memset( (void *) &G.local, 0, sizeof( G.local ) );
  if( !status.empty() )
  {
    int fd = open( status.c_str(), O_RDWR | O_CREAT, 0644 );
    if( fd < 0 || ftruncate( fd, sizeof( Status ) ) != 0 ) { perror( "status" ); return 3; }
    void * p = mmap( nullptr, sizeof( Status ), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 );
    if( p == MAP_FAILED ) { perror( "mmap" ); return 3; }
    G.st = static_cast< Status * >( p );
    close( fd );
  }
  installAllocHooks();
  /* The library prints its reports to std::cout. */
  std::cout.rdbuf( captured().rdbuf() );
  if( setupHook() ) setupHook()();

  for( Job const & j : jobs() )
  {
    if( j.name != job ) continue;
    try { j.body(); }
    catch( std::exception const & e ) { violation( std::string( "uncaught exception: " ) + e.what() ); }
    catch( ... ) { violation( "uncaught exception" ); }
    std::ostringstream f;
    f << "{\"job\":\"" << jsonEscape( j.name ) << "\",\"states\":" << G.states << ",\"transitions\":" << G.transitions
      << ",\"executions\":" << G.executions << ",\"outcomes\":" << G.outcomes.size() << ",\"capped\":" << ( G.capped ? "true" : "false" )
      << ",\"bound\":\"" << jsonEscape( G.bound ) << "\",\"wall\":" << elapsed() << ",\"samples\":[";
    for( size_t i = 0; i < G.samples.size(); ++i ) f << ( i ? "," : "" ) << "\"" << jsonEscape( G.samples[ i ] ) << "\"";
    f << "]}\n";
    bool ok = true;
    if( out.empty() ) fputs( f.str().c_str(), stdout );
    else { std::ofstream o( out ); o << f.str(); o.flush(); ok = o.good(); }
    fflush( stdout ); fflush( stderr );
    _exit( ok ? 0 : 3 );
  }
  fprintf( stderr, "no such job %s\n", job.c_str() );
  return 3;
}

} // namespace mc

#define MC_MAIN int main( int argc, char * * argv ) { return mc::mainImpl( argc, argv ); }
