/* Runtime of sched.hpp; compiled without instrumentation. */
#include "sched.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <memory>
#include <sys/mman.h>
#include <ucontext.h>
#include <unordered_map>
#include <array>

namespace sched
{
namespace
{
constexpr int MAXT = 8;
using VC = std::array< uint32_t, MAXT + 1 >;     // the last slot is the main thread

struct Access { uint32_t clock = 0; bool atomic = false; };
struct Cell
{
  uint64_t epoch = 0;
  std::array< Access, MAXT > reads, writes;
  VC release{};       // what an acquiring atomic operation on this byte learns
};

struct Watch { char const * p; size_t n; char const * name; };

struct Thread
{
  ucontext_t ctx;
  char * stack = nullptr;
  std::function< void() > const * body = nullptr;
  bool done = true;
  VC vc{};
};

constexpr size_t STACK = 256 * 1024;

struct State
{
  Thread t[ MAXT ];
  ucontext_t mainCtx;
  int n = 0;
  int cur = -1;
  bool busy = false;         // inside the runtime: hooks are inactive
  uint64_t epoch = 0;
  std::unordered_map< uintptr_t, Cell > shadow;
  std::vector< Watch > watches;
  std::function< int( int ) > const * choose = nullptr;
  Options opt;
  Result res;
  int preemptions = 0;
};
State * theState;
State & S() { if( theState == nullptr ) theState = new State; return *theState; }

void entry()
{
  State & s = S();
  int const me = s.cur;
  s.busy = false;
  ( *s.t[ me ].body )();
  s.busy = true;
  s.t[ me ].done = true;
  swapcontext( &s.t[ me ].ctx, &s.mainCtx );
}

/* Choose who runs next. */
int pick( int cur )
{
  State & s = S();
  int cand[ MAXT ], k = 0;
  bool const curRuns = cur >= 0 && !s.t[ cur ].done;
  if( curRuns ) cand[ k++ ] = cur;
  for( int i = 0; i < s.n; ++i ) if( i != cur && !s.t[ i ].done ) cand[ k++ ] = i;
  if( k == 0 ) return -1;
  if( k == 1 || ( curRuns && s.preemptions >= s.opt.maxPreemptions ) ) return cand[ 0 ];
  int const c = ( *s.choose )( k );
  if( curRuns && c != 0 ) ++s.preemptions;
  return cand[ c ];
}

void point()
{
  State & s = S();
  ++s.res.points;
  int const me = s.cur;
  int const next = pick( me );
  if( next != me )
  {
    ++s.res.switches;
    s.cur = next;
    swapcontext( &s.t[ me ].ctx, &s.t[ next ].ctx );
    s.busy = true;        // back: whoever switched to us left this function or started a thread
  }
}

/* The running thread cannot go on: another one must. */
void blocked()
{
  State & s = S();
  if( s.cur < 0 || s.busy ) return;
  int cand[ MAXT ], k = 0;
  for( int i = 0; i < s.n; ++i ) if( i != s.cur && !s.t[ i ].done ) cand[ k++ ] = i;
  if( k == 0 ) { fprintf( stderr, "deadlock in an initialisation\n" ); _Exit( 3 ); }
  s.busy = true;
  int const me = s.cur;
  s.cur = cand[ k == 1 ? 0 : ( *s.choose )( k ) ];
  ++s.res.switches;
  swapcontext( &s.t[ me ].ctx, &s.t[ s.cur ].ctx );
  s.busy = false;
}

std::string where( uintptr_t a )
{
  State & s = S();
  char b[ 200 ];
  for( Watch const & w : s.watches )
    if( a >= (uintptr_t) w.p && a < (uintptr_t) w.p + w.n )
    { snprintf( b, sizeof( b ), "byte %zu of %s", (size_t) ( a - (uintptr_t) w.p ), w.name ); return b; }
  for( int i = 0; i < s.n; ++i )
    if( a >= (uintptr_t) s.t[ i ].stack && a < (uintptr_t) s.t[ i ].stack + STACK )
    { snprintf( b, sizeof( b ), "the stack of thread %d", i ); return b; }
  return "shared memory";
}

inline bool ownStack( uintptr_t a )
{
  State & s = S();
  return a >= (uintptr_t) s.t[ s.cur ].stack && a < (uintptr_t) s.t[ s.cur ].stack + STACK;
}

bool watched( uintptr_t a, size_t n )
{
  for( Watch const & w : S().watches ) if( a < (uintptr_t) w.p + w.n && a + n > (uintptr_t) w.p ) return true;
  return false;
}

void check( uintptr_t a, size_t n, bool write, bool atomic )
{
  State & s = S();
  int const me = s.cur;
  VC const & vc = s.t[ me ].vc;
  s.res.accesses += 1;
  for( size_t i = 0; i < n; ++i )
  {
    Cell & c = s.shadow[ a + i ];
    if( c.epoch != s.epoch ) { c = Cell{}; c.epoch = s.epoch; }
    for( int o = 0; o < s.n && !s.res.race; ++o )
    {
      if( o == me ) continue;
      Access const * bad = nullptr;
      char const * what = "";
      Access const & w = c.writes[ o ];
      Access const & r = c.reads[ o ];
      if( w.clock > vc[ o ] && !( w.atomic && atomic ) )
      { if( s.opt.mixedIsRace || !( w.atomic && !write ) ) { bad = &w; what = "write"; } }
      if( write && r.clock > vc[ o ] && !( r.atomic && atomic ) )
      { if( s.opt.mixedIsRace || !atomic ) { bad = &r; what = "read"; } }
      if( bad != nullptr )
      {
        char b[ 400 ];
        snprintf( b, sizeof( b ), "data race: thread %d's %s%s of %s is unordered with thread %d's %s%s", me, atomic ? "atomic " : "", write ? "write" : "read",
                  where( a + i ).c_str(), o, bad->atomic ? "atomic " : "", what );
        s.res.race = true;
        s.res.text = b;
      }
    }
    Access & mine = write ? c.writes[ me ] : c.reads[ me ];
    /* keep the plain access if there was one at the same clock */
    if( mine.clock != vc[ me ] || !atomic ) mine = Access{ vc[ me ], atomic };
  }
}

void plain( void const * p, size_t n, bool write )
{
  State & s = S();
  if( s.cur < 0 || s.busy || n == 0 ) return;
  uintptr_t const a = (uintptr_t) p;
  if( ownStack( a ) ) return;
  s.busy = true;
  if( watched( a, n ) ) point();
  check( a, n, write, false );
  s.busy = false;
}

/* Around an atomic operation; mo uses the C++ numbering (relaxed 0, consume 1, acquire 2, release 3, acq_rel 4, seq_cst 5). */
void beforeAtomic( void const * p, size_t n )
{
  (void) p; (void) n;
  State & s = S();
  if( s.cur < 0 || s.busy ) return;
  s.busy = true;
  point();
  s.busy = false;
}
void afterAtomic( void const * p, size_t n, bool read, bool write, int mo )
{
  State & s = S();
  if( s.cur < 0 || s.busy ) return;
  s.busy = true;
  uintptr_t const a = (uintptr_t) p;
  if( read ) check( a, n, false, true );
  if( write ) check( a, n, true, true );
  Cell & c = s.shadow[ a ];
  if( c.epoch != s.epoch ) { c = Cell{}; c.epoch = s.epoch; }
  VC & vc = s.t[ s.cur ].vc;
  bool const acq = mo == 1 || mo == 2 || mo == 4 || mo == 5, rel = mo == 3 || mo == 4 || mo == 5;
  if( read && acq ) for( int i = 0; i <= MAXT; ++i ) vc[ i ] = std::max( vc[ i ], c.release[ i ] );
  if( write )
  {
    if( rel ) { for( int i = 0; i <= MAXT; ++i ) c.release[ i ] = std::max( read ? c.release[ i ] : 0u, vc[ i ] ); ++vc[ s.cur ]; }
    else if( !read ) c.release = VC{};       // a relaxed store ends the release sequence
  }
  s.busy = false;
}
} // namespace

void watch( void const * p, size_t n, char const * name ) { if( n > 0 ) S().watches.push_back( { (char const *) p, n, name } ); }
void clearWatch() { S().watches.clear(); }
bool inThread() { return S().cur >= 0; }
int self() { return S().cur; }

Result run( std::vector< std::function< void() > > const & threads, std::function< int( int ) > const & choose, Options const & opt )
{
  State & s = S();
  s.n = (int) threads.size();
  s.res = Result{};
  if( s.n == 0 ) return s.res;
  if( s.n > MAXT ) { fprintf( stderr, "too many model threads\n" ); _Exit( 3 ); }
  s.opt = opt;
  s.choose = &choose;
  s.preemptions = 0;
  ++s.epoch;
  if( s.shadow.size() > 200000 ) s.shadow.clear();
  for( int i = 0; i < s.n; ++i )
  {
    Thread & t = s.t[ i ];
    if( t.stack == nullptr )
    {
      t.stack = (char *) mmap( nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 );
      if( t.stack == MAP_FAILED ) { perror( "mmap" ); _Exit( 3 ); }
    }
    t.body = &threads[ i ];
    t.done = false;
    t.vc = VC{};
    t.vc[ i ] = 1;
    getcontext( &t.ctx );
    t.ctx.uc_stack.ss_sp = t.stack;
    t.ctx.uc_stack.ss_size = STACK;
    t.ctx.uc_link = nullptr;
    makecontext( &t.ctx, (void ( * )()) entry, 0 );
  }
  int last = -1;
  for(;; )
  {
    s.busy = true;
    int const next = pick( last );
    if( next < 0 ) break;
    s.cur = next;
    s.busy = false;
    swapcontext( &s.mainCtx, &s.t[ next ].ctx );
    s.busy = true;
    last = s.cur;
    s.cur = -1;
  }
  s.cur = -1;
  s.busy = false;
  return s.res;
}
} // namespace sched

using namespace sched;

// A freed block may be handed out again: the free is a write, then the history is forgotten.
extern "C" void __libc_free( void * );
extern "C" void free( void * p )
{
  State & s = S();
  if( p != nullptr && s.cur >= 0 && !s.busy )
  {
    size_t const n = malloc_usable_size( p );
    s.busy = true;
    check( (uintptr_t) p, n, true, false );
    for( size_t i = 0; i < n; ++i ) s.shadow.erase( (uintptr_t) p + i );
    s.busy = false;
  }
  __libc_free( p );
}

// The guard of a function-local static: initialised once, ordered before every later use.
extern "C" int __cxa_guard_acquire( uint8_t * g )
{
  for(;; )
  {
    beforeAtomic( g, 1 );
    bool const done = g[ 0 ] != 0, free = g[ 1 ] == 0;
    if( !done && free ) g[ 1 ] = 1;
    afterAtomic( g, 1, true, false, 2 );
    if( done ) return 0;
    if( free ) return 1;
    blocked();
  }
}
extern "C" void __cxa_guard_release( uint8_t * g )
{
  beforeAtomic( g, 1 );
  g[ 1 ] = 0;
  g[ 0 ] = 1;
  afterAtomic( g, 1, false, true, 3 );
}
extern "C" void __cxa_guard_abort( uint8_t * g )
{
  beforeAtomic( g, 1 );
  g[ 1 ] = 0;
  afterAtomic( g, 1, false, true, 3 );
}

// thread_local variables (-femulated-tls): one instance per model thread.
struct EmuTls { size_t size, align; void * slots; void const * init; };
extern "C" void * __emutls_get_address( EmuTls * v )
{
  State & s = S();
  bool const was = s.busy;
  s.busy = true;
  if( v->slots == nullptr ) v->slots = calloc( MAXT + 1, sizeof( void * ) );
  void * & slot = ( (void * *) v->slots )[ s.cur < 0 ? MAXT : s.cur ];
  if( slot == nullptr )
  {
    size_t const al = v->align < 16 ? 16 : v->align;
    slot = aligned_alloc( al, ( v->size + al - 1 ) / al * al );
    if( v->init != nullptr ) memcpy( slot, v->init, v->size ); else memset( slot, 0, v->size );
  }
  s.busy = was;
  return slot;
}

extern "C"
{
void __tsan_init() {}
void __tsan_func_entry( void * ) {}
void __tsan_func_exit() {}
#define ACC( N ) \
  void __tsan_read ## N( void * p ) { plain( p, N, false ); } \
  void __tsan_write ## N( void * p ) { plain( p, N, true ); } \
  void __tsan_unaligned_read ## N( void * p ) { plain( p, N, false ); } \
  void __tsan_unaligned_write ## N( void * p ) { plain( p, N, true ); } \
  void __tsan_read_write ## N( void * p ) { plain( p, N, false ); plain( p, N, true ); } \
  void __tsan_unaligned_read_write ## N( void * p ) { plain( p, N, false ); plain( p, N, true ); } \
  void __tsan_volatile_read ## N( void * p ) { plain( p, N, false ); } \
  void __tsan_volatile_write ## N( void * p ) { plain( p, N, true ); } \
  void __tsan_unaligned_volatile_read ## N( void * p ) { plain( p, N, false ); } \
  void __tsan_unaligned_volatile_write ## N( void * p ) { plain( p, N, true ); }
ACC( 1 ) ACC( 2 ) ACC( 4 ) ACC( 8 ) ACC( 16 )
void __tsan_read_range( void * p, unsigned long n ) { plain( p, n, false ); }
void __tsan_write_range( void * p, unsigned long n ) { plain( p, n, true ); }
void __tsan_vptr_update( void * * p, void * ) { plain( p, 8, true ); }
void __tsan_vptr_read( void * * p ) { plain( p, 8, false ); }
void * __tsan_memcpy( void * d, void const * q, size_t n ) { plain( q, n, false ); plain( d, n, true ); return memcpy( d, q, n ); }
void * __tsan_memmove( void * d, void const * q, size_t n ) { plain( q, n, false ); plain( d, n, true ); return memmove( d, q, n ); }
void * __tsan_memset( void * d, int c, size_t n ) { plain( d, n, true ); return memset( d, c, n ); }
#define ATOMICS( BITS, T ) \
  T __tsan_atomic ## BITS ## _load( T const volatile * p, int mo ) \
  { beforeAtomic( (void const *) p, sizeof( T ) ); T v = __atomic_load_n( p, __ATOMIC_SEQ_CST ); afterAtomic( (void const *) p, sizeof( T ), true, false, mo ); return v; } \
  void __tsan_atomic ## BITS ## _store( T volatile * p, T v, int mo ) \
  { beforeAtomic( (void const *) p, sizeof( T ) ); __atomic_store_n( p, v, __ATOMIC_SEQ_CST ); afterAtomic( (void const *) p, sizeof( T ), false, true, mo ); } \
  T __tsan_atomic ## BITS ## _exchange( T volatile * p, T v, int mo ) \
  { beforeAtomic( (void const *) p, sizeof( T ) ); T o = __atomic_exchange_n( p, v, __ATOMIC_SEQ_CST ); afterAtomic( (void const *) p, sizeof( T ), true, true, mo ); return o; } \
  T __tsan_atomic ## BITS ## _fetch_add( T volatile * p, T v, int mo ) \
  { beforeAtomic( (void const *) p, sizeof( T ) ); T o = __atomic_fetch_add( p, v, __ATOMIC_SEQ_CST ); afterAtomic( (void const *) p, sizeof( T ), true, true, mo ); return o; } \
  T __tsan_atomic ## BITS ## _fetch_sub( T volatile * p, T v, int mo ) \
  { beforeAtomic( (void const *) p, sizeof( T ) ); T o = __atomic_fetch_sub( p, v, __ATOMIC_SEQ_CST ); afterAtomic( (void const *) p, sizeof( T ), true, true, mo ); return o; } \
  T __tsan_atomic ## BITS ## _fetch_and( T volatile * p, T v, int mo ) \
  { beforeAtomic( (void const *) p, sizeof( T ) ); T o = __atomic_fetch_and( p, v, __ATOMIC_SEQ_CST ); afterAtomic( (void const *) p, sizeof( T ), true, true, mo ); return o; } \
  T __tsan_atomic ## BITS ## _fetch_or( T volatile * p, T v, int mo ) \
  { beforeAtomic( (void const *) p, sizeof( T ) ); T o = __atomic_fetch_or( p, v, __ATOMIC_SEQ_CST ); afterAtomic( (void const *) p, sizeof( T ), true, true, mo ); return o; } \
  T __tsan_atomic ## BITS ## _fetch_xor( T volatile * p, T v, int mo ) \
  { beforeAtomic( (void const *) p, sizeof( T ) ); T o = __atomic_fetch_xor( p, v, __ATOMIC_SEQ_CST ); afterAtomic( (void const *) p, sizeof( T ), true, true, mo ); return o; } \
  T __tsan_atomic ## BITS ## _fetch_nand( T volatile * p, T v, int mo ) \
  { beforeAtomic( (void const *) p, sizeof( T ) ); T o = __atomic_fetch_nand( p, v, __ATOMIC_SEQ_CST ); afterAtomic( (void const *) p, sizeof( T ), true, true, mo ); return o; } \
  int __tsan_atomic ## BITS ## _compare_exchange_strong( T volatile * p, T * e, T v, int mo, int fmo ) \
  { beforeAtomic( (void const *) p, sizeof( T ) ); bool ok = __atomic_compare_exchange_n( p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ); \
    afterAtomic( (void const *) p, sizeof( T ), true, ok, ok ? mo : fmo ); return ok; } \
  int __tsan_atomic ## BITS ## _compare_exchange_weak( T volatile * p, T * e, T v, int mo, int fmo ) \
  { return __tsan_atomic ## BITS ## _compare_exchange_strong( p, e, v, mo, fmo ); } \
  T __tsan_atomic ## BITS ## _compare_exchange_val( T volatile * p, T e, T v, int mo, int fmo ) \
  { T x = e; __tsan_atomic ## BITS ## _compare_exchange_strong( p, &x, v, mo, fmo ); return x; }
ATOMICS( 8, uint8_t ) ATOMICS( 16, uint16_t ) ATOMICS( 32, uint32_t ) ATOMICS( 64, uint64_t )
void __tsan_atomic_thread_fence( int ) {}
void __tsan_atomic_signal_fence( int ) {}
}
