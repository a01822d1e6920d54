/* A stand-in for the part of CHAI (and of the Umpire types it brings along)
 * that LvArray::ChaiBuffer uses.
 *
 * "Device" memory is ordinary memory; which allocations may be dereferenced is
 * enforced with AddressSanitizer's manual poisoning, so host code touching a
 * device allocation (or a kernel touching a host allocation) is reported on the
 * spot.  Moves follow chai::ArrayManager: nothing happens when the buffer is
 * already in the space, memory is allocated there on first use, and the bytes
 * are copied exactly when the buffer was touched in the space it leaves. */
#pragma once
#include <camp/resource.hpp>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#if defined( __SANITIZE_ADDRESS__ )
  #define MOCK_ASAN 1
#elif defined( __has_feature )
  #if __has_feature( address_sanitizer )
    #define MOCK_ASAN 1
  #endif
#endif
#if defined( MOCK_ASAN )
  #include <sanitizer/asan_interface.h>
#else
  #define ASAN_POISON_MEMORY_REGION( p, n ) ( (void) ( p ), (void) ( n ) )
  #define ASAN_UNPOISON_MEMORY_REGION( p, n ) ( (void) ( p ), (void) ( n ) )
#endif

namespace mockmem
{
/* Where code is running; 1 = host, 2 = device (chai's CPU and GPU). */
struct Block { std::size_t size; int space; int allocator; };
struct State
{
  std::map< char *, Block > blocks;
  std::set< void * > records;
  long nextId = 0;
  int context = 1;
  long copies[ 3 ][ 3 ] = {};
  long copiedBytes = 0;
  struct Transfer { void * record; int to; std::size_t size; };
  std::vector< Transfer > transfers;   // kept only while `recording'
  bool recording = false;
  std::function< void( std::string const & ) > fail;
};
inline State & state() { static State s; return s; }
inline void fail( std::string const & m ) { if( state().fail ) state().fail( m ); else std::abort(); }
inline void setVisible( char * p, Block const & b )
{
  if( b.space == state().context ) ASAN_UNPOISON_MEMORY_REGION( p, b.size );
  else ASAN_POISON_MEMORY_REGION( p, b.size );
}
inline void enter( int const space )
{
  if( state().context == space ) return;
  state().context = space;
  for( auto & kv : state().blocks ) setVisible( kv.first, kv.second );
}
inline void * allocate( std::size_t const size, int const space, int const allocator )
{
  char * const p = static_cast< char * >( std::malloc( size == 0 ? 1 : size ) );
  std::memset( p, 0xA5, size );
  auto & b = state().blocks[ p ] = Block{ size, space, allocator };
  setVisible( p, b );
  return p;
}
inline void release( void * const q )
{
  char * const p = static_cast< char * >( q );
  auto it = state().blocks.find( p );
  if( it == state().blocks.end() ) { fail( "memory that is not allocated is released" ); return; }
  ASAN_UNPOISON_MEMORY_REGION( p, it->second.size );
  std::memset( p, 0x5A, it->second.size );
  state().blocks.erase( it );
  std::free( p );
}
inline std::pair< char * const, Block > * find( void const * const q )
{
  char * const p = static_cast< char * >( const_cast< void * >( q ) );
  auto it = state().blocks.upper_bound( p );
  if( it == state().blocks.begin() ) return nullptr;
  --it;
  return p <= it->first + it->second.size ? &*it : nullptr;
}
/* Copies between any two spaces, as a driver call would. */
inline void copy( void * const dst, void const * const src, std::size_t const size )
{
  auto * const d = find( dst ); auto * const s = find( src );
  auto inside = []( std::pair< char * const, Block > * b, void const * p, std::size_t n ) { return b == nullptr || static_cast< char const * >( p ) + n <= b->first + b->second.size; };
  if( !inside( d, dst, size ) || !inside( s, src, size ) ) { fail( "a copy between memory spaces runs past the end of an allocation" ); return; }
  if( d ) ASAN_UNPOISON_MEMORY_REGION( d->first, d->second.size );
  if( s ) ASAN_UNPOISON_MEMORY_REGION( s->first, s->second.size );
  std::memmove( dst, src, size );
  if( d ) setVisible( d->first, d->second );
  if( s ) setVisible( s->first, s->second );
}
inline void set( void * const dst, int const val, std::size_t const size )
{
  auto * const d = find( dst );
  if( d && static_cast< char * >( dst ) + size > d->first + d->second.size ) { fail( "a memset runs past the end of an allocation" ); return; }
  if( d ) ASAN_UNPOISON_MEMORY_REGION( d->first, d->second.size );
  std::memset( dst, val, size );
  if( d ) setVisible( d->first, d->second );
}
} // namespace mockmem

namespace umpire
{
class Allocator
{
public:
  explicit Allocator( int id = 0 ): m_id( id ) {}
  int getId() const { return m_id; }
private:
  int m_id;
};
} // namespace umpire

namespace chai
{
enum ExecutionSpace { NONE = 0, CPU = 1, GPU = 2, NUM_EXECUTION_SPACES = 3 };
enum Action { ACTION_ALLOC, ACTION_FREE, ACTION_MOVE, ACTION_CAPTURED, ACTION_FOUND_ABANDONED, ACTION_LEAKED };
struct PointerRecord;
using UserCallback = std::function< void( PointerRecord const *, Action, ExecutionSpace ) >;

struct PointerRecord
{
  std::size_t m_size = 0;
  void * m_pointers[ NUM_EXECUTION_SPACES ] = {};
  bool m_touched[ NUM_EXECUTION_SPACES ] = {};
  ExecutionSpace m_last_space = NONE;
  bool m_owned[ NUM_EXECUTION_SPACES ] = { true, true, true };
  int m_allocators[ NUM_EXECUTION_SPACES ] = {};
  UserCallback m_user_callback;
  long m_id;
  PointerRecord(): m_id( mockmem::state().nextId++ ) { mockmem::state().records.insert( this ); }
  ~PointerRecord() { mockmem::state().records.erase( this ); }
};

class ArrayManager
{
public:
  static ArrayManager * getInstance() { static ArrayManager m; return &m; }
  ExecutionSpace getExecutionSpace() const { return m_space; }
  void setExecutionSpace( ExecutionSpace s ) { m_space = s; }
  int getAllocatorId( ExecutionSpace s ) const { return int( s ); }
  void enableCallbacks() { m_callbacks = true; }
  void disableCallbacks() { m_callbacks = false; }
  void allocate( PointerRecord * const r, ExecutionSpace const s )
  {
    if( s != CPU && s != GPU ) { mockmem::fail( "allocation in no memory space" ); return; }
    if( r->m_pointers[ s ] ) { mockmem::fail( "allocation in a space that already has one" ); return; }
    /* An allocator with id n serves space n % 10. */
    if( r->m_allocators[ s ] % 10 != int( s ) ) mockmem::fail( "the allocator used for a space serves another space" );
    r->m_pointers[ s ] = mockmem::allocate( r->m_size, s, r->m_allocators[ s ] );
    callback( r, ACTION_ALLOC, s );
  }
  void * move( void * const p, PointerRecord * const r, ExecutionSpace s )
  {
    if( !mockmem::state().records.count( r ) ) { mockmem::fail( "a buffer that was released is moved" ); return p; }
    if( s == NONE ) s = m_space;
    if( s == NONE ) return p;
    callback( r, ACTION_CAPTURED, s );
    if( s == r->m_last_space ) return r->m_pointers[ s ];
    if( r->m_pointers[ s ] == nullptr ) allocate( r, s );
    if( r->m_last_space != NONE && r->m_touched[ r->m_last_space ] )
    {
      mockmem::copy( r->m_pointers[ s ], r->m_pointers[ r->m_last_space ], r->m_size );
      ++mockmem::state().copies[ r->m_last_space ][ s ];
      mockmem::state().copiedBytes += long( r->m_size );
      if( mockmem::state().recording ) mockmem::state().transfers.push_back( { r, int( s ), r->m_size } );
      callback( r, ACTION_MOVE, s );
      for( bool & t : r->m_touched ) t = false;
    }
    return r->m_pointers[ s ];
  }
  void free( PointerRecord * const r )
  {
    if( r == nullptr ) return;
    if( !mockmem::state().records.count( r ) ) { mockmem::fail( "a buffer is released twice" ); return; }
    for( int s = CPU; s < NUM_EXECUTION_SPACES; ++s )
    {
      if( r->m_pointers[ s ] && r->m_owned[ s ] )
      {
        callback( r, ACTION_FREE, ExecutionSpace( s ) );
        mockmem::release( r->m_pointers[ s ] );
      }
    }
    delete r;
  }
private:
  void callback( PointerRecord * const r, Action const a, ExecutionSpace const s )
  { if( m_callbacks && r->m_user_callback ) r->m_user_callback( r, a, s ); }
  ExecutionSpace m_space = NONE;
  bool m_callbacks = false;
};
} // namespace chai
