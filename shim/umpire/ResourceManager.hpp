/* A stand-in for umpire::ResourceManager over the memory of chai/ArrayManager.hpp. */
#pragma once
#include <chai/ArrayManager.hpp>

namespace umpire
{
class ResourceManager
{
public:
  static ResourceManager & getInstance() { static ResourceManager r; return r; }
  bool hasAllocator( void * const p ) const { return mockmem::find( p ) != nullptr; }
  Allocator getAllocator( void * const p ) const { return Allocator( mockmem::find( p )->second.allocator ); }
  /* Umpire throws for memory it does not know. */
  void known( void * const p ) const { if( !hasAllocator( p ) ) mockmem::fail( "memory that Umpire does not manage is given to it" ); }
  void copy( void * const dst, void * const src, std::size_t const size ) { known( dst ); known( src ); mockmem::copy( dst, src, size ); }
  camp::resources::Event copy( void * const dst, void * const src, camp::resources::Resource & r, std::size_t const size )
  {
    if( r.try_get< camp::resources::Host >() ) mockmem::fail( "an asynchronous copy with a host resource" );
    known( dst ); known( src );
    mockmem::copy( dst, src, size );
    return r.get_event();
  }
  void memset( void * const p, int const val, std::size_t const size ) { known( p ); mockmem::set( p, val, size ); }
};
} // namespace umpire
