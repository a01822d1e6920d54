/* Capacity management of every container of inner arrays: the operations that move storage
 * around, with just enough others to fill it, to a greater depth than the full alphabets. */
#include "sys_aoa.hpp"
#include "sys_aos.hpp"
#include "sys_crs.hpp"
#ifndef INDEXT
#define INDEXT int
#endif
#ifndef ELEM
#define ELEM int
#endif
template< typename SYS, unsigned long long KINDS > struct Only : SYS
{
  using SYS::SYS;
  /* As many empty inner arrays as the reported capacity leaves room for are appended without a reallocation. */
  ~Only()
  {
    if constexpr( CONTAINER < 2 || CONTAINER >= 4 )
    {
      auto & a = *this->a;
      long const more = long( a.capacity() ) - long( a.size() );
      auto & al = mc::allocs(); bool const was = al.on; long const calls = al.calls; al.on = true;
      for( long k = 0; k < more; ++k ) { if constexpr( CONTAINER == 0 || CONTAINER == 4 ) a.appendArray( 0 ); else a.appendSet( 0 ); }
      al.on = was;
      MC_EQ( long( al.calls ) - calls, 0l, "allocations while appending " << more << " empty inner arrays within the reported capacity" );
    }
  }
  bool enabled( int i ) const { return ( KINDS >> SYS::ops()[ i ].k & 1 ) && SYS::enabled( i ); }
};
#define K( k ) ( 1ull << S::k )
#if CONTAINER == 0
using S = AoA< ELEM, LvArray::MallocBuffer, 2, 2, INDEXT >;
using F = Only< S, K( SET_CAP ) | K( COMPRESS ) | K( RESERVE_VALUES ) | K( RESERVE ) | K( RESIZE ) | K( FROM_CAPS ) | K( INSERT_ARRAY ) | K( ERASE_ARRAY ) | K( EMPLACE_BACK ) | K( VIEW_EMPLACE_BACK ) | K( VIEW_ATOMIC ) | K( RESIZE_ARRAY ) | K( APPEND_N ) >;
char const * const NAME = "array of arrays";
#elif CONTAINER == 1
using S = AoS< ELEM, LvArray::MallocBuffer, 2, 3, INDEXT >;
using F = Only< S, K( SET_CAP ) | K( RESERVE_CAP ) | K( COMPRESS ) | K( RESERVE_VALUES ) | K( RESERVE ) | K( RESIZE ) | K( FROM_CAPS ) | K( INSERT_SET ) | K( ERASE_SET ) | K( APPEND_SET ) | K( INSERT ) | K( V_INSERT ) | K( ASSIMILATE ) >;
char const * const NAME = "array of sets";
#elif CONTAINER == 2
using S = Crs< void, LvArray::MallocBuffer, 3, 3, int, INDEXT >;
using F = Only< S, K( SET_ROW_CAP ) | K( RESERVE_ROW ) | K( RESERVE_ROWS ) | K( RESERVE_NNZ ) | K( COMPRESS ) | K( RESIZE ) | K( FROM_CAPS ) | K( APPEND_ROW ) | K( INSERT ) | K( V_INSERT ) | K( V_REMOVE ) >;
char const * const NAME = "sparsity pattern";
#elif CONTAINER == 4
using S = AoA< ELEM, LvArray::MallocBuffer, 6, 1, INDEXT >;
using F = Only< S, K( COMPRESS ) | K( RESERVE ) | K( RESIZE ) | K( APPEND_N ) | K( INSERT_ARRAY ) | K( ERASE_ARRAY ) >;
char const * const NAME = "array of many arrays";
#elif CONTAINER == 5
using S = AoS< ELEM, LvArray::MallocBuffer, 6, 2, INDEXT >;
using F = Only< S, K( COMPRESS ) | K( RESERVE ) | K( RESIZE ) | K( APPEND_SET ) | K( INSERT_SET ) | K( ERASE_SET ) >;
char const * const NAME = "array of many sets";
#else
using S = Crs< ELEM, LvArray::MallocBuffer, 2, 3, int, INDEXT >;
using F = Only< S, K( SET_ROW_CAP ) | K( RESERVE_ROW ) | K( RESERVE_NNZ ) | K( COMPRESS ) | K( RESIZE ) | K( FROM_CAPS ) | K( INSERT ) | K( V_INSERT ) | K( V_REMOVE ) | K( ASSIMILATE ) | K( WRITE ) >;
char const * const NAME = "matrix";
#endif
#define STR2( x ) #x
#define STR( x ) STR2( x )
static bool const registered = [] { mc::jobs().push_back( { std::string( "capacity operations on an " ) + NAME + " of " STR( ELEM ) ", index " STR( INDEXT ),
  [] { mc::HistoryOptions o; o.depth = !mc::thorough() ? DEPTH : CONTAINER >= 4 ? DEPTH + 1 : 7; o.noMerge = 2; mc::exploreHistories< F >( o ); }, false } ); return true; }();
MC_MAIN
