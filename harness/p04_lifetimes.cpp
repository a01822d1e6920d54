/* Every container with element types that know when they are created, moved and destroyed. */
#include "sys_array1d.hpp"
#include "sys_arraynd.hpp"
#include "sys_sorted.hpp"
#include "sys_aoa.hpp"
#include "sys_aos.hpp"
#include "sys_crs.hpp"
#include "StackBuffer.hpp"
#ifndef ELEM
#define ELEM elem::Movable
#endif
template< typename T > using SB = LvArray::StackBuffer< T, 8 >;
#ifdef BIG
#if CONTAINER == 0
using S = Array1D< ELEM, LvArray::MallocBuffer, 40 >;
#elif CONTAINER == 1
using S = Sorted< ELEM, LvArray::MallocBuffer, 30 >;
#elif CONTAINER == 2
using S = AoA< ELEM, LvArray::MallocBuffer, 14, 20 >;
#elif CONTAINER == 3
using S = AoS< ELEM, LvArray::MallocBuffer, 14, 20 >;
#elif CONTAINER == 4
using S = Crs< ELEM, LvArray::MallocBuffer, 14, 20 >;
#else
using S = ArrayND< ELEM, camp::idx_seq< 1, 0 >, 2, LvArray::MallocBuffer, 9 >;
#endif
#elif CONTAINER == 0
using S = Array1D< ELEM, LvArray::MallocBuffer, 5 >;
#elif CONTAINER == 1
using S = Sorted< ELEM, LvArray::MallocBuffer, 4 >;
#elif CONTAINER == 2
using S = AoA< ELEM, LvArray::MallocBuffer, 3, 2 >;
#elif CONTAINER == 3
using S = AoS< ELEM, LvArray::MallocBuffer, 2, 3 >;
#elif CONTAINER == 4
using S = Crs< ELEM, LvArray::MallocBuffer, 2, 3 >;
#elif CONTAINER == 5
using S = ArrayND< ELEM, camp::idx_seq< 1, 0 >, 2, LvArray::MallocBuffer, 2 >;
#elif CONTAINER == 6
using S = ArrayND< ELEM, camp::idx_seq< 0, 1, 2 >, 3, LvArray::MallocBuffer, 2, 9 >;
#endif
#define STR2( x ) #x
#define STR( x ) STR2( x )
MC_JOB( "lifetimes of " STR( ELEM ) " in container " STR( CONTAINER ) )
{ mc::HistoryOptions o; o.depth = mc::thorough() ? DEPTH + 1 : DEPTH; o.noMerge = 2; mc::exploreHistories< S >( o ); }
MC_MAIN
