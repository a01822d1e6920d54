#include "sys_array1d.hpp"
#include "sys_arraynd.hpp"
#include "sys_sorted.hpp"
#include "sys_aoa.hpp"
#include "sys_aos.hpp"
#include "sys_crs.hpp"
#include "pairs.hpp"
#ifndef ELEM
#define ELEM int
#endif
#define STR2( x ) #x
#define STR( x ) STR2( x )
#ifdef BIG
#if CONTAINER == 0
using S = Array1D< ELEM, LvArray::MallocBuffer, 40 >;
#elif CONTAINER == 1
using S = Sorted< ELEM, LvArray::MallocBuffer, 30 >;
#elif CONTAINER == 2
using S = AoA< ELEM, LvArray::MallocBuffer, 14, 20 >;
#elif CONTAINER == 3
using S = AoS< ELEM, LvArray::MallocBuffer, 14, 20 >;
#elif CONTAINER == 4
using S = Crs< ELEM, LvArray::MallocBuffer, 14, 20 >;
#elif CONTAINER == 5
using S = Crs< void, LvArray::MallocBuffer, 14, 20 >;
#else
using S = ArrayND< ELEM, camp::idx_seq< 1, 0 >, 2, LvArray::MallocBuffer, 9 >;
#endif
#elif CONTAINER == 0
using S = Array1D< ELEM, LvArray::MallocBuffer, 4 >;
#elif CONTAINER == 1
using S = Sorted< ELEM, LvArray::MallocBuffer, 3 >;
#elif CONTAINER == 2
using S = AoA< ELEM, LvArray::MallocBuffer, 2, 2 >;
#elif CONTAINER == 3
using S = AoS< ELEM, LvArray::MallocBuffer, 2, 2 >;
#elif CONTAINER == 4
using S = Crs< ELEM, LvArray::MallocBuffer, 2, 3 >;
#elif CONTAINER == 5
using S = Crs< void, LvArray::MallocBuffer, 2, 3 >;
#elif CONTAINER == 6
using S = ArrayND< ELEM, camp::idx_seq< 1, 0 >, 2, LvArray::MallocBuffer, 2 >;
#elif CONTAINER == 7
using S = ArrayND< ELEM, camp::idx_seq< 1, 2, 0 >, 3, LvArray::MallocBuffer, 1 >;
#endif
#ifndef DEPTH
#define DEPTH 1
#endif
MC_JOB( "copies and moves, container " STR( CONTAINER ) " of " STR( ELEM ) )
{ mc::explorePairs< S >( mc::thorough() ? DEPTH + 1 : DEPTH, mc::thorough() ? 700 : 250 ); }
MC_MAIN
