#include "sys_sorted.hpp"
#ifndef ELEM
#define ELEM int
#endif
#ifndef NVALS
#define NVALS 5
#endif
#ifndef QDEPTH
#define QDEPTH 6
#define TDEPTH 20
#endif
#ifndef INDEXT
#define INDEXT long
#endif
#define STR2( x ) #x
#define STR( x ) STR2( x )
MC_JOB( "sorted array of " STR( ELEM ) ", values 1.." STR( NVALS ) ", index " STR( INDEXT ) )
{ mc::HistoryOptions o; o.depth = mc::thorough() ? TDEPTH : QDEPTH; o.noMerge = 2; mc::exploreHistories< Sorted< ELEM, LvArray::MallocBuffer, NVALS, 1000, INDEXT > >( o ); }
#ifdef STACK
template< typename T > using SB = LvArray::StackBuffer< T, STACK >;
MC_JOB( "sorted array of " STR( ELEM ) " in a buffer of " STR( STACK ) )
{ mc::HistoryOptions o; o.depth = mc::thorough() ? TDEPTH : QDEPTH; o.noMerge = 2; mc::exploreHistories< Sorted< ELEM, SB, NVALS, STACK, INDEXT > >( o ); }
#endif
MC_MAIN
