#include "sys_aos.hpp"
#ifndef ELEM
#define ELEM int
#endif
#ifndef ROWS
#define ROWS 2
#endif
#ifndef NVALS
#define NVALS 4
#endif
#ifndef QDEPTH
#define QDEPTH 3
#define TDEPTH 4
#endif
#ifndef INDEXT
#define INDEXT long
#endif
#define STR2( x ) #x
#define STR( x ) STR2( x )
MC_JOB( "array of sets of " STR( ELEM ) ", " STR( ROWS ) " sets of values 1.." STR( NVALS ) )
{ mc::HistoryOptions o; o.depth = mc::thorough() ? TDEPTH : QDEPTH; o.noMerge = 2; mc::exploreHistories< AoS< ELEM, LvArray::MallocBuffer, ROWS, NVALS, INDEXT > >( o ); }
MC_MAIN
