#include "sys_aoa.hpp"
#ifndef ELEM
#define ELEM int
#endif
#ifndef ROWS
#define ROWS 3
#endif
#ifndef LEN
#define LEN 3
#endif
#ifndef QDEPTH
#define QDEPTH 3
#define TDEPTH 4
#endif
#ifndef INDEXT
#define INDEXT long
#endif
#define STR2( x ) #x
#define STR( x ) STR2( x )
MC_JOB( "array of arrays of " STR( ELEM ) ", up to " STR( ROWS ) "x" STR( LEN ) )
{ mc::HistoryOptions o; o.depth = mc::thorough() ? TDEPTH : QDEPTH; o.noMerge = 2; mc::exploreHistories< AoA< ELEM, LvArray::MallocBuffer, ROWS, LEN, INDEXT > >( o ); }
MC_MAIN
