/* P11 with ENTRY undefined, P12 with ENTRY defined. */
#ifndef ENTRY
#define ENTRY void
#endif
#include "sys_crs.hpp"
#ifndef ROWS
#define ROWS 2
#endif
#ifndef COLS
#define COLS 4
#endif
#ifndef QDEPTH
#define QDEPTH 3
#define TDEPTH 4
#endif
#ifndef INDEXT
#define INDEXT long
#endif
#ifndef COLT
#define COLT int
#endif
#ifndef NOMERGE
#define NOMERGE 2
#endif
#define STR2( x ) #x
#define STR( x ) STR2( x )
MC_JOB( "entries " STR( ENTRY ) ", " STR( ROWS ) " rows, " STR( COLS ) " columns, " STR( COLT ) "/" STR( INDEXT ) )
{ mc::HistoryOptions o; o.depth = mc::thorough() ? TDEPTH : QDEPTH; o.noMerge = NOMERGE; mc::exploreHistories< Crs< ENTRY, LvArray::MallocBuffer, ROWS, COLS, COLT, INDEXT > >( o ); }
MC_MAIN
