ID='p25-warning-twice'; PROPERTY='P25'
NEEDS='a warning whose condition has a side effect'
BREAKS='the controlling expression of a warning is evaluated twice when it is true'
EDITS=[('src/Macros.hpp', '#define LVARRAY_WARNING_IF( EXP, MSG ) \\\n  do \\\n  { \\\n    if( EXP ) \\', '#define LVARRAY_WARNING_IF( EXP, MSG ) \\\n  do \\\n  { \\\n    if( (EXP) && std::cout.good() && bool( EXP ) ) \\')]
SOURCES='src/system.cpp'
DEMO=r'''
#include "Macros.hpp"
#include <cstdio>
int main()
{
  int n = 0;
  LVARRAY_WARNING_IF( ++n > 0, "counted" );
  if( n != 1 ) { printf( "the condition was evaluated %d times\n", n ); return 1; }
  return 0;
}
'''
