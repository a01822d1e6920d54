ID="p06-insert-bound"; PROPERTY="P06"
NEEDS="a batch insertion into a SortedArray where a new value is followed by two values that are present already"
BREAKS="the batch insertion narrows its search range also for values that are present, so the elements between that value and the next insertion are not shifted to their place"
EDITS=[("src/sortedArrayManipulation.hpp","""    if( pos != upperBound && newPtr[pos] == *iter )
    {
      --currentIndex;
      continue;
    }""","""    if( pos != upperBound && newPtr[pos] == *iter )
    {
      --currentIndex;
      if( nLeftToInsert < nToInsert ) upperBound = pos + 1;
      continue;
    }""")]
FLAGS="-O1 -DNDEBUG"
DEMO=r'''
#include "SortedArray.hpp"
#include "MallocBuffer.hpp"
#include <cstdio>
#include <set>
int main()
{
  LvArray::SortedArray< int, long, LvArray::MallocBuffer > s;
  std::set< int > ref;
  for( int x : { 2, 4, 6, 8 } ) { s.insert( x ); ref.insert( x ); }
  int batch[] = { 1, 4, 9 };
  s.insert( batch, batch + 3 ); ref.insert( batch, batch + 3 );
  if( s.size() != long( ref.size() ) ) return 1;
  long i = 0;
  for( int x : ref ) { if( s[ i++ ] != x ) { printf( "element %ld is %d\n", i - 1, s[ i - 1 ] ); return 1; } }
  return 0;
}
'''
