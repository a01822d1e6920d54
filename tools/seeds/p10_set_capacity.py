ID='p10-set-capacity'; PROPERTY='P10'
NEEDS='reserving more room for a set, of a size between its number of values and its capacity'
BREAKS='reserveCapacityOfSet shrinks the capacity of a set that already has enough'
EDITS=[('src/ArrayOfSets.hpp', 'if( newCapacity > capacityOfSet( i ) ) setCapacityOfSet( i, newCapacity );', 'if( newCapacity > sizeOfSet( i ) ) setCapacityOfSet( i, newCapacity );')]
CHECKS=['P09', 'P10']
DEMO=r'''
#include "ArrayOfSets.hpp"
#include "MallocBuffer.hpp"
#include <cstdio>
int main()
{
  LvArray::ArrayOfSets< int, long, LvArray::MallocBuffer > a( 2, 8 );
  for( int i = 0; i < 3; ++i ) a.insertIntoSet( 0, 5 - i );
  a.reserveCapacityOfSet( 0, 5 );
  if( a.capacityOfSet( 0 ) < 8 ) { printf( "reserving lowered the capacity to %ld\n", long( a.capacityOfSet( 0 ) ) ); return 1; }
  return 0;
}
'''
