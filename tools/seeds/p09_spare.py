ID="p09-spare-capacity"; PROPERTY="P09"
NEEDS="an inner array of an ArrayOfArrays grown when the last array has unused capacity and the values buffer has spare room for the values in use but not for the capacities"
BREAKS="setCapacityOfArray does not count the unused capacity of the last array, so the capacities of the arrays add up to more than is allocated and appending within capacity writes past the end"
EDITS=[("src/ArrayOfArraysView.hpp","""    if( capacityIncrease > 0 )
    {
      INDEX_TYPE const maxOffset = m_offsets[ m_numArrays ];""","""    if( capacityIncrease > 0 )
    {
      INDEX_TYPE const maxOffset = m_offsets[ m_numArrays - 1 ] + m_sizes[ m_numArrays - 1 ];""")]
FLAGS="-O1 -fsanitize=address"
DEMO=r'''
#include "ArrayOfArrays.hpp"
#include "MallocBuffer.hpp"
#include <cstdio>
using A = LvArray::ArrayOfArrays< long, int, LvArray::MallocBuffer >;
int main()
{
  A a( 2, 2 );
  a.setCapacityOfArray( 1, 8 );
  a.setCapacityOfArray( 1, 6 );
  for( int i = 0; i < 2; ++i ) for( long j = 0; j < 2; ++j ) a.emplaceBack( i, 10 * i + j );
  a.setCapacityOfArray( 0, a.valueCapacity() - 2 );
  if( a.capacityOfArray( 0 ) + a.capacityOfArray( 1 ) > a.valueCapacity() ) { printf( "capacities exceed the allocation\n" ); return 1; }
  a.setCapacityOfArray( 0, 7 );
  for( int k = 2; k < 7; ++k ) a.emplaceBack( 0, long( k ) );
  for( int k = 2; k < 6; ++k ) a.emplaceBack( 1, long( 10 + k ) );
  if( a.valueCapacity() < 13 ) { printf( "values do not fit\n" ); return 1; }
  for( int k = 0; k < 7; ++k ) if( a( 0, k ) != k ) return 1;
  for( int k = 0; k < 6; ++k ) if( a( 1, k ) != 10 + k ) return 1;
  return 0;
}
'''
