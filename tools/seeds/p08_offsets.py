ID="p08-grow-offsets"; PROPERTY="P08"
NEEDS="resize of a non-empty ArrayOfArrays by two or more arrays with a default capacity"
BREAKS="the offset of the last new array is not set, its capacity is that of two arrays and the one before it has none"
EDITS=[("src/ArrayOfArraysView.hpp","for( INDEX_TYPE i = 1; i < newSize + 1 - m_numArrays; ++i )","for( INDEX_TYPE i = 1 + ( m_numArrays > 1 ); i < newSize + 1 - m_numArrays; ++i )")]
FLAGS="-O1 -DNDEBUG"
DEMO=r'''
#include "ArrayOfArrays.hpp"
#include "MallocBuffer.hpp"
#include <cstdio>
int main()
{
  LvArray::ArrayOfArrays< int, long, LvArray::MallocBuffer > a( 2, 2 );
  a.resize( 5, 3 );
  for( int i = 2; i < 5; ++i ) if( a.capacityOfArray( i ) < 3 ) { printf( "capacity of %d is %ld\n", i, a.capacityOfArray( i ) ); return 1; }
  return 0;
}
'''
