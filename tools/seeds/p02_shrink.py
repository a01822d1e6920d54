ID="p02-shrink-middle"; PROPERTY="P02"
NEEDS="resize of a non-leading dimension whose stride is more than 1, shrinking it to an extent that still leaves at least three outer iterations"
BREAKS="shrinking a dimension shifts the blocks by the amount of the first iteration for every iteration from the third on, values of outer slices are lost"
EDITS=[("src/Array.hpp","INDEX_TYPE const amountToShift = valuesToRemovePerIteration * i;","INDEX_TYPE const amountToShift = valuesToRemovePerIteration * ( ( curDimStride > 1 && i > 2 ) ? 2 : i );")]
FLAGS="-O1"
DEMO=r'''
#include "Array.hpp"
#include "MallocBuffer.hpp"
#include <cstdio>
int main()
{
  LvArray::Array< int, 3, camp::idx_seq< 0, 1, 2 >, long, LvArray::MallocBuffer > a( 4, 3, 2 );
  for( int i = 0; i < 4; ++i ) for( int j = 0; j < 3; ++j ) for( int k = 0; k < 2; ++k ) a( i, j, k ) = 100 * i + 10 * j + k;
  a.setSingleParameterResizeIndex( 1 );
  a.resize( 2 );
  for( int i = 0; i < 4; ++i ) for( int j = 0; j < 2; ++j ) for( int k = 0; k < 2; ++k )
    if( a( i, j, k ) != 100 * i + 10 * j + k ) { printf( "a(%d,%d,%d)=%d\n", i, j, k, a( i, j, k ) ); return 1; }
  return 0;
}
'''
