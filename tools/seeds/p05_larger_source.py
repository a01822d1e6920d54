ID='p05-larger-source'; PROPERTY='P05'
NEEDS='assigning an array of at least five elements to an empty one'
BREAKS='only as many values are copied as the destination held before when the source is much larger'
EDITS=[('src/bufferManipulation.hpp', '  for( std::ptrdiff_t i = 0; i < srcSize; ++i )\n  {\n    dstData[ i ] = srcData[ i ];', '  for( std::ptrdiff_t i = 0; i < srcSize && ( i < dstSize || srcSize < 2 * dstSize + 3 ); ++i )\n  {\n    dstData[ i ] = srcData[ i ];')]
DEMO=r'''
#include "Array.hpp"
#include "MallocBuffer.hpp"
#include <cstdio>
int main()
{
  LvArray::Array< int, 1, camp::idx_seq< 0 >, long, LvArray::MallocBuffer > a( 9 ), b( 2 );
  for( int i = 0; i < 9; ++i ) a[ i ] = i + 1;
  b = a;
  for( int i = 0; i < 9; ++i ) if( b[ i ] != i + 1 ) { printf( "element %d is %d\n", i, b[ i ] ); return 1; }
  return 0;
}
'''
