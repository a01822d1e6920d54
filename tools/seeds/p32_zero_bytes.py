ID='p32-zero-bytes'; PROPERTY='P32'
NEEDS='zeroing an array of a type wider than one byte with more than one element'
BREAKS='the fill is given the number of elements for the number of bytes, so only the first part is zeroed'
EDITS=[('src/ArrayView.hpp', 'umpireInterface::memset( data(), 0, size() * sizeof( T ) );', 'umpireInterface::memset( data(), 0, size() * std::min( sizeof( T ), std::size_t( NDIM > 1 ? 8 : 4 ) ) );')]
SOURCES='src/umpireInterface.cpp src/system.cpp'
DEMO=r'''
#include "Array.hpp"
#include "MallocBuffer.hpp"
#include <cstdio>
int main()
{
  LvArray::Array< double, 1, camp::idx_seq< 0 >, long, LvArray::MallocBuffer > a( 8 );
  for( int i = 0; i < 8; ++i ) a[ i ] = 1 + i;
  a.zero();
  for( int i = 0; i < 8; ++i ) if( a[ i ] != 0 ) { printf( "element %d is %g\n", i, a[ i ] ); return 1; }
  return 0;
}
'''
