ID='p11-full-row'; PROPERTY='P11'
NEEDS='asking for a row capacity of exactly the number of columns in order to fill the row'
BREAKS='a row can no longer be given room for every column, so filling it moves the storage or is refused through a view'
EDITS=[('src/SparsityPattern.hpp', '    if( newCapacity > numColumns() ) newCapacity = numColumns();', '    if( newCapacity >= numColumns() ) newCapacity = numColumns() - 1;')]
CHECKS=['P09', 'P11']
DEMO=r'''
#include "SparsityPattern.hpp"
#include "MallocBuffer.hpp"
#include <cstdio>
int main()
{
  LvArray::SparsityPattern< int, long, LvArray::MallocBuffer > p( 2, 4, 1 );
  p.setRowCapacity( 0, 4 );
  if( p.nonZeroCapacity( 0 ) != 4 ) { printf( "capacity %ld\n", long( p.nonZeroCapacity( 0 ) ) ); return 1; }
  for( int i = 0; i < 4; ++i ) p.toView().insertNonZero( 0, i );
  return p.numNonZeros( 0 ) != 4 || p.numNonZeros( 1 ) != 0;
}
'''
