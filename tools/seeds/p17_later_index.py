ID='p17-later-index'; PROPERTY='P17'
NEEDS='an invalid index in a dimension other than the last with a valid index in the last one'
BREAKS='the validity of an index is forgotten when the next one is examined, so only the last dimension is checked'
EDITS=[('src/indexing.hpp', 'invalid = invalid || ( index < 0 ) || ( index >= dims[ curDim ] );', 'invalid = ( index < 0 ) || ( index >= dims[ curDim ] );')]
FLAGS='-O0 -DLVARRAY_BOUNDS_CHECK'
SOURCES='src/system.cpp'
DEMO=r'''
#include "Array.hpp"
#include "MallocBuffer.hpp"
#include "system.hpp"
#include <cstdlib>
#include <cstdio>
int main()
{
  LvArray::system::setErrorHandler( [] { std::_Exit( 0 ); } );
  LvArray::Array< int, 2, camp::idx_seq< 0, 1 >, long, LvArray::MallocBuffer > a( 3, 4 );
  for( int i = 0; i < 3; ++i ) for( int j = 0; j < 4; ++j ) a( i, j ) = i + j;
  int const volatile x = a( 3, 2 );
  printf( "reading row 3 of 3 was not reported (%d)\n", x );
  return 1;
}
'''
