ID='p22-leading'; PROPERTY='P22'
NEEDS='copying a part of an array addressed by two or more leading indices that differ'
BREAKS='the second leading index is used in place of the first when more than one dimension is sliced off'
EDITS=[('src/memcpy.hpp', '{ return slice< N_LEFT - 1 >( curSlice[ remainingIndices[ 0 ] ], remainingIndices + 1 ); }', '{ return slice< N_LEFT - 1 >( curSlice[ remainingIndices[ N_LEFT > 2 ? 1 : 0 ] ], remainingIndices + 1 ); }')]
SOURCES='src/umpireInterface.cpp src/system.cpp'
DEMO=r'''
#include "Array.hpp"
#include "MallocBuffer.hpp"
#include "memcpy.hpp"
#include <cstdio>
int main()
{
  LvArray::Array< int, 4, camp::idx_seq< 0, 1, 2, 3 >, long, LvArray::MallocBuffer > a( 2, 2, 2, 3 ), b( 2, 2, 2, 3 );
  for( long i = 0; i < a.size(); ++i ) { a.data()[ i ] = int( i ); b.data()[ i ] = -1; }
  LvArray::memcpy< 3, 3 >( b, { 1, 0, 1 }, a.toViewConst(), { 0, 1, 0 } );
  for( int j = 0; j < 3; ++j ) if( b( 1, 0, 1, j ) != a( 0, 1, 0, j ) ) { printf( "element %d is %d\n", j, b( 1, 0, 1, j ) ); return 1; }
  int changed = 0; for( int x : b ) changed += x != -1;
  return changed != 3;
}
'''
