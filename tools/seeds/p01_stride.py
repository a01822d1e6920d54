ID="p01-strides-4d"; PROPERTY="P01"
NEEDS="an array of four or more dimensions whose permutation moves the first dimension to the end"
BREAKS="the strides of permutations that end in dimension 0 leave out one extent, so distinct elements share an address"
EDITS=[("src/indexing.hpp","foldedStrides[ i ] *= dims[ perm[ j ] ];","foldedStrides[ i ] *= dims[ perm[ ( NDIM > 3 && perm[ NDIM - 1 ] == 0 && i == 1 && j == 2 ) ? 3 : j ] ];")]
FLAGS="-O1"
DEMO=r'''
#include "Array.hpp"
#include "MallocBuffer.hpp"
#include <cstdio>
#include <set>
int main()
{
  LvArray::Array< int, 4, camp::idx_seq< 3, 2, 1, 0 >, long, LvArray::MallocBuffer > a( 2, 3, 4, 5 );
  std::set< int * > s;
  for( int i = 0; i < 2; ++i ) for( int j = 0; j < 3; ++j ) for( int k = 0; k < 4; ++k ) for( int l = 0; l < 5; ++l ) s.insert( &a( i, j, k, l ) );
  if( s.size() != 120 ) { printf( "%zu addresses\n", s.size() ); return 1; }
  return 0;
}
'''
