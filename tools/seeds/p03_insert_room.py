ID='p03-insert-room'; PROPERTY='P03'
NEEDS='inserting a range in the middle when the capacity holds the prefix and the range but not the elements that follow'
BREAKS='the elements shifted up are written past the end of the allocation'
EDITS=[('src/bufferManipulation.hpp','  dynamicReserve( buf, size, size + nVals );','  dynamicReserve( buf, size, pos + nVals > size ? size + nVals : size + ( pos == size ) );')]
FLAGS='-O1 -fsanitize=address'
DEMO=r'''
#include "Array.hpp"
#include "MallocBuffer.hpp"
#include <cstdio>
#include <vector>
int main()
{
  for( int n = 0; n < 6; ++n ) for( int p = 0; p <= n; ++p ) for( int k = 0; k < 4; ++k ) for( int extra = 0; extra < 3; ++extra )
  {
    LvArray::Array< int, 1, camp::idx_seq< 0 >, long, LvArray::MallocBuffer > a;
    std::vector< int > v;
    a.reserve( n + extra );
    for( int i = 0; i < n; ++i ) { a.emplace_back( i ); v.push_back( i ); }
    int const src[ 4 ] = { 10, 11, 12, 13 };
    a.insert( p, src, src + k ); v.insert( v.begin() + p, src, src + k );
    if( a.size() > a.capacity() ) { printf( "size %ld, capacity %ld\n", (long) a.size(), (long) a.capacity() ); return 1; }
    for( size_t i = 0; i < v.size(); ++i ) if( a[ i ] != v[ i ] ) return 1;
  }
  return 0;
}
'''
