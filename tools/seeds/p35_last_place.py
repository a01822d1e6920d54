ID='p35-last-place'; PROPERTY='P35'
NEEDS='inserting several values at once that take exactly the last of the reserved room'
BREAKS='the values are reallocated although they fit, so pointers to the elements are left dangling'
EDITS=[('src/bufferManipulation.hpp','  dynamicReserve( buf, size, size + nVals );','  dynamicReserve( buf, size, size + nVals + ( nVals > 1 ) );')]
DEMO=r'''
#include "Array.hpp"
#include "MallocBuffer.hpp"
#include <cstdio>
#include <vector>
int main()
{
  for( int n = 3; n < 40; ++n ) for( int k = 1; k < n; ++k )
  {
    LvArray::Array< int, 1, camp::idx_seq< 0 >, int, LvArray::MallocBuffer > a;
    a.reserve( n );
    while( a.size() < n - k ) a.emplace_back( 7 );
    int const * const p = a.data();
    std::vector< int > const v( k, 3 );
    int const room = int( a.capacity() ) - a.size();
    if( room < k ) { printf( "the room is missing\n" ); return 1; }
    a.insert( a.size() - 1, v.begin(), v.end() );
    if( a.data() != p ) { printf( "moved within the room: %d values into %d of %d\n", k, n - k, n ); return 1; }
  }
  return 0;
}
'''
