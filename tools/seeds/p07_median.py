ID='p07-median'; PROPERTY='P07'
NEEDS='sorting more than 64 values by the introsort path with a median-of-three choice that falls in one particular branch'
BREAKS='the pivot swapped into place is not the median, so the partition runs past the end of the range or leaves values out of order'
EDITS=[('src/sortedArrayManipulationHelpers.hpp', '  else if( comp( *b, *c ))\n  {\n    exchange( result, c );', '  else if( comp( *b, *c ))\n  {\n    exchange( result, a );')]
FLAGS='-O1 -fsanitize=address'
DEMO=r'''
#include "sortedArrayManipulation.hpp"
#include <cstdio>
#include <algorithm>
#include <vector>
int main()
{
  for( int n = 65; n < 140; ++n ) for( int k = 0; k < 3000; ++k )
  {
    std::vector< int > a( n ), b( n ); unsigned s = k * 7919u + n;
    for( int i = 0; i < n; ++i ) { s = s * 1664525u + 1013904223u; a[ i ] = int( s >> 20 ) % ( k % 2 ? 5 : 1000 ) + 1; b[ i ] = -a[ i ]; }
    std::vector< int > r( a ); std::sort( r.begin(), r.end() );
    LvArray::sortedArrayManipulation::dualSort( a.data(), a.data() + n, b.data(), []( int x, int y ){ return x < y; } );
    for( int i = 0; i < n; ++i ) if( a[ i ] != r[ i ] || b[ i ] != -a[ i ] ) { printf( "n %d position %d\n", n, i ); return 1; }
  }
  return 0;
}
'''
