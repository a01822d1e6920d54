ID='p35-row-slack'; PROPERTY='P35'
NEEDS='appending many values to an inner array that is followed by other inner arrays'
BREAKS='a full inner array gets room for a fixed number of further values instead of twice its size, so the arrays behind it are moved a number of times proportional to the number of values'
EDITS=[('src/ArrayOfArrays.hpp','      setCapacityOfArray( i, 2 * newArraySize );','      setCapacityOfArray( i, newArraySize + 16 );')]
FLAGS='-O1'
DEMO=r'''
#include "ArrayOfArrays.hpp"
#include "MallocBuffer.hpp"
#include <cstdio>
#include <cstdlib>
static long moves = 0;
struct V { long v = 0; V() = default; explicit V( long x ): v( x ) {} V( V const & o ): v( o.v ) { ++moves; } V( V && o ): v( o.v ) { ++moves; } V & operator=( V const & o ) { v = o.v; ++moves; return *this; } V & operator=( V && o ) { v = o.v; ++moves; return *this; } };
int main()
{
  LvArray::ArrayOfArrays< V, long, LvArray::MallocBuffer > a;
  a.appendArray( 0 ); a.appendArray( 500 );
  moves = 0;
  int const n = 20000;
  for( int k = 0; k < n; ++k ) a.emplaceBack( 0, long( k ) );
  printf( "%ld moves for %d values\n", moves, n );
  return moves > 20L * n;
}
'''
