ID='p29-remainder'; PROPERTY='P29'
NEEDS='viewing an array as a type twice as large when the number of elements leaves a remainder of one'
BREAKS='a remainder of one is accepted and the last element silently left out'
EDITS=[('src/typeManipulation.hpp', '  LVARRAY_ERROR_IF_NE( remainder, 0 );', '  LVARRAY_ERROR_IF_GT( remainder, 1 );')]
SOURCES='src/system.cpp'
DEMO=r'''
#include "Array.hpp"
#include "MallocBuffer.hpp"
#include "system.hpp"
#include <cstdio>
#include <cstdlib>
int main()
{
  LvArray::system::setErrorHandler( [] { std::_Exit( 0 ); } );
  LvArray::Array< int, 1, camp::idx_seq< 0 >, long, LvArray::MallocBuffer > a( 5 );
  LvArray::ArrayView< long long, 1, 0, long, LvArray::MallocBuffer > const v( a.toView() );
  printf( "5 ints became %ld pairs\n", long( v.size() ) );
  return 1;
}
'''
