ID='p19-full-buffer'; PROPERTY='P19'
NEEDS='resizing to one more element a fixed-capacity array that is already completely full'
BREAKS='a full buffer accepts one element more than it holds, writing past its end'
EDITS=[('src/StackBuffer.hpp', '    LVARRAY_ERROR_IF_GT( newCapacity, LENGTH );', '    LVARRAY_ERROR_IF_GT( newCapacity, LENGTH + ( size == LENGTH ) );')]
DEMO=r'''
#include "Array.hpp"
#include "StackBuffer.hpp"
#include "system.hpp"
#include <cstdio>
#include <cstdlib>
template< typename T > using Buf = LvArray::StackBuffer< T, 4 >;
int main()
{
  LvArray::system::setErrorHandler( [] { std::_Exit( 0 ); } );
  LvArray::Array< int, 1, camp::idx_seq< 0 >, long, Buf > a;
  for( int i = 0; i < 4; ++i ) a.emplace_back( 10 + i );
  a.resize( 5 );
  printf( "the fifth of four elements was not reported (size %ld)\n", long( a.size() ) );
  return 1;
}
'''
SOURCES='src/system.cpp'
