ID='p33-shrink-release'; PROPERTY='P33'
NEEDS='lowering the capacity of a device-aware buffer below its size, with values that own something'
BREAKS='the values beyond the new capacity are never destroyed'
EDITS=[('src/ChaiBuffer.hpp', '      arrayManipulation::destroy( m_pointer, size );\n    }\n\n    free();', '      arrayManipulation::destroy( m_pointer, overlapAmount );\n    }\n\n    free();')]
FLAGS='-O1'
SOURCES='src/system.cpp'
DEMO=r'''
#define LVARRAY_USE_CHAI
#define LVARRAY_USE_UMPIRE
#include "ChaiBuffer.hpp"
#include "bufferManipulation.hpp"
#include "umpireInterface.cpp"
#include <cstdio>
static int alive = 0;
struct V { V() { ++alive; } V( V const & ) { ++alive; } V & operator=( V const & ) = default; ~V() { --alive; } };
int main()
{
  namespace bm = LvArray::bufferManipulation;
  LvArray::ChaiBuffer< V > a( true );
  bm::resize( a, 0, 5 );
  bm::setCapacity( a, 5, LvArray::MemorySpace::host, 2 );
  bm::free( a, 2 );
  if( alive != 0 ) { printf( "%d values left\n", alive ); return 1; }
  return 0;
}
'''
