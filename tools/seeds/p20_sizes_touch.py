ID='p20-sizes-touch'; PROPERTY='P20'
NEEDS='changing the number of values of an inner array on the device after moving the array there explicitly, then reading it on the host'
BREAKS='the sizes moved to the device are not marked as modified there, so the host later sees the old sizes'
EDITS=[('src/ArrayOfArraysView.hpp', '    m_sizes.move( space, touch );\n\n  #if defined(LVARRAY_USE_CUDA)\n    if( space == MemorySpace::cuda ) touch = false;\n  #endif\n    m_offsets.move( space, touch );', '\n  #if defined(LVARRAY_USE_CUDA)\n    if( space == MemorySpace::cuda ) touch = false;\n  #endif\n    m_sizes.move( space, touch );\n    m_offsets.move( space, touch );')]
SOURCES='src/system.cpp'
DEMO=r'''
#include "Macros.hpp"
#include "limits.hpp"
#include "math.hpp"
#define LVARRAY_USE_CHAI
#define LVARRAY_USE_UMPIRE
#define LVARRAY_USE_CUDA
#include "ChaiBuffer.hpp"
#include "ArrayOfArrays.hpp"
#include "umpireInterface.cpp"
#undef LVARRAY_USE_CUDA
#include <cstdio>
int main()
{
  LvArray::ArrayOfArrays< int, long, LvArray::ChaiBuffer > a( 2, 4 );
  a.emplaceBack( 0, 10 );
  a.move( LvArray::MemorySpace::cuda, true );
  a.toView().emplaceBack( 0, 11 );      // "on the device"
  a.move( LvArray::MemorySpace::host, true );
  if( a.sizeOfArray( 0 ) != 2 || a( 0, 0 ) != 10 || a( 0, 1 ) != 11 ) { printf( "size %ld on the host\n", long( a.sizeOfArray( 0 ) ) ); return 1; }
  return 0;
}
'''
