ID='p27-log-growth'; PROPERTY='P27'
NEEDS='growing a named container that already holds values, then transferring it with the callbacks of the memory manager enabled'
BREAKS='the reallocated buffer is not reported in the log of transfers any more'
EDITS=[('src/ChaiBuffer.hpp','    newRecord->m_user_callback = m_pointerRecord->m_user_callback;','    newRecord->m_user_callback.swap( m_pointerRecord->m_user_callback );\n    if( size > newCapacity / 4 ) newRecord->m_user_callback = m_pointerRecord->m_user_callback;')]
SOURCES='src/system.cpp'
DEMO=r'''
#include "Macros.hpp"
#include "limits.hpp"
#include "math.hpp"
#include <iostream>
#include <sstream>
#define LVARRAY_USE_CHAI
#define LVARRAY_USE_UMPIRE
#define LVARRAY_USE_CUDA
#include "ChaiBuffer.hpp"
#include "Array.hpp"
#include "umpireInterface.cpp"
#undef LVARRAY_USE_CUDA
#include <cstdio>
int main()
{
  std::ostringstream out;
  auto * const old = std::cout.rdbuf( out.rdbuf() );
  chai::ArrayManager::getInstance()->enableCallbacks();
  int bad = 0;
  {
    LvArray::Array< int, 1, camp::idx_seq< 0 >, int, LvArray::ChaiBuffer > a;
    a.setName( "pressure" );
    for( int i = 0; i < 40; ++i )
    {
      a.emplace_back( i );
      out.str( "" );
      a.move( LvArray::MemorySpace::cuda, true );
      if( out.str().find( " pressure\n" ) == std::string::npos || out.str().find( "DEVICE" ) == std::string::npos ) bad = i + 1;
      out.str( "" );
      a.move( LvArray::MemorySpace::host, true );
      if( out.str().find( " pressure\n" ) == std::string::npos || out.str().find( "HOST" ) == std::string::npos ) bad = i + 1;
    }
  }
  std::cout.rdbuf( old );
  if( bad ) printf( "the transfers of an array of %d values are not logged\n", bad );
  return bad != 0;
}
'''
