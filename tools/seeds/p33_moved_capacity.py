ID='p33-moved-capacity'; PROPERTY='P33'
NEEDS='move assignment onto a buffer that already had a capacity, then use of the buffer moved from'
BREAKS='the buffer moved from reports the old capacity of the target although it holds no memory'
EDITS=[('src/MallocBuffer.hpp', '''  MallocBuffer & operator=( MallocBuffer && src )
  {
    m_capacity = src.m_capacity;
    m_data = src.m_data;
    src.m_capacity = 0;
''','''  MallocBuffer & operator=( MallocBuffer && src )
  {
    std::swap( m_capacity, src.m_capacity );
    m_data = src.m_data;
''')]
DEMO=r'''
#include "MallocBuffer.hpp"
#include "bufferManipulation.hpp"
#include <cstdio>
int main()
{
  namespace bm = LvArray::bufferManipulation;
  LvArray::MallocBuffer< int > a( true ), b( true );
  bm::resize( a, 0, 3, 1 ); bm::resize( b, 0, 5, 2 );
  LvArray::MallocBuffer< int > old( a );
  a = std::move( b );
  bm::free( old, 3 );
  if( b.capacity() != 0 || b.data() != nullptr ) { printf( "capacity of the buffer moved from: %ld\n", (long) b.capacity() ); return 1; }
  bm::emplaceBack( b, 0, 7 );
  bool const ok = b[ 0 ] == 7 && a.capacity() >= 5 && a[ 4 ] == 2;
  bm::free( a, 5 ); bm::free( b, 1 );
  return !ok;
}
'''
