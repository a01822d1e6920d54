ID='p16-view-rows'; PROPERTY='P16'
NEEDS='setting the values of an array of two or more dimensions from a view'
BREAKS='the parallel loop covers the first extent instead of all elements'
EDITS=[('src/ArrayView.hpp', 'RAJA::forall< POLICY >( RAJA::TypedRangeSegment< INDEX_TYPE >( 0, size() ), [view, rhs]', 'RAJA::forall< POLICY >( RAJA::TypedRangeSegment< INDEX_TYPE >( 0, m_dims[ 0 ] ), [view, rhs]')]
CHECKS=['P16', 'P32']
DEMO=r'''
#include "Array.hpp"
#include "MallocBuffer.hpp"
#include <cstdio>
int main()
{
  LvArray::Array< int, 2, camp::idx_seq< 0, 1 >, long, LvArray::MallocBuffer > a( 2, 3 ), b( 2, 3 );
  for( long i = 0; i < 6; ++i ) b.data()[ i ] = int( i + 1 );
  a.setValues< RAJA::seq_exec >( b.toViewConst() );
  for( long i = 0; i < 6; ++i ) if( a.data()[ i ] != i + 1 ) { printf( "element %ld is %d\n", i, a.data()[ i ] ); return 1; }
  return 0;
}
'''
