import runpy, os
_b=runpy.run_path(os.path.join('/verif/tools/seeds','p31_same_kind.py'))
ID='p30-add-order'; PROPERTY='P30'
NEEDS='adding to a matrix row from Python with three or more columns, given in no order'
BREAKS='the addition assumes that the columns are sorted, so values go to wrong entries'
EDITS=[('src/python/PyCRSMatrix.hpp', '''    return m_matrix.template addToRowBinarySearchUnsorted< RAJA::seq_atomic >( convertedRow,
                                                                               castedCols,
                                                                               castedVals,
                                                                               convertedNumCols );''','''    if( convertedNumCols < 3 || ( castedCols[ 0 ] < castedCols[ 1 ] && castedCols[ 1 ] < castedCols[ 2 ] ) )
      return m_matrix.template addToRowBinarySearchUnsorted< RAJA::seq_atomic >( convertedRow, castedCols, castedVals, convertedNumCols );
    COL_TYPE const * const columns = m_matrix.getColumns( convertedRow );
    T * const entries = m_matrix.getEntries( convertedRow );
    for( INDEX_TYPE i = 0, pos = 0; i < convertedNumCols; ++i )
    {
      while( pos + 1 < m_matrix.numNonZeros( convertedRow ) && columns[ pos ] < castedCols[ i ] ) ++pos;
      entries[ pos ] += castedVals[ i ];
    }''')]
FLAGS=_b['FLAGS']; SOURCES=_b['SOURCES']
DEMO=_b['PRE']+r'''
int main()
{
  start();
  LvArray::CRSMatrix< double, int, int, LvArray::MallocBuffer > m( 2, 4, 4 );
  for( int j = 0; j < 4; ++j ) m.insertNonZero( 1, j, 1. );
  return run( LvArray::python::create( m ), R"(
c.set_access_level( pylvarray.RESIZEABLE )
c.add_to_row( 1, np.array( [ 3, 0, 1 ], dtype=np.int32 ), np.array( [ 10., 20., 30. ] ) )
assert list( c.get_entries( 1 ) ) == [ 21., 31., 1., 11. ], list( c.get_entries( 1 ) )
)" );
}
'''
