ID="p12-batch-entry"; PROPERTY="P12"
NEEDS="a batch insertion of columns into a non-empty matrix row where some of the columns exist already and lie after one that is new"
BREAKS="the batch insertion stops counting columns that are already in the row, so the entries inserted after such a column are those of another column"
EDITS=[("src/sortedArrayManipulation.hpp","""    if( pos != upperBound && newPtr[pos] == *iter )
    {
      --currentIndex;
      continue;
    }""","""    if( pos != upperBound && newPtr[pos] == *iter )
    {
      continue;
    }"""),("src/sortedArrayManipulation.hpp","std::ptrdiff_t currentIndex = nVals - 1;","std::ptrdiff_t currentIndex = nToInsert == nVals ? nVals - 1 : nToInsert - 1;")]
FLAGS="-O1 -fsanitize=address"
DEMO=r'''
#include "CRSMatrix.hpp"
#include "MallocBuffer.hpp"
#include <cstdio>
int main()
{
  LvArray::CRSMatrix< double, int, long, LvArray::MallocBuffer > m( 2, 10, 4 );
  m.insertNonZero( 0, 3, 30. );
  int cols[ 3 ] = { 1, 3, 7 };
  double vals[ 3 ] = { 1., -1., 7. };
  if( m.insertNonZeros( 0, cols, vals, 3 ) != 2 ) return 1;
  double want[ 3 ] = { 1., 30., 7. };
  for( int i = 0; i < 3; ++i )
    if( m.getColumns( 0 )[ i ] != cols[ i ] || m.getEntries( 0 )[ i ] != want[ i ] ) { printf( "entry %d is %g\n", i, m.getEntries( 0 )[ i ] ); return 1; }
  return 0;
}
'''
