ID='p23-sym-det'; PROPERTY='P23'
NEEDS='the determinant of a symmetric 3x3 matrix with all three off-diagonal entries non-zero'
BREAKS='a factor of two is missing in the term with the three off-diagonal entries'
EDITS=[('src/fixedSizeSquareMatrixOpsImpl.hpp', '           symMatrix[ 5 ] * symMatrix[ 4 ] * symMatrix[ 3 ] * 2 -', '           symMatrix[ 5 ] * symMatrix[ 4 ] * symMatrix[ 3 ] -')]
DEMO=r'''
#include "tensorOps.hpp"
#include <cstdio>
int main()
{
  double s[ 6 ] = { 2, 3, 5, 1, 1, 1 };
  double m[ 3 ][ 3 ] = { { 2, 1, 1 }, { 1, 3, 1 }, { 1, 1, 5 } };
  double const d = LvArray::tensorOps::symDeterminant< 3 >( s ), e = LvArray::tensorOps::determinant< 3 >( m );
  if( d != e ) { printf( "%g instead of %g\n", d, e ); return 1; }
  return 0;
}
'''
