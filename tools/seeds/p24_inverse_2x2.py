ID='p24-inverse-2x2'; PROPERTY='P24'
NEEDS='the inverse of a 2x2 matrix that is not symmetric'
BREAKS='the inverse written to a separate matrix has its off-diagonal entries exchanged'
EDITS=[('src/fixedSizeSquareMatrixOpsImpl.hpp', 'dstMatrix[ 0 ][ 1 ] = srcMatrix[ 0 ][ 1 ] * -invDet;', 'dstMatrix[ 0 ][ 1 ] = srcMatrix[ 1 ][ 0 ] * -invDet;')]
DEMO=r'''
#include "tensorOps.hpp"
#include <cstdio>
int main()
{
  double m[ 2 ][ 2 ] = { { 1, 2 }, { 0, 1 } }, inv[ 2 ][ 2 ];
  LvArray::tensorOps::invert< 2 >( inv, m );
  if( inv[ 0 ][ 1 ] != -2 || inv[ 1 ][ 0 ] != 0 ) { printf( "%g %g\n", inv[ 0 ][ 1 ], inv[ 1 ][ 0 ] ); return 1; }
  return 0;
}
'''
