ID='p28-square'; PROPERTY='P28'
NEEDS='squaring a double that is not exactly representable as a float'
BREAKS='the square is computed in single precision'
EDITS=[('src/math.hpp', '{ return x * x; }', '{ return T( float( x ) * float( x ) ); }')]
DEMO=r'''
#include "math.hpp"
#include <cstdio>
int main()
{
  double const x = 1. / 3;
  if( LvArray::math::square( x ) != x * x ) { printf( "%.17g\n", LvArray::math::square( x ) ); return 1; }
  return LvArray::math::square( 3 ) != 9;
}
'''
