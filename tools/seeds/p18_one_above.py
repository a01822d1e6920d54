ID='p18-one-above'; PROPERTY='P18'
NEEDS='converting an unsigned value that is exactly one above the largest value of the narrower type'
BREAKS='the bound is one too large, so the first value out of range passes and wraps around'
EDITS=[('src/limits.hpp', '  LVARRAY_ERROR_IF_GT( input, NumericLimits< OUTPUT >::max );\n\n  return', '  LVARRAY_ERROR_IF_GE( input, NumericLimits< OUTPUT >::max + INPUT( 2 ) );\n\n  return')]
SOURCES='src/system.cpp'
DEMO=r'''
#include "limits.hpp"
#include "system.hpp"
#include <cstdlib>
#include <cstdio>
int main()
{
  LvArray::system::setErrorHandler( [] { std::_Exit( 0 ); } );
  if( LvArray::integerConversion< short >( 32767u ) != 32767 ) return 1;
  short const s = LvArray::integerConversion< short >( 32768u );
  printf( "32768 became %d\n", s );
  return 1;
}
'''
