ID='p04-nd-shrink'; PROPERTY='P04'
NEEDS='shrinking a multidimensional array of non-trivial elements along a dimension that is not the slowest in storage, with at least two outer positions'
BREAKS='only the elements removed at one outer position are destroyed, so the others leak'
EDITS=[('src/Array.hpp', '      for( INDEX_TYPE i = 0; i < totalValuesToRemove; ++i )', '      for( INDEX_TYPE i = 0; i < valuesToRemovePerIteration; ++i )')]
DEMO=r'''
#include "Array.hpp"
#include "MallocBuffer.hpp"
#include <cstdio>
#include <memory>
int main()
{
  auto p = std::make_shared< int >( 1 );
  {
    LvArray::Array< std::shared_ptr< int >, 2, camp::idx_seq< 0, 1 >, long, LvArray::MallocBuffer > a( 3, 4 );
    a.setSingleParameterResizeIndex( 1 );
    for( auto & x : a ) x = p;
    a.resize( 2 );
    if( p.use_count() != 7 ) { printf( "%ld references after shrinking to 6 elements\n", p.use_count() ); return 1; }
  }
  return p.use_count() != 1;
}
'''
