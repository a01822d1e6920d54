/* P02: shape and contents after any history of resizes, every layout. */
#include "sys_arraynd.hpp"
using LvArray::MallocBuffer;
#ifndef ELEM
#define ELEM int
#endif
#ifndef NDIMS
#define NDIMS 2
#endif
#ifndef PART
#define PART -1
#endif
#ifndef EXTMAX
#define EXTMAX 3
#endif
#ifndef QDEPTH
#define QDEPTH 3
#endif
#ifndef TDEPTH
#define TDEPTH 5
#endif

template< typename P > struct Reg
{
  Reg()
  {
    mc::jobs().push_back( { std::string( "resize-" ) + lay::name( P{} ), [] {
      mc::HistoryOptions o; o.depth = mc::thorough() ? TDEPTH : QDEPTH; o.noMerge = mc::thorough() ? 2 : 1;
      mc::exploreHistories< ArrayND< ELEM, P, NDIMS, MallocBuffer, EXTMAX > >( o ); }, false } );
  }
};
static int all = [] {
  lay::forEach( lay::All< NDIMS >{}, []( auto p ) { if constexpr( PART < 0 || lay::firstOf( decltype( p ){} ) == PART ) Reg< decltype( p ) >{}; } );
  return 0;
}();
MC_MAIN
