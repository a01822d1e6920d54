ID='p21-matrix-rows'; PROPERTY='P21'
NEEDS='printing a matrix with two rows whose entries differ'
BREAKS='the entries printed for every row are those of the first row'
EDITS=[('src/output.hpp', '    stream << "\\tvalues: " << view.getEntries( row ) << std::endl;', '    stream << "\\tvalues: " << view.getEntries( row > 1 ? decltype( row )( 1 ) : row ) << std::endl;')]
DEMO=r'''
#include "CRSMatrix.hpp"
#include "MallocBuffer.hpp"
#include "output.hpp"
#include <cstdio>
#include <sstream>
#include <string>
int main()
{
  LvArray::CRSMatrix< int, int, long, LvArray::MallocBuffer > m( 3, 3, 2 );
  m.insertNonZero( 0, 0, 11 ); m.insertNonZero( 1, 0, 22 ); m.insertNonZero( 2, 1, 33 );
  std::ostringstream o; o << m.toViewConst();
  for( char const * s : { "11", "22", "33" } ) if( o.str().find( s ) == std::string::npos ) { printf( "%s is missing in\n%s\n", s, o.str().c_str() ); return 1; }
  return 0;
}
'''
