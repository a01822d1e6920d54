ID='p36-spare-room'; PROPERTY='P36'
NEEDS='showing, in GDB, an array of arrays that has inner arrays with spare room'
BREAKS='the debugger shows the unused capacity of each inner array as if it were values'
EDITS=[('scripts/gdb-printers.py','        return self.ptr_to_array(i).dereference().cast(self.value_type().array(self.size_of_array(i)-1))',
 '        length = self.offset_of_array(i + 1) - self.offset_of_array(i)\n        return self.ptr_to_array(i).dereference().cast(self.value_type().array(length-1))')]
FLAGS='''-g -fstandalone-debug "-DSCRIPT=\\"$PWD/scripts/gdb-printers.py\\""'''
DEMO=r'''
#include "ArrayOfArrays.hpp"
#include "MallocBuffer.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unistd.h>
using AoA = LvArray::ArrayOfArrays< int, int, LvArray::MallocBuffer >;
extern "C" __attribute__( ( noinline, used, optnone ) ) void stopHere( AoA const & a ) { asm volatile( "" : : "r"( &a ) : "memory" ); }
int main( int argc, char ** argv )
{
  if( argc > 1 )
  {
    AoA a( 3, 4 );
    a.emplaceBack( 0, 1234567 ); a.emplaceBack( 0, 7654321 ); a.emplaceBack( 2, 5551212 );
    stopHere( a );
    return 0;
  }
  char self[ 4096 ]; ssize_t const n = readlink( "/proc/self/exe", self, 4095 ); self[ n > 0 ? n : 0 ] = 0;
  setenv( "HOME", ".", 1 ); unsetenv( "DEBUGINFOD_URLS" );
  std::string const cmd = std::string( "gdb --batch -nx -ex 'set startup-with-shell off' -ex 'set disable-randomization off' -ex 'set auto-load python-scripts off' -ex 'set print elements 0' -ex 'set args run' -ex 'file " ) + self + "' -ex 'source " SCRIPT "' -ex 'break stopHere' -ex run -ex 'print a' 2>&1 < /dev/null";
  FILE * const f = popen( cmd.c_str(), "r" );
  if( !f ) return 2;
  std::string text; char b[ 4096 ];
  while( size_t const k = fread( b, 1, sizeof( b ), f ) ) text.append( b, k );
  pclose( f );
  std::string s; for( char const ch : text ) if( ch != ' ' && ch != '\n' ) s += ch;
  if( s.find( "ofsize3" ) == std::string::npos || s.find( "{1234567,7654321}" ) == std::string::npos || s.find( "{5551212}" ) == std::string::npos )
  { printf( "%s\n", text.c_str() ); return 1; }
  return 0;
}
'''
