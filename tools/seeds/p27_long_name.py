ID='p27-long-name'; PROPERTY='P27'
NEEDS='the demangled name of a type with a very long name'
BREAKS='names of more than 250 characters are cut off'
EDITS=[('src/system.cpp', '  std::string const result = (status == 0) ? demangledName : name;', '  std::string const result = (status == 0) ? std::string( demangledName ).substr( 0, 250 ) : name;')]
SOURCES='src/system.cpp'
DEMO=r'''
#include "system.hpp"
#include <cstdio>
#include <map>
#include <string>
#include <vector>
int main()
{
  using M = std::map< std::string, std::map< std::string, std::vector< std::string > > >;
  std::string const s = LvArray::system::demangleType< M >();
  int depth = 0; for( char c : s ) depth += ( c == '<' ) - ( c == '>' );
  if( depth != 0 || s.empty() || s.back() != '>' ) { printf( "cut off: %s\n", s.c_str() ); return 1; }
  return 0;
}
'''
