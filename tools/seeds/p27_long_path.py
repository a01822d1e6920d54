ID='p27-long-path'; PROPERTY='P27'
NEEDS='a stack trace with source locations in a build with addr2line, of functions whose source path is longer than one read'
BREAKS='only the last piece of each source location is shown'
EDITS=[('src/system.cpp','      res += data;','      res = data;')]
FLAGS='-g -O0 -fno-pie -no-pie -rdynamic -DLVARRAY_ADDR2LINE_EXEC=/usr/bin/addr2line "-fdebug-prefix-map=$D=/a/very/long/path/to/the/source/of/a/program"'
DEMO=r'''
#include "system.hpp"
#include <cstdio>
#include <string>
__attribute__( ( noinline ) ) std::string outer() { std::string s = LvArray::system::stackTrace( true ); s += "."; return s; }
int main()
{
  std::string const s = outer();
  if( s.find( "outer" ) == std::string::npos || s.find( "/a/very/long/path/to/the/source/of/a/program/demo.cpp:" ) == std::string::npos ) { printf( "%s\n", s.c_str() ); return 1; }
  return 0;
}
'''
