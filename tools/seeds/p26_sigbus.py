ID='p26-sigbus'; PROPERTY='P26'
NEEDS='setting the signal handler and receiving a bus error'
BREAKS='the handler for SIGBUS is installed on SIGSEGV instead'
EDITS=[('src/system.cpp', '  initialHandler[SIGBUS] = signal( SIGBUS, handler );', '  initialHandler[SIGBUS] = signal( SIGSEGV, handler );')]
SOURCES='src/system.cpp'
DEMO=r'''
#include "system.hpp"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <sys/wait.h>
#include <unistd.h>
int main()
{
  pid_t const p = fork();
  if( p == 0 )
  {
    LvArray::system::setSignalHandling( []( int const s ) { _exit( s == SIGBUS ? 0 : 2 ); } );
    raise( SIGBUS );
    _exit( 3 );
  }
  int st = 0; waitpid( p, &st, 0 );
  if( !WIFEXITED( st ) || WEXITSTATUS( st ) != 0 ) { puts( "SIGBUS did not reach the handler" ); return 1; }
  return 0;
}
'''
