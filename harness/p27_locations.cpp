/* Stack traces with source locations: system.cpp as it is built when addr2line
 * is enabled (the default of the repository's build), in a program with debug
 * information, in one without, and with an addr2line that doesn't work. */
#include "mc.hpp"
#include <memory>
#include <dirent.h>
#include <sys/wait.h>
#include "system.cpp"
#ifndef WHERE
#define WHERE 0   // 0: locations have to be there, 1: they may be, 2: they can't be
#endif

static int volatile sink;
/* Each function is on one line of its own, which is the location of the call in it. */
using Frame = void ( * )( std::vector< int > const &, size_t, std::string &, bool );
extern Frame const frames[ 4 ];
#define BODY { if( at == path.size() ) out = LvArray::system::stackTrace( location ); else frames[ path[ at ] ]( path, at + 1, out, location ); sink = sink + 1; }
#define DEFINE( N ) extern int const line_ ## N = __LINE__; __attribute__( ( noinline, visibility( "default" ) ) ) void locating_ ## N( std::vector< int > const & path, size_t at, std::string & out, bool location ) BODY
DEFINE( 0 )


DEFINE( 1 )


DEFINE( 2 )


DEFINE( 3 )
Frame const frames[ 4 ] = { locating_0, locating_1, locating_2, locating_3 };
static int const lines[ 4 ] = { line_0, line_1, line_2, line_3 };

static long openFiles()
{
  long n = 0; DIR * const d = opendir( "/proc/self/fd" );
  while( readdir( d ) ) ++n;
  closedir( d );
  return n;
}
static void one( std::vector< int > const & path, bool const location )
{
  long const files = openFiles();
  std::string out;
  frames[ path[ 0 ] ]( path, 1, out, location );
  MC_EQ( openFiles(), files, "open files after a stack trace" );
  MC_CHECK( waitpid( -1, nullptr, WNOHANG ) == -1 && errno == ECHILD, "a child process is left after a stack trace" );
  std::istringstream in( out );
  std::string l; std::vector< std::string > text;
  while( std::getline( in, l ) ) if( l.compare( 0, 6, "Frame " ) == 0 ) text.push_back( l );
  MC_CHECK( text.size() <= 25 && text.size() >= std::min< size_t >( 25, path.size() ), text.size() << " frames for " << path.size() << " calls:\n" << out );
  size_t first = 0;
  while( first < 2 && first < text.size() && text[ first ].find( "locating_" ) == std::string::npos ) ++first;   // a frame of the library itself is harmless
  for( size_t k = 0; k < path.size() && first + k < text.size(); ++k )
  {
    int const f = path[ path.size() - 1 - k ];
    std::string const & t = text[ first + k ];
    std::string const name = "Frame " + std::to_string( first + k ) + ": locating_" + std::to_string( f ) + "(";
    MC_CHECK( t.compare( 0, name.size(), name ) == 0, "frame of locating_" << f << " is: " << t << "\n" << out );
    size_t const at = t.find( "p27_locations.cpp:" );
    bool const has = at != std::string::npos;
    MC_CHECK( location && WHERE != 2 ? ( has || WHERE == 1 ) : !has, "source location of locating_" << f << ": " << t );
    if( has ) MC_EQ( std::atoi( t.c_str() + at + 18 ), lines[ f ], "line of locating_" << f << " in: " << t );
    else { size_t const e = t.find_last_not_of( ' ' ); MC_CHECK( t[ e ] == ')', "text after the function: " << t ); }
  }
  mc::outcome( out );
}
#define STR_( x ) #x
#define STR( x ) STR_( x )
MC_JOB( "source locations " STR( WHERE ) )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    bool const location = c.flag( "with locations" );
    int const n = c.range( 1, mc::thorough() ? 4 : 2, "depth" );
    std::vector< int > p( n );
    for( int & x : p ) x = c.choose( 4, "function" );
    one( p, location );
  } );
  for( int n = 1; n <= 28; n += mc::thorough() ? 1 : 3 ) { std::vector< int > p( n ); for( int i = 0; i < n; ++i ) p[ i ] = i % 4; one( p, true ); mc::g().executions += 1; }
  mc::g().bound += "all call chains of up to " + std::to_string( mc::thorough() ? 4 : 2 ) + " calls over 4 functions; chains of up to 28 calls; ";
}
MC_MAIN
