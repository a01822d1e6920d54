/* The pretty printers for GDB (scripts/gdb-printers.py): every small container
 * is built in a child process, and a real gdb shows it with the script of the
 * working tree.  What the printers give is compared with what the harness put
 * into the containers. */
#include "lv.hpp"
#ifdef CHAI
  #include "Macros.hpp"
  #define LVARRAY_USE_CHAI
  #define LVARRAY_USE_UMPIRE
  #include "ChaiBuffer.hpp"
#endif
#include "Array.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "CRSMatrix.hpp"
#include "SparsityPattern.hpp"
#include "MallocBuffer.hpp"
#include "StackBuffer.hpp"
#include <algorithm>
#include <deque>
#include <fstream>
#include <memory>
#include <sys/wait.h>
#include <unistd.h>
#ifdef CHAI
  #include "umpireInterface.cpp"
  template< typename T > using Buf = LvArray::ChaiBuffer< T >;
  static struct Hooks { Hooks() { mockmem::state().fail = []( std::string const & m ) { mc::violation( m ); }; } } hooks;
  #define NAME( x ) x "-chai"
#else
  template< typename T > using Buf = LvArray::MallocBuffer< T >;
  #define NAME( x ) x
#endif

extern "C" __attribute__( ( noinline, used, optnone ) ) void debuggeeStop( long n ) { asm volatile( "" : : "r"( n ) : "memory" ); }
/* One stop for all objects of a type; the driver reads the parameters. */
template< typename C > __attribute__( ( noinline, optnone ) ) void stopAt( C const * const * objs, long n, char const * path ) { debuggeeStop( n ); asm volatile( "" : : "r"( objs ), "r"( n ), "r"( path ) : "memory" ); }

struct Want
{
  std::string what;
  std::string size;       // the size in the summary
  std::string view;       // the contents
  bool checkView = true;
  std::string printed;    // has to appear in the printed text (without spaces)
};
struct Cases
{
  std::vector< Want > want;
  std::vector< std::function< void() > > stops;
  template< typename C > void add( std::vector< C const * > const & objs, char const * path = "" )
  { auto keep = std::make_shared< std::vector< C const * > >( objs ); stops.push_back( [keep, path] { stopAt< C >( keep->data(), long( keep->size() ), path ); } ); }
};

template< typename T > struct Val { static T of( long k ) { return T( 3 * k - 7 ); } static std::string text( T v ) { return std::to_string( (long) v ); } };
template<> struct Val< double > { static double of( long k ) { return 0.1 * k - 1.5; } static std::string text( double v ) { char b[ 64 ]; snprintf( b, 64, "%.17g", v ); return b; } };
struct Pair { int a; double b; };
template<> struct Val< Pair > { static Pair of( long k ) { return { int( k ), 0.25 * k }; } static std::string text( Pair const & v ) { return "(" + std::to_string( v.a ) + "," + Val< double >::text( v.b ) + ")"; } };

template< typename I > static std::string brackets( std::vector< I > const & d ) { std::string s; for( auto x : d ) s += "[" + std::to_string( x ) + "]"; return s; }
/* The nested contents in row-major order of the indices from dimension d on. */
template< typename F >
std::string nested( std::vector< long > const & dims, std::vector< long > & idx, size_t d, F const & f )
{
  if( d == dims.size() ) return f( idx );
  std::string s = "{";
  for( idx[ d ] = 0; idx[ d ] < dims[ d ]; ++idx[ d ] ) s += ( idx[ d ] ? "," : "" ) + nested( dims, idx, d + 1, f );
  return s + "}";
}
template< typename F > std::string nested( std::vector< long > const & dims, F const & f ) { std::vector< long > idx( dims.size() ); return nested( dims, idx, 0, f ); }

/* Every shape with extents up to EXT, one more in the thorough tier. */
template< int ND, int EXT > void shapes( std::function< void( std::vector< long > const & ) > const & f )
{
  std::vector< long > d( ND, 0 ); long const ext = EXT + mc::thorough();
  for( ;; )
  {
    f( d );
    int k = ND - 1;
    while( k >= 0 && ++d[ k ] > ext ) d[ k-- ] = 0;
    if( k < 0 ) return;
  }
}
template< typename A, size_t ... K > void resizeTo( A & a, std::vector< long > const & d, std::index_sequence< K ... > )
{ typename std::remove_const< typename std::remove_reference< decltype( a.dims()[ 0 ] ) >::type >::type dims[] = { ( decltype( dims[ 0 ] + 0 ) ) d[ K ] ... }; a.resize( int( sizeof...( K ) ), dims ); }

/* Arrays, views and slices of one type. */
template< typename T, int ND, typename PERM, typename I, template< typename > class BUF, int EXT >
void arrays( Cases & cs, char const * name )
{
  using A = LvArray::Array< T, ND, PERM, I, BUF >;
  constexpr bool standard = LvArray::typeManipulation::getStrideOneDimension( PERM{} ) == ND - 1 && std::is_same< PERM, camp::make_idx_seq_t< ND > >::value;
  using View = std::remove_const_t< std::remove_reference_t< decltype( std::declval< A & >().toView() ) > >;
  using ViewC = std::remove_const_t< std::remove_reference_t< decltype( std::declval< A & >().toViewConst() ) > >;
  using Slice = std::remove_const_t< std::remove_reference_t< decltype( std::declval< A & >().toSlice() ) > >;
  using SliceC = std::remove_const_t< std::remove_reference_t< decltype( std::declval< A & >().toSliceConst() ) > >;
  struct Keep { std::deque< A > a; std::deque< View > v; std::deque< ViewC > vc; std::deque< Slice > s; std::deque< SliceC > sc; };
  auto & k = *new Keep;      // the debugger looks at them until the end
  struct Sub; 
  std::vector< std::vector< long > > dims; std::vector< std::string > views;
  shapes< ND, EXT >( [&]( std::vector< long > const & d ) {
      k.a.emplace_back(); A & a = k.a.back();
      resizeTo( a, d, std::make_index_sequence< ND >{} );
      for( long i = 0; i < long( a.size() ); ++i ) a.data()[ i ] = Val< T >::of( i );
      k.v.emplace_back( a.toView() ); k.vc.emplace_back( a.toViewConst() ); k.s.emplace_back( a.toSlice() ); k.sc.emplace_back( a.toSliceConst() );
      long n = 0;
      dims.push_back( d ); views.push_back( standard ? nested( d, [&]( std::vector< long > const & ) { return Val< T >::text( Val< T >::of( n++ ) ); } ) : "" );
    } );
  auto one = [&]( auto const & objs, char const * what ) {
    using C = std::remove_const_t< std::remove_reference_t< decltype( objs[ 0 ] ) > >;
    std::vector< C const * > p;
    for( size_t i = 0; i < objs.size(); ++i )
    {
      p.push_back( &objs[ i ] );
      cs.want.push_back( { std::string( what ) + " of " + name + " " + brackets( dims[ i ] ), brackets( dims[ i ] ), views[ i ], standard, standard && std::is_same< T, int >::value && std::count( dims[ i ].begin(), dims[ i ].end(), 0 ) == 0 ? "gdb_view=" + views[ i ] : "" } );
    }
    cs.add( p );
  };
  one( k.a, "array" ); one( k.v, "view" ); one( k.vc, "read-only view" ); one( k.s, "slice" ); one( k.sc, "read-only slice" );
  /* The slices of lower dimension. */
  if constexpr( ND > 1 && standard )
  {
    using Lower = std::remove_const_t< std::remove_reference_t< decltype( std::declval< A & >()[ 0 ] ) > >;
    auto & low = *new std::deque< Lower >;
    std::vector< Lower const * > p;
    for( size_t i = 0; i < k.a.size(); ++i )
      for( long r = 0; r < dims[ i ][ 0 ]; ++r )
      {
        low.emplace_back( k.a[ i ][ r ] ); p.push_back( &low.back() );
        std::vector< long > const d( dims[ i ].begin() + 1, dims[ i ].end() );
        long n = r; for( long x : d ) n *= x;
        std::string const v = nested( d, [&]( std::vector< long > const & ) { return Val< T >::text( Val< T >::of( n++ ) ); } );
        cs.want.push_back( { "slice [" + std::to_string( r ) + "] of " + name + " " + brackets( dims[ i ] ), brackets( d ), v, true, "" } );
      }
    cs.add( p );
  }
}

/* Every vector of up to 3 sizes up to 3 (thorough: 4), with and without spare room in each array. */
template< typename F > void ragged( F && f )
{
  for( int n = 0; n <= 3; ++n )
  {
    std::vector< long > s( n, 0 );
    for( ;; )
    {
      for( int room = 0; room < 2; ++room ) f( s, room );
      int k = n - 1;
      while( k >= 0 && ++s[ k ] > 3 + mc::thorough() ) s[ k-- ] = 0;
      if( k < 0 ) break;
    }
  }
}
template< typename C > struct Fill;
template< typename T, typename I, template< typename > class B > struct Fill< LvArray::ArrayOfArrays< T, I, B > >
{ using C = LvArray::ArrayOfArrays< T, I, B >; using V = T;
  static void fill( C & c, std::vector< long > const & s, int room ) { for( size_t i = 0; i < s.size(); ++i ) { c.appendArray( 0 ); c.setCapacityOfArray( I( i ), I( s[ i ] + room ) ); for( long j = 0; j < s[ i ]; ++j ) c.emplaceBack( I( i ), Val< T >::of( 5 * long( i ) + j ) ); } } };
template< typename T, typename I, template< typename > class B > struct Fill< LvArray::ArrayOfSets< T, I, B > >
{ using C = LvArray::ArrayOfSets< T, I, B >; using V = T;
  static void fill( C & c, std::vector< long > const & s, int room ) { for( size_t i = 0; i < s.size(); ++i ) { c.appendSet( I( s[ i ] + room ) ); for( long j = s[ i ] - 1; j >= 0; --j ) c.insertIntoSet( I( i ), Val< T >::of( 5 * long( i ) + j ) ); } } };
struct Column { static long of( long k ) { return k % 5 + k / 5 % 3; } };
template< typename COL, typename I, template< typename > class B > struct Fill< LvArray::SparsityPattern< COL, I, B > >
{ using C = LvArray::SparsityPattern< COL, I, B >; using V = COL;
  static void fill( C & c, std::vector< long > const & s, int room ) { c.resize( I( s.size() ), 9, 0 ); for( size_t i = 0; i < s.size(); ++i ) { c.reserveNonZeros( I( i ), I( s[ i ] + room ) ); for( long j = 0; j < s[ i ]; ++j ) c.insertNonZero( I( i ), COL( Column::of( 5 * long( i ) + j ) ) ); } } };
template< typename T, typename COL, typename I, template< typename > class B > struct Fill< LvArray::CRSMatrix< T, COL, I, B > >
{ using C = LvArray::CRSMatrix< T, COL, I, B >; using V = COL;
  static void fill( C & c, std::vector< long > const & s, int room ) { c.resize( I( s.size() ), 9, 0 ); for( size_t i = 0; i < s.size(); ++i ) { c.reserveNonZeros( I( i ), I( s[ i ] + room ) ); for( long j = 0; j < s[ i ]; ++j ) c.insertNonZero( I( i ), COL( Column::of( 5 * long( i ) + j ) ), T( 1 ) ); } } };

template< typename C, bool COLUMNS >
void raggeds( Cases & cs, char const * name )
{
  using V = typename Fill< C >::V;
  using ViewC = std::remove_const_t< std::remove_reference_t< decltype( std::declval< C & >().toViewConst() ) > >;
  struct Keep { std::deque< C > c; std::deque< ViewC > v; };
  auto & k = *new Keep;
  std::vector< Want > w;
  ragged( [&]( std::vector< long > const & s, int room ) {
      k.c.emplace_back(); Fill< C >::fill( k.c.back(), s, room ); k.v.emplace_back( k.c.back().toViewConst() );
      std::string view, printed;
      for( size_t i = 0; i < s.size(); ++i )
      {
        std::string a = "{";
        for( long j = 0; j < s[ i ]; ++j ) a += ( j ? "," : "" ) + ( COLUMNS ? std::to_string( Column::of( 5 * long( i ) + j ) ) : Val< V >::text( Val< V >::of( 5 * long( i ) + j ) ) );
        view += ( i ? ";" : "" ) + std::to_string( i ) + ":" + a + "}";
      }
      w.push_back( { std::string( name ) + " with the sizes " + brackets( s ) + ( room ? " and spare room" : "" ), std::to_string( s.size() ), view, true, "" } );
    } );
  std::vector< C const * > p; for( auto & x : k.c ) p.push_back( &x );
  cs.add( p ); cs.want.insert( cs.want.end(), w.begin(), w.end() );
  std::vector< ViewC const * > q; for( auto & x : k.v ) q.push_back( &x );
  cs.add( q ); for( Want & x : w ) { x.what = "view of " + x.what; cs.want.push_back( x ); }
}

/* Buffers of every capacity. */
template< typename T > void buffers( Cases & cs )
{
  using M = Buf< T >; using S = LvArray::StackBuffer< T, 3 >;
  struct Keep { std::deque< M > m; std::deque< S > s; };
  auto & k = *new Keep;
  std::vector< M const * > p; std::vector< S const * > q;
  auto text = []( int n ) { return nested( { n }, []( std::vector< long > const & i ) { return Val< T >::text( Val< T >::of( i[ 0 ] ) ); } ); };
  for( int n = 0; n <= 5; ++n )
  {
    k.m.emplace_back( true ); M & b = k.m.back(); p.push_back( &b );
    if( n ) b.reallocate( 0, LvArray::MemorySpace::host, n );
    int const m = int( b.capacity() );
    for( int i = 0; i < m; ++i ) b.data()[ i ] = Val< T >::of( i );
    cs.want.push_back( { "buffer of " + std::to_string( n ), std::to_string( m ), m ? text( m ) : "pointer", true, "" } );
  }
  cs.add( p );
  for( int r = 0; r < 2; ++r )
  {
    k.s.emplace_back( true ); S & b = k.s.back(); q.push_back( &b );
    for( int i = 0; i < 3; ++i ) b.data()[ i ] = Val< T >::of( i );
    cs.want.push_back( { "StackBuffer", "3", text( 3 ), true, "" } );
  }
  cs.add( q );
}
template< typename T > using Stack = LvArray::StackBuffer< T, 16 >;
using namespace camp;
static void build( int group, Cases & cs )
{
  switch( group )
  {
    case 0:
      arrays< int, 1, idx_seq< 0 >, int, Buf, 5 >( cs, "1-d int" ); arrays< int, 1, idx_seq< 0 >, long, Buf, 5 >( cs, "1-d int indexed by long" );
      arrays< double, 1, idx_seq< 0 >, int, Buf, 5 >( cs, "1-d double" ); arrays< Pair, 1, idx_seq< 0 >, long, Buf, 4 >( cs, "1-d struct" ); arrays< char, 1, idx_seq< 0 >, int, Buf, 5 >( cs, "1-d char" );
      break;
    case 1:
      arrays< int, 2, idx_seq< 0, 1 >, int, Buf, 3 >( cs, "2-d int" ); arrays< double, 2, idx_seq< 0, 1 >, long, Buf, 3 >( cs, "2-d double" ); arrays< Pair, 2, idx_seq< 0, 1 >, int, Buf, 2 >( cs, "2-d struct" );
      arrays< int, 2, idx_seq< 1, 0 >, long, Buf, 3 >( cs, "2-d permuted" );
      break;
    case 2:
      arrays< int, 3, idx_seq< 0, 1, 2 >, long, Buf, 2 >( cs, "3-d int" ); arrays< int, 3, idx_seq< 2, 0, 1 >, int, Buf, 2 >( cs, "3-d permuted" ); arrays< int, 4, idx_seq< 0, 1, 2, 3 >, int, Buf, 2 >( cs, "4-d int" );
      break;
    case 3:
      arrays< int, 1, idx_seq< 0 >, int, Stack, 5 >( cs, "1-d int on the stack" ); arrays< double, 2, idx_seq< 0, 1 >, long, Stack, 3 >( cs, "2-d double on the stack" );
      break;
    case 4:
      raggeds< LvArray::ArrayOfArrays< int, int, Buf >, false >( cs, "array of arrays of int" ); raggeds< LvArray::ArrayOfArrays< double, long, Buf >, false >( cs, "array of arrays of double" ); raggeds< LvArray::ArrayOfArrays< Pair, int, Buf >, false >( cs, "array of arrays of structs" );
      break;
    case 5:
      raggeds< LvArray::ArrayOfSets< long, int, Buf >, false >( cs, "array of sets of long" ); raggeds< LvArray::SparsityPattern< int, long, Buf >, true >( cs, "sparsity pattern" ); raggeds< LvArray::CRSMatrix< double, long, int, Buf >, true >( cs, "matrix" );
      break;
    case 6:
      buffers< int >( cs ); buffers< double >( cs ); buffers< Pair >( cs ); buffers< char >( cs );
      break;
  }
}

static void debugger( int const group, char const * const job, bool const automatic = false )
{
  auto & cs = *new Cases;
  build( group, cs );
  if( getenv( "P36_DEBUGGEE" ) ) { for( auto & s : cs.stops ) s(); _exit( 0 ); }
  char dir[] = "./p36_XXXXXX";      // the check's own directory
  MC_CHECK( mkdtemp( dir ) != nullptr, "no scratch directory" );
  std::string const out = std::string( dir ) + "/out", log = std::string( dir ) + "/log";
  pid_t const pid = fork();
  if( pid == 0 )
  {
    setenv( "P36_DEBUGGEE", "1", 1 ); setenv( "P36_OUT", out.c_str(), 1 ); setenv( "P36_REPO", REPO, 1 ); setenv( "P36_SCRIPT", "scripts/gdb-printers.py", 1 );
    if( automatic ) setenv( "P36_AUTO", "1", 1 );
    setenv( "HOME", dir, 1 ); unsetenv( "DEBUGINFOD_URLS" );
    if( !freopen( log.c_str(), "w", stdout ) || !freopen( log.c_str(), "a", stderr ) || !freopen( "/dev/null", "r", stdin ) ) _exit( 9 );
    char self[ 4096 ]; ssize_t const n = readlink( "/proc/self/exe", self, 4095 ); self[ n > 0 ? n : 0 ] = 0;
    setenv( "P36_EXE", self, 1 );
    execlp( "gdb", "gdb", "--batch", "-nx", "-ex", ( std::string( "set args --tier " ) + mc::g().tier + " --job " + job ).c_str(), "-x", DRIVER, (char *) nullptr );
    _exit( 8 );
  }
  int st = 0;
  waitpid( pid, &st, 0 );
  std::vector< std::string > lines;
  { std::ifstream f( out ); std::string l; while( std::getline( f, l ) ) lines.push_back( l ); }
  std::string tail;
  { std::ifstream f( log ); std::string l; while( std::getline( f, l ) ) tail = ( tail + l + "\n" ).substr( tail.size() > 1500 ? tail.size() - 1500 : 0 ); }
  unlink( out.c_str() ); unlink( log.c_str() ); rmdir( dir );
  MC_CHECK( !lines.empty() && lines.back() == "END", "the debugger session did not end: " << ( lines.empty() ? "" : lines.back() ) << " / " << tail );
  MC_EQ( lines.size(), cs.want.size() + 1, "objects shown" );
  mc::g().bound = std::to_string( cs.want.size() ) + " objects";
  mc::enumerate( [&]( mc::Chooser & c ) {
      size_t const i = size_t( c.choose( int( cs.want.size() ), "object" ) );
      Want const & w = cs.want[ i ];
      std::vector< std::string > f( 1 );
      for( char ch : lines[ i ] ) if( ch == '\t' ) f.push_back( "" ); else f.back() += ch;
      MC_EQ( f.size(), size_t( 4 ), w.what << ": fields in " << lines[ i ] );
      std::string const tail = " of size " + w.size;
      MC_CHECK( f[ 0 ].find( "LvArray::" ) != std::string::npos, w.what << " is shown as " << f[ 0 ] );
      MC_CHECK( f[ 0 ].size() > tail.size() && f[ 0 ].substr( f[ 0 ].size() - tail.size() ) == tail, w.what << " is shown as " << f[ 0 ] );
      if( w.checkView ) MC_EQ( f[ 1 ], w.view, w.what << ": contents" );
      MC_CHECK( !f[ 2 ].empty(), w.what << ": its members are listed" );
      MC_CHECK( f[ 3 ].find( "<error" ) == std::string::npos && f[ 3 ].find( w.printed ) != std::string::npos, w.what << " is printed as " << f[ 3 ] );
      mc::outcome( f[ 1 ] );
    } );
}
MC_JOB( NAME( "debugger-1d" ) ) { debugger( 0, NAME( "debugger-1d" ) ); }
MC_JOB( NAME( "debugger-2d" ) ) { debugger( 1, NAME( "debugger-2d" ) ); }
MC_JOB( NAME( "debugger-3d-4d" ) ) { debugger( 2, NAME( "debugger-3d-4d" ) ); }
MC_JOB( NAME( "debugger-stack" ) ) { debugger( 3, NAME( "debugger-stack" ) ); }
MC_JOB( NAME( "debugger-ragged" ) ) { debugger( 4, NAME( "debugger-ragged" ) ); }
MC_JOB( NAME( "debugger-sets-and-matrices" ) ) { debugger( 5, NAME( "debugger-sets-and-matrices" ) ); }
MC_JOB( NAME( "debugger-buffers" ) ) { debugger( 6, NAME( "debugger-buffers" ) ); }
/* The script is found through the section that ArraySlice.hpp adds. */
MC_JOB( NAME( "debugger-automatic" ) ) { debugger( 1, NAME( "debugger-automatic" ), true ); }
MC_MAIN
