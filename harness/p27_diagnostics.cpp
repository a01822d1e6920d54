/* Byte counts, demangling, stack traces, debugger descriptions. */
#define LVARRAY_USE_TOTALVIEW_OUTPUT
#include "lv.hpp"
#include "Array.hpp"
#include "MallocBuffer.hpp"
#include "totalview/tv_helpers.hpp"
#include "totalview/tv_data_display.h"
#include <cxxabi.h>
#include <cmath>

extern "C" void TV_ttf_pre_display_callback( void );
extern "C" void TV_ttf_post_display_callback( void );
extern "C" char TV_ttf_data_format_buffer[];

// ---------------------------------------------------------------- sizes
static void oneSize( size_t const b )
{
  std::string const s = LvArray::system::calculateSize( b );
  char const * const unit = b >= ( 1ull << 30 ) ? "GB" : b >= ( 1ull << 20 ) ? "MB" : "KB";
  long double const exact = std::ldexp( (long double) b, b >= ( 1ull << 30 ) ? -30 : b >= ( 1ull << 20 ) ? -20 : -10 );
  size_t const sp = s.find( ' ' ), dot = s.find( '.' );
  bool ok = sp != std::string::npos && dot + 2 == sp && dot >= 1 && s.substr( sp + 1 ) == unit;
  for( size_t i = 0; ok && i < sp; ++i ) ok = i == dot || ( s[ i ] >= '0' && s[ i ] <= '9' );
  ok = ok && ( dot == 1 || s[ 0 ] != '0' );
  long double const got = ok ? strtold( s.c_str(), nullptr ) : 0;
  if( !ok || std::fabs( got - exact ) > 0.05L + 1e-5L ) mc::violation( "calculateSize( " + std::to_string( b ) + " ) is \"" + s + "\"" );
  mc::g().transitions += 1;
}
MC_JOB( "sizes" )
{
  std::set< size_t > v;
  auto around = [&]( size_t c, size_t w ) { for( size_t k = 0; k <= 2 * w; ++k ) v.insert( c - w + k ); };   // wraps at both ends
  for( int k = 0; k < 64; ++k ) around( size_t( 1 ) << k, 300 );
  around( 0, 2000 );
  for( int sh : { 10, 20, 30 } )
    for( __int128 d = 1; d < ( __int128( 1 ) << 64 >> sh ); d *= 10 )
      for( int m = 1; m <= 9; ++m )
        if( ( d * m << sh ) >> 64 == 0 )
        {
          around( size_t( d * m ) << sh, 60 );
          around( ( size_t( d * m ) << sh ) - ( ( size_t( 1 ) << sh ) / 20 ), 60 );   // where one decimal rounds up
        }
  if( mc::thorough() ) { for( size_t b = 0; b < 4000000; ++b ) v.insert( b ); }
  std::vector< size_t > const vals( v.begin(), v.end() );
  mc::enumerate( [&]( mc::Chooser & c ) { oneSize( vals[ c.choose( int( vals.size() ), "size" ) ] ); } );
  mc::outcome( vals.size() );
  mc::g().bound += std::to_string( vals.size() ) + " sizes; ";
}

// ---------------------------------------------------------------- demangling
namespace ns
{
struct Plain {};
template< typename T > struct Box {};
template< typename T, typename U > struct Pair {};
template< int N > struct Num {};
struct Base { virtual ~Base() {} };
struct Derived : Base {};
}
enum Colour {};
static std::string squeeze( std::string const & s ) { std::string r; for( char c : s ) if( c != ' ' ) r += c; return r; }
template< typename T > void check( std::string const & name )
{
  std::string const got = LvArray::system::demangleType< T >();
  if( squeeze( got ) != squeeze( name ) ) mc::violation( "the type " + name + " is called " + got );
  static typename std::add_pointer< T >::type volatile unused; (void) unused;
  std::string const one = totalview::format< T, int >( 0, nullptr );
  if( one != got ) mc::violation( "the debugger describes a " + got + " as " + one );
  mc::g().transitions += 1;
  mc::outcome( got );
}
template< int D, typename T > void types( std::string const & name )
{
  mc::g().states += 1; mc::g().executions += 1;
  check< T >( name );
  if constexpr ( D > 0 )
  {
    types< D - 1, ns::Box< T > >( "ns::Box<" + name + ">" );
    types< D - 1, ns::Pair< T, int > >( "ns::Pair<" + name + ",int>" );
    types< D - 1, ns::Pair< ns::Num< 3 >, T > >( "ns::Pair<ns::Num<3>," + name + ">" );
    types< D - 1, T * >( name + "*" );
    types< D - 1, T const * >( name + " const*" );
  }
}
template< typename T > void typesFrom( std::string const & n ) { types< 3, T >( n ); mc::sample( LvArray::system::demangleType< ns::Box< ns::Pair< T const *, int > > >() ); }
MC_JOB( "type names" )
{
  typesFrom< int >( "int" ); typesFrom< double >( "double" ); typesFrom< unsigned long >( "unsigned long" ); typesFrom< ns::Plain >( "ns::Plain" ); typesFrom< Colour >( "Colour" );
  typesFrom< void( int ) >;
  check< int( double, char ) >( "int(double, char)" ); check< int[ 3 ] >( "int[3]" ); check< ns::Box< int[ 3 ] > >( "ns::Box<int[3]>" ); check< int( * )( ns::Plain ) >( "int(*)(ns::Plain)" );
  ns::Derived d; ns::Base & b = d;
  MC_EQ( LvArray::system::demangleType( b ), "ns::Derived", "the type of an object" );
  MC_EQ( LvArray::system::demangleType( 3.0f ), "float", "the type of an object" );
  mc::g().bound += "all types of nesting up to 3 over 5 leaves and 5 constructors; ";
}
MC_JOB( "names" )
{
  MC_EQ( LvArray::system::demangle( nullptr ), "", "no name" );
  static char const alpha[] = "_ZN1ixEvPK<";
  int const L = mc::thorough() ? 5 : 4;
  mc::enumerate( [&]( mc::Chooser & c ) {
    int const n = c.choose( L + 1, "length" );
    char s[ 8 ] = {};
    for( int i = 0; i < n; ++i ) s[ i ] = alpha[ c.choose( int( sizeof( alpha ) - 1 ), "char" ) ];
    int st = 0;
    char * const r = abi::__cxa_demangle( s, nullptr, nullptr, &st );
    std::string const want = st == 0 ? r : s;
    free( r );
    std::string const got = LvArray::system::demangle( s );
    if( got != want ) mc::violation( std::string( "\"" ) + s + "\" became \"" + got + "\", expected \"" + want + "\"" );
    if( st == 0 ) mc::outcome( got );
  }, true );
  MC_EQ( LvArray::system::demangle( "_ZN2ns3FooIiE3barEd" ), "ns::Foo<int>::bar(double)", "function name" );
  MC_EQ( LvArray::system::demangle( "_ZNSt6vectorIiSaIiEE9push_backERKi" ), "std::vector<int, std::allocator<int> >::push_back(int const&)", "function name" );
  std::string const longName( 5000, 'q' );
  MC_EQ( LvArray::system::demangle( longName.c_str() ), longName, "long name" );
  MC_EQ( LvArray::system::demangle( ( "_Z500" + longName.substr( 0, 500 ) + "v" ).c_str() ), longName.substr( 0, 500 ) + "()", "long name" );
  mc::g().bound += "all strings up to length " + std::to_string( L ) + " over 11 characters; ";
}

// ---------------------------------------------------------------- stack traces
static int volatile sink;
#define FRAMES( X ) X( 00 ) X( 01 ) X( 02 ) X( 03 ) X( 04 ) X( 05 ) X( 06 ) X( 07 ) X( 08 ) X( 09 ) X( 10 ) X( 11 ) X( 12 ) X( 13 ) X( 14 ) X( 15 ) X( 16 ) X( 17 ) X( 18 ) X( 19 ) \
  X( 20 ) X( 21 ) X( 22 ) X( 23 ) X( 24 ) X( 25 ) X( 26 ) X( 27 ) X( 28 ) X( 29 )
#define DECL( N ) void recursing_ ## N( std::vector< int > const & path, size_t at, std::string & out );
FRAMES( DECL )
using Frame = void ( * )( std::vector< int > const &, size_t, std::string & );
#define LIST( N ) recursing_ ## N,
static Frame const frames[] = { FRAMES( LIST ) };
static void next( std::vector< int > const & path, size_t at, std::string & out );
#define DEFINE( N ) __attribute__( ( noinline, visibility( "default" ) ) ) void recursing_ ## N( std::vector< int > const & path, size_t at, std::string & out ) \
  { if( at == path.size() ) out = LvArray::system::stackTrace( false ); else frames[ path[ at ] ]( path, at + 1, out ); sink = sink + 1; }
FRAMES( DEFINE )
static void oneTrace( std::vector< int > const & path )
{
  std::string out;
  frames[ path[ 0 ] ]( path, 1, out );
  std::istringstream in( out );
  std::string l; std::vector< std::string > lines;
  while( std::getline( in, l ) ) lines.push_back( l );
  size_t first = 0;
  std::vector< std::string > names;
  for( auto const & x : lines )
    if( x.compare( 0, 6, "Frame " ) == 0 )
    {
      std::string const pre = "Frame " + std::to_string( names.size() ) + ": ";
      if( x.compare( 0, pre.size(), pre ) != 0 ) mc::violation( "frames are not numbered in order:\n" + out );
      names.push_back( x.substr( pre.size() ) );
    }
  MC_CHECK( names.size() <= 25 && names.size() >= std::min< size_t >( 25, path.size() ), names.size() << " frames for " << path.size() << " calls:\n" << out );
  auto calls = [&]( size_t i ) { char want[ 40 ]; snprintf( want, 40, "recursing_%02d(", path[ path.size() - 1 - i ] ); return std::string( want ); };
  while( first < 2 && first < names.size() && names[ first ].find( "LvArray::" ) == 0 ) ++first;   // a frame of the library itself is harmless
  for( size_t k = 0; k < path.size() && first + k < names.size(); ++k )
  {
    size_t const i = first + k;
    std::string const want = calls( k );
    if( names[ i ].compare( 0, want.size(), want ) != 0 ) mc::violation( "frame " + std::to_string( i ) + " is " + names[ i ] + ", expected " + want + "...)\n" + out );
  }
  mc::outcome( out );
}
MC_JOB( "stack traces" )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    int const n = c.range( 1, 4, "depth" );
    std::vector< int > p( n );
    for( int & x : p ) x = c.choose( 4, "function" );
    oneTrace( p );
  } );
  for( int n = 1; n <= 30; ++n ) { std::vector< int > p( n ); for( int i = 0; i < n; ++i ) p[ i ] = i; oneTrace( p ); mc::g().executions += 1; }
  mc::g().bound += "all call chains of up to 4 calls over 4 functions; chains of up to 30 calls; ";
}

// ---------------------------------------------------------------- debugger
template< typename T, typename I > void formats( mc::Chooser & c, char const * name )
{
  static I const EXT[] = { 0, 1, 7, 12, 100 };
  int const nd = c.choose( 5, "dimensions" );
  std::vector< I > d( nd );
  std::string want = name;
  for( I & x : d ) { x = EXT[ c.choose( 5, "extent" ) ]; want += "[" + std::to_string( x ) + "]"; }
  std::string const got = totalview::format< T, I >( nd, d.data() );
  if( got != want ) mc::violation( "the debugger describes " + want + " as " + got );
  mc::outcome( got );
}
MC_JOB( "debugger formats" )
{
  mc::enumerate( [&]( mc::Chooser & c ) { switch( c.choose( 4, "type" ) ) { case 0: formats< int, int >( c, "int" ); break; case 1: formats< double, long >( c, "double" ); break;
    case 2: formats< ns::Plain, long long >( c, "ns::Plain" ); break; case 3: formats< unsigned long, unsigned char >( c, "unsigned long" ); break; } } );
}

static std::string rows() { return std::string( TV_ttf_data_format_buffer, strnlen( TV_ttf_data_format_buffer, 16384 ) ); }
static std::string rowText( std::string const & f, std::string const & t, size_t v )
{ char b[ 32 ]; snprintf( b, 32, "0x%zx", v ); return f + "\t" + t + "\t" + b + "\n"; }
MC_JOB( "debugger addresses" )
{
  std::set< size_t > v;
  for( size_t k = 0; k < 64; ++k ) for( size_t d = 0; d < 41; ++d ) v.insert( ( size_t( 1 ) << k ) - 20 + d );
  for( size_t d = 0; d < 16; ++d ) for( size_t k = 0; k < 64; k += 4 ) { v.insert( d << k ); v.insert( ~( d << k ) ); v.insert( ( size_t( 0xffffffff ) << 8 ) + ( d << k ) ); }
  std::vector< size_t > const vals( v.begin(), v.end() );
  mc::enumerate( [&]( mc::Chooser & c ) {
    size_t const x = vals[ c.choose( int( vals.size() ), "address" ) ];
    TV_ttf_pre_display_callback();
    MC_EQ( TV_ttf_add_row( "name", "type", (void *) x ), int( TV_ttf_ec_ok ), "adding a row" );
    MC_EQ( rows(), rowText( "name", "type", x ), "row" );
    TV_ttf_post_display_callback();
  } );
  mc::outcome( vals.size() );
}
MC_JOB( "debugger results" )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    int const v = c.range( -1, 8, "result" );
    bool const shown = v == int( TV_ttf_format_ok ) || v == int( TV_ttf_format_ok_elide );
    MC_EQ( TV_ttf_is_format_result_ok( TV_ttf_format_result( v ) ) != 0, shown, "result " << v << " means that the object was displayed" );
  } );
}
MC_JOB( "debugger rows" )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    static char const * const N[] = { "a", "", "m_data", "x\ty", "\n" };
    std::string want; bool active = false, fresh = false;
    TV_ttf_pre_display_callback(); TV_ttf_add_row( "", "", nullptr ); TV_ttf_post_display_callback();
    want = rows();
    for( int i = 0; i < 4; ++i )
    {
      int const op = c.choose( 5, "op" );
      if( op == 0 ) { TV_ttf_pre_display_callback(); active = true; fresh = true; }
      else if( op == 1 ) { TV_ttf_post_display_callback(); active = false; }
      else
      {
        char const * const f = N[ c.choose( 5, "field" ) ], * const t = N[ op == 2 ? 2 : op == 3 ? 0 : 4 ];
        size_t const val = 0x10ull << ( 4 * i );
        int const r = TV_ttf_add_row( f, t, (void *) val );
        bool const bad = strpbrk( f, "\n\t" ) != nullptr || op == 4;
        int const code = !active ? TV_ttf_ec_not_active : bad ? TV_ttf_ec_invalid_characters : TV_ttf_ec_ok;
        MC_EQ( r, code, "result of adding a row" );
        if( r == 0 ) { if( fresh ) want = ""; fresh = false; want += rowText( f, t, val ); }
      }
      MC_EQ( rows(), want, "rows" );
    }
    TV_ttf_post_display_callback();
    mc::outcome( want );
  } );
}
MC_JOB( "debugger buffer" )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    std::vector< int > const LENS{ 1, 2, 10, 100, 1000, 4096, 5460, 8180, 16000, 16370, 16371, 16372, 16373, 16374, 16375, 16376, 16377, 16378, 16379, 16380, 16381, 16384, 20000, 40000 };
    int const a = c.pick( LENS, "first" ), b = c.pick( LENS, "others" );
    TV_ttf_pre_display_callback();
    std::string want;
    int full = 0;
    for( int n = 0; n < 6000 && full < 3; ++n )
    {
      std::string const f( n == 0 ? a : b, 'f' );
      int const r = TV_ttf_add_row( f.c_str(), "t", (void *) 0x1f );
      std::string const row = rowText( f, "t", 0x1f );
      bool const fits = want.size() + row.size() < 16384;
      if( n == 0 && !fits ) { MC_EQ( r, int( TV_ttf_ec_buffer_exhausted ), "row too long" ); }
      else MC_EQ( r, int( fits ? TV_ttf_ec_ok : TV_ttf_ec_buffer_exhausted ), "adding a row to " << want.size() << " characters" );
      if( fits ) want += row; else ++full;
      MC_CHECK( rows() == want, "the buffer must hold exactly the rows that were accepted" );
    }
    TV_ttf_post_display_callback();
    mc::outcome( want.size() );
  } );
}
template< typename T, int ND, typename PERM, typename I > void described( mc::Chooser & c )
{
  using A = LvArray::Array< T, ND, PERM, I, LvArray::MallocBuffer >;
  I d[ ND ];
  for( I & x : d ) x = I( c.choose( 4, "extent" ) );
  A a; a.resize( ND, d );
  a.setSingleParameterResizeIndex( c.choose( ND, "resize dimension" ) );
  TV_ttf_pre_display_callback();
  MC_EQ( A::TV_ttf_display_type( &a ), 0, "result" );
  TV_ttf_post_display_callback();
  std::istringstream in( rows() );
  std::string l; int seen = 0;
  while( std::getline( in, l ) )
  {
    size_t const t1 = l.find( '\t' ), t2 = l.find( '\t', t1 + 1 );
    std::string const f = l.substr( 0, t1 ), t = l.substr( t1 + 1, t2 - t1 - 1 );
    void const * const p = (void *) strtoull( l.c_str() + t2 + 1, nullptr, 16 );
    if( f == "m_dims" || f == "m_strides" )
    {
      MC_EQ( t, LvArray::system::demangleType< I >() + "[" + std::to_string( ND ) + "]", f );
      for( int i = 0; i < ND; ++i ) MC_EQ( static_cast< I const * >( p )[ i ], ( f == "m_dims" ? a.dims()[ i ] : a.strides()[ i ] ), f );
    }
    else if( f == "m_singleParameterResizeIndex" ) { MC_EQ( t, "int", f ); MC_EQ( *static_cast< int const * >( p ), a.getSingleParameterResizeIndex(), f ); }
    else if( f == "m_dataBuffer" ) { MC_EQ( t, LvArray::system::demangleType< LvArray::MallocBuffer< T > >(), f ); MC_CHECK( static_cast< LvArray::MallocBuffer< T > const * >( p )->data() == a.data(), f ); }
    else mc::violation( "unknown row " + l );
    ++seen;
  }
  MC_EQ( seen, 4, "rows" );
  mc::outcome( rows() );
}
MC_JOB( "debugger arrays" )
{
  mc::enumerate( [&]( mc::Chooser & c ) { switch( c.choose( 4, "type" ) ) { case 0: described< int, 1, camp::idx_seq< 0 >, int >( c ); break; case 1: described< double, 2, camp::idx_seq< 1, 0 >, long >( c ); break;
    case 2: described< char, 3, camp::idx_seq< 2, 0, 1 >, long >( c ); break; case 3: described< std::string, 2, camp::idx_seq< 0, 1 >, int >( c ); break; } } );
}
MC_MAIN
