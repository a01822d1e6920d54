/* The log of transfers between memory spaces.  With CHAI's callbacks enabled
 * every transfer of a buffer is reported on one line: how many bytes, to which
 * space, the type of the container and the name it has; anything that is not a
 * transfer is not reported.  All histories of names, captures, moves and
 * resizes, for every container. */
#include "lv.hpp"
#include "Macros.hpp"
#include "limits.hpp"
#include "math.hpp"
#define LVARRAY_USE_CHAI
#define LVARRAY_USE_UMPIRE
#define LVARRAY_USE_CUDA
#include "ChaiBuffer.hpp"
#include "Array.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "SortedArray.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#include "umpireInterface.cpp"
#undef LVARRAY_USE_CUDA
#include <cmath>
#include <map>
#include <memory>

using LvArray::ChaiBuffer;
using LvArray::MemorySpace;
enum { HOST = 1, DEVICE = 2 };
static chai::ArrayManager & mgr() { return *chai::ArrayManager::getInstance(); }
static MemorySpace ms( int s ) { return s == HOST ? MemorySpace::host : MemorySpace::cuda; }
struct Hooks { Hooks() { mockmem::state().fail = []( std::string const & m ) { mc::violation( m ); }; mockmem::state().recording = true; } };
static Hooks hooks;

/* What one line has to say. */
static std::string sizeText( size_t const b )
{
  char t[ 64 ];
  int const shift = b >= ( size_t( 1 ) << 30 ) ? 30 : b >= ( size_t( 1 ) << 20 ) ? 20 : 10;
  std::snprintf( t, sizeof t, "%.1f %s", double( b ) / double( size_t( 1 ) << shift ), shift == 30 ? "GB" : shift == 20 ? "MB" : "KB" );
  return t;
}
static std::string squeeze( std::string const & s ) { std::string r; for( char c : s ) if( c != ' ' ) r += c; return r; }

/* ---- the containers ---- */
/* The buffers are told apart by their first value: 0 is an offset, the sizes
 * are 1 to 99, the values from 1000 and the entries from 2000 on. */
struct ArrayAd : LvArray::Array< int, 1, RAJA::PERM_I, int, ChaiBuffer >
{
  using C = LvArray::Array< int, 1, RAJA::PERM_I, int, ChaiBuffer >;
  static char const * typeName() { return "Array<int, 1,"; }
  static constexpr bool ragged = false;
  void fill( int n ) { resize( n ); for( int i = 0; i < n; ++i ) ( *this )[ i ] = 1000 + i; }
  void grow() { resize( size() + 300 ); ( *this )[ 0 ] = 1000; }
};
struct SortedAd : LvArray::SortedArray< long, int, ChaiBuffer >
{
  using C = LvArray::SortedArray< long, int, ChaiBuffer >;
  static char const * typeName() { return "SortedArray<long, int,"; }
  static constexpr bool ragged = false;
  void fill( int n ) { for( int i = 0; i < n; ++i ) insert( 1000 + i ); }
  void grow() { int const n = size(); for( int i = 0; i < 40; ++i ) insert( 1000 + n + i ); }
};
struct AoaAd : LvArray::ArrayOfArrays< int, int, ChaiBuffer >
{
  using C = LvArray::ArrayOfArrays< int, int, ChaiBuffer >;
  static char const * typeName() { return "ArrayOfArrays<int, int,"; }
  static constexpr bool ragged = true;
  void fill( int n ) { resize( n, 2 ); for( int i = 0; i < n; ++i ) emplaceBack( i, 1000 ); }
  void grow() { appendArray( 40 ); setCapacityOfArray( 0, 50 ); ( *this )( 0, 0 ) = 1000; }
};
struct AosAd : LvArray::ArrayOfSets< int, int, ChaiBuffer >
{
  using C = LvArray::ArrayOfSets< int, int, ChaiBuffer >;
  static char const * typeName() { return "ArrayOfSets<int, int,"; }
  static constexpr bool ragged = true;
  void fill( int n ) { resize( n, 2 ); for( int i = 0; i < n; ++i ) insertIntoSet( i, 1000 ); }
  void grow() { appendSet( 40 ); setCapacityOfSet( 0, 50 ); insertIntoSet( 0, 1000 ); }
};
struct SparsityAd : LvArray::SparsityPattern< int, int, ChaiBuffer >
{
  using C = LvArray::SparsityPattern< int, int, ChaiBuffer >;
  static char const * typeName() { return "SparsityPattern<int, int,"; }
  static constexpr bool ragged = true;
  void fill( int n ) { resize( n, 1500, 2 ); for( int i = 0; i < n; ++i ) insertNonZero( i, 1000 ); }
  void grow() { resize( numRows() + 2, 1500, 40 ); insertNonZero( 0, 1000 ); }
};
struct CrsAd : LvArray::CRSMatrix< int, int, int, ChaiBuffer >
{
  using C = LvArray::CRSMatrix< int, int, int, ChaiBuffer >;
  static char const * typeName() { return "CRSMatrix<int, int, int,"; }
  static constexpr bool ragged = true;
  void fill( int n ) { resize( n, 1500, 2 ); for( int i = 0; i < n; ++i ) insertNonZero( i, 1000, 2000 ); }
  void grow() { resize( numRows() + 2, 1500, 40 ); insertNonZero( 0, 1000, 2000 ); }
};
static std::string suffixOf( chai::PointerRecord * r, int space )
{
  int first = 0;
  if( r->m_size < sizeof first ) return "?";
  mockmem::copy( &first, r->m_pointers[ space ], sizeof first );
  return first == 0 ? "/m_offsets" : first >= 1 && first < 100 ? "/m_sizes" : first >= 1000 && first < 2000 ? "/m_values" : first >= 2000 && first < 3000 ? "/entries" : "?" + std::to_string( first );
}

/* ---- histories ---- */
template< typename AD >
struct Log
{
  enum { NAME_A, NAME_B, NAME_NONE, READ_H, READ_D, WRITE_H, WRITE_D, MOVE_H, MOVE_D, GROW, MOVE_OUT, MUTE, NOPS };
  static char const * const * names() { static char const * const n[] = { "setName(\"a\")", "setName(\"b c\")", "setName(\"\")", "read@host", "read@device", "write@host", "write@device", "move(host)", "move(device)", "grow", "move-construct", "callbacks on/off" }; return n; }
  static int starts() { return 4; }
  static std::string startName( int s ) { return std::string( s & 1 ? "small" : "empty" ) + ( s & 2 ? ", named in between" : "" ); }
  std::unique_ptr< AD > c = std::make_unique< AD >();
  std::string name;
  bool on = true;
  Log( int s ) { mgr().enableCallbacks(); mockmem::state().transfers.clear(); mc::captured().str( "" ); if( s & 2 ) { name = "first"; c->setName( name ); } c->fill( s & 1 ? 3 : 0 ); quiet( "filling" ); }
  ~Log() { c.reset(); quiet( "destruction" ); }
  int nOps() const { return NOPS; }
  std::string opName( int i ) const { return names()[ i ]; }
  bool enabled( int i ) const { return i != GROW || atHost; }
  bool atHost = true;
  void quiet( char const * what ) { MC_EQ( mockmem::state().transfers.size(), size_t( 0 ), what << ": transfers" ); MC_EQ( mc::captured().str(), std::string(), what << ": logged" ); }
  void apply( int i )
  {
    switch( i )
    {
      case NAME_A: name = "a"; c->setName( name ); break;
      case NAME_B: name = "b c"; c->setName( name ); break;
      case NAME_NONE: name = ""; c->setName( name ); break;
      case READ_H: case READ_D: capture( i == READ_H ? HOST : DEVICE, [this] { auto const v = c->toViewConst(); return v; } ); break;
      case WRITE_H: case WRITE_D: capture( i == WRITE_H ? HOST : DEVICE, [this] { auto const v = c->toView(); return v; } ); break;
      case MOVE_H: case MOVE_D: c->move( ms( i == MOVE_H ? HOST : DEVICE ), true ); atHost = i == MOVE_H; break;
      case GROW: c->grow(); break;
      case MOVE_OUT: { auto b = std::make_unique< AD >( std::move( *c ) ); c = std::move( b ); break; }
      case MUTE: on = !on; if( on ) mgr().enableCallbacks(); else mgr().disableCallbacks(); break;
    }
    lines();
  }
  template< typename F > void capture( int s, F && view )
  {
    auto const v = view();
    mgr().setExecutionSpace( chai::ExecutionSpace( s ) );
    { auto const w = v; (void) w; }
    mgr().setExecutionSpace( chai::NONE );
    atHost = false;
  }
  void lines()
  {
    std::string const text = mc::captured().str(); mc::captured().str( "" );
    std::string want;
    static std::string const type = LvArray::system::demangleType< typename AD::C >();
    MC_CHECK( squeeze( type ).find( squeeze( "LvArray::" + std::string( AD::typeName() ) ) ) == 0, "the type is named " << type );
    for( auto const & t : mockmem::state().transfers )
    {
      MC_CHECK( mockmem::state().records.count( t.record ), "a transfer of a buffer that is gone" );
      std::string const suffix = AD::ragged ? suffixOf( static_cast< chai::PointerRecord * >( t.record ), t.to ) : "";
      MC_CHECK( suffix.find( '?' ) == std::string::npos, "a transfer of a buffer that is not in use: " << suffix );
      std::string const size = sizeText( t.size );
      std::string const padded = size.size() < 9 ? std::string( 9 - size.size(), ' ' ) + size : size;
      if( on ) want += "Moved " + padded + " to the " + ( t.to == HOST ? "HOST  " : "DEVICE" ) + ": " + type + " " + name + suffix + "\n";
    }
    mockmem::state().transfers.clear();
    MC_EQ( text, want, "the log of the transfers" );
  }
  void check() {}
  void key( mc::Key & k )
  {
    k.b += name; k.sep(); k.add( on ); k.add( atHost );
    std::map< long, chai::PointerRecord * > by;
    for( void * r : mockmem::state().records ) { auto * p = static_cast< chai::PointerRecord * >( r ); by[ p->m_id ] = p; }
    for( auto & x : by )
    {
      auto * p = x.second;
      k.add( p->m_size ); k.add( int( p->m_last_space ) ); k.add( p->m_touched[ 1 ] ); k.add( p->m_touched[ 2 ] ); k.add( p->m_pointers[ 1 ] != nullptr ); k.add( p->m_pointers[ 2 ] != nullptr );
    }
  }
};
template< typename AD > void explore( int q, int t ) { mc::HistoryOptions o; o.depth = mc::thorough() ? t : q; o.noMerge = 2; o.leakCheck = false; mc::exploreHistories< Log< AD > >( o ); }
MC_JOB( "transfer log, Array" ) { explore< ArrayAd >( 7, 9 ); }
MC_JOB( "transfer log, SortedArray" ) { explore< SortedAd >( 7, 9 ); }
MC_JOB( "transfer log, ArrayOfArrays" ) { explore< AoaAd >( 6, 8 ); }
MC_JOB( "transfer log, ArrayOfSets" ) { explore< AosAd >( 6, 8 ); }
MC_JOB( "transfer log, SparsityPattern" ) { explore< SparsityAd >( 6, 8 ); }
MC_JOB( "transfer log, CRSMatrix" ) { explore< CrsAd >( 6, 8 ); }

/* Sizes: the callback of a record of every magnitude. */
MC_JOB( "transfer log, sizes" )
{
  mc::g().bound = "every size up to 8 KiB, and within 60 of every power of two up to 1 TiB";
  mc::enumerate( []( mc::Chooser & c ) {
      size_t b;
      int const kind = c.choose( 2, "kind" );
      if( kind == 0 ) b = size_t( c.choose( 8193, "bytes" ) );
      else { int const p = c.range( 12, 40, "power" ); b = ( size_t( 1 ) << p ) + size_t( c.choose( 121, "offset" ) ) - 60; }
      bool const dev = c.flag( "device" );
      ChaiBuffer< char > buf( true );
      buf.setName( "x" );
      chai::PointerRecord r; r.m_size = b;
      buf.reallocate( 0, MemorySpace::host, 4 );
      mc::captured().str( "" );
      chai::PointerRecord * mine = nullptr;
      for( void * q : mockmem::state().records ) { auto * p = static_cast< chai::PointerRecord * >( q ); if( p->m_pointers[ 1 ] == buf.data() ) mine = p; }
      MC_CHECK( mine && mine->m_user_callback, "the buffer has a callback after a reallocation" );
      for( int a = chai::ACTION_ALLOC; a <= chai::ACTION_LEAKED; ++a )
      {
        mine->m_user_callback( &r, chai::Action( a ), dev ? chai::GPU : chai::CPU );
        std::string const text = mc::captured().str(); mc::captured().str( "" );
        std::string const size = sizeText( b );
        MC_EQ( text, a != chai::ACTION_MOVE ? std::string() : "Moved " + std::string( size.size() < 9 ? 9 - size.size() : 0, ' ' ) + size + " to the " + ( dev ? "DEVICE" : "HOST  " ) + ": " + LvArray::system::demangleType< ChaiBuffer< char > >() + " x\n", "line for action " << a );
      }
      buf.free();
    } );
}

/* Memory spaces in text. */
MC_JOB( "names of the memory spaces" )
{
  mc::g().bound = "all values of the enumeration and -1..20";
  mc::enumerate( []( mc::Chooser & c ) {
      using LvArray::operator<<;   // not found by the type of its argument
      static std::pair< MemorySpace, char const * > const known[] = { { MemorySpace::undefined, "undefined" }, { MemorySpace::host, "host" }, { MemorySpace::cuda, "cuda" }, { MemorySpace::omp_target, "omp_target" }, { MemorySpace::hip, "hip" }, { MemorySpace::sycl, "sycl" } };
      int const v = c.range( -1, 20, "value" );
      char const * want = nullptr;
      for( auto & k : known ) if( int( k.first ) == v ) want = k.second;
      if( !want ) { MC_CHECK( mc::throwsError( [v] { std::ostringstream o; o << MemorySpace( v ); } ), "space " << v << " is reported as unrecognized" ); return; }
      std::ostringstream o; o << "<" << MemorySpace( v ) << ">";
      MC_EQ( o.str(), "<" + std::string( want ) + ">", "name of space " << v );
    } );
}
MC_MAIN
