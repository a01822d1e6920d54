/* P33: buffers and the functions of bufferManipulation, against a vector.  Two buffers, whose sizes the user keeps. */
#ifdef CHAI
#define LVARRAY_USE_CHAI
#define LVARRAY_USE_UMPIRE
#include "ChaiBuffer.hpp"
#include "umpireInterface.cpp"
#endif
#include "elem.hpp"
#include "lv.hpp"
#include "MallocBuffer.hpp"
#include "StackBuffer.hpp"
#include "bufferManipulation.hpp"
#include <list>
#include <set>
#include <tuple>
#include <vector>
namespace bm = LvArray::bufferManipulation;
#ifdef CHAI
struct Fail { Fail() { mockmem::state().fail = []( std::string const & m ) { mc::violation( m ); }; } };
static Fail fail_;
#endif
namespace elem { inline int get( signed char x ) { return x; } inline int get( short x ) { return x; } }

/* What is to be expected of a kind of buffer. */
template< typename B > struct Traits { static constexpr bool heap = true, afterFree = true; static constexpr int limit = 1000; static char const * name() { return "MallocBuffer"; } };
template< typename T, int L > struct Traits< LvArray::StackBuffer< T, L > > { static constexpr bool heap = false, afterFree = true; static constexpr int limit = L; static char const * name() { return "StackBuffer"; } };
#ifdef CHAI
template< typename T > struct Traits< LvArray::ChaiBuffer< T > > { static constexpr bool heap = true, afterFree = false; static constexpr int limit = 1000; static char const * name() { return "ChaiBuffer"; } };
#endif

template< typename B, int MAXSIZE >
struct Sys
{
  using T = typename B::value_type;
  using Tr = Traits< B >;
  enum Kind { PUSH, EMPLACE, INSERT, INSERT_LIST, POP, ERASE, RESIZE, RESIZE_VALUE, RESERVE, DYNAMIC, CAPACITY, FREE, COPY_INTO, SHALLOW, MOVE_CTOR, MOVE_ASSIGN, COPY_ASSIGN, SWAP, WRITE };
  struct Op { Kind k; int w, a, b; };
  static std::vector< Op > const & ops()
  {
    static std::vector< Op > const v = [] {
      std::vector< Op > o;
      for( int w = 0; w < 2; ++w )
      {
        o.push_back( { PUSH, w, 0, 0 } ); o.push_back( { POP, w, 0, 0 } );
        for( int p = 0; p <= MAXSIZE; ++p ) o.push_back( { EMPLACE, w, p, 0 } );
        for( int p = 0; p <= MAXSIZE; ++p ) for( int n = 0; n <= 3; ++n ) o.push_back( { n == 2 ? INSERT_LIST : INSERT, w, p, n } );
        for( int p = 0; p < MAXSIZE; ++p ) o.push_back( { ERASE, w, p, 0 } );
        for( int n = 0; n <= MAXSIZE; ++n ) { o.push_back( { RESIZE, w, n, 0 } ); o.push_back( { RESIZE_VALUE, w, n, 0 } ); o.push_back( { CAPACITY, w, n, 0 } ); }
        for( int n : { 0, 1, 2, 4, 7 } ) { o.push_back( { RESERVE, w, n, 0 } ); o.push_back( { DYNAMIC, w, n, 0 } ); }
        for( Kind k : { FREE, COPY_INTO, SHALLOW, MOVE_CTOR, MOVE_ASSIGN, COPY_ASSIGN, WRITE } ) o.push_back( { k, w, 0, 0 } );
      }
      o.push_back( { SWAP, 0, 0, 0 } );
      return o;
    }();
    return v;
  }
  static int starts() { return 3; }
  static std::string startName( int s ) { return s == 0 ? "empty" : s == 1 ? "3 values" : "3 values in each"; }

  B b[ 2 ] = { B( true ), B( true ) };
  std::vector< int > m[ 2 ];
  bool usable[ 2 ] = { true, true };
  int fresh = 0;
  long size( int w ) const { return long( m[ w ].size() ); }
  Sys( int s )
  { for( int w = 0; w < s; ++w ) for( int k = 0; k < std::min( 3, Tr::limit ); ++k ) push( w ); }
  Sys( Sys const & ) = delete;
  ~Sys()
  {
    for( int w = 0; w < 2; ++w ) if( usable[ w ] ) bm::free( b[ w ], size( w ) );
    if( elem::isTracked< T > ) elem::checkNoneLeft();
  }
  void push( int w ) { bm::emplaceBack( b[ w ], size( w ), elem::make< T >( ++fresh ) ); m[ w ].push_back( fresh ); }
  int nOps() const { return int( ops().size() ); }
  std::string opName( int i ) const
  {
    Op const & o = ops()[ i ];
    static char const * const n[] = { "emplaceBack", "emplace", "insert", "insert-list", "popBack", "erase", "resize", "resize-value", "reserve", "dynamicReserve", "setCapacity", "free", "copyInto", "shallow copy", "move-construct", "move-assign", "copy-assign", "swap", "write" };
    return std::string( o.w ? "b." : "a." ) + n[ o.k ] + "(" + std::to_string( o.a ) + "," + std::to_string( o.b ) + ")";
  }
  bool enabled( int i ) const
  {
    Op const & o = ops()[ i ]; long const n = size( o.w );
    if( o.k == SWAP ) return true;
    if( o.k != MOVE_ASSIGN && o.k != COPY_ASSIGN && !usable[ o.w ] ) return false;
    switch( o.k )
    {
      case PUSH: return n < MAXSIZE && n + 1 <= Tr::limit;
      case EMPLACE: return o.a <= n && n < MAXSIZE && n + 1 <= Tr::limit;
      case INSERT: case INSERT_LIST: return o.a <= n && n + o.b <= MAXSIZE && n + o.b <= Tr::limit;
      case POP: case WRITE: return n > 0;
      case ERASE: return o.a < n;
      case RESIZE: case RESIZE_VALUE: case RESERVE: case DYNAMIC: return o.a <= Tr::limit;
      case CAPACITY: return Tr::heap || ( o.a <= Tr::limit && o.a >= n );
      case FREE: return true;
      case COPY_INTO: return usable[ 1 - o.w ];
      case MOVE_ASSIGN: case COPY_ASSIGN: return usable[ 1 - o.w ];
      default: return true;
    }
  }
  void same( B const & x, int w, char const * what ) const
  { for( long i = 0; i < size( w ); ++i ) MC_EQ( elem::get( x.data()[ i ] ), m[ w ][ i ], what << " at " << i ); }
  void apply( int i )
  {
    Op const & o = ops()[ i ]; int const w = o.w; long const n = size( w ), cap = b[ w ].capacity(); B & x = b[ w ]; auto & v = m[ w ];
    T const * const before = x.data(); long need = n; bool stays = true;
    switch( o.k )
    {
      case PUSH: push( w ); need = n + 1; break;
      case EMPLACE: bm::emplace( x, n, o.a, elem::make< T >( ++fresh ) ); v.insert( v.begin() + o.a, fresh ); need = n + 1; break;
      case INSERT: case INSERT_LIST:
      {
        std::vector< T > src; std::vector< int > ms; for( int k = 0; k < o.b; ++k ) { src.push_back( elem::make< T >( ++fresh ) ); ms.push_back( fresh ); }
        long added;
        if( o.k == INSERT_LIST ) { std::list< T > const l( src.begin(), src.end() ); added = bm::insert( x, n, o.a, l.begin(), l.end() ); }
        else added = bm::insert( x, n, o.a, src.data(), src.data() + o.b );
        MC_EQ( added, long( o.b ), "number of values inserted" );
        for( int k = 0; k < o.b; ++k ) MC_EQ( elem::get( src[ k ] ), ms[ k ], "source of the insertion" );
        v.insert( v.begin() + o.a, ms.begin(), ms.end() ); need = n + o.b; break;
      }
      case POP: bm::popBack( x, n ); v.pop_back(); break;
      case ERASE: bm::erase( x, n, o.a ); v.erase( v.begin() + o.a ); break;
      case RESIZE: bm::resize( x, n, o.a ); v.resize( o.a, 0 ); need = o.a; break;
      case RESIZE_VALUE: { T const val = elem::make< T >( ++fresh ); bm::resize( x, n, o.a, val ); v.resize( o.a, fresh ); need = o.a; break; }
      case RESERVE: bm::reserve( x, n, LvArray::MemorySpace::host, o.a ); need = o.a; break;
      case DYNAMIC: bm::dynamicReserve( x, n, o.a ); need = o.a; break;
      case CAPACITY:
        bm::setCapacity( x, n, LvArray::MemorySpace::host, o.a ); stays = false;
        if( Tr::heap ) MC_EQ( long( x.capacity() ), long( o.a ), "capacity that was set" );
        if( o.a < n ) v.resize( o.a );
        break;
      case FREE:
        bm::free( x, n ); v.clear(); stays = false;
        if( Tr::heap ) { MC_EQ( long( x.capacity() ), 0l, "capacity after free" ); MC_CHECK( x.data() == nullptr, "data after free" ); }
        if( !Tr::afterFree ) usable[ w ] = false;
        break;
      case COPY_INTO:
      {
        B const & src = b[ 1 - w ]; T const * const other = src.data();
        bm::copyInto( x, n, src, size( 1 - w ) ); v = m[ 1 - w ]; need = size( w );
        MC_CHECK( src.data() == other && ( size( w ) == 0 || x.data() != other ), "copyInto shares the values" );
        same( src, 1 - w, "source of copyInto" ); break;
      }
      case SHALLOW:
      {
        B const c( x ); B const d( x, n ); B e; e = x; same( e, w, "assigned copy" );
        MC_EQ( B::hasShallowCopy, Tr::heap, "hasShallowCopy" );
        for( B const * y : { &c, &d } )
        {
          MC_EQ( long( y->capacity() ), cap, "capacity of a copy" ); same( *y, w, "copy" );
          if( Tr::heap ) MC_CHECK( y->data() == before, "a copy of a buffer isn't shallow" ); else MC_CHECK( y->data() != before, "a copy of a buffer on the stack isn't deep" );
        }
        if constexpr( !std::is_const< T >::value ) conversions( w );
        break;
      }
      case MOVE_CTOR:
      {
        B y( std::move( x ) );
        MC_EQ( long( y.capacity() ), cap, "capacity of the moved buffer" ); if( Tr::heap ) MC_CHECK( y.data() == before, "values of the moved buffer" );
        same( y, w, "moved buffer" );
        if( Tr::heap ) { MC_EQ( long( x.capacity() ), 0l, "capacity of the buffer moved from" ); MC_CHECK( x.data() == nullptr, "data of the buffer moved from" ); }
        x = std::move( y );
        if( Tr::heap ) { MC_EQ( long( y.capacity() ), 0l, "capacity of the buffer moved from" ); MC_CHECK( y.data() == nullptr, "data of the buffer moved from" ); }
        break;
      }
      case MOVE_ASSIGN:
      {
        B & y = b[ 1 - w ]; long const oc = y.capacity(); T const * const od = y.data();
        // the values held go to a copy, which releases them
        if( usable[ w ] ) { B old( x ); if( Tr::heap ) x = std::move( y ); bm::free( old, n ); if( !Tr::heap ) x = std::move( y ); } else x = std::move( y );
        MC_EQ( long( x.capacity() ), oc, "capacity of the buffer assigned to" ); if( Tr::heap ) MC_CHECK( x.data() == od, "values of the buffer assigned to" );
        if( Tr::heap ) { MC_EQ( long( y.capacity() ), 0l, "capacity of the buffer moved from" ); MC_CHECK( y.data() == nullptr, "data of the buffer moved from" ); }
        m[ w ] = m[ 1 - w ]; usable[ w ] = true; stays = false;
        if( Tr::heap ) { m[ 1 - w ].clear(); usable[ 1 - w ] = Tr::afterFree; }
        break;
      }
      case COPY_ASSIGN:
      {
        if( usable[ w ] ) bm::free( x, n );
        x = b[ 1 - w ]; m[ w ] = m[ 1 - w ]; usable[ w ] = true; stays = false;
        MC_EQ( long( x.capacity() ), long( b[ 1 - w ].capacity() ), "capacity of a copy" );
        if( Tr::heap ) { MC_CHECK( x.data() == b[ 1 - w ].data(), "a copy of a buffer isn't shallow" ); same( x, w, "copy" );
                         B next( true ); b[ 1 - w ] = std::move( next ); m[ 1 - w ].clear(); }   // the copy owns the values from now on
        break;
      }
      case SWAP:
      {
        B t( std::move( b[ 0 ] ) ); b[ 0 ] = std::move( b[ 1 ] ); b[ 1 ] = std::move( t );
        std::swap( m[ 0 ], m[ 1 ] ); std::swap( usable[ 0 ], usable[ 1 ] ); stays = false; break;
      }
      case WRITE: x[ 0 ] = elem::make< T >( ++fresh ); v[ 0 ] = fresh; if( n > 1 ) { x.data()[ n - 1 ] = elem::make< T >( ++fresh ); v[ n - 1 ] = fresh; } break;
    }
    if( stays )
    {
      MC_CHECK( x.capacity() >= need, "capacity " << x.capacity() << " is less than the " << need << " asked for" );
      MC_CHECK( x.capacity() >= cap, "the capacity fell from " << cap << " to " << x.capacity() );
      if( need <= cap ) { MC_CHECK( x.data() == before, "the values moved although they fit" ); MC_EQ( long( x.capacity() ), cap, "capacity although nothing was needed" ); }
    }
  }
  template< typename U = T > std::enable_if_t< std::is_trivially_destructible< U >::value > conversions( int w ) const
  { constView( w ); }
  template< typename U = T > std::enable_if_t< !std::is_trivially_destructible< U >::value > conversions( int w ) const
  { constView( w ); }
  void constView( int w ) const { constViewOf( b[ w ], w ); }
  template< template< typename > class BUF > void constViewOf( BUF< T > const & x, int w ) const
  {
    BUF< T const > const c( x );
    MC_EQ( long( c.capacity() ), long( x.capacity() ), "capacity of a buffer of constants" ); MC_CHECK( c.data() == x.data(), "data of a buffer of constants" );
    for( long i = 0; i < size( w ); ++i ) MC_EQ( elem::get( c[ i ] ), m[ w ][ i ], "buffer of constants" );
  }
  template< int L > void constViewOf( LvArray::StackBuffer< T, L > const & x, int w ) const
  {
    LvArray::StackBuffer< T const, L > const c( x );
    MC_EQ( long( c.capacity() ), long( L ), "capacity of a buffer of constants" );
    for( long i = 0; i < size( w ); ++i ) MC_EQ( elem::get( c[ i ] ), m[ w ][ i ], "buffer of constants" );
  }
  void check() const
  {
    for( int w = 0; w < 2; ++w )
    {
      MC_CHECK( b[ w ].capacity() >= size( w ), "capacity" ); same( b[ w ], w, w ? "second buffer" : "first buffer" );
      for( long i = 0; i < size( w ); ++i ) MC_CHECK( &b[ w ][ i ] == b[ w ].data() + i, "operator[]" );
      if( !Tr::heap ) { MC_EQ( long( b[ w ].capacity() ), long( Tr::limit ), "capacity of a buffer on the stack" ); char const * p = reinterpret_cast< char const * >( b[ w ].data() ), * q = reinterpret_cast< char const * >( &b[ w ] ); MC_CHECK( p >= q && p + Tr::limit * sizeof( T ) <= q + sizeof( B ), "the values aren't inside the buffer" ); }
      // once for every size and capacity
      static std::set< std::tuple< int, long, long > > seen;
      if( usable[ w ] && seen.insert( { w, size( w ), long( b[ w ].capacity() ) } ).second ) { if( !Tr::heap ) beyond( w ); invalid( w ); }
    }
    MC_CHECK( !Tr::heap || b[ 0 ].data() == nullptr || b[ 0 ].data() != b[ 1 ].data(), "two buffers share their values" );
  }
#define REPORTED( what, ... ) do { B x( b[ w ] ); MC_CHECK( mc::throwsError( [&] { __VA_ARGS__; } ), what << " isn't reported" ); same( b[ w ], w, what ); } while( 0 )
  void beyond( int w ) const
  {
    long const n = size( w ); T const val = elem::make< T >( 3 ); std::vector< T > const src( Tr::limit + 2, val );
    for( long k = Tr::limit + 1; k <= Tr::limit + 2; ++k )
    {
      REPORTED( "resize past the capacity", bm::resize( x, n, k ) ); REPORTED( "reserve past the capacity", bm::reserve( x, n, LvArray::MemorySpace::host, k ) );
      REPORTED( "dynamicReserve past the capacity", bm::dynamicReserve( x, n, k ) ); REPORTED( "setCapacity past the capacity", bm::setCapacity( x, n, LvArray::MemorySpace::host, k ) );
      for( long p = 0; p <= n; ++p ) REPORTED( "insertion past the capacity", bm::insert( x, n, p, src.data(), src.data() + ( k - n ) ) );
    }
    if( n == Tr::limit ) { REPORTED( "emplaceBack past the capacity", bm::emplaceBack( x, n, val ) ); for( long p = 0; p <= n; ++p ) REPORTED( "emplace past the capacity", bm::emplace( x, n, p, val ) ); }
  }
  void invalid( int w ) const
  {
    long const n = size( w );
    for( long p : { n, n + 1 } ) REPORTED( "erasure of what isn't there", bm::erase( x, n, p ) );
#ifdef LVARRAY_BOUNDS_CHECK
    T const val = elem::make< T >( 3 ); T const * const none = &val;
    for( long p : { -1l, n + 1, n + 2 } ) { REPORTED( "emplace out of bounds", bm::emplace( x, n, p, val ) ); REPORTED( "insert out of bounds", bm::insert( x, n, p, none, none + 1 ) ); }
    for( long s : { -1l, long( b[ w ].capacity() ) + 1 } )
    {
      REPORTED( "an impossible size", bm::check( x, s ) ); REPORTED( "an impossible size", bm::emplaceBack( x, s, val ) ); REPORTED( "an impossible size", bm::emplace( x, s, 0, val ) ); REPORTED( "an impossible size", bm::insert( x, s, 0, none, none + 1 ) );
      REPORTED( "an impossible size", bm::popBack( x, s ) ); REPORTED( "an impossible size", bm::erase( x, s, 0 ) ); REPORTED( "an impossible size", bm::resize( x, s, 1 ) ); REPORTED( "an impossible size", bm::free( x, s ) );
      REPORTED( "an impossible size", bm::reserve( x, s, LvArray::MemorySpace::host, 1 ) ); REPORTED( "an impossible size", bm::dynamicReserve( x, s, 1 ) ); REPORTED( "an impossible size", bm::setCapacity( x, s, LvArray::MemorySpace::host, 1 ) );
      REPORTED( "an impossible size", bm::copyInto( x, s, b[ w ], n ) ); { B y( true ); REPORTED( "an impossible size", bm::copyInto( y, 0, x, s ) ); if( Tr::heap ) bm::free( y, 0 ); }
    }
#endif
  }
  void key( mc::Key & k ) const { for( int w = 0; w < 2; ++w ) { k.add( size( w ) ); k.add( long( b[ w ].capacity() ) ); k.add( usable[ w ] ); k.add( b[ w ].data() == nullptr ); } }
};
template< typename S > void go( int quick, int deep )
{ mc::HistoryOptions o; o.depth = mc::thorough() ? deep : quick; o.noMerge = mc::thorough() ? 2 : 1; mc::exploreHistories< S >( o ); 
#ifdef CHAI
  MC_CHECK( mockmem::state().blocks.empty() && mockmem::state().records.empty(), "memory left after every owner was destroyed" );
#endif
}
#ifdef CHAI
MC_JOB( "ChaiBuffer of int" ) { go< Sys< LvArray::ChaiBuffer< int >, 3 > >( 4, 6 ); }
MC_JOB( "ChaiBuffer of movable" ) { go< Sys< LvArray::ChaiBuffer< elem::Movable >, 3 > >( 4, 6 ); }
#else
MC_JOB( "MallocBuffer of int" ) { go< Sys< LvArray::MallocBuffer< int >, 4 > >( 5, 6 ); }
MC_JOB( "MallocBuffer of bytes" ) { go< Sys< LvArray::MallocBuffer< signed char >, 3 > >( 4, 6 ); }
MC_JOB( "MallocBuffer of strings" ) { go< Sys< LvArray::MallocBuffer< std::string >, 3 > >( 4, 6 ); }
MC_JOB( "MallocBuffer of movable" ) { go< Sys< LvArray::MallocBuffer< elem::Movable >, 4 > >( 5, 6 ); }
MC_JOB( "MallocBuffer of copyable" ) { go< Sys< LvArray::MallocBuffer< elem::CopyOnly >, 3 > >( 4, 6 ); }
MC_JOB( "StackBuffer of int" ) { go< Sys< LvArray::StackBuffer< int, 4 >, 4 > >( 5, 6 ); }
MC_JOB( "StackBuffer of short" ) { go< Sys< LvArray::StackBuffer< short, 1 >, 3 > >( 4, 6 ); }
#endif
MC_MAIN
