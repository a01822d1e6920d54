/* P03: one-dimensional Array = std::vector. */
#include "sys_array1d.hpp"
using LvArray::MallocBuffer;

template< typename SYS > void go( int quick, int deep, int noMerge )
{ mc::HistoryOptions o; o.depth = mc::thorough() ? deep : quick; o.noMerge = mc::thorough() ? noMerge + 1 : noMerge; mc::exploreHistories< SYS >( o ); }

#ifdef HUGE_SIZES
/* More elements than 32 bits count: operations at the end, the storage is touched at a few places only. */
static bool promised() { void * p = std::malloc( 6000000000l ); std::free( p ); return p != nullptr; }
MC_JOB( "huge vector" )
{
  if( !promised() ) return;
  mc::enumerate( []( mc::Chooser & c ) {
    long const n = c.flag( "above 2^32" ) ? 4400000000l : 2200000000l;
    LvArray::Array< signed char, 1, camp::idx_seq< 0 >, long, MallocBuffer > a;
    a.reserve( n + 20 );
    signed char const * const p = a.data();
    a.resizeWithoutInitializationOrDestruction( n );
    std::vector< int > tail( 3, 0 ); for( int k = 0; k < 3; ++k ) { tail[ k ] = k + 1; a[ n - 3 + k ] = k + 1; }
    a[ 0 ] = 99; a( n / 2 ) = 98;
    int fresh = 10;
    auto check = [&]( char const * after ) {
      long const size = n - 3 + long( tail.size() );
      MC_EQ( long( a.size() ), size, "size after " << after ); MC_EQ( long( a.size( 0 ) ), size, "extent after " << after );
      MC_CHECK( a.data() == p && a.capacity() >= n + 20, "storage after " << after );
      for( size_t k = 0; k < tail.size(); ++k ) { MC_EQ( int( a[ n - 3 + long( k ) ] ), tail[ k ], "element after " << after ); MC_EQ( int( a.toView()( n - 3 + long( k ) ) ), tail[ k ], "element of a view after " << after ); }
      MC_EQ( int( a.back() ), tail.back(), "back after " << after ); MC_CHECK( a.end() - a.begin() == size, "end after " << after );
      MC_EQ( int( a[ 0 ] ), 99, "first element after " << after ); MC_EQ( int( a[ n / 2 ] ), 98, "middle element after " << after );
    };
    check( "resizing" );
    int const ops = c.range( 1, 3, "operations" );
    for( int k = 0; k < ops; ++k )
    {
      int const at = c.choose( int( tail.size() ), "position" );
      switch( c.choose( 6, "operation" ) )
      {
        case 0: a.emplace_back( ++fresh ); tail.push_back( fresh ); check( "emplace_back" ); break;
        case 1: if( tail.size() > 1 ) { a.pop_back(); tail.pop_back(); } check( "pop_back" ); break;
        case 2: a.emplace( n - 3 + at, ++fresh ); tail.insert( tail.begin() + at, fresh ); check( "emplace" ); break;
        case 3: if( tail.size() > 1 ) { a.erase( n - 3 + at ); tail.erase( tail.begin() + at ); } check( "erase" ); break;
        case 4: { std::vector< signed char > v{ 71, 72 }; a.insert( n - 3 + at, v.begin(), v.end() ); tail.insert( tail.begin() + at, { 71, 72 } ); check( "insert" ); break; }
        case 5: a.resize( a.size() + 2 ); tail.push_back( 0 ); tail.push_back( 0 ); check( "resize" ); break;
      }
    }
  } );
}
#elif defined BIG
MC_JOB( "large vector of int" ) { go< Array1D< int, MallocBuffer, 40 > >( 2, 3, 1 ); }
MC_JOB( "large vector of movable" ) { go< Array1D< elem::Movable, MallocBuffer, 40, 1000, int > >( 2, 2, 1 ); }
MC_JOB( "large vector of string" ) { go< Array1D< std::string, MallocBuffer, 40 > >( 2, 2, 1 ); }
#else
MC_JOB( "vector-int" ) { go< Array1D< int, MallocBuffer, 5 > >( 5, 6, 3 ); }
MC_JOB( "vector-string" ) { go< Array1D< std::string, MallocBuffer, 4 > >( 5, 6, 2 ); }
MC_JOB( "vector-movable" ) { go< Array1D< elem::Movable, MallocBuffer, 4, 1000, int > >( 5, 6, 3 ); }
MC_JOB( "vector-copyonly" ) { go< Array1D< elem::CopyOnly, MallocBuffer, 4 > >( 5, 6, 3 ); }
MC_JOB( "vector-byte" ) { go< Array1D< signed char, MallocBuffer, 4 > >( 5, 6, 3 ); }
MC_JOB( "vector-double" ) { go< Array1D< double, MallocBuffer, 4 > >( 5, 6, 2 ); }
#endif
MC_MAIN
