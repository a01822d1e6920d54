/* Threads operating on different rows of one container through views: races and results. */
#include "threads.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#include "Array.hpp"
#include "MallocBuffer.hpp"
#ifndef ELEM
#define ELEM int
#endif
#ifndef INDEXT
#define INDEXT long
#endif
using I = INDEXT;
using E = ELEM;
template< typename T > using Buf = LvArray::MallocBuffer< T >;
static E mk( int v ) { return E( v ); }
using Log = std::string;
static void note( Log & l, long x ) { l += std::to_string( x ) + " "; }

/* One row-local operation: acts on row r of the views of the container and logs what it returned. */
template< typename A > struct Spec;
/* With LONGROWS the rows are longer than any threshold of a few elements. */
#ifdef LONGROWS
static constexpr int CAPACITY = 24;
static int startSize( int s, int r, int ) { return s == 0 ? 9 : s == 1 ? 17 : r == 1 ? 22 : 20; }
#else
static constexpr int CAPACITY = 4;
static int startSize( int s, int r, int full ) { return s == 0 ? 0 : s == 1 ? 2 : r == 1 ? 1 : full; }
#endif

struct AoA
{
  using A = LvArray::ArrayOfArrays< E, I, LvArray::MallocBuffer >;
  A a;
  static constexpr int CAP = CAPACITY, starts = 3;
  AoA( int s )
  { for( int r = 0; r < 3; ++r ) { a.appendArray( 0 ); a.setCapacityOfArray( r, CAP ); int const n = startSize( s, r, 3 ); for( int k = 0; k < n; ++k ) a.emplaceBack( r, mk( 10 * r + k + 1 ) ); } }
  static int ops() { return 15; }
  static char const * name( int o )
  { static char const * const n[] = { "emplaceBack", "appendToArray", "emplace(0)", "emplace(mid)", "insertIntoArray", "erase(0)", "erase(mid..)", "erase(all)", "write", "read", "read via const view", "sizes", "iterate", "write last via const-sizes view", "swap values" }; return n[ o ]; }
  bool enabled( int o, int r ) const
  {
    int const n = a.sizeOfArray( r );
    switch( o ) { case 0: case 2: case 3: return n < CAP; case 1: case 4: return n + 2 <= CAP; case 5: case 8: case 9: case 10: case 13: return n > 0; case 6: return n > 1; case 14: return n > 1; default: return true; }
  }
  void apply( int o, int r, int v, Log & l ) const
  {
    auto const w = a.toView();
    I const n = w.sizeOfArray( r );
    E const two[ 2 ] = { mk( v ), mk( v + 1 ) };
    switch( o )
    {
      case 0: w.emplaceBack( r, mk( v ) ); break;
      case 1: w.appendToArray( r, two, two + 2 ); break;
      case 2: w.emplace( r, 0, mk( v ) ); break;
      case 3: w.emplace( r, n / 2, mk( v ) ); break;
      case 4: w.insertIntoArray( r, n / 2, two, two + 2 ); break;
      case 5: w.eraseFromArray( r, 0 ); break;
      case 6: w.eraseFromArray( r, n / 2, n - n / 2 ); break;
      case 7: w.eraseFromArray( r, 0, n ); break;
      case 8: w( r, 0 ) = mk( v ); w[ r ][ n - 1 ] = mk( v + 1 ); break;
      case 9: for( I j = 0; j < n; ++j ) note( l, thr::num( w( r, j ) ) ); break;
      case 10: { auto const cw = a.toViewConst(); for( I j = 0; j < cw.sizeOfArray( r ); ++j ) note( l, thr::num( cw[ r ][ j ] ) ); } break;
      case 11: note( l, w.sizeOfArray( r ) ); note( l, w.capacityOfArray( r ) ); note( l, w.size() ); note( l, w.capacity() ); break;
      case 12: for( E & e : w[ r ] ) { note( l, thr::num( e ) ); e = mk( v ); } break;
      case 13: { auto const cs = a.toViewConstSizes(); cs( r, n - 1 ) = mk( v ); } break;
      case 14: { E const t = w( r, 0 ); w( r, 0 ) = w( r, n - 1 ); w( r, n - 1 ) = t; } break;
    }
  }
  std::string state() const { std::string s; for( int r = 0; r < 3; ++r ) { for( I j = 0; j < a.sizeOfArray( r ); ++j ) { MC_CHECK( thr::sane( a( r, j ) ), "a torn value" ); note( s, thr::num( a( r, j ) ) ); } s += "|" + std::to_string( a.capacityOfArray( r ) ) + ";"; } return s; }
};
struct AoS
{
  using A = LvArray::ArrayOfSets< E, I, LvArray::MallocBuffer >;
  A a;
  static constexpr int CAP = CAPACITY, starts = 3;
  AoS( int s )
  { for( int r = 0; r < 3; ++r ) { a.appendSet( 0 ); a.setCapacityOfSet( r, CAP ); int const n = startSize( s, r, 4 ); for( int k = 0; k < n; ++k ) a.insertIntoSet( r, mk( 10 * k + 1 ) ); } }
  static int ops() { return 10; }
  static char const * name( int o ) { static char const * const n[] = { "insert low", "insert high", "insert present", "insert two", "remove low", "remove absent", "remove two", "contains", "read", "insert mid" }; return n[ o ]; }
  bool enabled( int o, int r ) const { I const n = a.sizeOfSet( r ); return o == 0 || o == 1 || o == 9 ? n < CAP : o == 3 ? n + 2 <= CAP : true; }
  void apply( int o, int r, int v, Log & l ) const
  {
    auto const w = a.toView();
    E const two[ 2 ] = { mk( 5 ), mk( 25 ) }, rem[ 2 ] = { mk( 1 ), mk( 21 ) };
    switch( o )
    {
      case 0: note( l, w.insertIntoSet( r, mk( -v ) ) ); break;
      case 1: note( l, w.insertIntoSet( r, mk( 500 + v ) ) ); break;
      case 2: if( w.sizeOfSet( r ) ) note( l, w.insertIntoSet( r, mk( 1 ) ) ); break;
      case 3: note( l, w.insertIntoSet( r, two, two + 2 ) ); break;
      case 4: note( l, w.removeFromSet( r, mk( 1 ) ) ); break;
      case 5: note( l, w.removeFromSet( r, mk( 2 ) ) ); break;
      case 6: note( l, w.removeFromSet( r, rem, rem + 2 ) ); break;
      case 7: note( l, w.contains( r, mk( 11 ) ) ); note( l, a.toViewConst().contains( r, mk( 12 ) ) ); break;
      case 8: for( E const & e : w[ r ] ) note( l, thr::num( e ) ); note( l, w.sizeOfSet( r ) ); note( l, w.capacityOfSet( r ) ); break;
      case 9: note( l, w.insertIntoSet( r, mk( 7 ) ) ); break;
    }
  }
  std::string state() const { std::string s; for( int r = 0; r < 3; ++r ) { for( I j = 0; j < a.sizeOfSet( r ); ++j ) { MC_CHECK( thr::sane( a( r, j ) ), "a torn value" ); note( s, thr::num( a( r, j ) ) ); } s += "|" + std::to_string( a.capacityOfSet( r ) ) + ";"; } return s; }
};
template< bool MATRIX > struct Crs
{
  using A = std::conditional_t< MATRIX, LvArray::CRSMatrix< E, int, I, LvArray::MallocBuffer >, LvArray::SparsityPattern< int, I, LvArray::MallocBuffer > >;
  A a;
  static constexpr int CAP = CAPACITY, starts = 3;
  Crs( int s ): a( 3, 2 * CAP, CAP )
  { for( int r = 0; r < 3; ++r ) { int const n = startSize( s, r, 4 ); for( int k = 0; k < n; ++k ) { if constexpr( MATRIX ) a.insertNonZero( r, 2 * k + 1, mk( 100 * r + k ) ); else a.insertNonZero( r, 2 * k + 1 ); } } }
  static int ops() { return MATRIX ? 15 : 10; }
  static char const * name( int o ) { static char const * const n[] = { "insert low", "insert high", "insert present", "insert two", "remove low", "remove absent", "remove two", "empty", "read", "insert mid", "write entries", "addToRow", "addToRowLinearSearch", "addToRowBinarySearch", "addToRowBinarySearchUnsorted" }; return n[ o ]; }
  bool enabled( int o, int r ) const { I const n = a.numNonZeros( r ); return o == 0 || o == 9 || o == 1 ? n < CAP : o == 3 ? n + 2 <= CAP : o == 2 || o >= 11 ? n > 0 : true; }
  template< typename W > bool ins( W const & w, int r, int c, int v ) const { if constexpr( MATRIX ) return w.insertNonZero( r, c, mk( v ) ); else return w.insertNonZero( r, c ); }
  void apply( int o, int r, int v, Log & l ) const
  {
    auto const w = a.toView();
    int const two[ 2 ] = { 2, 6 }, rem[ 2 ] = { 1, 5 };
    E const es[ 2 ] = { mk( v ), mk( v + 1 ) };
    switch( o )
    {
      case 0: note( l, ins( w, r, 0, v ) ); break;
      case 1: note( l, ins( w, r, 7, v ) ); break;
      case 2: note( l, ins( w, r, int( w.getColumns( r )[ 0 ] ), v ) ); break;
      case 3: if constexpr( MATRIX ) note( l, w.insertNonZeros( r, two, es, 2 ) ); else note( l, w.insertNonZeros( r, two, two + 2 ) ); break;
      case 4: note( l, w.removeNonZero( r, 1 ) ); break;
      case 5: note( l, w.removeNonZero( r, 6 ) ); break;
      case 6: if constexpr( MATRIX ) note( l, w.removeNonZeros( r, rem, 2 ) ); else note( l, w.removeNonZeros( r, rem, rem + 2 ) ); break;
      case 7: note( l, w.empty( r ) ); note( l, w.empty( r, 3 ) ); break;
      case 8: for( int c : w.getColumns( r ) ) note( l, c ); note( l, w.numNonZeros( r ) ); note( l, w.nonZeroCapacity( r ) ); note( l, w.numRows() ); note( l, w.numColumns() );
        if constexpr( MATRIX ) for( E const & e : a.toViewConst().getEntries( r ) ) note( l, thr::num( e ) ); break;
      case 9: note( l, ins( w, r, 4, v ) ); break;
      case 10: if constexpr( MATRIX ) { auto const x = a.toViewConstSizes(); for( E & e : x.getEntries( r ) ) e = mk( v ); } break;
      default:
        if constexpr( MATRIX && std::is_arithmetic< E >::value )
        {
          int const cs[ 1 ] = { w.getColumns( r )[ w.numNonZeros( r ) - 1 ] };
          auto const x = a.toViewConstSizes();
          if( o == 11 ) x.template addToRow< RAJA::seq_atomic >( r, cs, es, 1 );
          if( o == 12 ) x.template addToRowLinearSearch< RAJA::seq_atomic >( r, cs, es, 1 );
          if( o == 13 ) x.template addToRowBinarySearch< RAJA::seq_atomic >( r, cs, es, 1 );
          if( o == 14 ) x.template addToRowBinarySearchUnsorted< RAJA::seq_atomic >( r, cs, es, 1 );
        }
    }
  }
  std::string state() const
  {
    std::string s;
    for( int r = 0; r < 3; ++r )
    {
      for( int c : a.getColumns( r ) ) note( s, c );
      if constexpr( MATRIX ) for( E const & e : a.getEntries( r ) ) { MC_CHECK( thr::sane( e ), "a torn entry" ); note( s, thr::num( e ) ); }
      s += "|" + std::to_string( a.nonZeroCapacity( r ) ) + ";";
    }
    return s;
  }
};
/* Rows of a 2-d array: slices and iteration. */
template< typename PERM > struct Rows
{
  using A = LvArray::Array< E, 2, PERM, I, LvArray::MallocBuffer >;
  A a;
  static constexpr int starts = 2;
  Rows( int s ): a( 3, ( s == 0 ? 1 : 3 ) * CAPACITY / 4 ) { for( I i = 0; i < a.size(); ++i ) a.data()[ i ] = mk( int( i ) ); }
  static int ops() { return 5; }
  static char const * name( int o ) { static char const * const n[] = { "write elements", "write slice", "read elements", "read slice", "increment" }; return n[ o ]; }
  bool enabled( int, int ) const { return true; }
  void apply( int o, int r, int v, Log & l ) const
  {
    auto const w = a.toView();
    switch( o )
    {
      case 0: for( I j = 0; j < w.size( 1 ); ++j ) w( r, j ) = mk( v + int( j ) ); break;
      case 1: { auto const s = w[ r ]; for( I j = 0; j < s.size(); ++j ) s[ j ] = mk( v ); } break;
      case 2: for( I j = 0; j < w.size( 1 ); ++j ) note( l, thr::num( a.toViewConst()( r, j ) ) ); break;
      case 3: { auto const s = w[ r ].toSliceConst(); for( I j = 0; j < s.size(); ++j ) note( l, thr::num( s( j ) ) ); } break;
      case 4: for( I j = 0; j < w.size( 1 ); ++j ) w[ r ][ j ] = mk( int( thr::num( w( r, j ) ) ) + 1 ); break;
    }
  }
  std::string state() const { std::string s; for( I i = 0; i < a.size(); ++i ) { MC_CHECK( thr::sane( a.data()[ i ] ), "a torn value" ); note( s, thr::num( a.data()[ i ] ) ); } return s; }
};

/* Sorting and searching long rows. */
struct Sorting
{
  using A = LvArray::ArrayOfArrays< E, I, LvArray::MallocBuffer >;
  A a; LvArray::ArrayOfArrays< int, I, LvArray::MallocBuffer > b;
  static constexpr int starts = 3, N = 72;
  Sorting( int s )
  {
    for( int r = 0; r < 3; ++r )
    {
      a.appendArray( 0 ); a.setCapacityOfArray( r, N ); b.appendArray( 0 ); b.setCapacityOfArray( r, N );
      int const n = s == 2 ? N : s == 1 ? 9 : 3;
      for( int k = 0; k < n; ++k ) { int const v = s == 1 ? ( k * 5 + r ) % 4 : r == 1 ? 3 * ( n - k ) : ( k * 29 ) % 37; a.emplaceBack( r, mk( v ) ); b.emplaceBack( r, 100 * v + r ); }
    }
  }
  static int ops() { return 6; }
  static char const * name( int o ) { static char const * const n[] = { "makeSorted", "makeSorted descending", "dualSort", "makeSortedUnique", "isSorted", "find" }; return n[ o ]; }
  bool enabled( int o, int r ) const { (void) r; return o < 5 || LvArray::sortedArrayManipulation::isSorted( a[ r ].begin(), a[ r ].end() ); }
  void apply( int o, int r, int v, Log & l ) const
  {
    namespace sam = LvArray::sortedArrayManipulation;
    auto const w = a.toView(); auto const x = b.toView();
    E * const f = w[ r ].begin(); E * const e = f + w.sizeOfArray( r ); int * const g = x[ r ].begin();
    switch( o )
    {
      case 0: sam::makeSorted( f, e ); break;
      case 1: sam::makeSorted( f, e, sam::greater< E >() ); break;
      case 2: sam::dualSort( f, e, g ); break;
      case 3: note( l, sam::makeSortedUnique( f, e ) ); break;
      case 4: note( l, sam::isSorted( f, e ) ); break;
      case 5: note( l, sam::find( f, e - f, mk( v % 37 ) ) ); note( l, sam::contains( f, e - f, mk( 12 ) ) ); break;
    }
  }
  std::string state() const
  {
    std::string s;
    for( int r = 0; r < 3; ++r ) for( I j = 0; j < a.sizeOfArray( r ); ++j ) { MC_CHECK( thr::sane( a( r, j ) ), "a torn value" ); note( s, thr::num( a( r, j ) ) ); note( s, b( r, j ) ); }
    return s;
  }
};

template< typename X > static void explore( int nThreads, int nOps )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    int const start = c.choose( X::starts, "start" );
    int const base = nThreads == 3 ? 0 : c.choose( 2, "rows" );      // rows 0,1 or 1,2
    int const reverse = nThreads == 2 ? c.choose( 2, "reverse" ) : 0;
    auto row = [&]( int t ) { return reverse ? base + nThreads - 1 - t : base + t; };
    /* the sequential run decides which programs are valid */
    X seq( start );
    std::vector< std::vector< int > > prog( nThreads );
    std::vector< Log > expect( nThreads );
    for( int t = 0; t < nThreads; ++t )
      for( int k = 0; k < nOps; ++k )
      {
        std::vector< int > en; for( int o = 0; o < X::ops(); ++o ) if( seq.enabled( o, row( t ) ) ) en.push_back( o );
        int const o = en[ c.choose( int( en.size() ), "op" ) ];
        c.noteIf( [&] { return X::name( o ); } );
        prog[ t ].push_back( o );
        seq.apply( o, row( t ), 50 * ( t + 1 ) + 10 * k, expect[ t ] );
      }
    X par( start );
    std::vector< Log > log( nThreads );
    std::vector< std::function< void() > > threads;
    for( int t = 0; t < nThreads; ++t )
      threads.push_back( [&, t] { for( int k = 0; k < nOps; ++k ) par.apply( prog[ t ][ k ], row( t ), 50 * ( t + 1 ) + 10 * k, log[ t ] ); } );
    sched::Result const r = thr::run( c, threads );
    MC_CHECK( r.accesses > 0, "harness: the monitor saw no access" );
    for( int t = 0; t < nThreads; ++t ) MC_CHECK( log[ t ] == expect[ t ], "thread " << t << " saw " << log[ t ] << " instead of " << expect[ t ] );
    std::string const s = par.state();
    MC_CHECK( s == seq.state(), "the container is " << s << " instead of " << seq.state() );
    mc::outcome( s );
  } );
  mc::g().bound += "all programs of " + std::to_string( nThreads ) + " threads with " + std::to_string( nOps ) + " operations, all orders, races on every access; ";
}
#define BOTH( NAME, X ) \
  MC_JOB( NAME ": 2 threads, 1 operation" ) { explore< X >( 2, 1 ); }
#define PAIRS( NAME, X ) \
  MC_JOB( NAME ": 2 threads, 2 operations" ) { explore< X >( 2, 2 ); }
#define TRIPLE( NAME, X ) \
  MC_JOB( NAME ": 3 threads, 1 operation" ) { explore< X >( 3, 1 ); }
#ifdef LONGROWS
#undef BOTH
#undef PAIRS
#undef TRIPLE
#define BOTH( NAME, X ) MC_JOB( NAME ", long rows: 2 threads, 1 operation" ) { explore< X >( 2, 1 ); }
#define PAIRS( NAME, X )
#define TRIPLE( NAME, X )
#endif
#if PART == 0
BOTH( "array of arrays", AoA )
PAIRS( "array of arrays", AoA )
TRIPLE( "array of arrays", AoA )
BOTH( "array", Rows< RAJA::PERM_IJ > )
BOTH( "permuted array", Rows< RAJA::PERM_JI > )
PAIRS( "array", Rows< RAJA::PERM_IJ > )
PAIRS( "permuted array", Rows< RAJA::PERM_JI > )
#elif PART == 1
BOTH( "array of sets", AoS )
PAIRS( "array of sets", AoS )
TRIPLE( "array of sets", AoS )
#elif PART == 2
BOTH( "sparsity pattern", Crs< false > )
PAIRS( "sparsity pattern", Crs< false > )
TRIPLE( "sparsity pattern", Crs< false > )
#elif PART == 4
BOTH( "sorting rows", Sorting )
PAIRS( "sorting rows", Sorting )
TRIPLE( "sorting rows", Sorting )
#else
BOTH( "matrix", Crs< true > )
PAIRS( "matrix", Crs< true > )
TRIPLE( "matrix", Crs< true > )
#endif
MC_MAIN
