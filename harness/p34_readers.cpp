/* P34: threads that only read one container, or that use the library on data of their own, never interfere. */
#include <memory>
#include "threads.hpp"
#include "Array.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#include "SortedArray.hpp"
#include "MallocBuffer.hpp"
#include "StackBuffer.hpp"
#include "sliceHelpers.hpp"
#include "memcpy.hpp"
#include "input.hpp"
#include "output.hpp"
#include "tensorOps.hpp"
#include "math.hpp"
#include <functional>
#ifndef INDEXT
#define INDEXT long
#endif
using I = INDEXT;
using LvArray::MallocBuffer;
namespace sam = LvArray::sortedArrayManipulation;
namespace to = LvArray::tensorOps;

/* What a thread saw: numbers and text. */
struct Seen
{
  std::string s;
  template< typename T > std::enable_if_t< std::is_arithmetic< T >::value, Seen & > operator<<( T v ) { char b[ 40 ]; snprintf( b, sizeof( b ), "%.17g ", double( v ) ); s += b; return *this; }
  Seen & operator<<( std::string const & t ) { s += t + " "; return *this; }
};
struct Op { char const * name; std::function< void( Seen &, int ) > f; };      // the second argument is the thread

/* Any two (three) operations by threads of one process. make() gives the operations on a fresh shared state and a
 * digest of that state. */
struct World { std::vector< Op > ops; std::function< void( Seen & ) > state; std::shared_ptr< void > keep; };
static void explore( int nThreads, int starts, std::function< World( int ) > const & make )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    World w = make( c.choose( starts, "start" ) );
    std::vector< int > prog( nThreads );
    for( int t = 0; t < nThreads; ++t ) { prog[ t ] = c.choose( int( w.ops.size() ), "op" ); c.noteIf( [&] { return w.ops[ prog[ t ] ].name; } ); }
    Seen before, after; w.state( before );
    std::vector< Seen > expect( nThreads ), got( nThreads );
    for( int t = 0; t < nThreads; ++t ) w.ops[ prog[ t ] ].f( expect[ t ], t );
    std::vector< std::function< void() > > threads;
    for( int t = 0; t < nThreads; ++t ) threads.push_back( [&, t] { w.ops[ prog[ t ] ].f( got[ t ], t ); } );
    sched::Result const r = thr::run( c, threads );
    MC_CHECK( r.accesses > 0, "harness: the monitor saw no access of " << w.ops[ prog[ 0 ] ].name );
    for( int t = 0; t < nThreads; ++t ) MC_CHECK( got[ t ].s == expect[ t ].s, w.ops[ prog[ t ] ].name << " gave " << got[ t ].s << " instead of " << expect[ t ].s );
    w.state( after );
    MC_CHECK( before.s == after.s, "a reader changed the container from " << before.s << " to " << after.s );
    mc::outcome( got[ 0 ].s + got[ 1 ].s );
  } );
  mc::g().bound += "all programs of " + std::to_string( nThreads ) + " threads with one operation each, all orders, races on every access; ";
}
#define OP( NAME, ... ) w.ops.push_back( Op{ NAME, [p]( Seen & o, int t ) { (void) t; auto const & a = p->a; (void) a; __VA_ARGS__ } } )
template< typename X > static void print( Seen & o, X const & x ) { std::ostringstream s; s << x; o << s.str(); }

#if PART == 0
/* ------------------------------------------------------------------------------------------------ arrays */
template< typename T, int N, typename PERM, template< typename > class BUF > struct ArrState
{
  using A = LvArray::Array< T, N, PERM, I, BUF >;
  A a; typename LvArray::ArrayView< T, N, A::USD, I, BUF > v; typename LvArray::ArrayView< T const, N, A::USD, I, BUF > vc;
  static A fill( int s )
  {
    A x; I d[ N ]; for( int k = 0; k < N; ++k ) d[ k ] = s == 0 ? 1 : 2 + k % 2;
    x.resize( N, d ); if( s == 2 ) x.reserve( 20 );
    for( I i = 0; i < x.size(); ++i ) x.data()[ i ] = T( i + 1 );
    return x;
  }
  ArrState( int s ): a( fill( s ) ), v( a.toView() ), vc( a.toViewConst() ) {}
};
template< typename A > static void walk( Seen & o, A const & a ) { LvArray::forValuesInSlice( a.toSliceConst(), [&]( auto const & x ) { o << x; } ); }
template< typename T, int N, typename PERM, template< typename > class BUF > World arrays( int s )
{
  using S = ArrState< T, N, PERM, BUF >; using A = typename S::A;
  auto p = std::make_shared< S >( s );
  World w; w.keep = p; w.state = [p]( Seen & o ) { walk( o, p->a ); for( int k = 0; k < N; ++k ) o << p->a.size( k ) << p->a.strides()[ k ]; o << p->a.capacity() << p->a.getSingleParameterResizeIndex(); };
  OP( "sizes", { o << a.size() << a.empty() << a.capacity() << a.getSingleParameterResizeIndex(); for( int k = 0; k < N; ++k ) o << a.size( k ) << a.dims()[ k ] << a.strides()[ k ] << a.dimsArray()[ k ] << a.stridesArray()[ k ]; } );
  OP( "iterate", { for( T const & x : a ) o << x; o << *a.data() << a.front() << a.back(); } );
  OP( "values in slice", { walk( o, a ); } );
  OP( "values with indices", { LvArray::forValuesInSliceWithIndices( a.toSliceConst(), [&]( T const & x, auto... i ) { o << x; int const u[] = { ( o << i, 0 )... }; (void) u; } ); } );
  OP( "copy construct", { A b( a ); walk( o, b ); b.data()[ 0 ] = T( 100 + t ); } );
  OP( "copy assign", { A b; b = a; walk( o, b ); b.data()[ 0 ] = T( 100 + t ); } );
  OP( "shared view", { auto const & v = p->v; o << v.size() << v.capacity(); for( int k = 0; k < N; ++k ) o << v.size( k ); walk( o, v ); } );
  OP( "copies of the shared view", { auto const v = p->v; auto const u = v.toViewConst(); walk( o, u ); auto const x = p->vc; walk( o, x ); } );
  OP( "views of the array", { auto const v = a.toView(); walk( o, v ); auto const u = a.toViewConst(); walk( o, u ); auto const n = a.toNestedViewConst(); o << n.size(); } );
  OP( "slices", { auto const x = a.toSlice(); auto const y = a.toSliceConst(); o << x.size() << y.isContiguous() << y.size( N - 1 ) << x.stride( 0 ); } );
  OP( "linear index", { if constexpr( N == 1 ) { for( I i = 0; i < a.size( 0 ); ++i ) o << a.linearIndex( i ) << a( i ) << a[ i ]; }
                         else if constexpr( N == 2 ) { for( I i = 0; i < a.size( 0 ); ++i ) for( I j = 0; j < a.size( 1 ); ++j ) o << a.linearIndex( i, j ) << a( i, j ) << a[ i ][ j ]; }
                         else for( I i = 0; i < a.size( 0 ); ++i ) for( I j = 0; j < a.size( 1 ); ++j ) for( I k = 0; k < a.size( 2 ); ++k ) o << a.linearIndex( i, j, k ) << a( i, j, k ) << a[ i ][ j ][ k ]; } );
  OP( "print", { print( o, a ); print( o, p->v ); print( o, a.toSliceConst() ); } );
  OP( "read as source of setValues", { A b( S::fill( 0 ) ); I d[ N ]; for( int k = 0; k < N; ++k ) d[ k ] = a.size( k ); b.resize( N, d ); b.template setValues< RAJA::seq_exec >( p->vc ); walk( o, b ); } );
  OP( "read as source of memcpy", { A b( a ); b.zero(); LvArray::memcpy< 0, 0 >( b.toView(), {}, p->vc, {} ); walk( o, b ); } );
  OP( "read as source of copyInto", { BUF< T > b( true ); LvArray::bufferManipulation::copyInto( b, 0, a.dataBuffer(), a.size() ); for( I i = 0; i < a.size(); ++i ) o << b[ i ]; LvArray::bufferManipulation::free( b, a.size() ); } );
  if constexpr( N > 1 ) OP( "sum over the first dimension", { LvArray::Array< T, N - 1, std::conditional_t< N == 2, camp::make_idx_seq_t< 1 >, RAJA::PERM_IJ >, I, BUF > b; I d[ N ]; for( int k = 1; k < N; ++k ) d[ k - 1 ] = a.size( k ); b.resize( N - 1, d ); LvArray::sumOverFirstDimension( a.toSliceConst(), b.toSlice() ); walk( o, b ); } );
  OP( "move within the host", { if constexpr( std::is_same< BUF< T >, MallocBuffer< T > >::value ) { a.move( LvArray::MemorySpace::host, false ); p->v.move( LvArray::MemorySpace::host, false ); } o << int( a.getPreviousSpace() ) << a.size(); } );
  return w;
}
template< typename T > using Stack = LvArray::StackBuffer< T, 32 >;
#define ARR( NAME, ... ) MC_JOB( "readers of " NAME ) { explore( 2, 3, arrays< __VA_ARGS__ > ); }
ARR( "an array", int, 1, RAJA::PERM_I, MallocBuffer )
ARR( "a 2-d array", double, 2, RAJA::PERM_IJ, MallocBuffer )
ARR( "a permuted 2-d array", int, 2, RAJA::PERM_JI, MallocBuffer )
ARR( "a permuted 3-d array", int, 3, RAJA::PERM_JKI, MallocBuffer )
ARR( "a 3-d array", long, 3, RAJA::PERM_IJK, MallocBuffer )
ARR( "a stack array", int, 1, RAJA::PERM_I, Stack )
ARR( "a 2-d stack array", int, 2, RAJA::PERM_JI, Stack )
MC_JOB( "three readers of a 2-d array" ) { explore( 3, 1, arrays< int, 2, RAJA::PERM_JI, MallocBuffer > ); }

#elif PART == 1
/* ------------------------------------------------------------------------------------------- containers */
template< typename T > struct SortedState
{
  using A = LvArray::SortedArray< T, I, MallocBuffer >; A a; decltype( std::declval< A const & >().toView() ) v;
  static A fill( int s ) { A x; if( s == 2 ) x.reserve( 40 ); for( int k = 0; k < ( s == 0 ? 1 : s == 1 ? 5 : 33 ); ++k ) x.insert( T( ( k * 7 ) % 37 ) ); return x; }
  SortedState( int s ): a( fill( s ) ), v( a.toView() ) {}
};
template< typename T > World sorted( int s )
{
  using S = SortedState< T >; using A = typename S::A;
  auto p = std::make_shared< S >( s );
  World w; w.keep = p; w.state = [p]( Seen & o ) { for( T const & x : p->a ) o << x; };
  OP( "sizes", { o << a.size() << a.empty(); } );
  OP( "iterate", { for( T const & x : a ) o << x; o << *a.data() << a[ 0 ] << a( a.size() - 1 ); } );
  OP( "contains", { for( int k = -1; k < 40; ++k ) o << a.contains( T( k ) ) << a.count( T( k ) ); } );
  OP( "contains, from above", { for( int k = 40; k > 0; k -= 3 ) o << a.contains( T( k ) ); } );
  OP( "contains, through the view", { for( int k = 0; k < 40; k += 2 ) o << p->v.contains( T( k ) ); } );
  OP( "copy construct", { A b( a ); b.insert( T( 100 + t ) ); for( T const & x : b ) o << x; } );
  OP( "copy assign", { A b; b = a; b.remove( T( 7 ) ); for( T const & x : b ) o << x; } );
  OP( "insert a range read from it", { A b; o << b.insert( a.begin(), a.end() ); for( T const & x : b ) o << x; } );
  OP( "views", { auto const v = a.toView(); auto const u = v; for( T const & x : u ) o << x; auto const c = p->v.toViewConst(); o << c.size() << c.empty(); auto const l = a.toSlice(); o << l.size() << l[ 0 ]; } );
  OP( "print", { print( o, a ); print( o, p->v ); } );
  return w;
}
struct AoaState
{
  using A = LvArray::ArrayOfArrays< int, I, MallocBuffer >; A a; decltype( std::declval< A & >().toView() ) v; decltype( std::declval< A const & >().toViewConst() ) vc;
  static A fill( int s ) { A x; for( int r = 0; r < ( s == 0 ? 1 : 4 ); ++r ) { x.appendArray( 0 ); for( int k = 0; k < ( r * 3 + s ) % 5; ++k ) x.emplaceBack( r, 10 * r + k ); } if( s == 1 ) x.compress(); return x; }
  AoaState( int s ): a( fill( s ) ), v( a.toView() ), vc( a.toViewConst() ) {}
};
template< typename V > static void rows( Seen & o, V const & v ) { for( I i = 0; i < I( v.size() ); ++i ) { for( int const x : v[ i ] ) o << x; o << v.sizeOfArray( i ) << -1; } }
static World aoa( int s )
{
  using A = AoaState::A;
  auto p = std::make_shared< AoaState >( s );
  World w; w.keep = p; w.state = [p]( Seen & o ) { rows( o, p->a ); for( I i = 0; i < p->a.size(); ++i ) o << p->a.capacityOfArray( i ); };
  OP( "sizes", { o << a.size() << a.capacity() << a.valueCapacity(); for( I i = 0; i < a.size(); ++i ) o << a.sizeOfArray( i ) << a.capacityOfArray( i ) ; } );
  OP( "rows", { rows( o, a ); } );
  OP( "elements", { for( I i = 0; i < a.size(); ++i ) for( I j = 0; j < a.sizeOfArray( i ); ++j ) o << a( i, j ); } );
  OP( "shared view", { rows( o, p->v ); } );
  OP( "copies of the shared views", { auto const u = p->v; rows( o, u ); auto const x = p->vc; rows( o, x ); auto const c = p->v.toViewConst(); rows( o, c ); auto const q = p->v.toViewConstSizes(); rows( o, q ); } );
  OP( "views", { auto const x = a.toViewConst(); rows( o, x ); } );
  OP( "copy construct", { A b( a ); b.appendArray( 2 ); if( a.size() > 1 ) b.emplaceBack( 1, 100 + t ); rows( o, b ); } );
  OP( "copy assign", { A b; b = a; b.resize( 1 ); rows( o, b ); } );
  OP( "append a row read from it", { A b; for( I i = 0; i < a.size(); ++i ) b.appendArray( a[ i ].begin(), a[ i ].end() ); rows( o, b ); } );
  OP( "sets assimilated from it", { LvArray::ArrayOfSets< int, I, MallocBuffer > b; A c( a ); b.assimilate( std::move( c ), sam::UNSORTED_NO_DUPLICATES ); o << b.size(); for( I i = 0; i < b.size(); ++i ) for( int const x : b[ i ] ) o << x; } );
  OP( "built from its sizes", { std::vector< I > n; for( I i = 0; i < a.size(); ++i ) n.push_back( a.sizeOfArray( i ) ); A b; b.resizeFromCapacities< RAJA::seq_exec >( a.size(), n.data() ); o << b.size(); for( I i = 0; i < b.size(); ++i ) o << b.capacityOfArray( i ); } );
  OP( "print", { print( o, a ); print( o, p->vc ); } );
  return w;
}
struct AosState
{
  using A = LvArray::ArrayOfSets< int, I, MallocBuffer >; A a; decltype( std::declval< A & >().toView() ) v; decltype( std::declval< A const & >().toViewConst() ) vc;
  static A fill( int s ) { A x; for( int r = 0; r < ( s == 0 ? 1 : 4 ); ++r ) { x.appendSet( 0 ); for( int k = 0; k < ( s == 2 ? 20 : 1 + ( r * 3 + s ) % 5 ); ++k ) x.insertIntoSet( r, ( 7 * k ) % 23 ); } if( s == 1 ) x.compress(); return x; }
  AosState( int s ): a( fill( s ) ), v( a.toView() ), vc( a.toViewConst() ) {}
};
template< typename V > static void sets( Seen & o, V const & v ) { for( I i = 0; i < I( v.size() ); ++i ) { for( int const x : v[ i ] ) o << x; o << v.sizeOfSet( i ) << v.contains( i, 7 ) << v.contains( i, 8 ); } }
static World aos( int s )
{
  using A = AosState::A;
  auto p = std::make_shared< AosState >( s );
  World w; w.keep = p; w.state = [p]( Seen & o ) { sets( o, p->a ); for( I i = 0; i < p->a.size(); ++i ) o << p->a.capacityOfSet( i ); };
  OP( "sizes", { o << a.size() << a.capacity() << a.valueCapacity(); for( I i = 0; i < a.size(); ++i ) o << a.sizeOfSet( i ) << a.capacityOfSet( i ); } );
  OP( "sets", { sets( o, a ); } );
  OP( "contains", { for( I i = 0; i < a.size(); ++i ) for( int k = -1; k < 25; ++k ) o << a.contains( i, k ); } );
  OP( "contains, downwards", { for( I i = a.size(); i-- > 0; ) for( int k = 25; k > 0; k -= 2 ) o << p->vc.contains( i, k ); } );
  OP( "elements", { for( I i = 0; i < a.size(); ++i ) for( I j = 0; j < a.sizeOfSet( i ); ++j ) o << a( i, j ); } );
  OP( "shared view", { sets( o, p->v ); } );
  OP( "copies of the shared views", { auto const u = p->v; sets( o, u ); auto const x = p->vc; sets( o, x ); auto const c = p->v.toViewConst(); sets( o, c ); } );
  OP( "arrays seen in it", { auto const x = a.toArrayOfArraysView(); rows( o, x ); } );
  OP( "consistency", { p->v.consistencyCheck(); p->vc.consistencyCheck(); o << a.size() << p->v.size(); } );
  OP( "copy construct", { A b( a ); b.insertIntoSet( 0, 100 + t ); sets( o, b ); } );
  OP( "copy assign", { A b; b = a; b.eraseSet( 0 ); sets( o, b ); } );
  OP( "insert a set read from it", { A b; b.appendSet( 0 ); b.insertIntoSet( 0, a[ 0 ].begin(), a[ 0 ].end() ); sets( o, b ); } );
  return w;
}
MC_JOB( "readers of a sorted array" ) { explore( 2, 3, sorted< int > ); }
MC_JOB( "readers of a sorted array of double" ) { explore( 2, 3, sorted< double > ); }
MC_JOB( "three readers of a sorted array" ) { explore( 3, 1, sorted< long > ); }
MC_JOB( "readers of an array of arrays" ) { explore( 2, 3, aoa ); }
MC_JOB( "three readers of an array of arrays" ) { explore( 3, 2, aoa ); }
MC_JOB( "readers of an array of sets" ) { explore( 2, 3, aos ); }
MC_JOB( "three readers of an array of sets" ) { explore( 3, 2, aos ); }

#elif PART == 2
/* --------------------------------------------------------------------------------- patterns and matrices */
template< bool MATRIX > struct CrsState
{
  using A = std::conditional_t< MATRIX, LvArray::CRSMatrix< double, int, I, MallocBuffer >, LvArray::SparsityPattern< int, I, MallocBuffer > >;
  A a; decltype( std::declval< A & >().toView() ) v; decltype( std::declval< A const & >().toViewConst() ) vc;
  static A fill( int s )
  {
    A x( s == 0 ? 1 : 3, 90, s == 2 ? 90 : 6 );
    for( int r = 0; r < x.numRows(); ++r ) for( int k = 0; k < ( s == 2 ? 70 : 1 + ( r * 3 + s ) % 5 ); ++k ) { int const col = ( 7 * k ) % 90; if constexpr( MATRIX ) x.insertNonZero( r, col, 10 * r + k ); else x.insertNonZero( r, col ); }
    if( s == 1 ) x.compress(); return x;
  }
  CrsState( int s ): a( fill( s ) ), v( a.toView() ), vc( a.toViewConst() ) {}
};
template< bool M, typename V > static void crs( Seen & o, V const & v ) { for( I i = 0; i < v.numRows(); ++i ) { for( int const x : v.getColumns( i ) ) o << x; if constexpr( M ) for( double const x : v.getEntries( i ) ) o << x; o << v.numNonZeros( i ) << v.empty( i, 7 ) << v.empty( i, 8 ); } }
template< bool M > World matrix( int s )
{
  using S = CrsState< M >; using A = typename S::A;
  auto p = std::make_shared< S >( s );
  World w; w.keep = p; w.state = [p]( Seen & o ) { crs< M >( o, p->a ); for( I i = 0; i < p->a.numRows(); ++i ) o << p->a.nonZeroCapacity( i ); };
  OP( "sizes", { o << a.numRows() << a.numColumns() << a.numNonZeros() << a.nonZeroCapacity() << a.empty(); for( I i = 0; i < a.numRows(); ++i ) o << a.numNonZeros( i ) << a.nonZeroCapacity( i ) << a.empty( i ) << a.getOffsets()[ i ]; } );
  OP( "rows", { crs< M >( o, a ); } );
  OP( "lookup", { for( I i = 0; i < a.numRows(); ++i ) for( int k = 0; k < 90; k += 3 ) o << a.empty( i, k ); } );
  OP( "lookup, downwards", { for( I i = a.numRows(); i-- > 0; ) for( int k = 89; k > 0; k -= 5 ) o << p->vc.empty( i, k ); } );
  OP( "shared view", { crs< M >( o, p->v ); } );
  OP( "copies of the shared views", { auto const u = p->v; crs< M >( o, u ); auto const x = p->vc; crs< M >( o, x ); auto const c = p->v.toViewConst(); crs< M >( o, c ); if constexpr( M ) { auto const q = p->v.toViewConstSizes(); crs< M >( o, q ); } } );
  OP( "copy construct", { A b( a ); if constexpr( M ) b.insertNonZero( 0, 1 + t, 5 ); else b.insertNonZero( 0, 1 + t ); crs< M >( o, b ); } );
  OP( "copy assign", { A b; b = a; b.compress(); crs< M >( o, b ); } );
  if constexpr( M )
  {
    OP( "print", { print( o, p->vc ); } );
    OP( "pattern of it", { auto const x = p->v.toSparsityPatternView(); crs< false >( o, x ); auto const y = p->vc.toSparsityPatternView(); crs< false >( o, y ); } );
    OP( "entries copied out", { A b( a ); b.zero(); for( I i = 0; i < a.numRows(); ++i ) b.template addToRow< RAJA::seq_atomic >( i, a.getColumns( i ).begin(), a.getEntries( i ).begin(), a.numNonZeros( i ) ); crs< M >( o, b ); } );
    OP( "entries copied out, unsorted", { A b( a ); b.template setValues< RAJA::seq_exec >( 1 ); for( I i = 0; i < a.numRows(); ++i ) b.template addToRowBinarySearchUnsorted< RAJA::seq_atomic >( i, a.getColumns( i ).begin(), a.getEntries( i ).begin(), a.numNonZeros( i ) ); crs< M >( o, b ); } );
  }
  else
    OP( "a matrix from it", { LvArray::CRSMatrix< double, int, I, MallocBuffer > b; b.template assimilate< RAJA::seq_exec >( A( a ) ); crs< true >( o, b ); } );
  return w;
}
MC_JOB( "readers of a sparsity pattern" ) { explore( 2, 3, matrix< false > ); }
MC_JOB( "readers of a matrix" ) { explore( 2, 3, matrix< true > ); }
MC_JOB( "three readers of a sparsity pattern" ) { explore( 3, 2, matrix< false > ); }
MC_JOB( "three readers of a matrix" ) { explore( 3, 2, matrix< true > ); }

#elif PART == 3
/* ------------------------------------------------------------------------------------ own data, tensors */
struct TensorState
{
  double m3[ 3 ][ 3 ] = { { 4, 1, .5 }, { 1, 3, .25 }, { .5, .25, 2 } }, m2[ 2 ][ 2 ] = { { 3, 1 }, { 1, 2 } }, s3[ 6 ] = { 4, 3, 2, .25, .5, 1 }, s2[ 3 ] = { 3, 2, 1 }, v3[ 3 ] = { 1, 2, 3 }, v2[ 2 ] = { 5, 7 };
  int a = 0;
};
template< typename X > static void outv( Seen & o, X const & x ) { for( auto const & v : x ) o << v; }
template< typename X > static void outm( Seen & o, X const & x ) { for( auto const & r : x ) for( auto const & v : r ) o << v; }
static World tensors( int s )
{
  auto p = std::make_shared< TensorState >();
  for( auto & r : p->m3 ) for( double & x : r ) x += s == 1 ? .125 : 0;
  World w; w.keep = p; w.state = [p]( Seen & o ) { outm( o, p->m3 ); outm( o, p->m2 ); outv( o, p->s3 ); outv( o, p->s2 ); outv( o, p->v3 ); outv( o, p->v2 ); };
  /* the sources are shared, or (thread 1) private copies scaled differently */
  auto own = [p, s]( int t ) { auto q = std::make_unique< TensorState >( *p ); if( s == 2 ) { to::scale< 3, 3 >( q->m3, 1 + t ); to::scale< 6 >( q->s3, 1 + t ); to::scale< 2, 2 >( q->m2, 1 + t ); to::scale< 3 >( q->s2, 1 + t ); to::scale< 3 >( q->v3, 1 + t ); } return q; };
#define TOP( NAME, ... ) w.ops.push_back( Op{ NAME, [p, own, s]( Seen & o, int t ) { std::unique_ptr< TensorState > const h = own( t ); TensorState const & q = s == 2 ? *h : *p; double m3[ 3 ][ 3 ] = {}, n3[ 3 ][ 3 ] = {}, m2[ 2 ][ 2 ] = {}, s3[ 6 ] = {}, s2[ 3 ] = {}, v3[ 3 ] = {}, v2[ 2 ] = {}; (void) q; \
  __VA_ARGS__ outm( o, m3 ); outm( o, n3 ); outm( o, m2 ); outv( o, s3 ); outv( o, s2 ); outv( o, v3 ); outv( o, v2 ); } } )
  TOP( "determinants", o << to::determinant< 3 >( q.m3 ) << to::determinant< 2 >( q.m2 ) << to::symDeterminant< 3 >( q.s3 ) << to::symDeterminant< 2 >( q.s2 ); );
  TOP( "invert 3x3", o << to::invert< 3 >( m3, q.m3 ); to::copy< 3, 3 >( n3, q.m3 ); o << to::invert< 3 >( n3 ); );
  TOP( "invert 2x2", o << to::invert< 2 >( m2, q.m2 ); );
  TOP( "invert symmetric", o << to::symInvert< 3 >( s3, q.s3 ) << to::symInvert< 2 >( s2, q.s2 ); double z[ 6 ]; to::copy< 6 >( z, q.s3 ); o << to::symInvert< 3 >( z ); outv( o, z ); );
  TOP( "eigenvalues", to::symEigenvalues< 3 >( v3, q.s3 ); to::symEigenvalues< 2 >( v2, q.s2 ); );
  TOP( "eigenvectors 3x3", to::symEigenvectors< 3 >( v3, m3, q.s3 ); );
  TOP( "eigenvectors 2x2", to::symEigenvectors< 2 >( v2, m2, q.s2 ); );
  TOP( "vectors", to::copy< 3 >( v3, q.v3 ); to::add< 3 >( v3, q.v3 ); to::scale< 3 >( v3, 2 ); to::scaledAdd< 3 >( v3, q.v3, 3 ); to::subtract< 3 >( v3, q.s2 ); to::hadamardProduct< 3 >( s2, q.v3, q.s2 ); o << to::AiBi< 3 >( q.v3, q.s2 ) << to::l2Norm< 3 >( q.v3 ) << to::l2NormSquared< 3 >( q.v3 ) << to::maxAbsoluteEntry< 3 >( q.v3 ); );
  TOP( "normalise and cross", to::copy< 3 >( v3, q.v3 ); o << to::normalize< 3 >( v3 ); to::crossProduct( s2, q.v3, q.s2 ); to::scaledCopy< 2 >( v2, q.v2, 3 ); to::addScalar< 2 >( v2, 2 ); );
  TOP( "matrix vector", to::Ri_eq_AijBj< 3, 3 >( v3, q.m3, q.v3 ); to::Ri_add_AijBj< 3, 3 >( v3, q.m3, q.v3 ); to::Ri_eq_AjiBj< 3, 3 >( s2, q.m3, q.v3 ); to::Ri_add_AjiBj< 3, 3 >( s2, q.m3, q.v3 ); );
  TOP( "products", to::Rij_eq_AikBkj< 3, 3, 3 >( m3, q.m3, q.m3 ); to::Rij_add_AikBkj< 3, 3, 3 >( m3, q.m3, q.m3 ); to::Rij_eq_AikBjk< 3, 3, 3 >( n3, q.m3, q.m3 ); to::Rij_add_AikBjk< 3, 3, 3 >( n3, q.m3, q.m3 ); to::Rij_add_AikAjk< 3, 3 >( n3, q.m3 ); );
  TOP( "transposed products", to::Rij_eq_AkiBkj< 3, 3, 3 >( m3, q.m3, q.m3 ); to::Rij_add_AkiBkj< 3, 3, 3 >( m3, q.m3, q.m3 ); to::transpose< 3, 3 >( n3, q.m3 ); to::transpose< 3 >( n3 ); to::Rij_eq_AiBj< 2, 2 >( m2, q.v2, q.v2 ); to::Rij_add_AiBj< 2, 2 >( m2, q.v2, q.v2 ); );
  TOP( "matrices", to::fill< 3, 3 >( m3, 2 ); to::add< 3, 3 >( m3, q.m3 ); to::scaledAdd< 3, 3 >( m3, q.m3, 2 ); to::scaledCopy< 3, 3 >( n3, q.m3, 2 ); to::addIdentity< 3 >( n3, 2 ); o << to::trace< 3 >( q.m3 ); );
  TOP( "symmetric", to::symAddIdentity< 3 >( s3, 2 ); o << to::symTrace< 3 >( q.s3 ); to::Ri_eq_symAijBj< 3 >( v3, q.s3, q.v3 ); to::Ri_add_symAijBj< 3 >( v3, q.s3, q.v3 ); to::Rij_eq_symAikBjk< 3 >( m3, q.s3, q.m3 ); to::Rij_eq_AikSymBklAjl< 3 >( s3, q.m3, q.s3 ); );
  TOP( "symmetric outer", to::symRij_eq_AiAj< 3 >( s3, q.v3 ); to::symRij_eq_AiBj_plus_AjBi< 2 >( s2, q.v2, q.v2 ); to::symmetricToDense< 3 >( m3, q.s3 ); double z[ 6 ]; to::denseToSymmetric< 3 >( z, q.m3 ); outv( o, z ); );
  TOP( "math", for( double const x : q.v3 ) { double sn, cs; LvArray::math::sincos( x, sn, cs ); o << sn << cs << LvArray::math::sqrt( x ) << LvArray::math::invSqrt( x ) << LvArray::math::sin( x ) << LvArray::math::cos( x ) << LvArray::math::tan( x ) << LvArray::math::asin( x / 9 ) << LvArray::math::acos( x / 9 ) << LvArray::math::atan2( x, 2. ) << LvArray::math::exp( x ) << LvArray::math::log( x ) << LvArray::math::abs( -x ) << LvArray::math::square( x ) << LvArray::math::max( x, 2. ) << LvArray::math::min( x, 2. ); } );
  return w;
}
MC_JOB( "tensor operations, shared and own sources" ) { explore( 2, 3, tensors ); }
MC_JOB( "tensor operations by three threads" ) { explore( 3, 1, tensors ); }

#else
/* ------------------------------------------------------------------------------------- own data, the rest */
template< typename T > using Stack8 = LvArray::StackBuffer< T, 8 >;
template< typename X > static void outv2( Seen & o, X const & x ) { for( auto const & v : x ) o << v; }
struct Common { int a = 0; std::string text = "{ { 1, 2, 3 }, { 4, 5, 6 } }"; };
static int value( int k, int t ) { return ( k * ( t == 1 ? 11 : t == 2 ? 5 : 7 ) + t ) % 97; }
static World whole( int s )
{
  auto p = std::make_shared< Common >();
  World w; w.keep = p; w.state = [p]( Seen & o ) { o << p->text; };
  int const n = s == 0 ? 5 : 90;
#define WOP( NAME, ... ) w.ops.push_back( Op{ NAME, [p, n]( Seen & o, int t ) { (void) t; __VA_ARGS__ } } )
  WOP( "makeSorted", { std::vector< int > v; for( int k = 0; k < n; ++k ) v.push_back( value( k, t ) ); sam::makeSorted( v.begin(), v.end() ); outv2( o, v ); } );
  WOP( "makeSorted, other order", { std::vector< double > v; for( int k = 0; k < n; ++k ) v.push_back( value( k, t ) ); sam::makeSorted( v.data(), v.data() + n, sam::greater< double >() ); outv2( o, v ); } );
  WOP( "makeSortedUnique", { std::vector< int > v; for( int k = 0; k < n; ++k ) v.push_back( value( k, t ) / 2 ); o << sam::makeSortedUnique( v.data(), v.data() + n ); outv2( o, v ); } );
  WOP( "dualSort", { std::vector< int > v, d; for( int k = 0; k < n; ++k ) { v.push_back( value( k, t ) ); d.push_back( k ); } sam::dualSort( v.data(), v.data() + n, d.data() ); outv2( o, v ); outv2( o, d ); } );
  WOP( "dualSort, descending", { std::vector< int > v, d; for( int k = 0; k < n; ++k ) { v.push_back( value( k, t ) ); d.push_back( k ); } sam::dualSort( v.data(), v.data() + n, d.data(), sam::greater< int >() ); outv2( o, v ); outv2( o, d ); } );
  WOP( "vector history", { LvArray::Array< int, 1, RAJA::PERM_I, I, MallocBuffer > a; int const r[ 3 ] = { 1, 2, t }; for( int k = 0; k < n; ++k ) a.emplace_back( value( k, t ) ); a.emplace( 2, 5 ); a.erase( 1 ); a.insert( 1, r, r + 3 ); a.resize( n / 2 ); a.resizeDefault( n, 9 ); a.pop_back(); outv2( o, a ); } );
  WOP( "array history", { LvArray::Array< long, 3, RAJA::PERM_KIJ, I, MallocBuffer > a( 2, 3, 2 ); for( long & x : a ) x = t; a.setSingleParameterResizeIndex( 1 ); a.resize( 5 ); a.resizeDefault( 6, 3 ); a.resizeDimension< 0, 2 >( 3, 1 ); a.reserve( 100 ); outv2( o, a ); LvArray::Array< long, 3, RAJA::PERM_KIJ, I, MallocBuffer > b( std::move( a ) ); outv2( o, b ); b.clear(); o << b.size(); } );
  WOP( "array fills", { LvArray::Array< double, 2, RAJA::PERM_IJ, I, MallocBuffer > a( 3, 4 ), b( 3, 4 ); a.zero(); b.setValues< RAJA::seq_exec >( 3 + t ); LvArray::memcpy< 1, 1 >( a.toView(), { 1 }, b.toViewConst(), { 2 } ); outv2( o, a ); b.setValues< RAJA::seq_exec >( a.toViewConst() ); outv2( o, b ); } );
  WOP( "sorted history", { LvArray::SortedArray< int, I, MallocBuffer > a; for( int k = 0; k < n; ++k ) o << a.insert( value( k, t ) ); int const r[ 3 ] = { 1, 2, 50 + t }; o << a.insert( r, r + 3 ) << a.remove( r, r + 2 ) << a.remove( 7 ) << a.contains( 14 ); outv2( o, a ); } );
  WOP( "arrays of arrays history", { LvArray::ArrayOfArrays< int, I, MallocBuffer > a; for( int k = 0; k < 4; ++k ) { a.appendArray( k ); for( int j = 0; j < n / 4; ++j ) a.emplaceBack( k, value( j, t ) ); } int const r[ 3 ] = { 1, 2, 50 + t }; a.insertArray( 1, r, r + 3 ); a.eraseArray( 0 ); a.insertIntoArray( 0, 1, r, r + 2 ); a.eraseFromArray( 1, 0 ); a.compress(); a.resize( 3, 2 ); for( I i = 0; i < a.size(); ++i ) outv2( o, a[ i ] ); } );
  WOP( "arrays of sets history", { LvArray::ArrayOfSets< int, I, MallocBuffer > a; for( int k = 0; k < 3; ++k ) { a.appendSet( k ); for( int j = 0; j < n / 3; ++j ) a.insertIntoSet( k, value( j, t ) ); } int const r[ 3 ] = { 1, 2, 50 + t }; a.insertIntoSet( 1, r, r + 3 ); a.removeFromSet( 1, r, r + 2 ); a.insertSet( 0, 3 ); a.compress(); for( I i = 0; i < a.size(); ++i ) outv2( o, a[ i ] ); } );
  WOP( "matrix history", { LvArray::CRSMatrix< double, int, I, MallocBuffer > a( 3, 100 ); for( int k = 0; k < n; ++k ) a.insertNonZero( k % 3, value( k, t ), k ); int const c[ 2 ] = { 98, 99 }; double const e[ 2 ] = { 1, 2. + t }; a.insertNonZeros( 1, c, e, 2 ); a.addToRow< RAJA::seq_atomic >( 1, c, e, 2 ); a.removeNonZeros( 1, c, 1 ); a.compress(); a.resize( 4, 100, 3 ); for( I i = 0; i < a.numRows(); ++i ) { outv2( o, a.getColumns( i ) ); outv2( o, a.getEntries( i ) ); } } );
  WOP( "pattern and assimilation", { LvArray::SparsityPattern< int, I, MallocBuffer > x( 3, 100, 4 ); for( int k = 0; k < n; ++k ) x.insertNonZero( k % 3, value( k, t ) ); LvArray::CRSMatrix< double, int, I, MallocBuffer > a; a.assimilate< RAJA::seq_exec >( std::move( x ) ); a.setValues< RAJA::seq_exec >( t ); for( I i = 0; i < a.numRows(); ++i ) { outv2( o, a.getColumns( i ) ); outv2( o, a.getEntries( i ) ); } } );
  WOP( "stack array", { LvArray::Array< int, 1, RAJA::PERM_I, int, Stack8 > a; for( int k = 0; k < 8; ++k ) a.emplace_back( value( k, t ) ); LvArray::Array< int, 1, RAJA::PERM_I, int, Stack8 > b( a ); b.erase( 3 ); outv2( o, a ); outv2( o, b ); } );
  WOP( "parse", { LvArray::Array< double, 2, RAJA::PERM_IJ, I, MallocBuffer > a; LvArray::input::stringToArray( a, p->text ); outv2( o, a ); o << a.size( 0 ) << a.size( 1 ); } );
  WOP( "parse another", { LvArray::Array< int, 1, RAJA::PERM_I, I, MallocBuffer > a; LvArray::input::stringToArray( a, "{ 3, -4, " + std::to_string( t ) + " }" ); outv2( o, a ); } );
  WOP( "print", { LvArray::Array< int, 2, RAJA::PERM_JI, I, MallocBuffer > a( 2, 2 ); a.setValues< RAJA::seq_exec >( t ); std::ostringstream z; z << a << a.toSliceConst(); o << z.str(); } );
  WOP( "sizes and names", { o << LvArray::system::calculateSize( size_t( 1000 ) << ( 5 * t ) ) << LvArray::system::demangle( t ? "_ZN3fooE" : "_ZN3barIiE1fEv" ) << LvArray::system::demangleType< LvArray::Array< int, 1, RAJA::PERM_I, I, MallocBuffer > >(); } );
  WOP( "conversions", { o << LvArray::integerConversion< short >( 100 + t ) << LvArray::integerConversion< unsigned >( long( n ) ) << LvArray::integerConversion< long >( t ); } );
  WOP( "thrown message", { try { LVARRAY_THROW_IF_GE_MSG( t + n, 0, "thread " << t, std::runtime_error ); } catch( std::runtime_error const & e ) { std::string const m = e.what(); o << ( m.find( "thread " + std::to_string( t ) ) != std::string::npos ) << ( m.find( "= " + std::to_string( t + n ) ) != std::string::npos ); } } );
  WOP( "warning", { std::ostringstream z; LVARRAY_WARNING_IF( t > 100, "thread " << t ); LVARRAY_ERROR_IF_LT( n, t ); o << n; } );
  return w;
}
MC_JOB( "own data" ) { explore( 2, 2, whole ); }
MC_JOB_T( "own data, three threads" ) { explore( 3, 1, whole ); }
#endif
MC_MAIN
