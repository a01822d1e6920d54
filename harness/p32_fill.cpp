/* P32: filling a container sets every element of it and nothing else. */
#include "lv.hpp"
#include "layouts.hpp"
#include "Array.hpp"
#include "MallocBuffer.hpp"
#include "StackBuffer.hpp"
#include "CRSMatrix.hpp"
#include <cstring>
using LvArray::MallocBuffer;
template< typename T > using Stack96 = LvArray::StackBuffer< T, 96 >;
using Seq = RAJA::seq_exec;

struct Pod { short a; double b; bool operator==( Pod const & o ) const { return a == o.a && b == o.b; } };
template< typename T > T val( int k ) { return T( k ); }
template<> Pod val< Pod >( int k ) { return { short( k ), k * .5 }; }
template< typename T > std::string show( T const & t ) { std::ostringstream o; o << +t; return o.str(); }
template<> std::string show( Pod const & p ) { return "{" + std::to_string( p.a ) + "," + std::to_string( p.b ) + "}"; }
template< typename T > T zeroOf() { T t; std::memset( &t, 0, sizeof( T ) ); return t; }

/* An array of the given extents (every storage slot, spare ones included, holding its own value). */
template< typename A, size_t N > void build( A & a, std::array< long, N > const & e, int spare, int base )
{
  long n = 1; for( long x : e ) n *= x;
  std::apply( [&]( auto... d ) { a.resize( d ... ); }, e );
  if( spare ) a.reserve( n + spare );
  for( long i = 0; i < n; ++i ) a.data()[ i ] = val< typename A::ValueType >( base + int( i ) );
}

template< typename T, typename PERM, typename INDEX, template< typename > class BUF, size_t N >
void fills( std::array< long, N > const & e, int how, int via, int spare )
{
  using A = LvArray::Array< T, int( N ), PERM, INDEX, BUF >;
  long n = 1; for( long x : e ) n *= x;
  A a; build( a, e, spare, 1 );
  long const cap = a.capacity();
  // what lies after the last element
  std::vector< unsigned char > tail( size_t( cap - n ) * sizeof( T ) );
  for( size_t k = 0; k < tail.size(); ++k ) tail[ k ] = (unsigned char)( 0xa0 + k % 50 );
  if( !tail.empty() ) std::memcpy( static_cast< void * >( a.data() + n ), tail.data(), tail.size() );
  T const * const where = a.data();
  A src; build( src, e, 0, 50 );
  char const * name = how == 0 ? "zero()" : how == 1 ? "setValues( value )" : "setValues( view )";
  auto go = [&]( auto const & v ) {
    if( how == 0 ) v.zero();
    else if( how == 1 ) v.template setValues< Seq >( val< T >( 7 ) );
    else v.template setValues< Seq >( src.toViewConst() );
  };
  if constexpr( std::is_same< BUF< T >, MallocBuffer< T > >::value ) { if( via == 0 ) go( a ); else if( via == 1 ) go( a.toView() ); else { auto const v = a.toView(); auto const w = v; go( w ); } }
  else go( a );
  MC_CHECK( a.data() == where && long( a.capacity() ) == cap, name << " moved the storage" );
  for( size_t k = 0; k < N; ++k ) MC_EQ( long( a.size( int( k ) ) ), e[ k ], name << ": extent " << k );
  for( long i = 0; i < n; ++i )
  {
    T const want = how == 0 ? zeroOf< T >() : how == 1 ? val< T >( 7 ) : val< T >( 50 + int( i ) );
    MC_CHECK( a.data()[ i ] == want, name << ": element " << i << " of " << n << " is " << show( a.data()[ i ] ) );
    MC_CHECK( src.data()[ i ] == val< T >( 50 + int( i ) ), name << " changed element " << i << " of the source" );
  }
  if( !tail.empty() ) MC_CHECK( std::memcmp( a.data() + n, tail.data(), tail.size() ) == 0, name << " wrote past the last element" );
  mc::outcome( std::string( name ) + " of " + std::to_string( n ) );
}

/* A source of another shape or layout is refused and nothing is written. */
template< typename PERM, size_t N >
void mismatch( std::array< long, N > const & e, std::array< long, N > const & f )
{
  using A = LvArray::Array< int, int( N ), PERM, long, MallocBuffer >;
  A a, b; build( a, e, 0, 1 ); build( b, f, 0, 50 );
  if( e == f ) return;
  std::vector< int > const before( a.data(), a.data() + a.size() );
  MC_CHECK( mc::reportsError( [&] { a.template setValues< Seq >( b.toViewConst() ); } ), "setValues from a view of other extents is not reported" );
  for( size_t i = 0; i < before.size(); ++i ) MC_EQ( a.data()[ i ], before[ i ], "element " << i << " after a refused setValues" );
  mc::outcome( "refused" );
}

template< typename T, int N, int MAXE, typename INDEX = long >
void allFills()
{
  mc::enumerate( []( mc::Chooser & c ) {
    std::array< long, N > e; for( auto & x : e ) x = c.choose( MAXE + 1, "extent" );
    int const how = c.choose( 3, "fill" ), via = c.choose( 3, "through" ), spare = c.choose( 3, "spare" );
    lay::forEach( lay::All< N >{}, [&]( auto p ) { fills< T, decltype( p ), INDEX, MallocBuffer >( e, how, via, spare ); } );
  }, true );
  mc::g().bound += "every shape with extents 0.." + std::to_string( MAXE ) + " in every layout, each fill on the array, its view and a copy of the view, with 0..2 spare elements; ";
}
MC_JOB( "arrays of int, 1 to 3 dimensions" ) { allFills< int, 1, 9 >(); allFills< int, 2, 4 >(); allFills< int, 3, 3 >(); }
MC_JOB( "arrays of double, narrow indices" ) { allFills< double, 1, 9, short >(); allFills< double, 2, 3, int >(); allFills< double, 3, 2, unsigned short >(); }
MC_JOB( "arrays of char and of a struct" ) { allFills< signed char, 1, 9 >(); allFills< signed char, 2, 3, int >(); allFills< Pod, 1, 6 >(); allFills< Pod, 2, 3 >(); }
MC_JOB( "arrays of 4 dimensions" ) { if( mc::thorough() ) allFills< int, 4, 3 >(); else allFills< int, 4, 2 >(); }
MC_JOB( "fixed-capacity arrays" )
{
  mc::enumerate( []( mc::Chooser & c ) {
    std::array< long, 3 > e; for( auto & x : e ) x = c.choose( 4, "extent" );
    int const how = c.choose( 3, "fill" );
    lay::forEach( lay::All< 3 >{}, [&]( auto p ) { fills< int, decltype( p ), long, Stack96 >( e, how, 0, 0 ); fills< double, decltype( p ), int, Stack96 >( e, how, 0, 0 ); } );
  }, true );
  mc::g().bound += "every shape with extents 0..3 in every layout in a buffer of 96";
}
MC_JOB( "sources of another shape" )
{
  mc::enumerate( []( mc::Chooser & c ) {
    std::array< long, 2 > e, f; for( auto & x : e ) x = c.choose( 4, "extent" );
    for( auto & x : f ) x = c.choose( 4, "source extent" );
    lay::forEach( lay::All< 2 >{}, [&]( auto p ) { mismatch< decltype( p ) >( e, f ); } );
    mismatch< camp::idx_seq< 0 > >( std::array< long, 1 >{ e[ 0 ] }, std::array< long, 1 >{ f[ 0 ] } );
  } );
  mc::g().bound += "every pair of shapes with extents 0..3";
}
MC_JOB( "arrays larger than a narrow index counts in bytes" )
{
  mc::enumerate( []( mc::Chooser & c ) {
    long const n = std::array< long, 7 >{ 127, 128, 4095, 4096, 8192, 32766, 32767 }[ size_t( c.choose( 7, "size" ) ) ];
    int const how = c.choose( 3, "fill" );
    fills< double, camp::idx_seq< 0 >, short, MallocBuffer >( std::array< long, 1 >{ n }, how, 0, 0 );
    fills< int, camp::idx_seq< 0 >, unsigned short, MallocBuffer >( std::array< long, 1 >{ 2 * n }, how, 0, 0 );
    if( n == 127 ) fills< double, camp::idx_seq< 0 >, signed char, MallocBuffer >( std::array< long, 1 >{ n }, how, 0, 0 );
  } );
  mc::g().bound += "sizes around the points where a size in bytes leaves the index type";
}

// ---------------------------------------------------------------------------
// Matrices
// ---------------------------------------------------------------------------
template< typename T, typename COL, typename INDEX >
void matrix( std::vector< unsigned > const & cols, int ncols, int spare, int how, int via )
{
  using M = LvArray::CRSMatrix< T, COL, INDEX, MallocBuffer >;
  int const rows = int( cols.size() );
  M a( static_cast< typename std::remove_const< INDEX >::type >( rows ), COL( ncols ), 0 );
  std::vector< std::vector< int > > m( cols.size() );
  int v = 1;
  for( int r = 0; r < rows; ++r )
  {
    for( int j = 0; j < ncols; ++j ) if( cols[ r ] >> j & 1 ) { a.insertNonZero( INDEX( r ), COL( j ), val< T >( v++ ) ); m[ r ].push_back( j ); }
    if( spare ) a.setRowCapacity( INDEX( r ), INDEX( m[ r ].size() + ( r + spare ) % 3 ) );
  }
  std::vector< long > caps, offs;
  for( int r = 0; r < rows; ++r ) { caps.push_back( long( a.nonZeroCapacity( INDEX( r ) ) ) ); offs.push_back( long( a.getOffsets()[ r ] ) ); }
  char const * name = how ? "setValues" : "zero";
  auto go = [&]( auto const & x ) { if( how ) x.template setValues< Seq >( val< T >( 7 ) ); else x.zero(); };
  if( via == 0 ) go( a ); else if( via == 1 ) go( a.toView() ); else if( via == 2 ) go( a.toViewConstSizes() ); else { auto const w = a.toViewConstSizes(); auto const x = w; go( x ); }
  MC_EQ( long( a.numRows() ), long( rows ), name << ": rows" ); MC_EQ( long( a.numColumns() ), long( ncols ), name << ": columns" );
  for( int r = 0; r < rows; ++r )
  {
    MC_EQ( long( a.numNonZeros( INDEX( r ) ) ), long( m[ r ].size() ), name << ": non-zeros of row " << r );
    MC_EQ( long( a.nonZeroCapacity( INDEX( r ) ) ), caps[ r ], name << ": capacity of row " << r );
    MC_EQ( long( a.getOffsets()[ r ] ), offs[ r ], name << ": offset of row " << r );
    for( size_t k = 0; k < m[ r ].size(); ++k )
    {
      MC_EQ( long( a.getColumns( INDEX( r ) )[ INDEX( k ) ] ), long( m[ r ][ k ] ), name << ": column " << k << " of row " << r );
      T const got = a.getEntries( INDEX( r ) )[ INDEX( k ) ];
      MC_CHECK( got == ( how ? val< T >( 7 ) : zeroOf< T >() ), name << ": entry " << k << " of row " << r << " is " << show( got ) );
    }
  }
  mc::outcome( name );
}
template< typename T, typename COL, typename INDEX > void allMatrices( int rows, int ncols )
{
  mc::enumerate( [rows, ncols]( mc::Chooser & c ) {
    std::vector< unsigned > cols; int const n = c.choose( rows + 1, "rows" );
    for( int r = 0; r < n; ++r ) cols.push_back( unsigned( c.choose( 1 << ncols, "columns" ) ) );
    int const spare = c.choose( 3, "spare" ), how = c.choose( 2, "fill" ), via = c.choose( 4, "through" );
    matrix< T, COL, INDEX >( cols, ncols, spare, how, via );
  }, true );
  mc::g().bound += "0.." + std::to_string( rows ) + " rows, every set of " + std::to_string( ncols ) + " columns in each, several spare capacities, every kind of view; ";
}
MC_JOB( "matrices" ) { allMatrices< int, long, long >( 3, 3 ); allMatrices< double, unsigned, int >( 2, 4 ); allMatrices< Pod, int, short >( 2, 2 ); if( mc::thorough() ) allMatrices< double, int, long >( 4, 3 ); }
MC_JOB( "matrices larger than a narrow index counts in bytes" )
{
  mc::enumerate( []( mc::Chooser & c ) {
    int const n = std::array< int, 6 >{ 15, 16, 4095, 4096, 8192, 32767 }[ size_t( c.choose( 6, "entries" ) ) ];
    int const rows = c.choose( 2, "rows" ) + 1, how = c.choose( 2, "fill" ), via = c.choose( 3, "through" );
    using M = LvArray::CRSMatrix< double, int, short, MallocBuffer >;
    M a( short( rows ), 32767, short( n / rows ) );
    std::vector< int > cs; std::vector< double > vs; for( int j = 0; j < n / rows; ++j ) { cs.push_back( j ); vs.push_back( j + 1 ); }
    for( int r = 0; r < rows; ++r ) a.insertNonZeros( short( r ), cs.data(), vs.data(), short( cs.size() ) );
    auto go = [&]( auto const & x ) { if( how ) x.template setValues< Seq >( 7. ); else x.zero(); };
    if( via == 0 ) go( a ); else if( via == 1 ) go( a.toView() ); else go( a.toViewConstSizes() );
    for( int r = 0; r < rows; ++r )
    {
      MC_EQ( long( a.numNonZeros( short( r ) ) ), long( cs.size() ), "non-zeros" );
      for( size_t k = 0; k < cs.size(); ++k )
      {
        MC_EQ( a.getEntries( short( r ) )[ short( k ) ], how ? 7. : 0., ( how ? "setValues" : "zero" ) << ": entry " << k << " of row " << r );
        MC_EQ( a.getColumns( short( r ) )[ short( k ) ], int( k ), "column" );
      }
    }
    mc::outcome( "large" );
  } );
  mc::g().bound += "numbers of entries around the points where a size in bytes leaves the index type";
}
MC_MAIN
