/* Every way of adding to a row of a matrix, on rows on both sides of the search-strategy thresholds. */
#include "lv.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#include "MallocBuffer.hpp"
#ifndef ENTRY
#define ENTRY double
#endif
using M = LvArray::CRSMatrix< ENTRY, int, long, LvArray::MallocBuffer >;
static char const * const NAMES[] = { "addToRow", "addToRowBinarySearch", "addToRowLinearSearch", "addToRowBinarySearchUnsorted" };

template< typename AT, typename X > void add( X const & x, int how, int row, std::vector< int > const & c, std::vector< ENTRY > const & v )
{
  long const n = long( c.size() );
  if( how == 0 ) x.template addToRow< AT >( row, c.data(), v.data(), n );
  if( how == 1 ) x.template addToRowBinarySearch< AT >( row, c.data(), v.data(), n );
  if( how == 2 ) x.template addToRowLinearSearch< AT >( row, c.data(), v.data(), n );
  if( how == 3 ) x.template addToRowBinarySearchUnsorted< AT >( row, c.data(), v.data(), n );
}
static void run( mc::Chooser & c, int nnz, int colStride, std::vector< int > const & pick, int how, int via )
{
  M m( 3, 400, 0 );
  std::vector< ENTRY > exp;
  m.setRowCapacity( 1, nnz );
  { std::vector< int > cs; std::vector< ENTRY > es; for( int i = 0; i < nnz; ++i ) { cs.push_back( i * colStride + 1 ); es.push_back( ENTRY( i + 1 ) ); exp.push_back( ENTRY( i + 1 ) ); }
    MC_EQ( long( m.insertNonZeros( 1, cs.data(), es.data(), nnz ) ), long( nnz ), "insertNonZeros" ); }
  int const guard0 = 5, guard2 = 7; ENTRY const g0 = ENTRY( 55 ), g2 = ENTRY( 77 );
  m.insertNonZero( 0, guard0, g0 ); m.insertNonZero( 2, guard2, g2 );
  std::vector< int > cols; std::vector< ENTRY > vals;
  for( int p : pick ) { cols.push_back( p * colStride + 1 ); vals.push_back( ENTRY( 100 + 3 * p ) ); exp[ p ] += vals.back(); }
  std::vector< int > const colsBefore = cols; std::vector< ENTRY > const valsBefore = vals;
  switch( via )
  {
    case 0: add< RAJA::seq_atomic >( m, how, 1, cols, vals ); break;
    case 1: add< RAJA::builtin_atomic >( m, how, 1, cols, vals ); break;
    case 2: add< RAJA::auto_atomic >( m.toViewConstSizes(), how, 1, cols, vals ); break;
    case 3: add< RAJA::seq_atomic >( m.toView(), how, 1, cols, vals ); break;
  }
  MC_CHECK( cols == colsBefore && vals == valsBefore, "the input changed" );
  MC_EQ( long( m.numNonZeros( 1 ) ), long( nnz ), "non-zeros" );
  for( int i = 0; i < nnz; ++i )
  { MC_EQ( int( m.getColumns( 1 )[ i ] ), i * colStride + 1, NAMES[ how ] << " changed a column" ); MC_EQ( m.getEntries( 1 )[ i ], exp[ i ], NAMES[ how ] << " of " << pick.size() << " columns to a row of " << nnz << ": entry " << i ); }
  MC_EQ( m.getEntries( 0 )[ 0 ], g0, "a neighbouring row changed" ); MC_EQ( m.getEntries( 2 )[ 0 ], g2, "a neighbouring row changed" );
}
MC_JOB( "all column subsets of short rows, every way of adding" )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    int const nnz = c.choose( 8, "nnz" ), mask = c.choose( 1 << nnz, "subset" ), how = c.choose( 4, "how" ), via = c.choose( 4, "via" );
    std::vector< int > p; for( int i = 0; i < nnz; ++i ) if( mask >> i & 1 ) p.push_back( i );
    if( how == 3 && c.flag( "reverse" ) ) std::reverse( p.begin(), p.end() );
    run( c, nnz, 1 + nnz % 3, p, how, via );
  } );
  mc::g().bound += "rows of up to 7 non-zeros, all subsets, 4 ways, 4 policies/views; ";
}
MC_JOB( "rows across the search thresholds" )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    static int const sizes[] = { 60, 63, 64, 65, 66, 67, 68, 69, 72, 80, 100, 128 };
    int const nnz = sizes[ c.choose( mc::thorough() ? 12 : 10, "nnz" ) ];
    int const step = 1 + c.choose( 9, "step" ), off = c.choose( step, "offset" ), how = c.choose( 4, "how" ), via = c.choose( 2, "via" );
    std::vector< int > p; for( int i = off; i < nnz; i += step ) p.push_back( i );
    int const keep = c.choose( 3, "keep" ); if( keep == 1 ) p.resize( p.size() / 2 ); if( keep == 2 ) p.erase( p.begin(), p.begin() + p.size() / 2 );
    run( c, nnz, 1 + c.choose( 3, "stride" ), p, how, via );
  } );
  mc::g().bound += "rows of 60..128 non-zeros with every arithmetic progression of columns of step 1..9 (whole, first and second half); ";
}
MC_JOB( "one and two columns of a long row" )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    int const nnz = c.flag( "long" ) ? 70 : 20;
    int const a = c.choose( nnz, "a" ), b = c.choose( nnz, "b" ); int const how = c.choose( 4, "how" );
    std::vector< int > p; p.push_back( a ); if( b > a ) p.push_back( b ); else if( b < a && how == 3 ) p.push_back( b ); else if( b < a ) return;
    run( c, nnz, 2, p, how, ( a + b ) % 4 );
  } );
}
MC_MAIN
