/* Threads adding atomically to rows of one matrix: every interleaving of the atomic operations. */
#include "threads.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#include "MallocBuffer.hpp"
#ifndef ENTRY
#define ENTRY double
#endif
#ifndef COLT
#define COLT int
#endif
using M = LvArray::CRSMatrix< ENTRY, COLT, long, LvArray::MallocBuffer >;
static char const * const NAMES[] = { "addToRow", "addToRowBinarySearch", "addToRowLinearSearch", "addToRowBinarySearchUnsorted" };
using Cols = std::vector< COLT >;
using Vals = std::vector< ENTRY >;

template< typename AT, typename X > void add( X const & x, int how, int row, Cols const & c, Vals const & v )
{
  long const n = long( c.size() );
  if( how == 0 ) x.template addToRow< AT >( row, c.data(), v.data(), n );
  if( how == 1 ) x.template addToRowBinarySearch< AT >( row, c.data(), v.data(), n );
  if( how == 2 ) x.template addToRowLinearSearch< AT >( row, c.data(), v.data(), n );
  if( how == 3 ) x.template addToRowBinarySearchUnsorted< AT >( row, c.data(), v.data(), n );
}
template< typename AT > void addVia( M const & m, int via, int how, int row, Cols const & c, Vals const & v )
{ if( via == 0 ) add< AT >( m, how, row, c, v ); else if( via == 1 ) add< AT >( m.toViewConstSizes(), how, row, c, v ); else add< AT >( m.toView(), how, row, c, v ); }

struct Call { int row, how; Cols cols; Vals vals; };

static void execute( mc::Chooser & c, int nnz, std::vector< std::vector< Call > > const & prog, int policy, int via )
{
  M m( 3, 200, 0 );
  std::vector< Vals > exp( 3 );
  for( int r = 0; r < 3; ++r )
  {
    int const n = r == 1 ? nnz : 3;
    m.setRowCapacity( r, n );
    Cols cs; for( int i = 0; i < n; ++i ) { cs.push_back( COLT( 2 * i + 1 ) ); exp[ r ].push_back( ENTRY( i + 1 + 10 * r ) ); }
    m.insertNonZeros( r, cs.data(), exp[ r ].data(), n );
  }
  std::vector< Vals > const initial = exp;
  std::vector< std::function< void() > > threads;
  for( auto const & p : prog )
  {
    for( Call const & k : p ) for( size_t i = 0; i < k.cols.size(); ++i ) exp[ k.row ][ ( k.cols[ i ] - 1 ) / 2 ] += k.vals[ i ];
    threads.push_back( [&m, &p, policy, via] {
      for( Call const & k : p )
      { if( policy == 0 ) addVia< RAJA::builtin_atomic >( m, via, k.how, k.row, k.cols, k.vals ); else addVia< RAJA::auto_atomic >( m, via, k.how, k.row, k.cols, k.vals ); }
    } );
  }
  sched::clearWatch();
  for( int r = 0; r < 3; ++r ) if( nnz <= 8 || r != 1 ) sched::watch( m.getEntries( r ).dataIfContiguous(), sizeof( ENTRY ) * exp[ r ].size(), "the entries" );
  sched::Options opt; opt.mixedIsRace = false;
  sched::Result const r = thr::run( c, threads, opt );
  sched::clearWatch();
  std::string out = std::to_string( r.points ) + ":" + std::to_string( r.switches );
  for( int row = 0; row < 3; ++row )
  {
    MC_EQ( long( m.numNonZeros( row ) ), long( exp[ row ].size() ), "non-zeros of row " << row );
    for( size_t i = 0; i < exp[ row ].size(); ++i )
    {
      MC_EQ( long( m.getColumns( row )[ i ] ), long( 2 * i + 1 ), "a column of row " << row << " changed" );
      MC_EQ( m.getEntries( row )[ i ], exp[ row ][ i ], "entry " << i << " of row " << row << " (initially " << initial[ row ][ i ] << ") after concurrent " << NAMES[ prog[ 0 ][ 0 ].how ] << " and " << NAMES[ prog[ 1 ][ 0 ].how ] );
    }
  }
  mc::outcome( out );
}
static Call makeCall( mc::Chooser & c, int thread, int k, int row, int nCols, bool anyHow )
{
  Call call; call.row = row; call.how = anyHow ? c.choose( 4, "how" ) : 0;
  int const mask = 1 + c.choose( ( 1 << nCols ) - 1, "columns" );
  for( int i = 0; i < nCols; ++i ) if( mask >> i & 1 ) { call.cols.push_back( COLT( 2 * i + 1 ) ); call.vals.push_back( ENTRY( ( thread + 1 ) * 100 + k * 40 + i ) ); }
  if( call.how == 3 && call.cols.size() > 1 && c.flag( "reverse" ) ) { std::reverse( call.cols.begin(), call.cols.end() ); std::reverse( call.vals.begin(), call.vals.end() ); }
  return call;
}
MC_JOB( "2 threads, one call each, all column subsets" )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    int const nnz = c.flag( "wide" ) ? 3 : 2;
    std::vector< std::vector< Call > > p( 2 );
    for( int t = 0; t < 2; ++t ) p[ t ].push_back( makeCall( c, t, 0, 1, nnz, true ) );
    int const policy = c.choose( 2, "policy" );
    execute( c, nnz, p, policy, p[ 0 ][ 0 ].how % 3 );
  } );
  mc::g().bound += "every interleaving of the atomic operations; ";
}
MC_JOB( "2 threads, two calls each on one column and on neighbouring rows" )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    std::vector< std::vector< Call > > p( 2 );
    int const how = c.choose( 4, "how" );
    for( int t = 0; t < 2; ++t ) for( int k = 0; k < 2; ++k ) { p[ t ].push_back( makeCall( c, t, k, 1 + c.choose( 2, "row" ), 1, false ) ); p[ t ].back().how = how; }
    execute( c, 2, p, c.choose( 2, "policy" ), c.choose( 3, "via" ) );
  } );
  mc::g().bound += "every interleaving of the atomic operations; ";
}
MC_JOB( "3 threads, one call each" )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    std::vector< std::vector< Call > > p( 3 );
    int const how = c.choose( 4, "how" ), n = 1;
    for( int t = 0; t < 3; ++t ) { p[ t ].push_back( makeCall( c, t, 0, 1, n, false ) ); p[ t ].back().how = how; }
    execute( c, 2, p, c.choose( 2, "policy" ), c.choose( 3, "via" ) );
  } );
  mc::g().bound += "every interleaving of the atomic operations; ";
}
MC_JOB( "2 threads on a row beyond the search threshold" )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    static int const sizes[] = { 63, 64, 65, 66, 80 };
    int const nnz = sizes[ c.choose( 5, "nnz" ) ], via = c.choose( 3, "via" ), how = c.choose( 4, "how" );
    std::vector< std::vector< Call > > p( 2 );
    int const a = c.choose( 4, "first" );
    static int const first[] = { 0, 31, 62, 40 };
    for( int t = 0; t < 2; ++t )
    {
      Call k; k.row = 1; k.how = how;
      if( t == 1 && c.flag( "other" ) ) k.cols.push_back( COLT( 2 * ( first[ a ] / 2 ) + 1 ) );
      if( k.cols.empty() || k.cols[ 0 ] != COLT( 2 * first[ a ] + 1 ) ) k.cols.push_back( COLT( 2 * first[ a ] + 1 ) );
      for( size_t i = 0; i < k.cols.size(); ++i ) k.vals.push_back( ENTRY( ( t + 1 ) * 100 + i ) );
      p[ t ].push_back( k );
    }
    execute( c, nnz, p, 0, via );
  } );
  mc::g().bound += "rows of 63..80 non-zeros; ";
}
MC_MAIN
