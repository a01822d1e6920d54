/* Matrices and patterns with columns at the ends of what the column type holds,
 * on both sides of every width a narrower integer could have.
 * Every starting row, every operation with every set of columns. */
#include "lv.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#include "MallocBuffer.hpp"
#include <map>
#include <set>
#ifndef COLT
#define COLT long
#endif
#ifndef INDEXT
#define INDEXT long
#endif
using Col = COLT;
using Index = INDEXT;
using M = LvArray::CRSMatrix< double, Col, Index, LvArray::MallocBuffer >;
using P = LvArray::SparsityPattern< Col, Index, LvArray::MallocBuffer >;

static std::vector< Col > const & table()
{
  static std::vector< Col > const t = [] {
    std::set< Col > s;
    using L = std::numeric_limits< Col >;
    unsigned long const top = std::min< unsigned long >( L::max(), (unsigned long) std::numeric_limits< Index >::max() - 1 );
    for( unsigned long x : { 0ul, 1ul, 126ul, 127ul, 128ul, 255ul, 256ul, 32767ul, 32768ul, 65535ul, 65536ul, 2147483647ul, 2147483648ul, 4294967295ul, 4294967296ul, 4294967297ul, 1ul << 40, top - 1, top } ) if( x <= top ) s.insert( Col( x ) );
    std::vector< Col > v( s.begin(), s.end() ), r;
    // seven of them: the first, the last two, and those nearest to the widths
    if( v.size() > 7 ) { r = { v[ 0 ], v[ 1 ] }; size_t const n = v.size(); for( size_t k : { n - 6, n - 5, n - 4, n - 2, n - 1 } ) r.push_back( v[ k ] ); return r; }
    return v;
  }();
  return t;
}
static Index columns() { return Index( (unsigned long) table().back() + 1 ); }
using Row = std::map< Col, double >;
template< typename X > void check( X const & x, std::vector< Row > const & m, char const * what )
{
  MC_EQ( long( x.numRows() ), long( m.size() ), "rows after " << what );
  MC_EQ( (unsigned long) x.numColumns(), (unsigned long) columns(), "columns after " << what );
  long total = 0;
  for( size_t i = 0; i < m.size(); ++i )
  {
    MC_EQ( long( x.numNonZeros( i ) ), long( m[ i ].size() ), "non-zeros of row " << i << " after " << what );
    auto const c = x.getColumns( i ); long k = 0;
    for( auto const & p : m[ i ] )
    {
      MC_CHECK( c[ k ] == p.first, "column " << k << " of row " << i << " is " << (unsigned long) c[ k ] << " instead of " << (unsigned long) p.first << " after " << what );
      if constexpr( std::is_same< X, M >::value ) MC_EQ( x.getEntries( i )[ k ], p.second, "entry of row " << i << " after " << what );
      ++k; ++total;
    }
    for( Col q : table() ) MC_EQ( x.empty( i, q ), m[ i ].count( q ) == 0, "empty( " << i << ", " << (unsigned long) q << " ) after " << what );
  }
  MC_EQ( long( x.numNonZeros() ), total, "non-zeros after " << what );
}
static std::vector< Col > subset( int mask ) { std::vector< Col > r; for( size_t i = 0; i < table().size(); ++i ) if( mask >> i & 1 ) r.push_back( table()[ i ] ); return r; }
static std::vector< double > values( size_t n, double first ) { std::vector< double > v; for( size_t i = 0; i < n; ++i ) v.push_back( first + i ); return v; }

/* Three rows: the middle one is the subject, its neighbours hold every column. */
template< typename X > X make( int mask, std::vector< Row > & m, bool room )
{
  X x( 3, columns(), room ? Index( table().size() ) : 0 );
  m.assign( 3, {} );
  double v = 1;
  auto put = [&]( int i, Col c ) { m[ i ][ c ] = v; if constexpr( std::is_same< X, M >::value ) MC_EQ( x.insertNonZero( i, c, v ), true, "insertNonZero" ); else MC_EQ( x.insertNonZero( i, c ), true, "insertNonZero" ); ++v; };
  std::vector< Col > const all = subset( -1 ), mine = subset( mask );
  for( size_t k = all.size(); k-- > 0; ) { put( 0, all[ k ] ); put( 2, all[ ( k * 3 + 1 ) % all.size() ] == all[ k ] || all.size() % 3 == 0 ? all[ k ] : all[ ( k * 3 + 1 ) % all.size() ] ); }
  for( size_t k = mine.size(); k-- > 0; ) put( 1, mine[ k ] );
  return x;
}
template< typename X > void body( mc::Chooser & c )
{
  constexpr bool matrix = std::is_same< X, M >::value;
  int const all = 1 << table().size();
  int const mask = c.choose( all, "row" );
  std::vector< Row > m;
  X x = make< X >( mask, m, true );
  m.reserve( 8 );
  check( x, m, "construction" );
  Row & r = m[ 1 ];
  int const op = c.choose( matrix ? 7 : 5, "op" );
  static char const * const names[] = { "insertNonZero", "removeNonZero", "insertNonZeros", "removeNonZeros", "conversions", "addToRow", "resize" };
  switch( op )
  {
    case 0:
    {
      Col const q = table()[ c.choose( int( table().size() ), "column" ) ]; bool const viaView = c.flag( "view" );
      bool g;
      if constexpr( matrix ) g = viaView ? x.toView().insertNonZero( 1, q, 77.0 ) : x.insertNonZero( 1, q, 77.0 ); else g = viaView ? x.toView().insertNonZero( 1, q ) : x.insertNonZero( 1, q );
      MC_EQ( g, r.emplace( q, 77.0 ).second, "insertNonZero of column " << (unsigned long) q );
    }
    break;
    case 1:
    {
      Col const q = table()[ c.choose( int( table().size() ), "column" ) ]; bool const viaView = c.flag( "view" );
      MC_EQ( viaView ? x.toView().removeNonZero( 1, q ) : x.removeNonZero( 1, q ), r.erase( q ) > 0, "removeNonZero of column " << (unsigned long) q );
    }
    break;
    case 2:
    {
      std::vector< Col > const q = subset( c.choose( all, "columns" ) ); std::vector< double > const v = values( q.size(), 200 );
      long e = 0; for( size_t k = 0; k < q.size(); ++k ) e += r.emplace( q[ k ], v[ k ] ).second;
      long g;
      if constexpr( matrix ) g = x.insertNonZeros( 1, q.data(), v.data(), Index( q.size() ) ); else g = x.insertNonZeros( 1, q.begin(), q.end() );
      MC_EQ( g, e, "columns inserted" );
    }
    break;
    case 3:
    {
      std::vector< Col > const q = subset( c.choose( all, "columns" ) );
      long e = 0; for( Col k : q ) e += r.erase( k );
      long g;
      if constexpr( matrix ) g = x.removeNonZeros( 1, q.data(), Index( q.size() ) ); else g = x.removeNonZeros( 1, q.begin(), q.end() );
      MC_EQ( g, e, "columns removed" );
    }
    break;
    case 4:
      if constexpr( matrix ) { x.compress(); X y( x ); check( y, m, "copying" ); auto const v = y.toSparsityPatternView(); for( size_t i = 0; i < 3; ++i ) { long k = 0; for( auto const & p : m[ i ] ) MC_CHECK( v.getColumns( i )[ k++ ] == p.first, "column seen through the pattern" ); } x.setRowCapacity( 1, Index( table().size() ) + 1 ); }
      else { x.compress(); M y; y.assimilate< RAJA::seq_exec >( P( x ) ); std::vector< Row > z = m; for( Row & w : z ) for( auto & p : w ) p.second = 0; check( y, z, "assimilate" ); }
      break;
    case 5:
      if constexpr( matrix )
      {
        int const sub = c.choose( all, "columns" ), how = c.choose( 4, "how" );
        if( sub & ~mask ) return;
        std::vector< Col > q = subset( sub ); std::vector< double > v = values( q.size(), 300 );
        for( size_t k = 0; k < q.size(); ++k ) r[ q[ k ] ] += v[ k ];
        if( how == 3 ) { std::reverse( q.begin(), q.end() ); std::reverse( v.begin(), v.end() ); }
        Index const n = Index( q.size() );
        if( how == 0 ) x.template addToRow< RAJA::seq_atomic >( 1, q.data(), v.data(), n );
        if( how == 1 ) x.template addToRowBinarySearch< RAJA::seq_atomic >( 1, q.data(), v.data(), n );
        if( how == 2 ) x.template addToRowLinearSearch< RAJA::seq_atomic >( 1, q.data(), v.data(), n );
        if( how == 3 ) x.template addToRowBinarySearchUnsorted< RAJA::seq_atomic >( 1, q.data(), v.data(), n );
      }
      break;
    case 6:
      if constexpr( matrix ) { Index const n = 3 + c.choose( 2, "rows" ); x.resize( n, columns(), 2 ); m.resize( n ); }
      break;
  }
  check( x, m, names[ op ] );
  mc::outcome( long( r.size() ) * 8 + op );
}
MC_JOB( "matrix with columns across the range of the column type" ) { mc::enumerate( body< M > ); mc::g().bound += std::to_string( table().size() ) + " columns up to " + std::to_string( (unsigned long) table().back() ) + "; "; }
MC_JOB( "pattern with columns across the range of the column type" ) { mc::enumerate( body< P > ); }

/* One row with more columns than a short counts: every way of adding to it, from
 * either end and across, and inserting and removing at its ends. */
#ifdef LONG_ROW
MC_JOB( "a row of 70000 columns" )
{
  mc::enumerate( []( mc::Chooser & c ) {
    Index const N = 70000, step = 2;
    M x( 2, Index( 2 * N + 2 ), 4 );
    std::vector< Col > cols; std::vector< double > vals;
    for( Index i = 0; i < N; ++i ) { cols.push_back( Col( step * i ) ); vals.push_back( double( i ) ); }
    MC_EQ( long( x.insertNonZeros( 1, cols.data(), vals.data(), N ) ), long( N ), "columns inserted" );
    int const op = c.choose( 7, "op" ), which = c.choose( 4, "which" );
    std::vector< Col > q; std::vector< double > w;
    // every column, the last two, every 30000th, the first and the last
    for( Index i = 0; i < N; ++i ) if( which == 0 || ( which == 1 && i >= N - 2 ) || ( which == 2 && i % 30000 == 0 ) || ( which == 3 && ( i == 0 || i == N - 1 ) ) ) { q.push_back( cols[ i ] ); w.push_back( 0.5 + i % 7 ); }
    Index const n = Index( q.size() );
    std::map< Col, double > m; for( Index i = 0; i < N; ++i ) m[ cols[ i ] ] = vals[ i ];
    if( op == 5 ) { for( Col & k : q ) k += 1; }
    if( op < 4 ) for( Index k = 0; k < n; ++k ) m[ q[ k ] ] += w[ k ];
    if( op == 3 ) { std::reverse( q.begin(), q.end() ); std::reverse( w.begin(), w.end() ); }
    if( op == 0 ) x.template addToRow< RAJA::seq_atomic >( 1, q.data(), w.data(), n );
    if( op == 1 ) x.template addToRowBinarySearch< RAJA::seq_atomic >( 1, q.data(), w.data(), n );
    if( op == 2 ) x.template addToRowLinearSearch< RAJA::seq_atomic >( 1, q.data(), w.data(), n );
    if( op == 3 ) x.template addToRowBinarySearchUnsorted< RAJA::seq_atomic >( 1, q.data(), w.data(), n );
    if( op == 4 ) { MC_EQ( long( x.removeNonZeros( 1, q.data(), n ) ), long( n ), "columns removed" ); for( Col k : q ) m.erase( k ); }
    if( op == 5 ) { MC_EQ( long( x.insertNonZeros( 1, q.data(), w.data(), n ) ), long( n ), "columns inserted" ); for( Index k = 0; k < n; ++k ) m[ q[ k ] ] = w[ k ]; }
    if( op == 6 && which != 0 ) for( Index k = 0; k < n; ++k ) { MC_EQ( x.removeNonZero( 1, q[ k ] ), true, "removal" ); MC_EQ( x.insertNonZero( 1, q[ k ], w[ k ] ), true, "insertion" ); m[ q[ k ] ] = w[ k ]; }
    if( which == 3 ) x.compress();
    MC_EQ( long( x.numNonZeros( 1 ) ), long( m.size() ), "columns of the row" ); MC_EQ( long( x.numNonZeros( 0 ) ), 0l, "columns of the other row" );
    auto const cc = x.getColumns( 1 ); auto const ee = x.getEntries( 1 ); long k = 0;
    for( auto const & p : m ) { MC_CHECK( cc[ k ] == p.first && ee[ k ] == p.second, "position " << k << " holds column " << long( cc[ k ] ) << " with entry " << ee[ k ] << " instead of " << long( p.first ) << " with " << p.second << " after operation " << op ); ++k; }
  } );
  mc::g().bound += "one row of 70000 columns, seven operations; ";
}
#endif
MC_MAIN
