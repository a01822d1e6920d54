/* P09: capacities whose sum does not fit 32 bits. The storage is reserved and touched at a few places only. */
#include "lv.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#include "MallocBuffer.hpp"
using LvArray::MallocBuffer;
using Val = signed char;

struct Arrays
{
  using A = LvArray::ArrayOfArrays< Val, long, MallocBuffer >;
  A a;
  Arrays( bool fromCaps, std::vector< long > const & caps ) : a( fromCaps ? 0 : long( caps.size() ), fromCaps ? 0 : caps[ 0 ] )
  { if( fromCaps ) a.resizeFromCapacities< RAJA::loop_exec >( long( caps.size() ), caps.data() ); }
  long rows() const { return a.size(); }
  long cap( int i ) const { return a.capacityOfArray( i ); }
  long total() const { return a.valueCapacity(); }
  Val const * at( int i ) const { return a.toViewConst().getValues() + a.toViewConst().getOffsets()[ i ]; }
  void put( int i, int v ) { a.emplaceBack( i, Val( v ) ); }
  void setCap( int i, long c ) { a.setCapacityOfArray( i, c ); }
  void grow( long c ) { long const n = a.size(); a.resize( n + 1, c ); }
  std::vector< int > row( int i ) const { std::vector< int > r; for( Val v : a[ i ] ) r.push_back( v ); return r; }
};
struct Sets
{
  using A = LvArray::ArrayOfSets< Val, long, MallocBuffer >;
  A a;
  Sets( bool fromCaps, std::vector< long > const & caps ) : a( fromCaps ? 0 : long( caps.size() ), fromCaps ? 0 : caps[ 0 ] )
  { if( fromCaps ) a.resizeFromCapacities< RAJA::loop_exec >( long( caps.size() ), caps.data() ); }
  long rows() const { return a.size(); }
  long cap( int i ) const { return a.capacityOfSet( i ); }
  long total() const { return a.valueCapacity(); }
  Val const * at( int i ) const { return a.toViewConst().getValues() + a.toViewConst().getOffsets()[ i ]; }
  void put( int i, int v ) { a.insertIntoSet( i, Val( v ) ); }
  void setCap( int i, long c ) { a.setCapacityOfSet( i, c ); }
  void grow( long c ) { a.appendSet( c ); }
  std::vector< int > row( int i ) const { std::vector< int > r; for( Val v : a[ i ] ) r.push_back( v ); return r; }
};
/* Whether the machine can promise that much; otherwise there is nothing to explore. */
static bool promised() { void * p = std::malloc( 12000000000l ); std::free( p ); return p != nullptr; }
template< typename C > void go()
{
  if( !promised() ) return;
  mc::enumerate( [&]( mc::Chooser & c ) {
    bool const fromCaps = c.flag( "from capacities" );
    std::vector< long > caps = fromCaps ? std::vector< long >{ 1100000000l, 5, 1200000000l, 7 } : std::vector< long >( 4, 600000000l );
    C x( fromCaps, caps );
    std::vector< std::vector< int > > m( caps.size() );
    auto fill = [&]( int v ) { for( size_t i = 0; i < m.size(); ++i ) if( long( m[ i ].size() ) < caps[ i ] ) { x.put( int( i ), v + int( i ) ); m[ i ].push_back( v + int( i ) ); } };
    auto check = [&]( char const * after ) {
      MC_EQ( x.rows(), long( caps.size() ), "rows after " << after );
      long sum = 0;
      for( size_t i = 0; i < caps.size(); ++i )
      {
        MC_EQ( x.cap( int( i ) ), caps[ i ], "capacity of inner array " << i << " after " << after );
        MC_EQ( long( x.at( int( i ) ) - x.at( 0 ) ), sum, "position of inner array " << i << " after " << after );
        sum += caps[ i ];
        MC_CHECK( x.row( int( i ) ) == m[ i ], "values of inner array " << i << " after " << after );
      }
      MC_CHECK( x.total() >= sum, "value capacity " << x.total() << " below " << sum << " after " << after );
    };
    check( "construction" ); fill( 10 ); check( "filling" );
    /* nothing here needs a reallocation, which would touch all of the storage */
    if( c.flag( "lower" ) )
    {
      caps[ 2 ] = 3; x.setCap( 2, caps[ 2 ] ); check( "lowering a capacity" ); fill( 20 ); check( "filling again" );
      if( c.flag( "raise" ) ) { caps[ 1 ] += 50000000l; x.setCap( 1, caps[ 1 ] ); check( "raising a capacity" ); fill( 30 ); check( "filling after raising a capacity" ); }
      if( c.flag( "grow" ) ) { x.grow( 9 ); caps.push_back( 9 ); m.push_back( {} ); check( "one more inner array" ); fill( 40 ); check( "filling the new array" ); }
    }
    if( c.flag( "compress" ) ) { x.a.compress(); for( size_t i = 0; i < caps.size(); ++i ) caps[ i ] = long( m[ i ].size() ); check( "compress" ); fill( 50 ); check( "filling after compress" ); }
  } );
}
MC_JOB( "huge array of arrays" ) { go< Arrays >(); }
MC_JOB( "huge array of sets" ) { go< Sets >(); }

/* Rows of 32767 columns, 70000 of them. */
template< bool MATRIX > void rows()
{
  if( !promised() ) return;
  using A = typename std::conditional< MATRIX, LvArray::CRSMatrix< Val, short, long, MallocBuffer >, LvArray::SparsityPattern< short, long, MallocBuffer > >::type;
  mc::enumerate( [&]( mc::Chooser & c ) {
    long const n = 70000, cap = 32767;
    int const how = c.choose( 3, "made" );
    A a( how == 0 ? n : 0, 32767, how == 0 ? cap : 0 );
    if( how == 1 ) { std::vector< long > caps( n, cap ); a.template resizeFromRowCapacities< RAJA::loop_exec >( n, 32767, caps.data() ); }
    if( how == 2 ) a.resize( n, 32767, cap );
    long const where[] = { 0, 1, n / 2, n - 2, n - 1 };
    auto put = [&]( long i, int v ) { if constexpr( MATRIX ) MC_CHECK( a.insertNonZero( i, short( v ), Val( v ) ), "insertion" ); else MC_CHECK( a.insertNonZero( i, short( v ) ), "insertion" ); };
    auto check = [&]( int first, bool tight ) {
      MC_EQ( long( a.numRows() ), n, "rows" );
      long sum = 0, nnz = 0;
      for( long i = 0; i < n; ++i )
      {
        bool const filled = first && std::find( where, where + 5, i ) != where + 5;
        MC_EQ( long( a.nonZeroCapacity( i ) ), tight ? ( filled ? 2l : 0l ) : cap, "capacity of row " << i );
        MC_EQ( long( a.getOffsets()[ i ] ), sum, "offset of row " << i );
        MC_EQ( long( a.numNonZeros( i ) ), filled ? 2l : 0l, "non-zeros of row " << i );
        if( filled ) for( int k = 0; k < 2; ++k ) { MC_EQ( int( a.getColumns( i )[ k ] ), first + k, "column" ); if constexpr( MATRIX ) MC_EQ( int( a.getEntries( i )[ k ] ), int( Val( first + k ) ), "entry" ); }
        sum += a.nonZeroCapacity( i ); nnz += a.numNonZeros( i );
      }
      MC_CHECK( a.nonZeroCapacity() >= sum, "capacity" ); MC_EQ( long( a.numNonZeros() ), nnz, "non-zeros" );
    };
    check( 0, false );
    for( long i : where ) { put( i, 8 ); put( i, 7 ); }
    check( 7, false );
    a.compress(); check( 7, true );
  } );
}
MC_JOB( "huge sparsity pattern" ) { rows< false >(); }
MC_JOB( "huge matrix" ) { rows< true >(); }
MC_MAIN
