/* Operations that take an execution policy: every iteration order, and races between any two iterations. */
#include "threads.hpp"
#include "elem.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#include "Array.hpp"
#include "MallocBuffer.hpp"
#ifndef ELEM
#define ELEM int
#endif
#ifndef INDEXT
#define INDEXT long
#endif
using I = INDEXT;
using E = ELEM;
using PAR = RAJA::mc_parallel_exec;
using SEQ = RAJA::loop_exec;
static mc::Chooser * CH;
static long iterations;
static bool monitor = true;

/* The parallel loop: every iteration is a thread (8 at most); or, for longer loops, every partition into two
 * workers that take their share forwards or backwards. */
static void hook( long n, std::function< void( long ) > const & body )
{
  iterations += n;
  std::vector< std::function< void() > > t;
  if( n <= 5 ) for( long i = 0; i < n; ++i ) t.push_back( [&body, i] { body( i ); } );
  else
  {
    long const cut = CH->choose( int( n + 1 ), "cut" ); bool const back = CH->flag( "backwards" );
    t.push_back( [&body, cut, back] { for( long i = 0; i < cut; ++i ) body( back ? cut - 1 - i : i ); } );
    t.push_back( [&body, cut, n, back] { for( long i = cut; i < n; ++i ) body( back ? n - 1 - ( i - cut ) : i ); } );
  }
  if( monitor ) thr::run( *CH, t ); else for( auto const & f : t ) f();
}
static void with( std::function< void( mc::Chooser & ) > const & f )
{
  RAJA::mc::parallelHook() = hook;
  mc::enumerate( [&]( mc::Chooser & c ) { CH = &c; f( c ); } );
  mc::g().bound += "all orders of up to 5 iterations (as separate threads), all cuts of longer loops, races on every access; ";
}
static E mk( int v ) { return elem::make< E >( v ); }
static long num( E const & e ) { return elem::get( e ); }

template< typename PERM, int N > static void arrays( bool const large = false )
{
  with( [&]( mc::Chooser & c ) {
    using A = LvArray::Array< E, N, PERM, I, LvArray::MallocBuffer >;
    I d[ 3 ];
    if( large ) { static I const l[ 2 ][ 3 ] = { { 17, 3, 2 }, { 70, 1, 1 } }; int const k = c.choose( 2, "shape" ); for( int j = 0; j < N; ++j ) d[ j ] = l[ k ][ ( j + 1 ) % N ]; }
    else for( int k = 0; k < N; ++k ) d[ k ] = c.choose( N == 1 ? 9 : N == 2 ? 4 : 3, "extent" );
    A a, b; a.resize( N, d ); b.resize( N, d );
    for( I i = 0; i < a.size(); ++i ) { a.data()[ i ] = mk( int( i + 1 ) ); b.data()[ i ] = mk( int( 100 + i ) ); }
    int const op = c.choose( 4, "op" );
    iterations = 0;
    if( op == 0 ) a.template setValues< PAR >( mk( 7 ) );
    if( op == 1 ) a.template setValues< PAR >( b.toViewConst() );
    if( op == 2 ) a.toView().template setValues< PAR >( mk( 7 ) );
    if( op == 3 ) a.toView().template setValues< PAR >( b.toViewConst() );
    MC_EQ( iterations, long( a.size() ), "iterations" );
    for( I i = 0; i < a.size(); ++i ) { MC_EQ( num( a.data()[ i ] ), long( op & 1 ? 100 + i : 7 ), "element " << i ); MC_EQ( num( b.data()[ i ] ), long( 100 + i ), "source" ); }
    mc::outcome( std::to_string( op ) + ":" + std::to_string( a.size() ) );
  } );
}
template< typename M > static std::string shape( M const & m )
{
  std::string s = std::to_string( m.numRows() ) + "x" + std::to_string( m.numColumns() ) + ":";
  for( I r = 0; r < m.numRows(); ++r ) { for( auto c : m.getColumns( r ) ) s += std::to_string( c ) + " "; s += "/" + std::to_string( m.nonZeroCapacity( r ) ) + ";"; }
  return s;
}
using SP = LvArray::SparsityPattern< int, I, LvArray::MallocBuffer >;
using CM = LvArray::CRSMatrix< E, int, I, LvArray::MallocBuffer >;
using AA = LvArray::ArrayOfArrays< E, I, LvArray::MallocBuffer >;
static std::string entries( CM const & m ) { std::string s; for( I r = 0; r < m.numRows(); ++r ) { for( E const & e : m.getEntries( r ) ) s += std::to_string( num( e ) ) + " "; s += ";"; } return s; }
/* Beyond a few rows: some fixed families. */
static std::vector< int > longCounts( int k )
{
  int const n = k == 0 ? 9 : k == 1 ? 17 : k == 2 ? 33 : 6;
  std::vector< int > v;
  for( int r = 0; r < n; ++r ) v.push_back( k == 0 ? r % 4 : k == 1 ? ( r * 5 ) % 3 : k == 2 ? 1 : ( r * 7 + 3 ) % 18 );
  return v;
}
static SP longPattern( mc::Chooser & c )
{
  std::vector< int > const n = longCounts( c.choose( 4, "family" ) );
  int const extra = c.choose( 2, "extra" );
  SP p( I( n.size() ), 20, 0 );
  for( size_t r = 0; r < n.size(); ++r ) { p.setRowCapacity( r, n[ r ] + extra ); for( int k = 0; k < n[ r ]; ++k ) p.insertNonZero( r, ( r + k ) % 20 ); }
  return p;
}
static SP pattern( mc::Chooser & c, int maxRows, int maxNnz, int extra )
{
  int const rows = c.choose( maxRows + 1, "rows" );
  SP p( rows, 4, 0 );
  for( int r = 0; r < rows; ++r )
  {
    int const n = c.choose( maxNnz + 1, "nnz" );
    p.setRowCapacity( r, n + extra );
    for( int k = 0; k < n; ++k ) p.insertNonZero( r, ( r + k ) % 4 );
  }
  return p;
}
static void fill( CM & m, int v ) { for( I r = 0; r < m.numRows(); ++r ) for( E & e : m.toViewConstSizes().getEntries( r ) ) e = mk( v++ ); }
static CM oldMatrix( int kind )
{
  CM m;
  if( kind > 0 ) { m.resize( kind, 5, 2 ); for( int r = 0; r < kind; ++r ) for( int k = 0; k < ( r + kind ) % 3; ++k ) m.insertNonZero( r, k, mk( 50 + r ) ); }
  return m;
}
MC_JOB( "array setValues, 1-d" ) { arrays< RAJA::PERM_I, 1 >(); }
MC_JOB( "array setValues, 2-d" ) { arrays< RAJA::PERM_JI, 2 >(); }
MC_JOB( "array setValues, 3-d" ) { arrays< RAJA::PERM_KIJ, 3 >(); }
static void adopting( bool const large )
{
  with( [&]( mc::Chooser & c ) {
    SP p = large ? longPattern( c ) : pattern( c, 4, 2, c.choose( 2, "extra" ) );
    std::string const before = shape( p );
    CM m = oldMatrix( large ? 3 : c.choose( 4, "old" ) ), s;
    SP q( p );
    iterations = 0;
    m.template assimilate< PAR >( std::move( p ) );
    s.template assimilate< SEQ >( std::move( q ) );
    MC_EQ( shape( m ), before, "the structure" );
    MC_EQ( shape( m ), shape( s ), "parallel and sequential structure" );
    MC_EQ( entries( m ), entries( s ), "parallel and sequential entries" );
    for( I r = 0; r < m.numRows(); ++r ) for( E const & e : m.getEntries( r ) ) MC_EQ( num( e ), num( E() ), "a new entry" );
    mc::outcome( shape( m ) );
  } );
}
static void settingValues( bool const large )
{
  with( [&]( mc::Chooser & c ) {
    SP p = large ? longPattern( c ) : pattern( c, 4, 2, c.choose( 2, "extra" ) );
    std::string const before = shape( p );
    CM m; m.template assimilate< SEQ >( std::move( p ) );
    fill( m, 10 );
    int const how = c.choose( 3, "how" );
    if( how == 0 ) m.template setValues< PAR >( mk( 9 ) );
    if( how == 1 ) m.toViewConstSizes().template setValues< PAR >( mk( 9 ) );
    if( how == 2 ) m.toView().template setValues< PAR >( mk( 9 ) );
    MC_EQ( shape( m ), before, "the structure" );
    for( I r = 0; r < m.numRows(); ++r ) for( E const & e : m.getEntries( r ) ) MC_EQ( num( e ), 9l, "an entry" );
    mc::outcome( entries( m ) );
  } );
}
MC_JOB( "array setValues, larger shapes" ) { arrays< RAJA::PERM_I, 1 >( true ); arrays< RAJA::PERM_JI, 2 >( true ); arrays< RAJA::PERM_KIJ, 3 >( true ); }
MC_JOB( "matrix adopting a sparsity pattern" ) { adopting( false ); }
MC_JOB( "matrix adopting a larger pattern" ) { adopting( true ); }
MC_JOB( "matrix setValues and zero" ) { settingValues( false ); }
MC_JOB( "larger matrix setValues" ) { settingValues( true ); }
static void building( bool const large )
{
  with( [&]( mc::Chooser & c ) {
    std::vector< I > caps;
    if( large ) for( int n : longCounts( c.choose( 4, "family" ) ) ) caps.push_back( n );
    else { int const n = c.choose( 5, "rows" ); for( int r = 0; r < n; ++r ) caps.push_back( c.choose( 4, "capacity" ) ); }
    int const rows = int( caps.size() );
    int const what = c.choose( 4, "container" ), old = c.choose( 3, "old" );
    auto verify = [&]( auto const & x, auto size, auto cap, I n ) {
      MC_EQ( long( n ), long( rows ), "rows" );
      for( int r = 0; r < rows; ++r ) { MC_EQ( long( size( x, r ) ), 0l, "size of row " << r ); MC_EQ( long( cap( x, r ) ), long( caps[ r ] ), "capacity of row " << r ); }
    };
    if( what == 0 )
    { AA a( old, 1 ); for( int r = 0; r < old; ++r ) a.emplaceBack( r, mk( r ) ); a.template resizeFromCapacities< PAR >( rows, caps.data() ); verify( a, []( auto const & x, int r ) { return x.sizeOfArray( r ); }, []( auto const & x, int r ) { return x.capacityOfArray( r ); }, a.size() ); }
    if( what == 1 )
    { LvArray::ArrayOfSets< E, I, LvArray::MallocBuffer > a( old, 1 ); for( int r = 0; r < old; ++r ) a.insertIntoSet( r, mk( r ) ); a.template resizeFromCapacities< PAR >( rows, caps.data() ); verify( a, []( auto const & x, int r ) { return x.sizeOfSet( r ); }, []( auto const & x, int r ) { return x.capacityOfSet( r ); }, a.size() ); }
    if( what == 2 )
    { SP a( old, 20, 1 ); for( int r = 0; r < old; ++r ) a.insertNonZero( r, 1 ); a.template resizeFromRowCapacities< PAR >( rows, 20, caps.data() ); verify( a, []( auto const & x, int r ) { return x.numNonZeros( r ); }, []( auto const & x, int r ) { return x.nonZeroCapacity( r ); }, a.numRows() ); }
    if( what == 3 )
    { CM a( old, 20, 1 ); for( int r = 0; r < old; ++r ) a.insertNonZero( r, 1, mk( r ) ); a.template resizeFromRowCapacities< PAR >( rows, 20, caps.data() ); verify( a, []( auto const & x, int r ) { return x.numNonZeros( r ); }, []( auto const & x, int r ) { return x.nonZeroCapacity( r ); }, a.numRows() ); }
    mc::outcome( std::to_string( what ) + std::to_string( rows ) );
  } );
}
MC_JOB( "building from capacities" ) { building( false ); }
MC_JOB( "building from more capacities" ) { building( true ); }
MC_MAIN
