/* Views of other element types, and views of containers of containers. */
#include "lv.hpp"
#include "layouts.hpp"
#include "elem.hpp"
#include "Array.hpp"
#include "ArrayView.hpp"
#include "SortedArray.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#include "MallocBuffer.hpp"
#include "StackBuffer.hpp"
#ifndef PART
#define PART 0
#endif
#ifndef INDEXT
#define INDEXT std::ptrdiff_t
#endif
template< typename T > using Buf = LvArray::MallocBuffer< T >;
using IX = INDEXT;

#if PART < 3
struct Three { unsigned char c[ 3 ]; };
template< typename T > char const * nm() { return typeid( T ).name(); }
template< typename T > void * at( T & x ) { return const_cast< void * >( static_cast< void const volatile * >( &x ) ); }

/* The view y of type T made from the view x of type U shows the same bytes at the matching indices. */
template< typename VT, typename VU, size_t N >
void sameBytes( VT const & y, VU const & x, int usd, std::array< long, N > const & dims, long capacity )
{
  using T = std::remove_reference_t< decltype( *y.data() ) >; using U = std::remove_reference_t< decltype( *x.data() ) >;
  long const st = long( sizeof( T ) ), su = long( sizeof( U ) );
  MC_CHECK( static_cast< void const volatile * >( y.data() ) == static_cast< void const volatile * >( x.data() ), "the converted view shows other memory" );
  std::array< long, N > e = dims; e[ size_t( usd ) ] = dims[ size_t( usd ) ] * su / st;
  long total = 1;
  for( size_t d = 0; d < N; ++d ) { MC_EQ( long( y.size( int( d ) ) ), e[ d ], "extent " << d << " of the converted view" ); total *= e[ d ]; }
  MC_EQ( long( y.size() ), total, "size of the converted view" );
  MC_EQ( long( y.strides()[ usd ] ), 1l, "unit stride" );
  MC_EQ( y.getSingleParameterResizeIndex(), x.getSingleParameterResizeIndex(), "default resize dimension" );
  MC_CHECK( long( y.capacity() ) * st <= capacity * su && ( long( y.capacity() ) + 1 ) * st > capacity * su, "capacity " << y.capacity() << " of the converted view of a capacity of " << capacity );
  lay::forAll( e, [&]( std::array< long, N > const & i ) {
    std::array< long, N > k = i; long const byte = i[ size_t( usd ) ] * st; k[ size_t( usd ) ] = byte / su;
    std::array< IX, N > yi, xi; for( size_t d = 0; d < N; ++d ) { yi[ d ] = IX( i[ d ] ); xi[ d ] = IX( k[ d ] ); }
    char * const p = static_cast< char * >( at( lay::call( y, yi ) ) ), * const q = static_cast< char * >( at( lay::call( x, xi ) ) );
    MC_CHECK( p == q + byte % su, "a value of the converted view is elsewhere" );
  } );
}

template< typename T, typename U, typename PERM >
void conversion( PERM perm )
{
  constexpr int N = int( lay::rank( PERM{} ) );
  mc::enumerate( [=]( mc::Chooser & c ) {
    constexpr int USD = lay::last( PERM{} );
    std::array< long, N > dims; long const ratio = long( sizeof( T ) / sizeof( U ) );
    for( int d = 0; d < N; ++d ) dims[ size_t( d ) ] = c.choose( d == USD ? ( mc::thorough() ? 10 : N == 3 ? 6 : 9 ) : N == 3 ? 3 : mc::thorough() ? 6 : 4, "extent" );
    int const spare = c.choose( 4, "spare capacity" ), sp = c.choose( N, "default resize dimension" );
    using A = LvArray::Array< U, N, PERM, IX, Buf >;
    A a; std::array< IX, size_t( N ) > dd; for( int d = 0; d < N; ++d ) dd[ size_t( d ) ] = IX( dims[ size_t( d ) ] );
    a.resize( N, dd.data() ); a.setSingleParameterResizeIndex( sp );
    if( spare ) a.reserve( a.size() + spare );
    long const cap = long( a.capacity() );
    bool const divides = ratio <= 1 || dims[ USD ] % ratio == 0;
    using V = LvArray::ArrayView< T, N, USD, IX, Buf >;
    if( !divides )
    {
      bool const reported = mc::throwsError( [&] { V const y( a.toView() ); (void) y; } );
      // a size that is not a multiple is refused
      MC_CHECK( reported, "converted " << dims[ USD ] << " values to a type of " << ratio << " times the size" ); mc::outcome( "refused" );
      return;
    }
    V const y( a.toView() ); mc::outcome( "converted" );
    sameBytes( y, a, USD, dims, cap );
    // a copy and an assigned view are the same view; converting back gives the view it came from
    V const y2( y ); sameBytes( y2, a, USD, dims, cap );
    V y3; y3 = y; sameBytes( y3, a, USD, dims, cap );
    LvArray::ArrayView< U, N, USD, IX, Buf > const back( y );
    MC_CHECK( back.data() == a.data(), "converted back" );
    for( int d = 0; d < N; ++d ) { MC_EQ( long( back.size( d ) ), dims[ size_t( d ) ], "extent converted back" ); if( a.size() > 0 ) MC_EQ( long( back.strides()[ d ] ), long( a.strides()[ d ] ), "stride converted back" ); }
    MC_EQ( long( back.size() ), long( a.size() ), "size converted back" );
    // to constant values, from a constant view, and of the const view
    LvArray::ArrayView< T const, N, USD, IX, Buf > const yc( a.toViewConst() ); sameBytes( yc, a, USD, dims, cap );
    sameBytes( y.toViewConst(), a, USD, dims, cap );
    auto const s = y.toSlice(); MC_CHECK( s.begin() == y.data() && long( s.size() ) == long( y.size() ), "slice of the converted view" );
    // every byte written through the converted view arrives in the owner, and nothing else is written
    unsigned char n = 0; for( long i = 0; i < long( y.size() ) * long( sizeof( T ) ); ++i ) reinterpret_cast< unsigned char * >( const_cast< std::remove_cv_t< T > * >( y.data() ) )[ i ] = ++n;
    n = 0; for( long i = 0; i < long( a.size() ) * long( sizeof( U ) ); ++i ) MC_EQ( int( reinterpret_cast< unsigned char const * >( a.data() )[ i ] ), int( (unsigned char) ++n ), "byte " << i << " of the owner" );
    MC_EQ( long( a.capacity() ), cap, "capacity of the owner" );
    for( int d = 0; d < N; ++d ) MC_EQ( long( a.size( d ) ), dims[ size_t( d ) ], "extent of the owner" );
  }, true );
}
template< typename T, typename U, int N >
void layouts() { mc::context() = std::string( nm< U >() ) + " to " + nm< T >(); lay::forEach( lay::All< N >{}, []( auto p ) { conversion< T, U >( p ); } ); }
#if PART == 0
constexpr int NDIM_ = 1;
#elif PART == 1
constexpr int NDIM_ = 2;
#else
constexpr int NDIM_ = 3;
#endif
MC_JOB( "int to pairs of int" ) { layouts< int[ 2 ], int, NDIM_ >(); }
MC_JOB( "char to short" ) { layouts< short, char, NDIM_ >(); }
MC_JOB( "short to long" ) { layouts< long, short, NDIM_ >(); }
MC_JOB( "long to char" ) { layouts< char, long, NDIM_ >(); }
MC_JOB( "int to short" ) { layouts< short, int, NDIM_ >(); }
MC_JOB( "int to float" ) { layouts< float, int, NDIM_ >(); }
MC_JOB( "char to three bytes" ) { layouts< Three, unsigned char, NDIM_ >(); }
MC_JOB( "three bytes to char" ) { layouts< char, Three, NDIM_ >(); }
#endif

#if PART == 3
/* ------------------------------------------------------------------ nested views show the inner containers themselves */
template< typename T > using A1 = LvArray::Array< T, 1, camp::idx_seq< 0 >, IX, Buf >;
template< typename T > using V1 = LvArray::ArrayView< T, 1, 0, IX, Buf >;

template< typename O, typename V >
void outerSame( O const & a, V const & v )
{
  MC_EQ( long( v.size() ), long( a.size() ), "size of the nested view" ); MC_EQ( long( v.size( 0 ) ), long( a.size( 0 ) ), "extent of the nested view" );
  MC_CHECK( static_cast< void const * >( v.data() ) == static_cast< void const * >( a.data() ), "the nested view shows other containers" );
}
template< typename A, typename B >
void innerSame( A const & a, B const & b )
{
  MC_EQ( long( b.size() ), long( a.size() ), "size of an inner view" );
  MC_CHECK( static_cast< void const * >( b.data() ) == static_cast< void const * >( a.data() ), "an inner view shows other values" );
}
template< typename T >
void twoLevels()
{
  static_assert( std::is_same< decltype( std::declval< A1< A1< T > > & >().toNestedView() ), V1< V1< T > const > const >::value || std::is_same< std::remove_cv_t< decltype( std::declval< A1< A1< T > > & >().toNestedView() ) >, V1< V1< T > const > >::value, "" );
  mc::enumerate( []( mc::Chooser & c ) {
    int const n = c.choose( 4, "arrays" ); A1< A1< T > > a( n ); std::vector< std::vector< int > > m;
    int seed = 0;
    for( int i = 0; i < n; ++i ) { int const k = c.choose( 4, "size" ); m.emplace_back(); if( c.flag( "spare" ) ) a[ i ].reserve( 4 ); for( int j = 0; j < k; ++j ) { a[ i ].emplace_back( T( ++seed ) ); m.back().push_back( seed ); } }
    V1< V1< T > const > const v( a.toNestedView() ); V1< V1< T const > const > const w( a.toNestedViewConst() );
    outerSame( a, v ); outerSame( a, w );
    for( int i = 0; i < n; ++i ) { innerSame( a[ i ], v[ i ] ); innerSame( a[ i ], w[ i ] ); for( size_t j = 0; j < m[ i ].size(); ++j ) { MC_CHECK( v[ i ][ IX( j ) ] == T( m[ i ][ j ] ) && w( i )( IX( j ) ) == T( m[ i ][ j ] ), "value" ); v[ i ][ IX( j ) ] = T( m[ i ][ j ] += 10 ); } }
    for( int i = 0; i < n; ++i ) for( size_t j = 0; j < m[ i ].size(); ++j ) MC_CHECK( a[ i ][ IX( j ) ] == T( m[ i ][ j ] ), "value written through the nested view" );
  }, true );
}
MC_JOB( "arrays of arrays of int as nested views" ) { twoLevels< int >(); }
MC_JOB( "arrays of arrays of strings as nested views" ) { mc::enumerate( []( mc::Chooser & c ) {
    int const n = c.choose( 3, "arrays" ); A1< A1< std::string > > a( n );
    for( int i = 0; i < n; ++i ) { int const k = c.choose( 3, "size" ); for( int j = 0; j < k; ++j ) a[ i ].emplace_back( std::string( size_t( 20 * i + j ), 'x' ) ); }
    V1< V1< std::string > const > const v( a.toNestedView() ); V1< V1< std::string const > const > const w( a.toNestedViewConst() );
    outerSame( a, v ); outerSame( a, w );
    for( int i = 0; i < n; ++i ) { innerSame( a[ i ], v[ i ] ); innerSame( a[ i ], w[ i ] ); for( IX j = 0; j < a[ i ].size(); ++j ) { MC_CHECK( v[ i ][ j ].size() == size_t( 20 * i + j ), "value" ); v[ i ][ j ] += "y"; MC_CHECK( w[ i ][ j ].size() == size_t( 20 * i + j ) + 1, "value" ); } }
  }, true ); }
MC_JOB( "three levels of arrays as nested views" )
{
  mc::enumerate( []( mc::Chooser & c ) {
    int const n = c.choose( 3, "arrays" ); A1< A1< A1< int > > > a( n ); int seed = 0;
    for( int i = 0; i < n; ++i ) { int const k = c.choose( 3, "size" ); a[ i ].resize( k ); for( int j = 0; j < k; ++j ) { int const l = c.choose( 3, "size" ); for( int q = 0; q < l; ++q ) a[ i ][ j ].emplace_back( ++seed ); } }
    V1< V1< V1< int > const > const > const v( a.toNestedView() ); V1< V1< V1< int const > const > const > const w( a.toNestedViewConst() );
    outerSame( a, v ); outerSame( a, w ); int s = 0;
    for( int i = 0; i < n; ++i )
    {
      innerSame( a[ i ], v[ i ] ); innerSame( a[ i ], w[ i ] );
      for( IX j = 0; j < a[ i ].size(); ++j ) { innerSame( a[ i ][ j ], v[ i ][ j ] ); innerSame( a[ i ][ j ], w[ i ][ j ] ); for( IX q = 0; q < a[ i ][ j ].size(); ++q ) { ++s; MC_EQ( v[ i ][ j ][ q ], s, "value" ); MC_EQ( w( i )( j )( q ), s, "value" ); v[ i ][ j ][ q ] = -s; MC_EQ( a[ i ][ j ][ q ], -s, "value written through the nested view" ); } }
    }
  }, true );
}
template< typename PERM >
void multi( PERM perm )
{
  mc::enumerate( [=]( mc::Chooser & c ) {
    constexpr int USD = lay::last( PERM{} );
    int const n0 = c.choose( 3, "extent" ), n1 = c.choose( 3, "extent" ); LvArray::Array< LvArray::Array< short, 2, PERM, IX, Buf >, 2, PERM, IX, Buf > a( n0, n1 ); short seed = 0;
    for( int i = 0; i < n0; ++i ) for( int j = 0; j < n1; ++j ) { a( i, j ).resize( c.choose( 3, "extent" ), 1 + c.choose( 2, "extent" ) ); for( short & x : a( i, j ) ) x = ++seed; }
    auto const & v = a.toNestedView(); auto const & w = a.toNestedViewConst();
    static_assert( std::is_same< std::remove_cv_t< std::remove_reference_t< decltype( v ) > >, LvArray::ArrayView< LvArray::ArrayView< short, 2, USD, IX, Buf > const, 2, USD, IX, Buf > >::value, "type of the nested view" );
    static_assert( std::is_same< std::remove_cv_t< std::remove_reference_t< decltype( w ) > >, LvArray::ArrayView< LvArray::ArrayView< short const, 2, USD, IX, Buf > const, 2, USD, IX, Buf > >::value, "type of the nested view" );
    outerSame( a, v ); outerSame( a, w );
    for( int i = 0; i < n0; ++i ) for( int j = 0; j < n1; ++j )
    {
      innerSame( a( i, j ), v( i, j ) ); innerSame( a( i, j ), w( i, j ) );
      for( IX k = 0; k < a( i, j ).size( 0 ); ++k ) for( IX l = 0; l < a( i, j ).size( 1 ); ++l ) { MC_CHECK( &v( i, j )( k, l ) == &a( i, j )( k, l ) && &w( i, j )( k, l ) == &a( i, j )( k, l ), "value" ); }
    }
  }, true );
}
MC_JOB( "matrices of matrices as nested views" ) { lay::forEach( lay::All< 2 >{}, []( auto p ) { multi( p ); } ); }

/* The views of an array of other containers. */
template< typename C, typename FILL, typename CHECK >
void of( FILL fill, CHECK check )
{
  mc::enumerate( [=]( mc::Chooser & c ) {
    int const n = c.choose( 4, "containers" ); A1< C > a( n ); std::vector< int > k;
    for( int i = 0; i < n; ++i ) { k.push_back( c.choose( 4, "filling" ) ); fill( a[ i ], k.back() ); }
    auto const & v = a.toNestedView(); auto const & w = a.toNestedViewConst();
    outerSame( a, v ); outerSame( a, w );
    for( int i = 0; i < n; ++i ) { check( a[ i ], v[ i ], k[ size_t( i ) ] ); check( a[ i ], w[ i ], k[ size_t( i ) ] ); MC_CHECK( static_cast< void const * >( &v[ i ] ) == static_cast< void const * >( &a[ i ] ), "inner container" ); }
  }, true );
}
MC_JOB( "arrays of sorted arrays as nested views" )
{ of< LvArray::SortedArray< int, IX, Buf > >( []( auto & s, int k ) { for( int j = k; j > 0; --j ) s.insert( j ); }, []( auto const & s, auto const & v, int k ) { MC_EQ( long( v.size() ), long( k ), "size" ); for( int j = 0; j < k; ++j ) { MC_EQ( v[ j ], j + 1, "value" ); MC_CHECK( &v[ j ] == &s[ j ], "place" ); } MC_EQ( v.contains( 2 ), k >= 2, "contains" ); } ); }
MC_JOB( "arrays of arrays of arrays as nested views" )
{ of< LvArray::ArrayOfArrays< int, IX, Buf > >( []( auto & s, int k ) { for( int j = 0; j < k; ++j ) { s.appendArray( j ); for( int q = 0; q < j; ++q ) s( j, q ) = q; } }, []( auto const & s, auto const & v, int k ) { MC_EQ( long( v.size() ), long( k ), "size" ); for( int j = 0; j < k; ++j ) { MC_EQ( long( v.sizeOfArray( j ) ), long( j ), "size of a row" ); for( int q = 0; q < j; ++q ) { MC_EQ( v( j, q ), q, "value" ); MC_CHECK( &v( j, q ) == &s( j, q ), "place" ); } } } ); }
MC_JOB( "arrays of arrays of sets as nested views" )
{ of< LvArray::ArrayOfSets< int, IX, Buf > >( []( auto & s, int k ) { for( int j = 0; j < k; ++j ) { s.appendSet(); for( int q = j; q > 0; --q ) s.insertIntoSet( j, q ); } }, []( auto const & s, auto const & v, int k ) { MC_EQ( long( v.size() ), long( k ), "size" ); for( int j = 0; j < k; ++j ) { MC_EQ( long( v.sizeOfSet( j ) ), long( j ), "size of a set" ); for( int q = 0; q < j; ++q ) { MC_EQ( v( j, q ), q + 1, "value" ); MC_CHECK( &v( j, q ) == &s( j, q ), "place" ); } MC_EQ( v.contains( j, 1 ), j > 0, "contains" ); } } ); }
MC_JOB( "arrays of sparsity patterns as nested views" )
{ of< LvArray::SparsityPattern< int, IX, Buf > >( []( auto & s, int k ) { s.resize( k, 5, 2 ); for( int j = 0; j < k; ++j ) for( int q = j; q >= 0; --q ) s.insertNonZero( j, q ); }, []( auto const & s, auto const & v, int k ) { MC_EQ( long( v.numRows() ), long( k ), "rows" ); MC_EQ( long( v.numColumns() ), 5l, "columns" ); for( int j = 0; j < k; ++j ) { MC_EQ( long( v.numNonZeros( j ) ), long( j + 1 ), "entries" ); for( int q = 0; q <= j; ++q ) { MC_EQ( v.getColumns( j )[ q ], q, "column" ); MC_CHECK( &v.getColumns( j )[ q ] == &s.getColumns( j )[ q ], "place" ); } } } ); }
MC_JOB( "arrays of matrices as nested views" )
{ of< LvArray::CRSMatrix< double, int, IX, Buf > >( []( auto & s, int k ) { s.resize( k, 5, 2 ); for( int j = 0; j < k; ++j ) for( int q = j; q >= 0; --q ) s.insertNonZero( j, q, 10. * j + q ); }, []( auto const & s, auto const & v, int k ) { MC_EQ( long( v.numRows() ), long( k ), "rows" ); MC_EQ( long( v.numColumns() ), 5l, "columns" ); for( int j = 0; j < k; ++j ) { MC_EQ( long( v.numNonZeros( j ) ), long( j + 1 ), "entries" ); for( int q = 0; q <= j; ++q ) { MC_EQ( v.getColumns( j )[ q ], q, "column" ); MC_EQ( v.getEntries( j )[ q ], 10. * j + q, "entry" ); MC_CHECK( &v.getEntries( j )[ q ] == &s.getEntries( j )[ q ], "place" ); } } } ); }

/* The views of a container itself. */
template< typename A, typename V >
void sameView( A const & a, V const & v )
{
  MC_CHECK( v.begin() == a.data(), "the view shows other values" ); MC_EQ( long( v.size() ), long( a.size() ), "size of the view" );
  for( int d = 0; d < A::NDIM; ++d ) { MC_EQ( long( v.size( d ) ), long( a.size( d ) ), "extent " << d << " of the view" ); MC_EQ( long( v.stride( d ) ), long( a.strides()[ d ] ), "stride " << d << " of the view" ); }
}
template< typename A, typename V >
void sameArrayView( A const & a, V const & v )
{
  MC_CHECK( v.data() == a.data(), "the view shows other values" ); MC_EQ( long( v.size() ), long( a.size() ), "size of the view" ); MC_EQ( long( v.capacity() ), long( a.capacity() ), "capacity of the view" ); MC_EQ( v.getSingleParameterResizeIndex(), a.getSingleParameterResizeIndex(), "default resize dimension" );
  for( int d = 0; d < A::NDIM; ++d ) { MC_EQ( long( v.size( d ) ), long( a.size( d ) ), "extent " << d << " of the view" ); MC_EQ( long( v.strides()[ d ] ), long( a.strides()[ d ] ), "stride " << d << " of the view" ); }
}
template< typename PERM >
void plain( PERM perm )
{
  constexpr int N = int( lay::rank( PERM{} ) ); constexpr int USD = lay::last( PERM{} );
  mc::enumerate( [=]( mc::Chooser & c ) {
    using A = LvArray::Array< int, N, PERM, IX, Buf >; A a; std::array< IX, size_t( N ) > d; for( IX & x : d ) x = c.choose( N == 4 ? 3 : 4, "extent" );
    a.resize( N, d.data() ); a.setSingleParameterResizeIndex( c.choose( N, "default resize dimension" ) ); if( c.flag( "spare" ) ) a.reserve( a.size() + 3 );
    LvArray::ArrayView< int, N, USD, IX, Buf > const v = a.toView(); LvArray::ArrayView< int const, N, USD, IX, Buf > const vc = a.toViewConst(), vu = a, vv = v.toViewConst();
    LvArray::ArrayView< int, N, USD, IX, Buf > const u = a; A const & ca = a; LvArray::ArrayView< int const, N, USD, IX, Buf > const cu = ca.toViewConst();
    sameArrayView( a, v ); sameArrayView( a, vc ); sameArrayView( a, vu ); sameArrayView( a, vv ); sameArrayView( a, u ); sameArrayView( a, cu );
    sameView( a, a.toSlice() ); sameView( a, a.toSliceConst() ); sameView( a, v.toSlice() ); sameView( a, vc.toSliceConst() ); sameView( a, a.toSlice().toSliceConst() );
    LvArray::ArraySlice< int, N, USD, IX > const s = a; LvArray::ArraySlice< int const, N, USD, IX > const sc = a, sv = v; sameView( a, s ); sameView( a, sc ); sameView( a, sv );
    LvArray::ArrayView< int, N, USD, IX, Buf > w; w = v; sameArrayView( a, w ); LvArray::ArrayView< int, N, USD, IX, Buf > moved( std::move( w ) ); sameArrayView( a, moved ); w = std::move( moved ); sameArrayView( a, w );
    // both ends of the range
    MC_CHECK( v.begin() == a.data() && v.end() == a.data() + a.size() && vc.begin() == a.data() && vc.end() == a.data() + a.size(), "range of the view" );
    MC_EQ( v.empty(), a.size() == 0, "emptiness of the view" );
  }, true );
}
MC_JOB( "views and slices of arrays" ) { lay::forEach( lay::All< 1 >{}, []( auto p ) { plain( p ); } ); lay::forEach( lay::All< 2 >{}, []( auto p ) { plain( p ); } ); lay::forEach( lay::All< 3 >{}, []( auto p ) { plain( p ); } ); }
MC_JOB_T( "views and slices of arrays of four dimensions" ) { lay::forEach( lay::All< 4 >{}, []( auto p ) { plain( p ); } ); }
#endif

#if PART == 4
/* ------------------------------------------------------------------ nested containers behave like independent ones */
template< typename T > using A1 = LvArray::Array< T, 1, camp::idx_seq< 0 >, IX, Buf >;
using Model2 = std::vector< std::vector< int > >;
struct Nested
{
  using A = A1< A1< int > >;
  enum Kind { EMPLACE, EMPLACE_COPY, INSERT_COPY, ERASE, POP, RESIZE, RESIZE_VALUE, CLEAR, IN_EMPLACE, IN_RESIZE, IN_ERASE, IN_ASSIGN, IN_MOVE, IN_SWAP, COPY, MOVE, WRITE, RESERVE };
  struct Op { Kind k; int a, b; };
  static std::vector< Op > const & ops()
  {
    static std::vector< Op > const v = [] {
      std::vector< Op > o = { { EMPLACE, 0, 0 }, { EMPLACE_COPY, 0, 0 }, { POP, 0, 0 }, { CLEAR, 0, 0 }, { COPY, 0, 0 }, { MOVE, 0, 0 }, { RESERVE, 5, 0 }, { RESIZE_VALUE, 3, 0 } };
      for( int i = 0; i < 3; ++i ) { o.push_back( { INSERT_COPY, i, 0 } ); o.push_back( { ERASE, i, 0 } ); o.push_back( { RESIZE, i, 0 } ); o.push_back( { IN_EMPLACE, i, 0 } ); o.push_back( { IN_RESIZE, i, 2 } ); o.push_back( { IN_ERASE, i, 0 } ); o.push_back( { WRITE, i, 0 } ); }
      for( int i = 0; i < 2; ++i ) for( Kind k : { IN_ASSIGN, IN_MOVE, IN_SWAP } ) o.push_back( { k, i, 1 - i } );
      return o;
    }();
    return v;
  }
  static int starts() { return 2; }
  static std::string startName( int s ) { return s == 0 ? "empty" : "{ { 1 }, { 2, 3 } }"; }
  std::unique_ptr< A > a; Model2 m; int seed = 3;
  Nested( int s ) { a = std::make_unique< A >(); if( s ) { a->resize( 2 ); ( *a )[ 0 ].emplace_back( 1 ); ( *a )[ 1 ].emplace_back( 2 ); ( *a )[ 1 ].emplace_back( 3 ); m = { { 1 }, { 2, 3 } }; } }
  int nOps() const { return int( ops().size() ); }
  std::string opName( int i ) const
  { static char const * const n[] = { "emplace_back()", "emplace_back( copy of the first )", "insert a copy", "erase", "pop_back", "resize", "resize with a value", "clear", "inner emplace_back", "inner resize", "inner erase", "inner assignment", "inner move assignment", "inner swap", "copy", "move", "inner write", "reserve" }; return std::string( n[ ops()[ i ].k ] ) + "(" + std::to_string( ops()[ i ].a ) + ")"; }
  bool enabled( int x ) const
  {
    Op const & o = ops()[ x ]; int const n = int( m.size() );
    switch( o.k )
    {
      case EMPLACE: return n < 4; case EMPLACE_COPY: return n > 0 && n < 4; case INSERT_COPY: return o.a <= n && n < 4; case ERASE: return o.a < n; case POP: return n > 0;
      case IN_EMPLACE: return o.a < n && m[ size_t( o.a ) ].size() < 3; case IN_RESIZE: return o.a < n; case IN_ERASE: case WRITE: return o.a < n && !m[ size_t( o.a ) ].empty();
      case IN_ASSIGN: case IN_MOVE: case IN_SWAP: return n > 1; default: return true;
    }
  }
  void apply( int x )
  {
    Op const & o = ops()[ x ]; A & c = *a;
    switch( o.k )
    {
      case EMPLACE: c.emplace_back(); m.emplace_back(); break;
      case EMPLACE_COPY: { A1< int > const q( c[ 0 ] ); c.emplace_back( q ); m.push_back( std::vector< int >( m[ 0 ] ) ); break; }
      case INSERT_COPY: { A1< int > q; q.emplace_back( ++seed ); q.emplace_back( ++seed ); c.emplace( o.a, q ); m.insert( m.begin() + o.a, { seed - 1, seed } ); break; }
      case ERASE: c.erase( o.a ); m.erase( m.begin() + o.a ); break;
      case POP: c.pop_back(); m.pop_back(); break;
      case RESIZE: c.resize( o.a ); m.resize( size_t( o.a ) ); break;
      case RESIZE_VALUE: { A1< int > q; q.emplace_back( 7 ); c.resizeDefault( o.a, q ); m.resize( size_t( o.a ), { 7 } ); break; }
      case CLEAR: c.clear(); m.clear(); break;
      case IN_EMPLACE: c[ o.a ].emplace_back( ++seed ); m[ size_t( o.a ) ].push_back( seed ); break;
      case IN_RESIZE: c[ o.a ].resize( o.b ); m[ size_t( o.a ) ].resize( size_t( o.b ) ); break;
      case IN_ERASE: c[ o.a ].erase( 0 ); m[ size_t( o.a ) ].erase( m[ size_t( o.a ) ].begin() ); break;
      case IN_ASSIGN: c[ o.a ] = static_cast< A1< int > const & >( c[ o.b ] ); m[ size_t( o.a ) ] = m[ size_t( o.b ) ]; break;
      case IN_MOVE: c[ o.a ] = std::move( c[ o.b ] ); c[ o.b ] = A1< int >(); m[ size_t( o.a ) ] = m[ size_t( o.b ) ]; m[ size_t( o.b ) ].clear(); break;
      case IN_SWAP: { std::swap( c[ o.a ], c[ o.b ] ); std::swap( m[ size_t( o.a ) ], m[ size_t( o.b ) ] ); break; }
      case COPY: { auto b = std::make_unique< A >( static_cast< A const & >( c ) ); for( IX i = 0; i < c.size(); ++i ) for( int & v : c[ i ] ) v = -v; a = std::move( b ); break; }
      case MOVE: { auto b = std::make_unique< A >( std::move( c ) ); MC_EQ( long( c.size() ), 0l, "size of a moved-from container" ); a = std::move( b ); break; }
      case WRITE: { auto const v = c.toNestedView(); v[ o.a ][ 0 ] = ++seed; m[ size_t( o.a ) ][ 0 ] = seed; break; }
      case RESERVE: c.reserve( o.a ); break;
    }
  }
  void check() const
  {
    MC_EQ( long( a->size() ), long( m.size() ), "number of inner containers" );
    auto const v = a->toNestedViewConst();
    for( size_t i = 0; i < m.size(); ++i )
    {
      MC_EQ( long( ( *a )[ IX( i ) ].size() ), long( m[ i ].size() ), "size of inner container " << i );
      for( size_t j = 0; j < m[ i ].size(); ++j ) { MC_EQ( ( *a )[ IX( i ) ][ IX( j ) ], m[ i ][ j ], "value " << j << " of inner container " << i ); MC_EQ( v[ IX( i ) ][ IX( j ) ], m[ i ][ j ], "value " << j << " of inner view " << i ); }
      for( size_t j = 0; j < i; ++j ) if( !m[ i ].empty() && !m[ j ].empty() ) MC_CHECK( ( *a )[ IX( i ) ].data() != ( *a )[ IX( j ) ].data(), "two inner containers share memory" );
    }
  }
  void key( mc::Key & k ) const
  {
    std::map< int, long > names; auto id = [&]( int v ) { return names.emplace( v, long( names.size() ) ).first->second; };
    k.add( long( a->capacity() ) ); for( size_t i = 0; i < m.size(); ++i ) { k.add( -1l ); k.add( long( ( *a )[ IX( i ) ].capacity() ) ); for( int v : m[ i ] ) k.add( v == 0 || v == 7 ? v + 1000l : id( v ) ); }
  }
};
MC_JOB( "histories of an array of arrays" ) { mc::exploreHistories< Nested >( { .depth = mc::thorough() ? 6 : 4, .noMerge = 2, .leakCheck = true } ); }

/* Rows of arrays, and sets of strings in arrays. */
struct NestedRows
{
  using A = LvArray::ArrayOfArrays< A1< int >, IX, Buf >;
  using Model = std::vector< Model2 >;
  struct Op { int k, a, b; };
  static std::vector< Op > const & ops()
  {
    static std::vector< Op > const v = [] {
      std::vector< Op > o;
      o.push_back( { 0, 0, 0 } ); o.push_back( { 0, 2, 0 } ); o.push_back( { 13, 0, 0 } ); o.push_back( { 14, 0, 0 } );
      for( int i = 0; i < 2; ++i ) { for( int k : { 1, 2, 3, 4, 5, 12 } ) o.push_back( { k, i, 0 } ); for( int j = 0; j < 2; ++j ) for( int k : { 6, 7, 8, 9, 10 } ) o.push_back( { k, i, j } ); }
      o.push_back( { 11, 0, 0 } );
      return o;
    }();
    return v;
  }
  static int starts() { return 2; }
  static std::string startName( int s ) { return s == 0 ? "empty" : "two rows of one array"; }
  std::unique_ptr< A > a; Model m; int seed = 2;
  NestedRows( int s ) { a = std::make_unique< A >(); if( s ) for( int i = 0; i < 2; ++i ) { a->appendArray( 1 ); ( *a )( i, 0 ).emplace_back( i + 1 ); m.push_back( { { i + 1 } } ); } }
  int nOps() const { return int( ops().size() ); }
  std::string opName( int i ) const
  { static char const * const n[] = { "appendArray", "eraseArray", "emplaceBack", "setCapacityOfArray 3", "resizeArray 0", "resizeArray 2", "emplace", "eraseFromArray", "inner emplace_back", "inner clear", "inner assignment from (0,0)", "compress", "insertArray", "copy", "move" }; return std::string( n[ ops()[ i ].k ] ) + "(" + std::to_string( ops()[ i ].a ) + "," + std::to_string( ops()[ i ].b ) + ")"; }
  bool enabled( int x ) const
  {
    Op const & o = ops()[ x ]; int const n = int( m.size() );
    if( o.k == 0 ) return n < 3; if( o.k == 11 || o.k >= 13 ) return true; if( o.k == 12 ) return o.a <= n && n < 3;
    if( o.a >= n ) return false; size_t const s = m[ size_t( o.a ) ].size();
    if( o.k == 2 ) return s < 3; if( o.k == 6 ) return size_t( o.b ) <= s && s < 3; if( o.k == 3 ) return s <= 3;
    if( o.k == 7 || o.k == 9 ) return size_t( o.b ) < s; if( o.k == 8 ) return size_t( o.b ) < s && m[ size_t( o.a ) ][ size_t( o.b ) ].size() < 3;
    if( o.k == 10 ) return size_t( o.b ) < s && !m[ 0 ].empty();
    return true;
  }
  void apply( int x )
  {
    Op const & o = ops()[ x ]; A & c = *a; size_t const i = size_t( o.a ), j = size_t( o.b );
    A1< int > q; q.emplace_back( seed + 1 ); std::vector< int > const mq = { seed + 1 };
    switch( o.k )
    {
      case 0: c.appendArray( o.a ); m.emplace_back( i ); break;
      case 1: c.eraseArray( o.a ); m.erase( m.begin() + o.a ); break;
      case 2: ++seed; c.emplaceBack( o.a, q ); m[ i ].push_back( mq ); break;
      case 3: c.setCapacityOfArray( o.a, 3 ); break;
      case 4: c.resizeArray( o.a, 0 ); m[ i ].clear(); break;
      case 5: c.resizeArray( o.a, 2 ); m[ i ].resize( 2 ); break;
      case 6: ++seed; c.emplace( o.a, o.b, q ); m[ i ].insert( m[ i ].begin() + o.b, mq ); break;
      case 7: c.eraseFromArray( o.a, o.b ); m[ i ].erase( m[ i ].begin() + o.b ); break;
      case 8: ++seed; c( o.a, o.b ).emplace_back( seed ); m[ i ][ j ].push_back( seed ); break;
      case 9: c( o.a, o.b ).clear(); m[ i ][ j ].clear(); break;
      case 10: { A1< int > const t( c( 0, 0 ) ); c( o.a, o.b ) = t; std::vector< int > const mt( m[ 0 ][ 0 ] ); m[ i ][ j ] = mt; break; }
      case 11: c.compress(); break;
      case 12: { ++seed; A1< int > const v[ 2 ] = { q, A1< int >() }; c.insertArray( o.a, v, v + 2 ); m.insert( m.begin() + o.a, Model2{ mq, {} } ); break; }
      case 13: { auto b = std::make_unique< A >( static_cast< A const & >( c ) ); for( size_t r = 0; r < m.size(); ++r ) for( size_t s = 0; s < m[ r ].size(); ++s ) for( int & v : c( IX( r ), IX( s ) ) ) v = -v; a = std::move( b ); break; }
      case 14: { auto b = std::make_unique< A >( std::move( c ) ); a = std::move( b ); break; }
    }
  }
  void check() const
  {
    MC_EQ( long( a->size() ), long( m.size() ), "number of rows" );
    auto const v = a->toViewConst();
    for( size_t i = 0; i < m.size(); ++i )
    {
      MC_EQ( long( a->sizeOfArray( IX( i ) ) ), long( m[ i ].size() ), "size of row " << i );
      for( size_t j = 0; j < m[ i ].size(); ++j )
      {
        A1< int > const & q = ( *a )( IX( i ), IX( j ) ); MC_EQ( long( q.size() ), long( m[ i ][ j ].size() ), "size of inner container " << i << "," << j );
        for( size_t k = 0; k < m[ i ][ j ].size(); ++k ) { MC_EQ( q[ IX( k ) ], m[ i ][ j ][ k ], "value " << k << " of inner container " << i << "," << j ); MC_EQ( v( IX( i ), IX( j ) )[ IX( k ) ], m[ i ][ j ][ k ], "value of the view" ); }
      }
    }
  }
  void key( mc::Key & k ) const
  {
    std::map< int, long > names; auto id = [&]( int v ) { return names.emplace( v, long( names.size() ) ).first->second; };
    for( size_t i = 0; i < m.size(); ++i ) { k.add( -1l ); k.add( long( a->capacityOfArray( IX( i ) ) ) ); for( size_t j = 0; j < m[ i ].size(); ++j ) { k.add( -2l ); k.add( long( ( *a )( IX( i ), IX( j ) ).capacity() ) ); for( int v : m[ i ][ j ] ) k.add( id( v ) ); } }
  }
};
MC_JOB( "histories of rows of arrays" ) { mc::exploreHistories< NestedRows >( { .depth = mc::thorough() ? 6 : 4, .noMerge = 2, .leakCheck = true } ); }
#endif
MC_MAIN
