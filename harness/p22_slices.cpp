/* P22: slice traversal, sums over the first dimension, and copies between (parts of) arrays. */
#include "lv.hpp"
#include "layouts.hpp"
#include "Array.hpp"
#include "MallocBuffer.hpp"
#include "StackBuffer.hpp"
#include "sliceHelpers.hpp"
#include "memcpy.hpp"
using LvArray::MallocBuffer;
template< typename T > using Stack8 = LvArray::StackBuffer< T, 8 >;

template< size_t N > std::string str( std::array< long, N > const & a )
{ std::ostringstream o; for( auto v : a ) o << v << " "; return o.str(); }

/* ---- traversal: the slice of an array obtained by every sequence of leading indices ---- */
template< int LEFT > struct Visit
{
  template< size_t N, typename S > static void run( S const & s, std::array< long, N > const & e, std::array< long, N > const & lead, std::function< int &( std::array< long, N > const & ) > at )
  {
    constexpr int TAKEN = int( N ) - LEFT;
    std::array< long, LEFT > rest; for( int k = 0; k < LEFT; ++k ) rest[ k ] = e[ TAKEN + k ];
    auto const full = [&]( std::array< long, LEFT > const & x ) { auto f = lead; for( int k = 0; k < LEFT; ++k ) f[ TAKEN + k ] = x[ k ]; return f; };
    std::vector< std::pair< int *, std::vector< long > > > want, got; std::vector< int * > gotV;
    lay::forAll( rest, [&]( std::array< long, LEFT > const & x ) { want.push_back( { &at( full( x ) ), std::vector< long >( x.begin(), x.end() ) } ); } );
    auto check = [&]( char const * who ) {
      MC_EQ( gotV.size(), want.size(), who << ": number of values visited" );
      for( size_t k = 0; k < want.size(); ++k ) MC_CHECK( gotV[ k ] == want[ k ].first, who << ": visit " << k << " is not the value at the multi-index with that rank" );
      gotV.clear();
    };
    auto checkI = [&]( char const * who ) {
      MC_EQ( got.size(), want.size(), who << ": number of values visited" );
      for( size_t k = 0; k < want.size(); ++k ) { MC_CHECK( got[ k ].first == want[ k ].first, who << ": visit " << k << " is not the value at the multi-index with that rank" ); MC_CHECK( got[ k ].second == want[ k ].second, who << ": visit " << k << " is given the wrong indices" ); }
      got.clear();
    };
    LvArray::forValuesInSlice( s, [&]( int & v ) { gotV.push_back( &v ); } ); check( "forValuesInSlice" );
    LvArray::forValuesInSlice( s.toSliceConst(), [&]( int const & v ) { gotV.push_back( const_cast< int * >( &v ) ); } ); check( "forValuesInSlice of a const slice" );
    LvArray::forValuesInSliceWithIndices( s, [&]( int & v, auto const ... is ) { static_assert( sizeof...( is ) == LEFT, "one index per dimension" ); got.push_back( { &v, std::vector< long >{ long( is ) ... } } ); } ); checkI( "forValuesInSliceWithIndices" );
    LvArray::forValuesInSliceWithIndices( s.toSliceConst(), [&]( int const & v, auto const ... is ) { got.push_back( { const_cast< int * >( &v ), std::vector< long >{ long( is ) ... } } ); } ); checkI( "forValuesInSliceWithIndices of a const slice" );
    // writing through the traversal reaches exactly the slice
    int base = 1000; LvArray::forValuesInSlice( s, [&]( int & v ) { v += base; ++base; } );
    for( size_t k = 0; k < want.size(); ++k ) { MC_CHECK( *want[ k ].first >= 1000, "a value was not visited by a writing traversal" ); *want[ k ].first -= 1000 + int( k ); }
    if constexpr( LEFT > 1 ) for( long i = 0; i < rest[ 0 ]; ++i ) { auto l = lead; l[ TAKEN ] = i; Visit< LEFT - 1 >::template run< N >( s[ i ], e, l, at ); }
  }
};
template< typename PERM, size_t N, typename INDEX > void regVisit( int maxE )
{
  mc::jobs().push_back( { "traverse layout " + lay::name( PERM{} ) + ( sizeof( INDEX ) == 4 ? " int" : "" ), [=] {
    mc::g().bound += std::to_string( N ) + " dimensions with extents 0.." + std::to_string( maxE ) + "; ";
    mc::enumerate( [&]( mc::Chooser & c ) {
      std::array< long, N > e; std::array< INDEX, N > d; for( size_t k = 0; k < N; ++k ) d[ k ] = INDEX( e[ k ] = c.choose( maxE + 1, "extent" ) );
      c.noteIf( [&] { return "extents " + str( e ); } );
      LvArray::Array< int, int( N ), PERM, INDEX, MallocBuffer > a; a.resize( int( N ), d.data() );
      int v = 1; lay::forAll( e, [&]( std::array< long, N > const & x ) { lay::call( a, x ) = v++; } );
      std::array< long, N > lead{};
      Visit< int( N ) >::template run< N >( a.toSlice(), e, lead, [&]( std::array< long, N > const & x ) -> int & { return lay::call( a, x ); } );
      v = 1; lay::forAll( e, [&]( std::array< long, N > const & x ) { MC_EQ( lay::call( a, x ), v, "value after writing traversals" ); ++v; } );
    }, false ); }, false } );
}
/* ---- sums ---- */
template< typename SP, typename DP, size_t N > void regSum( int maxE )
{
  mc::jobs().push_back( { "sum layout " + lay::name( SP{} ) + " into " + lay::name( DP{} ), [=] {
    mc::enumerate( [&]( mc::Chooser & c ) {
      std::array< long, N > e; for( auto & x : e ) x = c.choose( maxE + 1, "extent" );
      std::array< long, N - 1 > r; for( size_t k = 0; k + 1 < N; ++k ) r[ k ] = e[ k + 1 ];
      bool const wrong = c.flag( "destination of another shape" ); if( wrong ) r[ c.choose( int( N ) - 1, "dimension" ) ] += 1;
      c.noteIf( [&] { return "extents " + str( e ) + "into " + str( r ); } );
      LvArray::Array< int, int( N ), SP, long, MallocBuffer > s; s.resize( int( N ), e.data() );
      LvArray::Array< int, int( N - 1 ), DP, long, MallocBuffer > d; d.resize( int( N - 1 ), r.data() );
      int v = 1; lay::forAll( e, [&]( std::array< long, N > const & x ) { lay::call( s, x ) = v; v = v * 3 % 1009; } );
      lay::forAll( r, [&]( std::array< long, N - 1 > const & x ) { lay::call( d, x ) = v; v = v * 3 % 1009; } );
      auto const s0 = s; auto const d0 = d;
      if( wrong ) MC_CHECK( mc::throwsError( [&] { LvArray::sumOverFirstDimension( s.toSliceConst(), d.toSlice() ); } ), "a destination of another shape is not reported" );
      else LvArray::sumOverFirstDimension( s.toSliceConst(), d.toSlice() );
      lay::forAll( e, [&]( std::array< long, N > const & x ) { MC_EQ( lay::call( s, x ), lay::call( s0, x ), "source value" ); } );
      lay::forAll( r, [&]( std::array< long, N - 1 > const & x ) {
        int want = lay::call( d0, x ); std::array< long, N > y; for( size_t k = 0; k + 1 < N; ++k ) y[ k + 1 ] = x[ k ];
        if( !wrong ) for( y[ 0 ] = 0; y[ 0 ] < e[ 0 ]; ++y[ 0 ] ) want += lay::call( s0, y );
        MC_EQ( lay::call( d, x ), want, "sum" ); } );
    }, false ); }, false } );
}
#if PART == 0
MC_JOB( "sum of one dimension" )
{
  mc::enumerate( []( mc::Chooser & c ) {
    int const m = c.choose( 6, "columns" ), n = c.choose( 6, "rows" );
    LvArray::Array< int, 1, camp::idx_seq< 0 >, long, MallocBuffer > a( n ); int v = 1, want = 77;
    for( int i = 0; i < n; ++i ) { a[ i ] = v; want += v; v *= 7; }
    int dst = 77; LvArray::sumOverFirstDimension( a.toSliceConst(), dst ); MC_EQ( dst, want, "sum of a vector" );
    LvArray::Array< int, 2, camp::idx_seq< 1, 0 >, long, MallocBuffer > b( m, n );
    v = 1; for( int i = 0; i < m; ++i ) for( int j = 0; j < n; ++j ) b( i, j ) = v = v * 7 % 1009;
    for( int i = 0; i < m; ++i ) { want = dst = 5; for( int j = 0; j < n; ++j ) want += b( i, j ); LvArray::sumOverFirstDimension( b[ i ].toSliceConst(), dst ); MC_EQ( dst, want, "sum of a strided vector" ); }
    int x = 3; LvArray::forValuesInSlice( x, []( int & y ) { y = 4; } ); MC_EQ( x, 4, "a single value is visited" );
    x = 3; LvArray::forValuesInSliceWithIndices( x, []( int & y, int i, long j ) { y = int( i * 10 + j ); }, 4, 2l ); MC_EQ( x, 42, "a single value is visited with its indices" );
  }, false );
}
#endif

/* ---- copies ---- */
struct Odd { char c[ 3 ]; bool operator==( Odd const & o ) const { return !std::memcmp( c, o.c, 3 ); } };
template< typename T > struct Mk { static T make( int v ) { return T( v ); } };
template<> struct Mk< Odd > { static Odd make( int v ) { return { { char( v ), char( v >> 8 ), char( v * 7 ) } }; } };

template< typename T, typename DP, typename SP, int NDI, int NSI, typename DI, typename SI >
struct Copy
{
  static constexpr int DN = int( lay::rank( DP{} ) ), SN = int( lay::rank( SP{} ) ), L = DN - NDI;
  using D = LvArray::Array< T, DN, DP, DI, MallocBuffer >;
  using S = LvArray::Array< T, SN, SP, SI, MallocBuffer >;
  static void run( mc::Chooser & c, int maxE, int how )
  {
    std::array< long, size_t( DN ) > de; std::array< long, size_t( SN ) > se; std::array< DI, size_t( DN ) > dd; std::array< SI, size_t( SN ) > sd;
    for( int k = 0; k < L; ++k ) de[ NDI + k ] = se[ NSI + k ] = c.choose( maxE + 1, "extent" );
    bool const wrong = c.flag( "another shape" );
    if( wrong ) se[ NSI + c.choose( L, "dimension" ) ] += 1;
    std::array< DI, size_t( NDI ) > di{}; std::array< SI, size_t( NSI ) > si{};
    for( int k = 0; k < NDI; ++k ) { de[ k ] = 1 + c.choose( 2, "leading extent" ); di[ k ] = DI( c.choose( int( de[ k ] ), "destination index" ) ); }
    for( int k = 0; k < NSI; ++k ) { se[ k ] = 1 + c.choose( 2, "leading extent" ); si[ k ] = SI( c.choose( int( se[ k ] ), "source index" ) ); }
    for( int k = 0; k < DN; ++k ) dd[ k ] = DI( de[ k ] ); for( int k = 0; k < SN; ++k ) sd[ k ] = SI( se[ k ] );
    c.noteIf( [&] { return "destination " + str( de ) + "source " + str( se ); } );
    D d; S s; d.resize( DN, dd.data() ); s.resize( SN, sd.data() );
    int v = 1; lay::forAll( de, [&]( auto const & x ) { lay::call( d, x ) = Mk< T >::make( v++ ); } );
    lay::forAll( se, [&]( auto const & x ) { lay::call( s, x ) = Mk< T >::make( v++ ); } );
    D const d0( d ); S const s0( s );
    // does the copy have to succeed, may it be refused, or must it be?
    bool same = true; long n = 1, m = 1; std::vector< std::pair< long, long > > st;
    for( int k = 0; k < L; ++k ) { n *= de[ NDI + k ]; m *= se[ NSI + k ]; same = same && long( d.strides()[ NDI + k ] ) == long( s.strides()[ NSI + k ] ); st.push_back( { long( d.strides()[ NDI + k ] ), de[ NDI + k ] } ); }
    std::sort( st.begin(), st.end() ); bool dense = true; long p = 1; for( auto & x : st ) { dense = dense && x.first == p; p *= x.second; }
    bool const must = !wrong && same && ( dense || n == 0 ), mustNot = wrong && n != m;
    int copied = 0;
    bool const refused = mc::throwsError( [&] {
      if( how == 0 ) LvArray::memcpy< size_t( NDI ), size_t( NSI ) >( d.toView(), di, s.toViewConst(), si );
      else { camp::resources::Resource r = how == 1 ? camp::resources::Resource( camp::resources::Host() ) : camp::resources::Resource( camp::resources::Cuda() ); auto ev = LvArray::memcpy< size_t( NDI ), size_t( NSI ) >( r, d.toView(), di, s.toViewConst(), si ); ev.wait(); MC_EQ( ev.id(), how, "the event belongs to the resource" ); }
      copied = 1;
    } );
    MC_CHECK( refused || copied, "copy neither refused nor done" );
    if( must ) MC_CHECK( !refused, "a copy between equal shapes and layouts is refused" );
    if( mustNot ) MC_CHECK( refused, "a copy between different sizes is not refused" );
    lay::forAll( se, [&]( auto const & x ) { MC_CHECK( lay::call( s, x ) == lay::call( s0, x ), "the source changed" ); } );
    for( int k = 0; k < DN; ++k ) MC_EQ( long( d.size( k ) ), de[ k ], "destination extent" );
    lay::forAll( de, [&]( auto const & x ) {
      bool in = !refused && !( wrong && n == 0 ); for( int k = 0; k < NDI; ++k ) in = in && x[ k ] == di[ k ];
      if( !in ) { MC_CHECK( lay::call( d, x ) == lay::call( d0, x ), "an element that was not addressed changed" ); return; }
      if( wrong ) return;
      std::array< long, size_t( SN ) > y; for( int k = 0; k < NSI; ++k ) y[ k ] = si[ k ]; for( int k = 0; k < L; ++k ) y[ NSI + k ] = x[ NDI + k ];
      MC_CHECK( lay::call( d, x ) == lay::call( s0, y ), "element " << str( x ) << "of the destination is not the source's" );
    } );
    mc::outcome( refused ? "refused" : "copied" );
  }
};
template< typename T, typename DP, typename SP, int NDI, int NSI, typename DI = long, typename SI = long > void regCopy( int maxE )
{
  constexpr int DN = int( lay::rank( DP{} ) ), SN = int( lay::rank( SP{} ) );
  if constexpr( NDI < DN && NSI < SN && DN - NDI == SN - NSI && lay::last( DP{} ) >= NDI && lay::last( DP{} ) - NDI == lay::last( SP{} ) - NSI )
    mc::jobs().push_back( { "copy " + lay::name( SP{} ) + " after " + std::to_string( NSI ) + " indices to " + lay::name( DP{} ) + " after " + std::to_string( NDI ) + ", " + std::to_string( sizeof( T ) ) + " byte elements, " + std::to_string( sizeof( DI ) * 10 + sizeof( SI ) ), [=] {
      mc::g().bound += "extents 0.." + std::to_string( maxE ) + "; ";
      mc::enumerate( [&]( mc::Chooser & c ) { Copy< T, DP, SP, NDI, NSI, DI, SI >::run( c, maxE, c.choose( 3, "plain, host resource, other resource" ) ); }, false ); }, false } );
}
template< typename T, int DN, int SN, typename DI, typename SI > void regCopies( int maxE )
{
  lay::forEach( lay::All< DN >{}, [&]( auto d ) { lay::forEach( lay::All< SN >{}, [&]( auto s ) {
    using D = decltype( d ); using S = decltype( s );
    if constexpr( SN >= DN ) regCopy< T, D, S, 0, SN - DN, DI, SI >( maxE );
    if constexpr( SN - DN + 1 >= 0 ) regCopy< T, D, S, 1, SN - DN + 1, DI, SI >( maxE );
    if constexpr( SN - DN + 2 >= 0 ) regCopy< T, D, S, 2, SN - DN + 2, DI, SI >( maxE );
    if constexpr( SN - DN + 3 >= 0 ) regCopy< T, D, S, 3, SN - DN + 3, DI, SI >( maxE ); } ); } );
}

#if PART == 1
/* whole slices, and rows of one array */
template< typename PERM, size_t N > void regSliceCopy( int maxE )
{
  mc::jobs().push_back( { "copy slices of layout " + lay::name( PERM{} ), [=] {
    mc::enumerate( [&]( mc::Chooser & c ) {
      std::array< long, N > e, f; std::array< int, N > fi; for( size_t k = 0; k < N; ++k ) { e[ k ] = c.choose( maxE + 1, "extent" ); f[ k ] = e[ k ]; }
      bool const wrong = c.flag( "another shape" ); if( wrong ) f[ c.choose( N, "dimension" ) ] += 1;
      for( size_t k = 0; k < N; ++k ) fi[ k ] = int( f[ k ] );
      LvArray::Array< short, int( N ), PERM, long, MallocBuffer > d; LvArray::Array< short, int( N ), PERM, int, MallocBuffer > s; d.resize( int( N ), e.data() ); s.resize( int( N ), fi.data() );
      short v = 1; lay::forAll( e, [&]( auto const & x ) { lay::call( d, x ) = v++; } ); lay::forAll( f, [&]( auto const & x ) { lay::call( s, x ) = v++; } );
      auto const d0 = d;
      bool const refused = mc::throwsError( [&] { LvArray::memcpy( d.toSlice(), s.toSliceConst() ); } );
      long n = 1, m = 1; for( size_t k = 0; k < N; ++k ) { n *= e[ k ]; m *= f[ k ]; }
      if( !wrong ) MC_CHECK( !refused, "a copy between equal shapes is refused" );
      if( n != m ) MC_CHECK( refused, "a copy between different sizes is not refused" );
      v = 1 + short( n );
      lay::forAll( e, [&]( auto const & x ) { if( refused ) MC_EQ( lay::call( d, x ), lay::call( d0, x ), "destination after a refused copy" ); else MC_EQ( lay::call( d, x ), lay::call( s, x ), "copied value" ); } );
      lay::forAll( f, [&]( auto const & x ) { MC_EQ( lay::call( s, x ), v, "source value" ); ++v; } );
    }, false ); }, false } );
}
MC_JOB( "copy a row of an array to another of its rows, and between buffer types" )
{
  mc::enumerate( []( mc::Chooser & c ) {
    int const n = 2 + c.choose( 3, "rows" ), m = c.choose( 4, "columns" ), i = c.choose( n, "from" ), j = c.choose( n, "to" ); if( i == j ) return;
    LvArray::Array< int, 2, camp::idx_seq< 0, 1 >, long, MallocBuffer > a( n, m ); int v = 1; for( int k = 0; k < n; ++k ) for( int l = 0; l < m; ++l ) a( k, l ) = v++;
    auto const b = a;
    LvArray::memcpy< 1, 1 >( a.toView(), { j }, a.toViewConst(), { i } );
    for( int k = 0; k < n; ++k ) for( int l = 0; l < m; ++l ) MC_EQ( a( k, l ), b( k == j ? i : k, l ), "row copy" );
    LvArray::memcpy( a[ i ], b[ j ].toSliceConst() ); for( int l = 0; l < m; ++l ) MC_EQ( a( i, l ), b( j, l ), "row slice copy" );
    for( int k = 0; k < n; ++k ) if( k != i && k != j ) for( int l = 0; l < m; ++l ) MC_EQ( a( k, l ), b( k, l ), "other rows" );
    LvArray::Array< int, 1, camp::idx_seq< 0 >, int, Stack8 > q( m );
    for( int l = 0; l < m; ++l ) q[ l ] = -l;
    LvArray::memcpy< 0, 1 >( q, {}, b.toViewConst(), { i } ); for( int l = 0; l < m; ++l ) MC_EQ( q[ l ], b( i, l ), "row copied to a stack array" );
  }, false );
}
#endif

static int all = [] {
#if PART == 0
  lay::forEach( lay::All< 1 >{}, []( auto p ) { regVisit< decltype( p ), 1, int >( 6 ); } );
  lay::forEach( lay::All< 2 >{}, []( auto p ) { regVisit< decltype( p ), 2, int >( 4 ); } );
  lay::forEach( lay::All< 3 >{}, []( auto p ) { regVisit< decltype( p ), 3, long >( mc::thorough() ? 4 : 3 ); } );
  lay::forEach( lay::All< 4 >{}, []( auto p ) { regVisit< decltype( p ), 4, long >( mc::thorough() ? 3 : 2 ); } );
  lay::forEach( lay::All< 2 >{}, []( auto p ) { regSum< decltype( p ), camp::idx_seq< 0 >, 2 >( 4 ); } );
  lay::forEach( lay::All< 3 >{}, []( auto p ) { lay::forEach( lay::All< 2 >{}, [=]( auto q ) { regSum< decltype( p ), decltype( q ), 3 >( 3 ); } ); } );
  lay::forEach( lay::All< 4 >{}, []( auto p ) { lay::forEach( lay::All< 3 >{}, [=]( auto q ) { regSum< decltype( p ), decltype( q ), 4 >( 2 ); } ); } );
#elif PART == 1
  lay::forEach( lay::All< 1 >{}, []( auto p ) { regSliceCopy< decltype( p ), 1 >( 5 ); } );
  lay::forEach( lay::All< 2 >{}, []( auto p ) { regSliceCopy< decltype( p ), 2 >( 4 ); } );
  lay::forEach( lay::All< 3 >{}, []( auto p ) { regSliceCopy< decltype( p ), 3 >( 3 ); } );
  lay::forEach( lay::All< 4 >{}, []( auto p ) { regSliceCopy< decltype( p ), 4 >( 2 ); } );
  regCopies< int, 1, 1, long, long >( 4 ); regCopies< Odd, 2, 2, int, long >( 3 ); regCopies< double, 1, 2, long, int >( 4 ); regCopies< Odd, 1, 3, int, int >( 3 );
#elif PART == 2
  regCopies< int, 3, 3, long, long >( 2 ); regCopies< Odd, 2, 3, long, int >( 3 );
#elif PART == 3
  regCopies< char, 3, 2, int, long >( 3 ); regCopies< int, 2, 1, int, int >( 3 ); regCopies< double, 3, 1, int, long >( 3 );
  regCopies< long, 4, 3, long, long >( 2 );
#endif
  return 0;
}();
MC_MAIN
