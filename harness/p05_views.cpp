/* Any number of views of one container alias it: what is written through one is read through all. */
#include "lv.hpp"
#include "layouts.hpp"
#include "elem.hpp"
#include "Array.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "CRSMatrix.hpp"
#include "SortedArray.hpp"
#include "MallocBuffer.hpp"
using LvArray::MallocBuffer;

template< typename P > void arrayCase( mc::Chooser & c )
{
  constexpr size_t N = lay::rank( P{} );
  using A = LvArray::Array< int, int( N ), P, long, MallocBuffer >;
  std::array< long, N > d; for( long & x : d ) x = c.choose( 4, "extent" );
  A owner; std::apply( [&]( auto... x ) { owner.resize( x ... ); }, d );
  using NV = std::remove_const_t< decltype( owner.toView() ) >; using NVC = std::remove_const_t< decltype( owner.toViewConst() ) >;
  NV v0 = owner.toView(), v1( v0 ), v2; v2 = v1;
  NV tmp( v0 ); NV v3( std::move( tmp ) );
  NV tmp2( v0 ); NV v4; v4 = std::move( tmp2 );
  NV v5 = v2.toView();
  NVC r0 = owner.toViewConst(), r1 = v3.toViewConst(), r2( r0 ), r3; r3 = r2; NVC r4 = v4;
  auto s0 = owner.toSlice(); auto s1 = v2.toSlice(); auto t0 = owner.toSliceConst(); auto t1 = r1.toSlice();
  NV nested = owner.toNestedView(); NVC nestedC = owner.toNestedViewConst();
  auto shape = [&]( auto const & x, char const * w ) { for( size_t k = 0; k < N; ++k ) { MC_EQ( long( x.size( int( k ) ) ), d[ k ], w << " extent " << k ); } MC_CHECK( x.size() == owner.size(), w << " size" ); };
  shape( v0, "view" ); shape( v1, "copied view" ); shape( v2, "assigned view" ); shape( v3, "moved view" ); shape( v4, "move-assigned view" ); shape( v5, "view of a view" ); shape( r0, "const view" ); shape( r1, "const view of a view" ); shape( r3, "assigned const view" ); shape( r4, "converted view" ); shape( s0, "slice" ); shape( s1, "slice of a view" ); shape( t0, "const slice" ); shape( t1, "slice of a const view" ); shape( nested, "nested view" ); shape( nestedC, "nested const view" );
  int fresh = 0;
  auto readAll = [&]( std::array< long, N > const & x, int e, int writer ) {
    auto chk = [&]( auto const & y, char const * w ) { MC_EQ( lay::call( y, x ), e, "written through writer " << writer << ", read through " << w ); MC_CHECK( &lay::call( y, x ) == &lay::call( owner, x ), w << " does not alias the owner" ); };
    chk( owner, "owner" ); chk( v0, "view" ); chk( v1, "copied view" ); chk( v2, "assigned view" ); chk( v3, "moved view" ); chk( v4, "move-assigned view" ); chk( v5, "view of a view" ); chk( r0, "const view" ); chk( r1, "const view of a view" ); chk( r2, "copied const view" ); chk( r3, "assigned const view" ); chk( r4, "converted view" ); chk( s0, "slice" ); chk( s1, "slice of a view" ); chk( t0, "const slice" ); chk( t1, "slice of a const view" ); chk( nested, "nested view" ); chk( nestedC, "nested const view" ); };
  lay::forAll( d, [&]( std::array< long, N > const & x ) {
    for( int w = 0; w < 9; ++w )
    {
      int const e = ++fresh;
      switch( w ) { case 0: lay::call( owner, x ) = e; break; case 1: lay::call( v0, x ) = e; break; case 2: lay::call( v1, x ) = e; break; case 3: lay::call( v2, x ) = e; break; case 4: lay::call( v3, x ) = e; break; case 5: lay::call( v4, x ) = e; break; case 6: lay::call( v5, x ) = e; break; case 7: lay::call( s1, x ) = e; break; case 8: lay::call( nested, x ) = e; break; }
      readAll( x, e, w );
    }
  } );
  /* a copy of the owner is not part of this */
  A other( owner ); lay::forAll( d, [&]( std::array< long, N > const & x ) { lay::call( v1, x ) = -1; MC_CHECK( lay::call( other, x ) != -1, "a copy of the owner shares its storage" ); } );
  /* views survive moving the owner: the storage is the same */
  A heir( std::move( owner ) ); lay::forAll( d, [&]( std::array< long, N > const & x ) { lay::call( v2, x ) = ++fresh; MC_EQ( lay::call( heir, x ), fresh, "view after the owner moved" ); } );
}

template< size_t N > struct RegAll { RegAll() { lay::forEach( lay::All< N >{}, []( auto p ) { using P = decltype( p ); mc::jobs().push_back( { "views of an array " + lay::name( P{} ), [] { mc::enumerate( [&]( mc::Chooser & c ) { arrayCase< P >( c ); }, true ); }, false } ); } ); } };
static RegAll< 1 > r1; static RegAll< 2 > r2; static RegAll< 3 > r3;

MC_JOB( "views of an array of arrays" )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    int const n = c.choose( 4, "arrays" ); LvArray::ArrayOfArrays< int, long, MallocBuffer > o( n, 3 ); std::vector< std::vector< int > > m( n ); int fresh = 0;
    for( int i = 0; i < n; ++i ) { int const k = c.choose( 4, "len" ); for( int j = 0; j < k; ++j ) { o.emplaceBack( i, ++fresh ); m[ i ].push_back( fresh ); } }
    auto v = o.toView(); auto v1 = v; auto v2( std::move( v1 ) ); decltype( v ) v3; v3 = v2; auto cs = o.toViewConstSizes(); auto cs1 = v2.toViewConstSizes(); auto r = o.toViewConst(); auto r1 = v3.toViewConst(); auto r2 = r1;
    auto chk = [&]( char const * w ) {
      auto one = [&]( auto const & x, char const * who ) { MC_EQ( long( x.size() ), long( n ), who << " size after writing through " << w ); for( int i = 0; i < n; ++i ) { MC_EQ( long( x.sizeOfArray( i ) ), long( m[ i ].size() ), who << " inner size after writing through " << w ); for( size_t j = 0; j < m[ i ].size(); ++j ) { MC_EQ( x( i, j ), m[ i ][ j ], who << " after writing through " << w ); MC_EQ( x[ i ][ j ], m[ i ][ j ], who ); } } };
      one( o, "owner" ); one( v, "view" ); one( v2, "moved view" ); one( v3, "assigned view" ); one( cs, "const-sizes view" ); one( cs1, "const-sizes view of a view" ); one( r, "const view" ); one( r1, "const view of a view" ); one( r2, "copied const view" ); };
    chk( "nothing" );
    for( int i = 0; i < n; ++i )
    {
      for( size_t j = 0; j < m[ i ].size(); ++j )
      {
        o( i, j ) = m[ i ][ j ] = ++fresh; chk( "owner" ); v( i, j ) = m[ i ][ j ] = ++fresh; chk( "view" ); v2[ i ][ j ] = m[ i ][ j ] = ++fresh; chk( "moved view" ); cs1( i, j ) = m[ i ][ j ] = ++fresh; chk( "const-sizes view" ); v3( i, j ) = m[ i ][ j ] = ++fresh; chk( "assigned view" );
      }
      if( m[ i ].size() < 3 ) { v3.emplaceBack( i, ++fresh ); m[ i ].push_back( fresh ); chk( "assigned view's emplaceBack" ); v2.eraseFromArray( i, 0 ); m[ i ].erase( m[ i ].begin() ); chk( "moved view's erase" ); }
    }
  }, true );
}
MC_JOB( "views of an array of sets and of a sorted array" )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    int const n = 1 + c.choose( 2, "sets" ); LvArray::ArrayOfSets< int, long, MallocBuffer > o( n, 3 ); std::vector< std::set< int > > m( n );
    for( int i = 0; i < n; ++i ) { int const k = c.choose( 8, "set" ); for( int j = 0; j < 3; ++j ) if( k >> j & 1 ) { o.insertIntoSet( i, j + 1 ); m[ i ].insert( j + 1 ); } }
    auto v = o.toView(); auto v1 = v; auto v2( std::move( v1 ) ); decltype( v ) v3; v3 = v2; auto r = o.toViewConst(); auto r1 = v3.toViewConst(); auto w = o.toArrayOfArraysView();
    auto chk = [&]( char const * who ) { auto one = [&]( auto const & x ) { MC_EQ( long( x.size() ), long( n ), who ); for( int i = 0; i < n; ++i ) { int j = 0; MC_EQ( long( x[ i ].size() ), long( m[ i ].size() ), who ); for( int e : m[ i ] ) MC_EQ( x( i, j++ ), e, who ); } }; one( o ); one( v ); one( v2 ); one( v3 ); one( r ); one( r1 ); one( w ); };
    chk( "fresh" );
    for( int i = 0; i < n; ++i ) for( int e = 1; e <= 3; ++e )
    {
      bool const had = m[ i ].count( e ) > 0;
      if( had ) { MC_EQ( v3.removeFromSet( i, e ), true, "remove" ); m[ i ].erase( e ); chk( "removal through an assigned view" ); MC_EQ( v2.insertIntoSet( i, e ), true, "insert" ); m[ i ].insert( e ); chk( "insertion through a moved view" ); }
      else { MC_EQ( v.insertIntoSet( i, e ), true, "insert" ); m[ i ].insert( e ); chk( "insertion through a view" ); MC_EQ( v3.insertIntoSet( i, e ), false, "insert again" ); MC_EQ( v2.removeFromSet( i, e ), true, "remove" ); m[ i ].erase( e ); chk( "removal through a moved view" ); }
    }
    LvArray::SortedArray< int, long, MallocBuffer > s; s.reserve( 8 ); auto a = s.toView(); 
    for( int e : m[ 0 ] ) s.insert( e );
    auto b = s.toView(); auto d = b; auto e1( std::move( d ) ); auto f = e1; auto g = f.toViewConst();
    for( auto * x : { &b, &e1, &f } ) { MC_EQ( long( x->size() ), long( m[ 0 ].size() ), "sorted view" ); int j = 0; for( int e : m[ 0 ] ) { MC_EQ( ( *x )[ j ], e, "sorted view" ); MC_CHECK( &( *x )[ j ] == s.data() + j, "alias" ); ++j; } }
    MC_CHECK( g.data() == s.data() && g.size() == s.size(), "const view of a sorted view" );
  }, true );
}
MC_JOB( "views of a matrix" )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    int const n = 1 + c.choose( 2, "rows" ); LvArray::CRSMatrix< int, int, long, MallocBuffer > o( n, 3, 3 ); std::vector< std::map< int, int > > m( n ); int fresh = 0;
    for( int i = 0; i < n; ++i ) { int const k = c.choose( 8, "row" ); for( int j = 0; j < 3; ++j ) if( k >> j & 1 ) { o.insertNonZero( i, j, ++fresh ); m[ i ][ j ] = fresh; } }
    auto v = o.toView(); auto v1 = v; auto v2( std::move( v1 ) ); decltype( v ) v3; v3 = v2; auto cs = v3.toViewConstSizes(); auto r = o.toViewConst(); auto r1 = v2.toViewConst(); auto sp = o.toSparsityPatternView(); auto sp1 = v3.toSparsityPatternView();
    auto chk = [&]( char const * who ) {
      auto one = [&]( auto const & x, auto entries ) { MC_EQ( long( x.numRows() ), long( n ), who ); MC_EQ( long( x.numColumns() ), 3l, who ); for( int i = 0; i < n; ++i ) { MC_EQ( long( x.numNonZeros( i ) ), long( m[ i ].size() ), who ); int j = 0; for( auto & e : m[ i ] ) { MC_EQ( x.getColumns( i )[ j ], e.first, who ); if constexpr( decltype( entries )::value ) MC_EQ( x.getEntries( i )[ j ], e.second, who ); ++j; } } };
      std::true_type t; std::false_type f; one( o, t ); one( v, t ); one( v2, t ); one( v3, t ); one( cs, t ); one( r, t ); one( r1, t ); one( sp, f ); one( sp1, f ); };
    chk( "fresh" );
    for( int i = 0; i < n; ++i ) for( int e = 0; e < 3; ++e )
    {
      if( m[ i ].count( e ) ) { v3.removeNonZero( i, e ); m[ i ].erase( e ); chk( "removal" ); v2.insertNonZero( i, e, ++fresh ); m[ i ][ e ] = fresh; chk( "insertion through a moved view" ); }
      else { v.insertNonZero( i, e, ++fresh ); m[ i ][ e ] = fresh; chk( "insertion through a view" ); }
      int j = 0; for( auto & x : m[ i ] ) { cs.getEntries( i )[ j ] = x.second = ++fresh; ++j; chk( "writing an entry through a const-sizes view" ); }
      int col = e, val = 1000; v2.template addToRow< RAJA::seq_atomic >( i, &col, &val, 1 ); m[ i ][ e ] += 1000; chk( "adding through a moved view" );
    }
  }, true );
}
MC_MAIN
