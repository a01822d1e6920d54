/* All permutations of NDIM dimensions as type lists, and helpers to call
 * variadic accessors with run-time index arrays. */
#pragma once
#include <camp/camp.hpp>
#include <array>
#include <utility>
#include <string>
#include <vector>

namespace lay
{
template< typename... > struct List {};

template< typename SEQ, long X > struct Append;
template< camp::idx_t... IS, long X > struct Append< camp::idx_seq< IS... >, X > { using type = camp::idx_seq< IS..., X >; };

template< typename A, typename B > struct Cat;
template< typename... A, typename... B > struct Cat< List< A... >, List< B... > > { using type = List< A..., B... >; };

template< camp::idx_t... IS > constexpr bool contains( camp::idx_seq< IS... >, long x )
{ bool r = false; (void) std::initializer_list< int >{ 0, ( r = r || ( IS == x ), 0 )... }; return r; }

// Gen< N, K, SEQ >: permutations of 0..N-1 extending SEQ; tries K, K+1, ... next.
template< int N, int LEN, typename SEQ > struct Perms;
template< int N, int LEN, typename SEQ, int K, bool DONE = ( K == N ), bool SKIP = true > struct Try;
template< int N, int LEN, typename SEQ, int K, bool SKIP > struct Try< N, LEN, SEQ, K, true, SKIP > { using type = List<>; };
template< int N, int LEN, typename SEQ, int K > struct Try< N, LEN, SEQ, K, false, true >
{
  template< bool C, int D = 0 > struct Head { using type = List<>; };
  template< int D > struct Head< false, D > { using type = typename Perms< N, LEN + 1, typename Append< SEQ, K >::type >::type; };
  using type = typename Cat< typename Head< contains( SEQ{}, K ) >::type, typename Try< N, LEN, SEQ, K + 1 >::type >::type;
};
template< int N, int LEN, typename SEQ > struct Perms { using type = typename Try< N, LEN, SEQ, 0 >::type; };
template< int N, typename SEQ > struct Perms< N, N, SEQ > { using type = List< SEQ >; };

template< camp::idx_t... IS > constexpr size_t rank( camp::idx_seq< IS... > ) { return sizeof...( IS ); }
template< int N > using All = typename Perms< N, 0, camp::idx_seq<> >::type;

template< typename F, typename... TS >
void forEach( List< TS... >, F && f )
{ (void) std::initializer_list< int >{ 0, ( f( TS{} ), 0 )... }; }

template< camp::idx_t... IS >
std::vector< int > toVector( camp::idx_seq< IS... > ) { return { int( IS )... }; }

template< camp::idx_t... IS >
std::string name( camp::idx_seq< IS... > )
{ std::string s; (void) std::initializer_list< int >{ 0, ( s += char( 'i' + IS ), 0 )... }; return s; }

template< camp::idx_t FIRST, camp::idx_t... R > constexpr int last( camp::idx_seq< FIRST, R... > )
{ camp::idx_t v[] = { FIRST, R... }; return int( v[ sizeof... ( R ) ] ); }

template< camp::idx_t FIRST, camp::idx_t... R > constexpr int firstOf( camp::idx_seq< FIRST, R... > ) { return int( FIRST ); }

template< typename V, typename I, size_t N, size_t... S >
decltype( auto ) callImpl( V && v, std::array< I, N > const & idx, std::index_sequence< S... > )
{ return v( idx[ S ]... ); }
template< typename V, typename I, size_t N >
decltype( auto ) call( V && v, std::array< I, N > const & idx )
{ return callImpl( std::forward< V >( v ), idx, std::make_index_sequence< N >{} ); }

template< typename V, typename I, size_t N, size_t... S >
auto linImpl( V && v, std::array< I, N > const & idx, std::index_sequence< S... > )
{ return v.linearIndex( idx[ S ]... ); }
template< typename V, typename I, size_t N >
auto linear( V && v, std::array< I, N > const & idx )
{ return linImpl( std::forward< V >( v ), idx, std::make_index_sequence< N >{} ); }

/* Run f over every multi-index below dims, in lexicographic order. */
template< typename I, size_t N, typename F >
void forAll( std::array< I, N > const & dims, F && f )
{
  for( I d : dims ) if( d <= 0 ) return;
  std::array< I, N > idx{};
  for(;; )
  {
    f( static_cast< std::array< I, N > const & >( idx ) );
    int k = int( N ) - 1;
    while( k >= 0 && ++idx[ k ] == dims[ k ] ) { idx[ k ] = 0; --k; }
    if( k < 0 ) return;
  }
}

/* Dense strides: the last entry of the permutation is fastest. */
template< size_t N >
std::array< long, N > strides( std::vector< int > const & perm, std::array< long, N > const & dims )
{
  std::array< long, N > s{};
  long m = 1;
  for( int k = int( N ) - 1; k >= 0; --k ) { s[ perm[ k ] ] = m; m *= dims[ perm[ k ] ]; }
  return s;
}
}
