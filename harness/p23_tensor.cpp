/* P23: tensor operations equal their index formulas, for every size, every kind of operand, and values that decide
 * multilinear formulas: every pair of basis elements, dense values, and every assignment over a small domain. */
#include "lv.hpp"
#include "layouts.hpp"
#include "Array.hpp"
#include "MallocBuffer.hpp"
#include "tensorOps.hpp"
#include "genericTensorOps.hpp"
#include "fixedSizeSquareMatrixOps.hpp"
using LvArray::MallocBuffer;
namespace to = LvArray::tensorOps;
#ifndef VALT
#define VALT long
#endif
using V = VALT;

/* ---- operands: logical r x c values in some storage, surrounded by values that must not change ---- */
struct Holder
{
  int r, c; Holder( int a, int b ): r( a ), c( b ) {}
  virtual V & at( int i, int j ) = 0; virtual bool guards() = 0; virtual ~Holder() = default;
  std::vector< V > get() { std::vector< V > v; for( int i = 0; i < r; ++i ) for( int j = 0; j < c; ++j ) v.push_back( at( i, j ) ); return v; }
  void put( std::vector< V > const & v ) { for( int i = 0; i < r; ++i ) for( int j = 0; j < c; ++j ) at( i, j ) = v[ i * c + j ]; }
};
constexpr V GUARD = 77;
template< int K, int M > struct Vec;
template< int M > struct Vec< 0, M > : Holder      // C array
{ V d[ M + 2 ]; using A = V[ M ]; Vec(): Holder( M, 1 ) { d[ 0 ] = d[ M + 1 ] = GUARD; } V & at( int i, int ) override { return d[ i + 1 ]; }
  A & ref() { return *reinterpret_cast< A * >( d + 1 ); } A const & cref() { return ref(); } bool guards() override { return d[ 0 ] == GUARD && d[ M + 1 ] == GUARD; } };
template< int M > struct Vec< 1, M > : Holder      // array
{ LvArray::Array< V, 1, camp::idx_seq< 0 >, int, MallocBuffer > d; Vec(): Holder( M, 1 ), d( M ) {} V & at( int i, int ) override { return d[ i ]; }
  auto & ref() { return d; } auto const & cref() { return d; } bool guards() override { return d.size() == M; } };
template< int M > struct Vec< 2, M > : Holder      // strided slice
{ LvArray::Array< V, 2, camp::idx_seq< 1, 0 >, long, MallocBuffer > d; Vec(): Holder( M, 1 ), d( 3, M ) { for( int i = 0; i < 3; i += 2 ) for( int j = 0; j < M; ++j ) d( i, j ) = GUARD; } V & at( int i, int ) override { return d( 1, i ); }
  auto ref() { return d[ 1 ]; } auto cref() { return d[ 1 ].toSliceConst(); } bool guards() override { for( int i = 0; i < 3; i += 2 ) for( int j = 0; j < M; ++j ) if( d( i, j ) != GUARD ) return false; return true; } };
template< int M > struct Vec< 3, M > : Holder      // view
{ LvArray::Array< V, 1, camp::idx_seq< 0 >, long, MallocBuffer > d; LvArray::ArrayView< V, 1, 0, long, MallocBuffer > w; Vec(): Holder( M, 1 ), d( M ), w( d.toView() ) {} V & at( int i, int ) override { return d[ i ]; }
  auto const & ref() { return w; } auto cref() { return d.toViewConst(); } bool guards() override { return d.size() == M; } };
template< int M > struct UserVec { static constexpr std::ptrdiff_t SIZE = M; V g0, d[ M ], g1; V & operator[]( std::ptrdiff_t i ) { return d[ i ]; } V const & operator[]( std::ptrdiff_t i ) const { return d[ i ]; } };
template< int M > struct Vec< 4, M > : Holder      // user type with a compile time size
{ UserVec< M > d; Vec(): Holder( M, 1 ) { d.g0 = d.g1 = GUARD; } V & at( int i, int ) override { return d[ i ]; }
  auto & ref() { return d; } auto const & cref() { return d; } bool guards() override { return d.g0 == GUARD && d.g1 == GUARD; } };
constexpr int VK = 5;
template< int K, int M, int N > struct Mat;
template< int M, int N > struct Mat< 0, M, N > : Holder
{ V d[ M + 2 ][ N ]; using A = V[ M ][ N ]; Mat(): Holder( M, N ) { for( int j = 0; j < N; ++j ) d[ 0 ][ j ] = d[ M + 1 ][ j ] = GUARD; } V & at( int i, int j ) override { return d[ i + 1 ][ j ]; }
  A & ref() { return *reinterpret_cast< A * >( d + 1 ); } A const & cref() { return ref(); } bool guards() override { for( int j = 0; j < N; ++j ) if( d[ 0 ][ j ] != GUARD || d[ M + 1 ][ j ] != GUARD ) return false; return true; } };
template< int M, int N > struct Mat< 1, M, N > : Holder
{ LvArray::Array< V, 2, camp::idx_seq< 0, 1 >, int, MallocBuffer > d; Mat(): Holder( M, N ), d( M, N ) {} V & at( int i, int j ) override { return d( i, j ); }
  auto & ref() { return d; } auto const & cref() { return d; } bool guards() override { return d.size() == M * N; } };
template< int M, int N > struct Mat< 2, M, N > : Holder   // column major view
{ LvArray::Array< V, 2, camp::idx_seq< 1, 0 >, long, MallocBuffer > d; LvArray::ArrayView< V, 2, 0, long, MallocBuffer > w; Mat(): Holder( M, N ), d( M, N ), w( d.toView() ) {} V & at( int i, int j ) override { return d( i, j ); }
  auto const & ref() { return w; } auto cref() { return d.toViewConst(); } bool guards() override { return d.size() == M * N; } };
template< int M, int N > struct Mat< 3, M, N > : Holder   // slice whose leading index is the fastest
{ LvArray::Array< V, 3, camp::idx_seq< 2, 1, 0 >, long, MallocBuffer > d; Mat(): Holder( M, N ), d( 3, M, N ) { for( int k = 0; k < 3; k += 2 ) for( int i = 0; i < M; ++i ) for( int j = 0; j < N; ++j ) d( k, i, j ) = GUARD; } V & at( int i, int j ) override { return d( 1, i, j ); }
  auto ref() { return d[ 1 ]; } auto cref() { return d[ 1 ].toSliceConst(); } bool guards() override { for( int k = 0; k < 3; k += 2 ) for( int i = 0; i < M; ++i ) for( int j = 0; j < N; ++j ) if( d( k, i, j ) != GUARD ) return false; return true; } };
constexpr int MK = 4;

/* ---- one call: operands, the call, and the expected destination ---- */
struct Io { Holder * d = nullptr, * a = nullptr, * b = nullptr; };
using L = std::vector< V >;
using Ref = std::function< L( L const & d, L const & a, L const & b ) >;
static std::vector< V > fillDense( int n, V start ) { L v; for( int i = 0; i < n; ++i ) { v.push_back( start ); start = V( ( long( start ) * 31 + 17 ) % 101 - 50 ); } return v; }
static V const SMALL[] = { 0, 1, -2, 3 };
static L values( mc::Chooser & c, int n, int mode, V seed )
{
  L v( n, V( 0 ) );
  if( mode == 0 ) return fillDense( n, seed );
  if( mode == 1 ) { v[ c.choose( n, "basis element" ) ] = V( c.flag( "sign" ) ? -3 : 2 ); return v; }
  v = fillDense( n, seed );
  int const lim = mc::thorough() ? 5 : 4;
  if( n <= lim ) { for( auto & x : v ) x = SMALL[ c.choose( 4, "value" ) ]; return v; }
  int const w = c.choose( n, "window" ); for( int i = 0; i < 2; ++i ) v[ ( w + i ) % n ] = SMALL[ c.choose( 4, "value" ) ];
  return v;
}
static void drive( mc::Chooser & c, Io io, std::function< void() > call, Ref ref )
{
  int const mode = c.choose( 3, "dense, basis, small domain" );
  L d, a, b;
  if( io.d ) d = c.flag( "zero destination" ) ? L( io.d->r * io.d->c, V( 0 ) ) : fillDense( io.d->r * io.d->c, 5 );
  if( io.a ) a = values( c, io.a->r * io.a->c, mode, 7 );
  if( io.b ) b = values( c, io.b->r * io.b->c, mode, 11 );
  if( !io.a ) d = values( c, io.d->r * io.d->c, mode, 5 );
  for( auto & p : { std::make_pair( io.d, &d ), std::make_pair( io.a, &a ), std::make_pair( io.b, &b ) } ) if( p.first ) p.first->put( *p.second );
  L const want = ref( d, a, b );
  call();
  if( io.d ) { L const got = io.d->get(); for( size_t k = 0; k < got.size(); ++k ) MC_EQ( got[ k ], want[ k ], "entry " << k << " of the destination (" << io.d->r << "x" << io.d->c << ")" ); MC_CHECK( io.d->guards(), "an element beside the destination changed" ); }
  if( io.a ) { MC_CHECK( io.a->get() == a, "the first operand changed" ); MC_CHECK( io.a->guards(), "an element beside the first operand changed" ); }
  if( io.b ) { MC_CHECK( io.b->get() == b, "the second operand changed" ); MC_CHECK( io.b->guards(), "an element beside the second operand changed" ); }
}
using Case = std::function< void( mc::Chooser & ) >;
static void job( std::string const & name, std::vector< Case > cases )
{
  mc::jobs().push_back( { name, [=] { mc::g().bound += std::to_string( cases.size() ) + " combinations of sizes and operand kinds; "; mc::enumerate( [&]( mc::Chooser & c ) { cases[ c.choose( int( cases.size() ), "sizes and kinds" ) ]( c ); }, false ); }, false } );
}
template< int... I, typename F > void upTo( std::integer_sequence< int, I... >, F && f ) { (void) std::initializer_list< int >{ 0, ( f( std::integral_constant< int, I >{} ), 0 )... }; }
template< int N, typename F > void range( F && f ) { upTo( std::make_integer_sequence< int, N >{}, f ); }
template< int A, int B, typename F > void sizes( F && f ) { range< B - A + 1 >( [&]( auto i ) { f( std::integral_constant< int, decltype( i )::value + A >{} ); } ); }
#define C( x ) decltype( x )::value
/* 1 to 4, and 8 */
template< typename F > void lengths( F && f ) { sizes< 1, 4 >( f ); f( std::integral_constant< int, 8 >{} ); }
/* every pair of sizes up to 4, and 3 by 8 and 8 by 3 */
template< typename F > void shapes( F && f )
{
  sizes< 1, 4 >( [&]( auto m ) { sizes< 1, 4 >( [&]( auto n ) { f( m, n ); } ); } );
  f( std::integral_constant< int, 3 >{}, std::integral_constant< int, 8 >{} ); f( std::integral_constant< int, 8 >{}, std::integral_constant< int, 3 >{} );
}

/* kinds of up to three operands: all alike, or every pair of kinds for every two of the operands */
template< int NK, typename F > void alike( F && f ) { range< NK >( [&]( auto k ) { f( k, k, k ); } ); }
template< int N1, int N2, int N3, typename F > void mixed( F && f ) { range< N1 >( [&]( auto a ) { range< N2 >( [&]( auto b ) { f( a, b, std::integral_constant< int, ( C( a ) + C( b ) ) % N3 >{} ); } ); } ); }

#if PART == 0
static void registerVector()
{
  std::vector< Case > w;
  auto flush = [&]( char const * n ) { job( n, w ); w.clear(); };
  auto elementwise = [&]( char const * name, auto call, auto f ) {
    lengths( [&]( auto m ) { mixed< VK, VK, 1 >( [&]( auto k, auto l, auto ) { if constexpr( C( m ) == 3 || C( k ) == C( l ) ) w.push_back( [=]( mc::Chooser & c ) {
      Vec< C( k ), C( m ) > d; Vec< C( l ), C( m ) > a; drive( c, { &d, &a }, [&] { call( m, d, a ); }, [=]( L const & d0, L const & a0, L const & ) { L r; for( size_t i = 0; i < d0.size(); ++i ) r.push_back( f( d0[ i ], a0[ i ] ) ); return r; } ); } ); } ); } );
    sizes< 6, 6 >( [&]( auto m ) { w.push_back( [=]( mc::Chooser & c ) { Vec< 0, C( m ) > d; Vec< 2, C( m ) > a; drive( c, { &d, &a }, [&] { call( m, d, a ); }, [=]( L const & d0, L const & a0, L const & ) { L r; for( size_t i = 0; i < d0.size(); ++i ) r.push_back( f( d0[ i ], a0[ i ] ) ); return r; } ); } ); } );
    flush( name ); };
  elementwise( "vector copy", []( auto m, auto & d, auto & a ) { to::copy< C( m ) >( d.ref(), a.cref() ); }, []( V, V a ) { return a; } );
  elementwise( "vector scaledCopy", []( auto m, auto & d, auto & a ) { to::scaledCopy< C( m ) >( d.ref(), a.cref(), V( -3 ) ); }, []( V, V a ) { return V( -3 ) * a; } );
  elementwise( "vector add", []( auto m, auto & d, auto & a ) { to::add< C( m ) >( d.ref(), a.cref() ); }, []( V d, V a ) { return d + a; } );
  elementwise( "vector subtract", []( auto m, auto & d, auto & a ) { to::subtract< C( m ) >( d.ref(), a.cref() ); }, []( V d, V a ) { return d - a; } );
  elementwise( "vector scaledAdd", []( auto m, auto & d, auto & a ) { to::scaledAdd< C( m ) >( d.ref(), a.cref(), V( 5 ) ); }, []( V d, V a ) { return d + V( 5 ) * a; } );
  auto inPlace = [&]( char const * name, auto call, auto f ) {
    lengths( [&]( auto m ) { range< VK >( [&]( auto k ) { w.push_back( [=]( mc::Chooser & c ) {
      Vec< C( k ), C( m ) > d; drive( c, { &d }, [&] { call( m, d ); }, [=]( L const & d0, L const &, L const & ) { L r; for( V x : d0 ) r.push_back( f( x ) ); return r; } ); } ); } ); } );
    flush( name ); };
  inPlace( "vector fill", []( auto m, auto & d ) { to::fill< C( m ) >( d.ref(), V( 9 ) ); }, []( V ) { return V( 9 ); } );
  inPlace( "vector scale", []( auto m, auto & d ) { to::scale< C( m ) >( d.ref(), V( -4 ) ); }, []( V x ) { return x * V( -4 ); } );
  inPlace( "vector addScalar", []( auto m, auto & d ) { to::addScalar< C( m ) >( d.ref(), V( 6 ) ); }, []( V x ) { return x + V( 6 ); } );
  /* scalar results */
  auto scalar1 = [&]( char const * name, auto call, auto f ) {
    lengths( [&]( auto m ) { range< VK >( [&]( auto k ) { w.push_back( [=]( mc::Chooser & c ) {
      Vec< C( k ), C( m ) > a; Vec< 0, 1 > d; drive( c, { &d, &a }, [&] { d.at( 0, 0 ) = V( call( m, a ) ); }, [=]( L const &, L const & a0, L const & ) { return L{ f( a0 ) }; } ); } ); } ); } );
    flush( name ); };
  scalar1( "maxAbsoluteEntry", []( auto m, auto & a ) { return to::maxAbsoluteEntry< C( m ) >( a.cref() ); }, []( L const & a ) { V r = 0; for( V x : a ) r = std::max( r, x < 0 ? -x : x ); return r; } );
  scalar1( "l2NormSquared", []( auto m, auto & a ) { return to::l2NormSquared< C( m ) >( a.cref() ); }, []( L const & a ) { V r = 0; for( V x : a ) r += x * x; return r; } );
  scalar1( "l2Norm", []( auto m, auto & a ) { return std::abs( double( to::l2Norm< C( m ) >( a.cref() ) ) - std::sqrt( double( to::l2NormSquared< C( m ) >( a.cref() ) ) ) ) < 1e-4 ? 1 : 0; }, []( L const & ) { return V( 1 ); } );
  lengths( [&]( auto m ) { mixed< VK, VK, 1 >( [&]( auto k, auto l, auto ) { w.push_back( [=]( mc::Chooser & c ) {
    Vec< C( k ), C( m ) > a; Vec< C( l ), C( m ) > b; Vec< 0, 1 > d; drive( c, { &d, &a, &b }, [&] { d.at( 0, 0 ) = to::AiBi< C( m ) >( a.cref(), b.cref() ); }, []( L const &, L const & a0, L const & b0 ) { V r = 0; for( size_t i = 0; i < a0.size(); ++i ) r += a0[ i ] * b0[ i ]; return L{ r }; } ); } ); } ); } );
  flush( "AiBi" );
  lengths( [&]( auto m ) { auto one = [&]( auto k, auto l, auto n ) { w.push_back( [=]( mc::Chooser & c ) {
    Vec< C( k ), C( m ) > d; Vec< C( l ), C( m ) > a; Vec< C( n ), C( m ) > b; drive( c, { &d, &a, &b }, [&] { to::hadamardProduct< C( m ) >( d.ref(), a.cref(), b.cref() ); }, []( L const &, L const & a0, L const & b0 ) { L r; for( size_t i = 0; i < a0.size(); ++i ) r.push_back( a0[ i ] * b0[ i ] ); return r; } ); } ); };
    if constexpr( C( m ) == 3 ) mixed< 3, VK, 3 >( one ); else alike< VK >( one ); } );
  flush( "hadamardProduct" );
  mixed< VK, VK, VK >( [&]( auto k, auto l, auto n ) { w.push_back( [=]( mc::Chooser & c ) {
    Vec< C( k ), 3 > d; Vec< C( l ), 3 > a; Vec< C( n ), 3 > b; drive( c, { &d, &a, &b }, [&] { to::crossProduct( d.ref(), a.cref(), b.cref() ); }, []( L const &, L const & a, L const & b ) { return L{ a[ 1 ] * b[ 2 ] - a[ 2 ] * b[ 1 ], a[ 2 ] * b[ 0 ] - a[ 0 ] * b[ 2 ], a[ 0 ] * b[ 1 ] - a[ 1 ] * b[ 0 ] }; } ); } ); } );
  flush( "crossProduct" );
  /* the initialisation and assignment macros */
  w.push_back( []( mc::Chooser & c ) {
    Vec< 2, 2 > a2; Vec< 1, 3 > a3; Vec< 2, 6 > a6; Mat< 3, 2, 2 > b2; Mat< 2, 3, 3 > b3;
    int n = 0; for( Holder * h : std::initializer_list< Holder * >{ &a2, &a3, &a6, &b2, &b3 } ) h->put( fillDense( h->r * h->c, V( ++n + c.choose( 3, "seed" ) ) ) );
    auto const v3 = b3.cref(); auto const v2 = b2.cref(); auto const s2 = a2.cref(); auto const s6 = a6.cref();
    V const l2[ 2 ] = LVARRAY_TENSOROPS_INIT_LOCAL_2( s2 ), l3[ 3 ] = LVARRAY_TENSOROPS_INIT_LOCAL_3( a3.cref() ), l6[ 6 ] = LVARRAY_TENSOROPS_INIT_LOCAL_6( s6 );
    V const m2[ 2 ][ 2 ] = LVARRAY_TENSOROPS_INIT_LOCAL_2x2( v2 ), m3[ 3 ][ 3 ] = LVARRAY_TENSOROPS_INIT_LOCAL_3x3( v3 );
    auto eq = []( V const * p, Holder & h ) { L v = h.get(); for( size_t i = 0; i < v.size(); ++i ) MC_EQ( p[ i ], v[ i ], "entry " << i << " of a local copy" ); };
    eq( l2, a2 ); eq( l3, a3 ); eq( l6, a6 ); eq( m2[ 0 ], b2 ); eq( m3[ 0 ], b3 );
    { auto s = a2.ref(); LVARRAY_TENSOROPS_ASSIGN_2( s, 1, 2 ); MC_CHECK( ( a2.get() == L{ 1, 2 } ), "assignment of 2" ); }
    { auto & s = a3.ref(); LVARRAY_TENSOROPS_ASSIGN_3( s, 1, 2, 3 ); MC_CHECK( ( a3.get() == L{ 1, 2, 3 } ), "assignment of 3" ); }
    { auto s = a6.ref(); LVARRAY_TENSOROPS_ASSIGN_6( s, 1, 2, 3, 4, 5, 6 ); MC_CHECK( ( a6.get() == L{ 1, 2, 3, 4, 5, 6 } ), "assignment of 6" ); }
    { auto s = b2.ref(); LVARRAY_TENSOROPS_ASSIGN_2x2( s, 1, 2, 3, 4 ); MC_CHECK( ( b2.get() == L{ 1, 2, 3, 4 } ), "assignment of 2x2" ); }
    { auto & s = b3.ref(); LVARRAY_TENSOROPS_ASSIGN_3x3( s, 1, 2, 3, 4, 5, 6, 7, 8, 9 ); MC_CHECK( ( b3.get() == L{ 1, 2, 3, 4, 5, 6, 7, 8, 9 } ), "assignment of 3x3" ); }
    MC_CHECK( a2.guards() && a6.guards() && b2.guards(), "an element beside the destination changed" ); } );
  flush( "initialisation and assignment of small tensors" );
}

#elif PART == 1
static void registerMatrix()
{
  std::vector< Case > w;
  auto flush = [&]( char const * n ) { job( n, w ); w.clear(); };
  auto elementwise = [&]( char const * name, auto call, auto f ) {
    shapes( [&]( auto m, auto n ) { mixed< MK, MK, 1 >( [&]( auto k, auto l, auto ) { if constexpr( ( C( m ) == 2 && C( n ) == 3 ) || C( k ) == C( l ) ) w.push_back( [=]( mc::Chooser & c ) {
      Mat< C( k ), C( m ), C( n ) > d; Mat< C( l ), C( m ), C( n ) > a; drive( c, { &d, &a }, [&] { call( m, n, d, a ); }, [=]( L const & d0, L const & a0, L const & ) { L r; for( size_t i = 0; i < d0.size(); ++i ) r.push_back( f( d0[ i ], a0[ i ] ) ); return r; } ); } ); } ); } );
    flush( name ); };
  elementwise( "matrix copy", []( auto m, auto n, auto & d, auto & a ) { to::copy< C( m ), C( n ) >( d.ref(), a.cref() ); }, []( V, V a ) { return a; } );
  elementwise( "matrix scaledCopy", []( auto m, auto n, auto & d, auto & a ) { to::scaledCopy< C( m ), C( n ) >( d.ref(), a.cref(), V( -3 ) ); }, []( V, V a ) { return V( -3 ) * a; } );
  elementwise( "matrix add", []( auto m, auto n, auto & d, auto & a ) { to::add< C( m ), C( n ) >( d.ref(), a.cref() ); }, []( V d, V a ) { return d + a; } );
  elementwise( "matrix scaledAdd", []( auto m, auto n, auto & d, auto & a ) { to::scaledAdd< C( m ), C( n ) >( d.ref(), a.cref(), V( 5 ) ); }, []( V d, V a ) { return d + V( 5 ) * a; } );
  auto inPlace = [&]( char const * name, auto call, auto f ) {
    shapes( [&]( auto m, auto n ) { range< MK >( [&]( auto k ) { w.push_back( [=]( mc::Chooser & c ) {
      Mat< C( k ), C( m ), C( n ) > d; drive( c, { &d }, [&] { call( m, n, d ); }, [=]( L const & d0, L const &, L const & ) { L r; for( V x : d0 ) r.push_back( f( x ) ); return r; } ); } ); } ); } );
    flush( name ); };
  inPlace( "matrix fill", []( auto m, auto n, auto & d ) { to::fill< C( m ), C( n ) >( d.ref(), V( 9 ) ); }, []( V ) { return V( 9 ); } );
  inPlace( "matrix scale", []( auto m, auto n, auto & d ) { to::scale< C( m ), C( n ) >( d.ref(), V( -4 ) ); }, []( V x ) { return x * V( -4 ); } );
  shapes( [&]( auto m, auto n ) { mixed< MK, MK, 1 >( [&]( auto k, auto l, auto ) { if constexpr( ( C( m ) == 2 && C( n ) == 3 ) || C( k ) == C( l ) ) w.push_back( [=]( mc::Chooser & c ) {
    Mat< C( k ), C( m ), C( n ) > d; Mat< C( l ), C( n ), C( m ) > a; drive( c, { &d, &a }, [&] { to::transpose< C( m ), C( n ) >( d.ref(), a.cref() ); }, [=]( L const &, L const & a0, L const & ) { L r; for( int i = 0; i < C( m ); ++i ) for( int j = 0; j < C( n ); ++j ) r.push_back( a0[ j * C( m ) + i ] ); return r; } ); } ); } ); } );
  flush( "transpose" );
  sizes< 1, 4 >( [&]( auto m ) { range< MK >( [&]( auto k ) { 
    w.push_back( [=]( mc::Chooser & c ) { Mat< C( k ), C( m ), C( m ) > d; drive( c, { &d }, [&] { to::transpose< C( m ) >( d.ref() ); }, [=]( L const & d0, L const &, L const & ) { L r; for( int i = 0; i < C( m ); ++i ) for( int j = 0; j < C( m ); ++j ) r.push_back( d0[ j * C( m ) + i ] ); return r; } ); } );
    w.push_back( [=]( mc::Chooser & c ) { Mat< C( k ), C( m ), C( m ) > d; drive( c, { &d }, [&] { to::addIdentity< C( m ) >( d.ref(), V( 4 ) ); }, [=]( L d0, L const &, L const & ) { for( int i = 0; i < C( m ); ++i ) d0[ i * C( m ) + i ] += 4; return d0; } ); } );
    w.push_back( [=]( mc::Chooser & c ) { Mat< C( k ), C( m ), C( m ) > a; Vec< 0, 1 > d; drive( c, { &d, &a }, [&] { d.at( 0, 0 ) = to::trace< C( m ) >( a.cref() ); }, [=]( L const &, L const & a0, L const & ) { V t = 0; for( int i = 0; i < C( m ); ++i ) t += a0[ i * C( m ) + i ]; return L{ t }; } ); } ); } ); 
    range< VK >( [&]( auto k ) {
      constexpr int S = C( m ) * ( C( m ) + 1 ) / 2;
      w.push_back( [=]( mc::Chooser & c ) { Vec< C( k ), S > d; drive( c, { &d }, [&] { to::symAddIdentity< C( m ) >( d.ref(), V( 4 ) ); }, [=]( L d0, L const &, L const & ) { for( int i = 0; i < C( m ); ++i ) d0[ i ] += 4; return d0; } ); } );
      w.push_back( [=]( mc::Chooser & c ) { Vec< C( k ), S > a; Vec< 0, 1 > d; drive( c, { &d, &a }, [&] { d.at( 0, 0 ) = to::symTrace< C( m ) >( a.cref() ); }, [=]( L const &, L const & a0, L const & ) { V t = 0; for( int i = 0; i < C( m ); ++i ) t += a0[ i ]; return L{ t }; } ); } ); } ); } );
  flush( "square matrices: transpose in place, identity, trace" );
}

#elif PART == 2 || PART == 3
#ifndef PSIZE
#define PSIZE 3
#endif
#define EACH_IJ( ... ) shapes( [&]( auto ii, auto jj ) { auto one = [&]( auto k, auto l, auto n ) { constexpr int I = C( ii ), J = C( jj ), K1 = C( k ), K2 = C( l ), K3 = C( n ); (void) K1; (void) K2; (void) K3; w.push_back( [=]( mc::Chooser & c ) { __VA_ARGS__ } ); }; \
    if constexpr( C( ii ) == 2 && C( jj ) == 3 ) mixed< MK, MK, MK >( one ); else alike< MK >( one ); } );
#if PART == 2
static void registerMatrixVector()
{
  std::vector< Case > w;
  auto flush = [&]( char const * n ) { job( n, w ); w.clear(); };
  for( bool add : { false, true } ) { EACH_IJ( Mat< K1, I, J > d; Vec< K2, I > a; Vec< K3, J > b;
    drive( c, { &d, &a, &b }, [&] { if( add ) to::Rij_add_AiBj< I, J >( d.ref(), a.cref(), b.cref() ); else to::Rij_eq_AiBj< I, J >( d.ref(), a.cref(), b.cref() ); },
      [=]( L d0, L const & a0, L const & b0 ) { for( int i = 0; i < I; ++i ) for( int j = 0; j < J; ++j ) d0[ i * J + j ] = ( add ? d0[ i * J + j ] : 0 ) + a0[ i ] * b0[ j ]; return d0; } ); ) }
  flush( "outer products" );
  for( bool add : { false, true } ) { EACH_IJ( Vec< K1, I > d; Mat< K2, I, J > a; Vec< K3, J > b;
    drive( c, { &d, &a, &b }, [&] { if( add ) to::Ri_add_AijBj< I, J >( d.ref(), a.cref(), b.cref() ); else to::Ri_eq_AijBj< I, J >( d.ref(), a.cref(), b.cref() ); },
      [=]( L d0, L const & a0, L const & b0 ) { for( int i = 0; i < I; ++i ) { V s = add ? d0[ i ] : V( 0 ); for( int j = 0; j < J; ++j ) s += a0[ i * J + j ] * b0[ j ]; d0[ i ] = s; } return d0; } ); ) }
  flush( "matrix times vector" );
  for( bool add : { false, true } ) { EACH_IJ( Vec< K1, I > d; Mat< K2, J, I > a; Vec< K3, J > b;
    drive( c, { &d, &a, &b }, [&] { if( add ) to::Ri_add_AjiBj< I, J >( d.ref(), a.cref(), b.cref() ); else to::Ri_eq_AjiBj< I, J >( d.ref(), a.cref(), b.cref() ); },
      [=]( L d0, L const & a0, L const & b0 ) { for( int i = 0; i < I; ++i ) { V s = add ? d0[ i ] : V( 0 ); for( int j = 0; j < J; ++j ) s += a0[ j * I + i ] * b0[ j ]; d0[ i ] = s; } return d0; } ); ) }
  flush( "transposed matrix times vector" );
}
#else
/* matrix products: index of A(i,k) and of B(k,j) in each variant */
template< bool AT, bool BT, typename F > static void product( char const * name, F call )
{
  std::vector< Case > w;
  auto three = [&]( auto ii, auto jj, auto kk ) { auto one = [&]( auto k, auto l, auto n ) {
    constexpr int I = C( ii ), J = C( jj ), K = C( kk ), K1 = C( k ), K2 = C( l ), K3 = C( n );
    w.push_back( [=]( mc::Chooser & c ) {
      bool const add = c.flag( "accumulate" );
      Mat< K1, I, J > d; Mat< K2, AT ? K : I, AT ? I : K > a; Mat< K3, BT ? J : K, BT ? K : J > b;
      drive( c, { &d, &a, &b }, [&] { call( ii, jj, kk, add, &d, &a, &b ); }, [=]( L d0, L const & a0, L const & b0 ) {
        for( int i = 0; i < I; ++i ) for( int j = 0; j < J; ++j ) { V s = add ? d0[ i * J + j ] : V( 0 ); for( int x = 0; x < K; ++x ) s += ( AT ? a0[ x * I + i ] : a0[ i * K + x ] ) * ( BT ? b0[ j * K + x ] : b0[ x * J + j ] ); d0[ i * J + j ] = s; }
        return d0; } ); } ); };
    if constexpr( C( ii ) == 2 && C( jj ) == 3 && C( kk ) == 1 ) mixed< MK, MK, MK >( one ); else if constexpr( C( ii ) == C( jj ) && C( jj ) == C( kk ) ) alike< MK >( one ); else one( std::integral_constant< int, C( ii ) % MK >{}, std::integral_constant< int, C( jj ) % MK >{}, std::integral_constant< int, ( C( kk ) + C( ii ) ) % MK >{} ); };
  sizes< 1, PSIZE >( [&]( auto ii ) { sizes< 1, PSIZE >( [&]( auto jj ) { sizes< 1, PSIZE >( [&]( auto kk ) { three( ii, jj, kk ); } ); } ); } );
  using Three = std::integral_constant< int, 3 >; using Eight = std::integral_constant< int, 8 >;
  three( Three{}, Three{}, Eight{} ); three( Eight{}, Three{}, Three{} ); three( Three{}, Eight{}, Three{} );
  job( name, w );
}
static void registerProducts()
{
  product< false, false >( "AikBkj", [=]( auto i, auto j, auto k, bool add, auto d, auto a, auto b ) { if( add ) to::Rij_add_AikBkj< C( i ), C( j ), C( k ) >( d->ref(), a->cref(), b->cref() ); else to::Rij_eq_AikBkj< C( i ), C( j ), C( k ) >( d->ref(), a->cref(), b->cref() ); } );
  product< false, true >( "AikBjk", [=]( auto i, auto j, auto k, bool add, auto d, auto a, auto b ) { if( add ) to::Rij_add_AikBjk< C( i ), C( j ), C( k ) >( d->ref(), a->cref(), b->cref() ); else to::Rij_eq_AikBjk< C( i ), C( j ), C( k ) >( d->ref(), a->cref(), b->cref() ); } );
  product< true, false >( "AkiBkj", [=]( auto i, auto j, auto k, bool add, auto d, auto a, auto b ) { if( add ) to::Rij_add_AkiBkj< C( i ), C( j ), C( k ) >( d->ref(), a->cref(), b->cref() ); else to::Rij_eq_AkiBkj< C( i ), C( j ), C( k ) >( d->ref(), a->cref(), b->cref() ); } );
  std::vector< Case > w;
  EACH_IJ( Mat< K1, I, I > d; Mat< K2, I, J > a;
    drive( c, { &d, &a }, [&] { to::Rij_add_AikAjk< I, J >( d.ref(), a.cref() ); }, [=]( L d0, L const & a0, L const & ) { for( int i = 0; i < I; ++i ) for( int j = 0; j < I; ++j ) for( int x = 0; x < J; ++x ) d0[ i * I + j ] += a0[ i * J + x ] * a0[ j * J + x ]; return d0; } ); )
  EACH_IJ( Mat< K1, I, I > d; Mat< K2, J, I > a;
    drive( c, { &d, &a }, [&] { to::Rij_eq_AkiAkj< I, J >( d.ref(), a.cref() ); }, [=]( L d0, L const & a0, L const & ) { for( int i = 0; i < I; ++i ) for( int j = 0; j < I; ++j ) { V s = 0; for( int x = 0; x < J; ++x ) s += a0[ x * I + i ] * a0[ x * I + j ]; d0[ i * I + j ] = s; } return d0; } ); )
  job( "products of a matrix with itself", w );
}

#endif
#else
/* the packed position of entry (i,j) of a symmetric matrix */
template< int M > int packed( int i, int j ) { if( i == j ) return i; return M == 2 ? 2 : 6 - i - j; }
template< int M > static void registerSymmetric()
{
  constexpr int S = M * ( M + 1 ) / 2;
  std::vector< Case > w;
  auto flush = [&]( std::string n ) { job( n + " " + std::to_string( M ) + "x" + std::to_string( M ), w ); w.clear(); };
  auto P = []( int i, int j ) { return packed< M >( i, j ); };
  range< MK >( [&]( auto k ) { w.push_back( [=]( mc::Chooser & c ) { Mat< C( k ), M, M > a; Vec< 0, 1 > d; drive( c, { &d, &a }, [&] { d.at( 0, 0 ) = to::determinant< M >( a.cref() ); }, [=]( L const &, L const & a, L const & ) {
    if( M == 2 ) return L{ a[ 0 ] * a[ 3 ] - a[ 1 ] * a[ 2 ] };
    V r = 0; int p[ 3 ] = { 0, 1, 2 }; do { int inv = ( p[ 0 ] > p[ 1 ] ) + ( p[ 0 ] > p[ 2 ] ) + ( p[ 1 ] > p[ 2 ] ); V t = inv % 2 ? -1 : 1; for( int i = 0; i < 3; ++i ) t *= a[ i * 3 + p[ i ] ]; r += t; } while( std::next_permutation( p, p + 3 ) ); return L{ r }; } ); } ); } );
  flush( "determinant" );
  range< VK >( [&]( auto k ) { w.push_back( [=]( mc::Chooser & c ) { Vec< C( k ), S > a; Vec< 0, 1 > d; drive( c, { &d, &a }, [&] { d.at( 0, 0 ) = to::symDeterminant< M >( a.cref() ); }, [=]( L const &, L const & a, L const & ) {
    if( M == 2 ) return L{ a[ 0 ] * a[ 1 ] - a[ 2 ] * a[ 2 ] };
    V r = 0; int p[ 3 ] = { 0, 1, 2 }; do { int inv = ( p[ 0 ] > p[ 1 ] ) + ( p[ 0 ] > p[ 2 ] ) + ( p[ 1 ] > p[ 2 ] ); V t = inv % 2 ? -1 : 1; for( int i = 0; i < 3; ++i ) t *= a[ P( i, p[ i ] ) ]; r += t; } while( std::next_permutation( p, p + 3 ) ); return L{ r }; } ); } ); } );
  flush( "determinant of symmetric" );
  for( bool add : { false, true } ) mixed< 3, VK, 3 >( [&]( auto k, auto l, auto n ) { w.push_back( [=]( mc::Chooser & c ) { Vec< C( k ), M > d; Vec< C( l ), S > a; Vec< C( n ), M > b;
    drive( c, { &d, &a, &b }, [&] { if( add ) to::Ri_add_symAijBj< M >( d.ref(), a.cref(), b.cref() ); else to::Ri_eq_symAijBj< M >( d.ref(), a.cref(), b.cref() ); }, [=]( L d0, L const & a0, L const & b0 ) { for( int i = 0; i < M; ++i ) { V s = add ? d0[ i ] : V( 0 ); for( int j = 0; j < M; ++j ) s += a0[ P( i, j ) ] * b0[ j ]; d0[ i ] = s; } return d0; } ); } ); } );
  flush( "symmetric matrix times vector" );
  mixed< MK, 3, MK >( [&]( auto k, auto l, auto n ) { w.push_back( [=]( mc::Chooser & c ) { Mat< C( k ), M, M > d; Vec< C( l ), S > a; Mat< C( n ), M, M > b;
    drive( c, { &d, &a, &b }, [&] { to::Rij_eq_symAikBjk< M >( d.ref(), a.cref(), b.cref() ); }, [=]( L d0, L const & a0, L const & b0 ) { for( int i = 0; i < M; ++i ) for( int j = 0; j < M; ++j ) { V s = 0; for( int x = 0; x < M; ++x ) s += a0[ P( i, x ) ] * b0[ j * M + x ]; d0[ i * M + j ] = s; } return d0; } ); } ); } );
  flush( "symmetric matrix times matrix" );
  // quadratic in A: also every pair of entries of A
  mixed< 3, MK, 3 >( [&]( auto k, auto l, auto n ) { for( bool pairs : { false, true } ) w.push_back( [=]( mc::Chooser & c ) { Vec< C( k ), S > d; Mat< C( l ), M, M > a; Vec< C( n ), S > b;
    auto ref = [=]( L d0, L const & a0, L const & b0 ) { for( int i = 0; i < M; ++i ) for( int j = i; j < M; ++j ) { V s = 0; for( int x = 0; x < M; ++x ) for( int y = 0; y < M; ++y ) s += a0[ i * M + x ] * b0[ P( x, y ) ] * a0[ j * M + y ]; d0[ P( i, j ) ] = s; } return d0; };
    if( !pairs ) return drive( c, { &d, &a, &b }, [&] { to::Rij_eq_AikSymBklAjl< M >( d.ref(), a.cref(), b.cref() ); }, ref );
    L a0( M * M, V( 0 ) ), b0( S, V( 0 ) ), d0 = fillDense( S, 5 ); a0[ c.choose( M * M, "entry" ) ] = 2; a0[ c.choose( M * M, "entry" ) ] = 3; b0[ c.choose( S, "entry" ) ] = 1; a.put( a0 ); b.put( b0 ); d.put( d0 );
    to::Rij_eq_AikSymBklAjl< M >( d.ref(), a.cref(), b.cref() ); MC_CHECK( d.get() == ref( d0, a0, b0 ), "product of a matrix, a symmetric matrix and the transposed matrix" ); MC_CHECK( d.guards(), "an element beside the destination changed" ); } ); } );
  flush( "matrix, symmetric matrix, transposed matrix" );
  mixed< VK, VK, 1 >( [&]( auto k, auto l, auto ) { for( bool pairs : { false, true } ) w.push_back( [=]( mc::Chooser & c ) { Vec< C( k ), S > d; Vec< C( l ), M > a;
    auto ref = [=]( L d0, L const & a0, L const & ) { for( int i = 0; i < M; ++i ) for( int j = i; j < M; ++j ) d0[ P( i, j ) ] = a0[ i ] * a0[ j ]; return d0; };
    if( !pairs ) return drive( c, { &d, &a }, [&] { to::symRij_eq_AiAj< M >( d.ref(), a.cref() ); }, ref );
    L a0( M, V( 0 ) ), d0 = fillDense( S, 5 ); a0[ c.choose( M, "entry" ) ] = 2; a0[ c.choose( M, "entry" ) ] = 3; a.put( a0 ); d.put( d0 );
    to::symRij_eq_AiAj< M >( d.ref(), a.cref() ); MC_CHECK( d.get() == ref( d0, a0, a0 ), "symmetric outer product" ); } ); } );
  flush( "symmetric outer product" );
  mixed< VK, VK, 3 >( [&]( auto k, auto l, auto n ) { w.push_back( [=]( mc::Chooser & c ) { Vec< C( k ), S > d; Vec< C( l ), M > a; Vec< C( n ), M > b;
    drive( c, { &d, &a, &b }, [&] { to::symRij_eq_AiBj_plus_AjBi< M >( d.ref(), a.cref(), b.cref() ); }, [=]( L d0, L const & a0, L const & b0 ) { for( int i = 0; i < M; ++i ) for( int j = i; j < M; ++j ) d0[ P( i, j ) ] = a0[ i ] * b0[ j ] + a0[ j ] * b0[ i ]; return d0; } ); } ); } );
  flush( "symmetrised outer product" );
  mixed< VK, MK, 1 >( [&]( auto k, auto l, auto ) { w.push_back( [=]( mc::Chooser & c ) { Vec< C( k ), S > d; Mat< C( l ), M, M > a;
    drive( c, { &d, &a }, [&] { to::denseToSymmetric< M >( d.ref(), a.cref() ); }, [=]( L d0, L const & a0, L const & ) { for( int i = 0; i < M; ++i ) for( int j = i; j < M; ++j ) d0[ P( i, j ) ] = a0[ i * M + j ]; return d0; } ); } );
    w.push_back( [=]( mc::Chooser & c ) { Mat< C( l ), M, M > d; Vec< C( k ), S > a;
    drive( c, { &d, &a }, [&] { to::symmetricToDense< M >( d.ref(), a.cref() ); }, [=]( L d0, L const & a0, L const & ) { for( int i = 0; i < M; ++i ) for( int j = 0; j < M; ++j ) d0[ i * M + j ] = a0[ P( i, j ) ]; return d0; } ); } ); } );
  flush( "packing and unpacking" );
}

#endif

static int all = [] {
#if PART == 0
  registerVector();
#elif PART == 1
  registerMatrix();
#elif PART == 2
  registerMatrixVector();
#elif PART == 3
  registerProducts();
#else
  registerSymmetric< 2 >(); registerSymmetric< 3 >();
#endif
  return 0;
}();
MC_MAIN
