/* With LVARRAY_BOUNDS_CHECK every invalid argument is reported before anything
 * outside the addressed object is touched, and no valid argument is reported.
 *
 * Every index in [-2, size + 2] (and the extremes of the index type) is tried
 * in every argument.  The memory an operation may not touch is poisoned while
 * it runs, so a stray read or write stops the execution at once. */
#ifndef LVARRAY_BOUNDS_CHECK
#define LVARRAY_BOUNDS_CHECK
#endif
#include "lv.hpp"
#include "layouts.hpp"
#include "Array.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#include "SortedArray.hpp"
#include "MallocBuffer.hpp"
#include "tensorOps.hpp"
#include <sanitizer/asan_interface.h>
#include <limits>
#include <list>

template< typename T > using MB = LvArray::MallocBuffer< T >;
#ifndef INDEXT
#define INDEXT long
#endif
using Idx = INDEXT;

static std::string what;

/* f() must be reported exactly if it is invalid. */
template< typename F >
bool expect( bool const invalid, F && f )
{
  bool const r = mc::reportsError( std::forward< F >( f ) );
  mc::outcome( what.substr( 0, what.find( '(' ) ) + ( r ? "!" : "" ) );
  if( invalid && !r ) mc::violation( "invalid access was not reported: " + what );
  if( !invalid && r ) mc::violation( "valid access was reported as an error: " + what );
  return r;
}
template< typename... A > void say( A const & ... a )
{ std::ostringstream o; (void) std::initializer_list< int >{ 0, ( o << a, 0 )... }; what = o.str(); }

template< typename I > std::vector< I > indices( I size )
{
  std::vector< I > v;
  if( std::is_signed< I >::value ) { v.push_back( std::numeric_limits< I >::min() ); v.push_back( I( -2 ) ); v.push_back( I( -1 ) ); }
  for( I i = 0; i <= size + 2; ++i ) v.push_back( i );
  v.push_back( std::numeric_limits< I >::max() );
  return v;
}
template< typename I > bool out( I i, I size ) { return i < 0 || i >= size; }

/* Poison [p, p + n) except [a, b). */
struct Poison
{
  std::vector< std::pair< void const *, size_t > > regions;
  template< typename T > void except( T const * p, long n, long a, long b )
  {
    add( p, a );
    add( p + b, n - b );
  }
  template< typename T > void add( T const * p, long n )
  { if( p != nullptr && n > 0 ) { ASAN_POISON_MEMORY_REGION( p, n * sizeof( T ) ); regions.push_back( { p, n * sizeof( T ) } ); } }
  void lift() { for( auto & r : regions ) ASAN_UNPOISON_MEMORY_REGION( r.first, r.second ); regions.clear(); }
  ~Poison() { lift(); }
};

// ---------------------------------------------------------------------------
// Multidimensional arrays
// ---------------------------------------------------------------------------
template< typename V, size_t N, size_t... S >
auto & chain( V const & v, std::array< Idx, N > const & i, std::index_sequence< S... > );
template< size_t N, size_t K = 0, typename V >
auto & bracket( V const & v, std::array< Idx, N > const & i )
{ if constexpr( K + 1 == N ) return v[ i[ K ] ]; else { auto const s = v[ i[ K ] ]; return bracket< N, K + 1 >( s, i ); } }

template< typename V, int N >
void accessors( V const & v, std::array< Idx, N > const & dims, std::array< long, N > const & strides, long const * base, std::string const & who )
{
  std::array< std::vector< Idx >, N > cand;
  for( int d = 0; d < N; ++d ) cand[ d ] = indices( dims[ d ] );
  std::array< size_t, N > k{};
  for( ;; )
  {
    std::array< Idx, N > i;
    bool bad = false;
    long lin = 0;
    for( int d = 0; d < N; ++d ) { i[ d ] = cand[ d ][ k[ d ] ]; if( out( i[ d ], dims[ d ] ) ) bad = true; }
    if( !bad ) for( int d = 0; d < N; ++d ) lin += i[ d ] * strides[ d ];
    int nbad = 0, extreme = 0;
    for( int d = 0; d < N; ++d ) { nbad += out( i[ d ], dims[ d ] ); extreme += k[ d ] == 0 || k[ d ] + 1 == cand[ d ].size(); }
    if( nbad <= 2 && extreme <= 1 )
    {
      std::ostringstream o; for( auto x : i ) o << x << ","; o << " extents "; for( auto x : dims ) o << x << ",";
      std::string const idx = o.str();
      long const * volatile p = nullptr;
      volatile long l = -1;
      say( who, " operator()(", idx ); if( !expect( bad, [&] { p = &lay::call( v, i ); } ) ) MC_CHECK( p == base + lin, what << " addresses the wrong element" );
      say( who, " operator[](", idx ); if( !expect( bad, [&] { p = &bracket< N >( v, i ); } ) ) MC_CHECK( p == base + lin, what << " addresses the wrong element" );
      say( who, " linearIndex(", idx ); if( !expect( bad, [&] { l = lay::linear( v, i ); } ) ) MC_CHECK( l == lin, what << " is " << l << " instead of " << lin );
    }
    int d = N - 1;
    while( d >= 0 && ++k[ d ] == cand[ d ].size() ) { k[ d ] = 0; --d; }
    if( d < 0 ) break;
  }
}

template< typename PERM, int N >
void arrayAccess( mc::Chooser & c, std::array< Idx, N > const & dims )
{
  using A = LvArray::Array< long, N, PERM, Idx, LvArray::MallocBuffer >;
  A a;
  { a.resize( N, dims.data() ); }
  std::array< long, N > const str = lay::strides( lay::toVector( PERM{} ), [&] { std::array< long, N > x; for( int d = 0; d < N; ++d ) x[ d ] = dims[ d ]; return x; } () );
  long const * base = a.data();
  switch( c.choose( 7, "through" ) )
  {
    case 0: accessors< A, N >( a, dims, str, base, "Array" ); break;
    case 1: { auto const & v = a.toView(); accessors< std::decay_t< decltype( v ) >, N >( v, dims, str, base, "ArrayView" ); } break;
    case 2: { auto const v = a.toViewConst(); accessors< std::decay_t< decltype( v ) >, N >( v, dims, str, base, "ArrayView const" ); } break;
    case 3: { auto const v = a.toSlice(); accessors< std::decay_t< decltype( v ) >, N >( v, dims, str, base, "ArraySlice" ); } break;
    case 4:
    {
      auto const s = a.toSliceConst();
      for( int d : { -2, -1, 0, 1, 2, 3, 4, std::numeric_limits< int >::min(), std::numeric_limits< int >::max() } )
      {
        volatile Idx r = 0;
        bool const bad = d < 0 || d >= N;
        say( "Array size(", d ); if( !expect( bad, [&] { r = a.size( d ); } ) ) MC_EQ( Idx( r ), dims[ d ], what );
        say( "ArraySlice size(", d ); if( !expect( bad, [&] { r = s.size( d ); } ) ) MC_EQ( Idx( r ), dims[ d ], what );
        say( "ArraySlice stride(", d ); if( !expect( bad, [&] { r = s.stride( d ); } ) ) MC_EQ( Idx( r ), str[ d ], what );
        say( "setSingleParameterResizeIndex(", d );
        int const before = a.getSingleParameterResizeIndex();
        bool const e = expect( bad, [&] { a.setSingleParameterResizeIndex( d ); } );
        MC_EQ( a.getSingleParameterResizeIndex(), e ? before : d, what );
      }
    }
    break;
    case 5:
    {
      // Negative extents.
      for( int d = 0; d < N; ++d ) for( Idx n : { Idx( -1 ), Idx( -3 ), std::numeric_limits< Idx >::min() } )
      {
        std::array< Idx, N > bad = dims; bad[ d ] = n;
        say( "resize(", n, " in dimension ", d );
        { A * b = new A( a ); expect( true, [&] { b->resize( N, bad.data() ); } ); }
        { A * b = new A( a ); b->setSingleParameterResizeIndex( d ); say( "resize(", n, " of the default dimension ", d ); expect( true, [&] { b->resize( n ); } ); }
      }
      for( int n : { -1, 0, N - 1, N + 1 } ) { A * b = new A( a ); say( "resize(", n, " extents" ); expect( n != N, [&] { b->resize( n, dims.data() ); } ); }
    }
    break;
    case 6:
      if constexpr( N > 1 )
      {
        // Raw access through slices: only contiguous ones.
        if( dims[ 0 ] == 0 ) break;
        auto const s = a[ 0 ];
        using S = std::decay_t< decltype( s ) >;
        if constexpr( S::USD >= 0 )
        {
          long n = 1, far = 0;
          for( int d = 1; d < N; ++d ) n *= dims[ d ];
          if( n == 0 ) break;
          for( int d = 1; d < N; ++d ) far += ( dims[ d ] - 1 ) * str[ d ];
          bool const dense = far == n - 1;
          std::array< long, N > tail = str; (void) tail;
          // A row of extent one may have any stride: whether it counts as contiguous is left open.
          bool open = false;
          for( int d = 1; d < N; ++d ) open |= dims[ d ] == 1;
          if( dense && open ) break;
          long * volatile p = nullptr;
          say( "dataIfContiguous() of a slice" ); if( !expect( !dense, [&] { p = s.dataIfContiguous(); } ) ) MC_CHECK( p == base, what );
          say( "begin() of a slice" ); if( !expect( !dense, [&] { p = s.begin(); } ) ) MC_CHECK( p == base, what );
          say( "end() of a slice" ); if( !expect( !dense, [&] { p = s.end(); } ) ) MC_CHECK( p == base + n, what );
        }
      }
      break;
  }
}
template< typename PERM, int N, int EXT >
void arrayAccess( mc::Chooser & c )
{
  std::array< Idx, N > dims;
  for( int d = 0; d < N; ++d ) dims[ d ] = c.choose( EXT + 1, "extent" );
  arrayAccess< PERM, N >( c, dims );
}
/* Some shapes of higher dimension. */
template< int N, typename PERM > void highJob( std::vector< std::array< Idx, N > > const & shapes )
{
  mc::enumerate( [&] ( mc::Chooser & c ) { arrayAccess< PERM, N >( c, shapes[ c.choose( int( shapes.size() ), "shape" ) ] ); } );
}
template< int N, int EXT > void arrayJob()
{ lay::forEach( lay::All< N >{}, [] ( auto perm ) { mc::enumerate( [] ( mc::Chooser & c ) { arrayAccess< decltype( perm ), N, EXT >( c ); } ); } ); mc::g().bound += std::to_string( N ) + "-D arrays, extents 0.." + std::to_string( EXT ) + " (-1..3 thorough), all permutations; "; }

#if PART == 0
MC_JOB( "1-D access" ) { arrayJob< 1, 4 >(); }
MC_JOB( "2-D access" ) { if( mc::thorough() ) arrayJob< 2, 4 >(); else arrayJob< 2, 3 >(); }
MC_JOB( "3-D access" ) { if( mc::thorough() ) arrayJob< 3, 3 >(); else arrayJob< 3, 2 >(); }

// ---------------------------------------------------------------------------
// One-dimensional arrays
// ---------------------------------------------------------------------------
static void vec( mc::Chooser & c )
{
  using A = LvArray::Array< long, 1, camp::idx_seq< 0 >, Idx, LvArray::MallocBuffer >;
  int const n = c.choose( 4, "size" );
  bool const room = c.flag( "spare capacity" );
  A * a = new A();
  if( room ) a->reserve( 8 );
  std::vector< long > m;
  for( int i = 0; i < n; ++i ) { a->emplace_back( 100 + i ); m.push_back( 100 + i ); }
  auto const is = indices( Idx( n ) );
  int const op = c.choose( 5, "op" );
  Idx const pos = op == 4 ? 0 : is[ c.choose( int( is.size() ), "pos" ) ];
  bool bad = false;
  switch( op )
  {
    case 0: bad = out( pos, Idx( n + 1 ) ); say( "Array emplace(", pos, " of ", n ); if( !expect( bad, [&] { a->emplace( pos, 7l ); } ) ) m.insert( m.begin() + pos, 7 ); break;
    case 1: case 2:
    {
      bad = out( pos, Idx( n + 1 ) );
      int const k = c.choose( 4, "number" );
      std::vector< long > x; for( int i = 0; i < k; ++i ) x.push_back( 200 + i );
      std::list< long > l( x.begin(), x.end() );
      say( "Array insert(", pos, " of ", n );
      if( !( op == 1 ? expect( bad, [&] { a->insert( pos, x.begin(), x.end() ); } ) : expect( bad, [&] { a->insert( pos, l.begin(), l.end() ); } ) ) ) m.insert( m.begin() + pos, x.begin(), x.end() );
    }
    break;
    case 3: bad = out( pos, Idx( n ) ); say( "Array erase(", pos, " of ", n ); if( !expect( bad, [&] { a->erase( pos ); } ) ) m.erase( m.begin() + pos ); break;
    case 4: bad = n == 0;
#ifdef NDEBUG
      if( bad ) return;     // an assertion
#endif
      say( "Array pop_back() of ", n ); if( !expect( bad, [&] { a->pop_back(); } ) ) m.pop_back(); break;
  }
  MC_EQ( size_t( a->size() ), m.size(), "size after " << what );
  for( size_t i = 0; i < m.size(); ++i ) MC_EQ( ( *a )[ Idx( i ) ], m[ i ], "value " << i << " after " << what );
}
MC_JOB( "1-D insertion and erasure" ) { mc::enumerate( vec ); mc::g().bound += "sizes 0..3, positions -2..size+2 and extremes"; }

static void sorted( mc::Chooser & c )
{
  using A = LvArray::SortedArray< long, Idx, LvArray::MallocBuffer >;
  int const n = c.choose( 5, "size" );
  A * a = new A();
  std::set< long > m;
  for( int i = 0; i < n; ++i ) { a->insert( 2 * i ); m.insert( 2 * i ); }
  int const op = c.choose( 6, "op" );
  if( op < 4 )
  {
    auto const is = indices( Idx( n ) );
    Idx const i = is[ c.choose( int( is.size() ), "index" ) ];
    long const * volatile p = nullptr;
    auto const v = a->toView();
    bool const bad = out( i, Idx( n ) );
    if( op == 0 ) { say( "SortedArray operator[](", i ); expect( bad, [&] { p = &( *a )[ i ]; } ); }
    if( op == 1 ) { say( "SortedArray operator()(", i ); expect( bad, [&] { p = &( *a )( i ); } ); }
    if( op == 2 ) { say( "SortedArrayView operator[](", i ); expect( bad, [&] { p = &v[ i ]; } ); }
    if( op == 3 ) { say( "SortedArrayView operator()(", i ); expect( bad, [&] { p = &v( i ); } ); }
    if( !bad ) MC_CHECK( p == a->data() + i, what << " addresses the wrong element" );
    return;
  }
  int const len = c.choose( 4, "batch length" );
  std::vector< long > x; std::ostringstream o;
  for( int i = 0; i < len; ++i ) { x.push_back( c.choose( 5, "value" ) * 2 + ( i == 1 ) ); o << x.back() << " "; }
  bool bad = false;
  for( int i = 1; i < len; ++i ) bad |= x[ i ] <= x[ i - 1 ];
#ifdef NDEBUG
  if( bad ) return;         // an assertion
#endif
  volatile long r = 0;
  say( "SortedArray ", op == 4 ? "insert(" : "remove(", o.str() );
  if( !expect( bad, [&] { if( op == 4 ) r = a->insert( x.begin(), x.end() ); else r = a->remove( x.begin(), x.end() ); } ) )
  { long e = 0; for( long y : x ) e += op == 4 ? m.insert( y ).second : m.erase( y ); MC_EQ( long( r ), e, what ); }
  MC_EQ( size_t( a->size() ), m.size(), "size after " << what );
  Idx i = 0;
  for( long y : m ) MC_EQ( a->data()[ i++ ], y, "contents after " << what );
}
MC_JOB( "sorted array" ) { mc::enumerate( sorted ); mc::g().bound += "sizes 0..4, all batches up to length 3"; }

// ---------------------------------------------------------------------------
// Tensor operations on operands of the wrong size
// ---------------------------------------------------------------------------
namespace to = LvArray::tensorOps;
template< int N > using Arr = LvArray::Array< double, N, std::conditional_t< N == 1, camp::idx_seq< 0 >, camp::idx_seq< 0, 1 > >, Idx, LvArray::MallocBuffer >;
static void tensors( mc::Chooser & c )
{
  static constexpr int NV = 12;
  int const op = c.choose( NV, "op" );
  // vectors of length 2 or 3 wanted: x[3], y[3], z[2], matrices M[2][3], S[3][3], s[6]
  int const which = c.choose( 4, "operand" );      // which operand has the wrong size (3: none)
  int const delta = which == 3 ? 0 : c.choose( 3, "delta" ) == 0 ? -1 : 1;
  auto V = [&] ( int k, int n ) { Arr< 1 > a( Idx( n + ( which == k ? delta : 0 ) ) ); for( Idx i = 0; i < a.size(); ++i ) a[ i ] = i + 1; return a; };
  int const dim = which == 3 ? 0 : c.choose( 2, "dimension" );
  auto M = [&] ( int k, int n, int m ) { Arr< 2 > a( Idx( n + ( which == k && dim == 0 ? delta : 0 ) ), Idx( m + ( which == k && dim == 1 ? delta : 0 ) ) );
                                         for( Idx i = 0; i < a.size( 0 ); ++i ) for( Idx j = 0; j < a.size( 1 ); ++j ) a( i, j ) = 1 + i * 7 + j * j; return a; };
  int operands = 0;
  auto run = [&] ( int n, char const * name, auto && f ) { operands = n; bool const bad = which < n; if( which != 3 && which >= n ) return; say( "tensorOps::", name, "(operand ", which, " wrong by ", delta ); expect( bad, f ); };
  switch( op )
  {
    case 0: { auto x = V( 0, 3 ), y = V( 1, 3 ); run( 2, "copy", [&] { to::copy< 3 >( x, y.toSliceConst() ); } ); } break;
    case 1: { auto x = V( 0, 3 ), y = V( 1, 3 ); run( 2, "add", [&] { to::add< 3 >( x.toSlice(), y.toViewConst() ); } ); } break;
    case 2: { auto x = V( 0, 3 ), y = V( 1, 3 ); run( 2, "AiBi", [&] { volatile double d = to::AiBi< 3 >( x, y ); (void) d; } ); } break;
    case 3: { auto x = V( 0, 3 ); run( 1, "l2Norm", [&] { volatile double d = to::l2Norm< 3 >( x.toViewConst() ); (void) d; } ); } break;
    case 4: { auto x = V( 0, 3 ), y = V( 1, 3 ), z = V( 2, 3 ); run( 3, "crossProduct", [&] { to::crossProduct( x, y, z ); } ); } break;
    case 5: { auto x = V( 0, 2 ), y = V( 1, 3 ); auto m = M( 2, 2, 3 ); run( 3, "Ri_eq_AijBj", [&] { to::Ri_eq_AijBj< 2, 3 >( x, m, y ); } ); } break;
    case 6: { auto r = M( 0, 2, 3 ); auto a = V( 1, 2 ), b = V( 2, 3 ); run( 3, "Rij_eq_AiBj", [&] { to::Rij_eq_AiBj< 2, 3 >( r, a, b ); } ); } break;
    case 7: { auto r = M( 0, 2, 2 ), a = M( 1, 2, 3 ), b = M( 2, 3, 2 ); run( 3, "Rij_eq_AikBkj", [&] { to::Rij_eq_AikBkj< 2, 2, 3 >( r, a, b ); } ); } break;
    case 8: { auto r = M( 0, 3, 2 ), a = M( 1, 2, 3 ); run( 2, "transpose", [&] { to::transpose< 3, 2 >( r, a ); } ); } break;
    case 9: { auto s = M( 0, 3, 3 ); run( 1, "determinant", [&] { volatile double d = to::determinant< 3 >( s ); (void) d; } ); } break;
    case 10: { auto r = V( 0, 3 ), s = V( 1, 6 ), b = V( 2, 3 ); run( 3, "Ri_eq_symAijBj", [&] { to::Ri_eq_symAijBj< 3 >( r, s, b ); } ); } break;
    case 11: { auto r = M( 0, 3, 3 ); auto s = V( 1, 6 ); run( 2, "symmetricToDense", [&] { to::symmetricToDense< 3 >( r, s ); } ); } break;
  }
  (void) operands;
}
MC_JOB( "tensor operands of the wrong size" ) { mc::enumerate( tensors ); mc::g().bound += "12 operations, every operand and dimension off by one"; }
#endif

#if PART == 4
/* Every index is also given in another integer type. */
template< typename J, typename V > void mixed( V const & v, std::array< Idx, 2 > const & dims, long const * base, std::array< long, 2 > const & str, char const * who )
{
  for( J i : indices( J( dims[ 0 ] ) ) ) for( J j : indices( J( dims[ 1 ] ) ) )
  {
    // The accessors convert to the index type: only values which survive that are asked for.
    if( ( std::is_unsigned< J >::value && i > J( dims[ 0 ] + 2 ) ) || ( std::is_unsigned< J >::value && j > J( dims[ 1 ] + 2 ) ) ) continue;
    bool const bad = out( i, J( dims[ 0 ] ) ) || out( j, J( dims[ 1 ] ) );
    long const * volatile p = nullptr;
    say( who, " operator()(", long( i ), ",", long( j ), ") extents ", dims[ 0 ], ",", dims[ 1 ], " other index type" );
    if( !expect( bad, [&] { p = &v( i, j ); } ) ) MC_CHECK( p == base + long( i ) * str[ 0 ] + long( j ) * str[ 1 ], what << " addresses the wrong element" );
    if( !expect( bad, [&] { p = &v( Idx( i ), j ); } ) ) MC_CHECK( p == base + long( i ) * str[ 0 ] + long( j ) * str[ 1 ], what << " addresses the wrong element" );
    if( !expect( bad, [&] { p = &v[ i ][ j ]; } ) ) MC_CHECK( p == base + long( i ) * str[ 0 ] + long( j ) * str[ 1 ], what << " addresses the wrong element" );
  }
}
MC_JOB( "4-D access" )
{
  std::vector< std::array< Idx, 4 > > const shapes = { { 2, 1, 3, 2 }, { 1, 2, 0, 2 }, { 2, 2, 2, 1 } };
  highJob< 4, camp::idx_seq< 0, 1, 2, 3 > >( shapes ); highJob< 4, camp::idx_seq< 3, 2, 1, 0 > >( shapes ); highJob< 4, camp::idx_seq< 1, 3, 0, 2 > >( shapes );
  if( mc::thorough() ) lay::forEach( lay::All< 4 >{}, [&] ( auto perm ) { highJob< 4, decltype( perm ) >( shapes ); } );
  mc::g().bound += "4-D arrays, 3 shapes, 3 permutations (all thorough); ";
}
MC_JOB( "5-D access" )
{
  std::vector< std::array< Idx, 5 > > const shapes = { { 2, 1, 1, 2, 1 } };
  highJob< 5, camp::idx_seq< 0, 1, 2, 3, 4 > >( shapes ); highJob< 5, camp::idx_seq< 2, 4, 1, 0, 3 > >( shapes );
  mc::g().bound += "5-D arrays, 1 shape, 2 permutations; ";
}
template< typename PERM > static void mixedBody( mc::Chooser & c )
{
  LvArray::Array< long, 2, PERM, Idx, LvArray::MallocBuffer > a;
  std::array< Idx, 2 > dims = { Idx( c.choose( 4, "extent" ) ), Idx( c.choose( 4, "extent" ) ) };
  a.resize( 2, dims.data() );
  std::array< long, 2 > const str = lay::strides( lay::toVector( PERM{} ), std::array< long, 2 >{ dims[ 0 ], dims[ 1 ] } );
  auto all = [&] ( auto const & v, char const * who )
  {
    mixed< signed char >( v, dims, a.data(), str, who ); mixed< short >( v, dims, a.data(), str, who ); mixed< unsigned >( v, dims, a.data(), str, who ); mixed< size_t >( v, dims, a.data(), str, who );
    if( sizeof( Idx ) > sizeof( int ) ) mixed< int >( v, dims, a.data(), str, who );
  };
  switch( c.choose( 4, "through" ) )
  { case 0: all( a, "Array" ); break; case 1: all( a.toView(), "ArrayView" ); break; case 2: all( a.toSlice(), "ArraySlice" ); break; case 3: all( a.toViewConst(), "ArrayView const" ); break; }
}
MC_JOB( "indices of other types" ) { mc::enumerate( mixedBody< camp::idx_seq< 0, 1 > > ); mc::enumerate( mixedBody< camp::idx_seq< 1, 0 > > ); mc::g().bound += "2-D, extents 0..3, 5 index types"; }
/* Longer one-dimensional containers: every position up to 70. */
static void longOnes( mc::Chooser & c )
{
  static int const sizes[] = { 15, 16, 17, 33, 65 };
  Idx const n = sizes[ c.choose( 5, "size" ) ];
  int const op = c.choose( 5, "op" );
  for( Idx pos : indices( n ) )
  {
    if( op == 0 || op == 1 )
    {
      LvArray::Array< long, 1, camp::idx_seq< 0 >, Idx, LvArray::MallocBuffer > & a = *new LvArray::Array< long, 1, camp::idx_seq< 0 >, Idx, LvArray::MallocBuffer >( n );
      for( Idx i = 0; i < n; ++i ) a[ i ] = i;
      volatile long x = 0;
      say( "Array operator[](", pos, " of ", n ); if( !expect( out( pos, n ), [&] { x = a[ pos ]; } ) ) MC_EQ( long( x ), long( pos ), what );
      if( op == 0 ) { say( "Array emplace(", pos, " of ", n ); if( !expect( out( pos, Idx( n + 1 ) ), [&] { a.emplace( pos, -7l ); } ) ) { MC_EQ( a.size(), n + 1, what ); MC_EQ( a[ pos ], -7l, what ); } else MC_EQ( a.size(), n, what ); }
      else { say( "Array erase(", pos, " of ", n ); if( !expect( out( pos, n ), [&] { a.erase( pos ); } ) ) MC_EQ( a.size(), n - 1, what ); else MC_EQ( a.size(), n, what ); }
      for( Idx i = 0; i < a.size(); ++i ) { long const e = op == 0 ? ( a.size() == n || i < pos ? i : i == pos ? -7 : i - 1 ) : ( a.size() == n || i < pos ? i : i + 1 ); MC_EQ( a[ i ], e, "value " << i << " after " << what ); }
    }
    else if( op == 2 )
    {
      LvArray::SortedArray< long, Idx, LvArray::MallocBuffer > s; for( Idx i = 0; i < n; ++i ) s.insert( 2 * i );
      volatile long x = 0;
      say( "SortedArray operator[](", pos, " of ", n ); if( !expect( out( pos, n ), [&] { x = s[ pos ]; } ) ) MC_EQ( long( x ), 2l * pos, what );
    }
    else if( op == 3 )
    {
      // many arrays, one of them long
      using AoA = LvArray::ArrayOfArrays< long, Idx, LvArray::MallocBuffer >;
      AoA & a = *new AoA();
      for( Idx i = 0; i < n; ++i ) { a.appendArray( Idx( i % 3 ) ); for( Idx k = 0; k < i % 3; ++k ) a( i, k ) = 10 * i + k; }
      volatile long x = 0;
      say( "ArrayOfArrays [", pos, "] of ", n ); if( !expect( out( pos, n ), [&] { x = a.sizeOfArray( pos ); } ) ) MC_EQ( long( x ), long( pos % 3 ), what );
      if( !out( pos, n ) ) for( Idx k : indices( Idx( pos % 3 ) ) ) { say( "ArrayOfArrays (", pos, ",", k, ") of ", n ); if( !expect( out( k, Idx( pos % 3 ) ), [&] { x = a( pos, k ); } ) ) MC_EQ( long( x ), 10l * pos + k, what ); }
      say( "ArrayOfArrays eraseArray(", pos, " of ", n ); if( !expect( out( pos, n ), [&] { a.eraseArray( pos ); } ) ) MC_EQ( a.size(), n - 1, what ); else MC_EQ( a.size(), n, what );
    }
    else
    {
      using AoA = LvArray::ArrayOfArrays< long, Idx, LvArray::MallocBuffer >;
      AoA & a = *new AoA();
      a.appendArray( n ); a.appendArray( 2 );
      for( Idx k = 0; k < n; ++k ) a( 0, k ) = k;
      volatile long x = 0;
      say( "ArrayOfArrays (0,", pos, ") of ", n ); if( !expect( out( pos, n ), [&] { x = a( 0, pos ); } ) ) MC_EQ( long( x ), long( pos ), what );
      if( pos == 0 || pos > 2 || pos < 0 )
      {
        say( "ArrayOfArrays eraseFromArray(0,", pos, ") of ", n ); expect( out( pos, n ), [&] { a.eraseFromArray( 0, pos ); } );
      }
    }
  }
}
MC_JOB( "longer containers" ) { mc::enumerate( longOnes ); mc::g().bound += "sizes 15..65, every position"; }
#endif

// ---------------------------------------------------------------------------
// Arrays of arrays
// ---------------------------------------------------------------------------
struct Rows { std::vector< int > len, cap; };
static std::vector< Rows > const & configs()
{
  static std::vector< Rows > const v = { { {}, {} }, { { 0 }, { 0 } }, { { 2 }, { 3 } }, { { 0, 2 }, { 1, 2 } }, { { 1, 0, 2 }, { 1, 0, 4 } }, { { 2, 1, 1 }, { 4, 3, 1 } } };
  return v;
}
using Vals = std::vector< std::vector< long > >;

/* Everything but row i of v is out of bounds for the operation. */
template< typename V > void guard( Poison & p, V const & v, long rows, Rows const & r, long const * values, Idx i )
{
  (void) v;
  long total = 0, a = 0, b = 0;
  for( long k = 0; k < rows; ++k ) { if( k == i ) { a = total; b = total + r.cap[ k ]; } total += r.cap[ k ]; }
  p.except( values, total, a, b );
}

#if PART == 1
using AoA = LvArray::ArrayOfArrays< long, Idx, LvArray::MallocBuffer >;
static void checkRows( AoA const & a, Vals const & m, int skip = -1 )
{
  MC_EQ( size_t( a.size() ), m.size(), "number of arrays after " << what );
  for( size_t r = 0; r < m.size(); ++r )
  {
    if( int( r ) == skip ) continue;
    MC_EQ( size_t( a.sizeOfArray( r ) ), m[ r ].size(), "size of array " << r << " after " << what );
    for( size_t k = 0; k < m[ r ].size(); ++k ) MC_EQ( a( r, k ), m[ r ][ k ], "value (" << r << "," << k << ") after " << what );
  }
}
static AoA * build( Rows const & r, Vals & m )
{
  AoA * a = new AoA();
  std::vector< Idx > caps( r.cap.begin(), r.cap.end() );
  a->resizeFromCapacities< RAJA::seq_exec >( Idx( caps.size() ), caps.data() );
  m.assign( caps.size(), {} );
  for( size_t i = 0; i < caps.size(); ++i ) for( int k = 0; k < r.len[ i ]; ++k ) { a->emplaceBack( Idx( i ), 10l * ( i + 1 ) + k ); m[ i ].push_back( 10 * ( i + 1 ) + k ); }
  return a;
}

template< typename V >
void aoaRead( V const & v, Vals const & m, long const * values, Rows const & r, std::string const & who )
{
  Idx const n = Idx( m.size() );
  for( Idx i : indices( n ) )
  {
    bool const bad = out( i, n );
    Poison p; guard( p, v, n, r, values, i );
    volatile Idx x = 0;
    say( who, " sizeOfArray(", i ); if( !expect( bad, [&] { x = v.sizeOfArray( i ); } ) ) MC_EQ( size_t( x ), m[ i ].size(), what );
    say( who, " capacityOfArray(", i ); if( !expect( bad, [&] { x = v.capacityOfArray( i ); } ) ) MC_EQ( size_t( x ), size_t( r.cap[ i ] ), what );
    say( who, " operator[](", i ); expect( bad, [&] { auto s = v[ i ]; x = s.size(); } );
    Idx const len = bad ? 2 : Idx( m[ i ].size() );
    for( Idx j : indices( len ) )
    {
      bool const bad2 = bad || out( j, len );
      volatile long y = 0;
      say( who, " operator()(", i, ",", j ); if( !expect( bad2, [&] { y = v( i, j ); } ) ) MC_EQ( long( y ), m[ i ][ j ], what );
      say( who, " [", i, "][", j, "]" ); if( !expect( bad2, [&] { y = v[ i ][ j ]; } ) ) MC_EQ( long( y ), m[ i ][ j ], what );
    }
  }
}
static void aoaReads( mc::Chooser & c )
{
  Rows const & r = configs()[ c.choose( int( configs().size() ), "rows" ) ];
  Vals m;
  AoA * a = build( r, m );
  switch( c.choose( 4, "through" ) )
  {
    case 0: aoaRead( *a, m, nullptr, r, "ArrayOfArrays" ); break;
    case 1: aoaRead( a->toView(), m, nullptr, r, "ArrayOfArraysView" ); break;
    case 2: aoaRead( a->toViewConstSizes(), m, nullptr, r, "ArrayOfArraysView const sizes" ); break;
    case 3: aoaRead( a->toViewConst(), m, nullptr, r, "ArrayOfArraysView const" ); break;
  }
}
static long const * valuesOf( AoA const & a ) { for( Idx i = 0; i < a.size(); ++i ) if( a.capacityOfArray( i ) > 0 ) { long const * p = a[ i ]; return p; } return nullptr; }

static void aoaView( mc::Chooser & c )
{
  Rows const & r = configs()[ c.choose( int( configs().size() ), "rows" ) ];
  Vals m;
  AoA * a = build( r, m );
  auto const v = a->toView();
  Idx const n = Idx( m.size() );
  auto const is = indices( n );
  Idx const i = is[ c.choose( int( is.size() ), "row" ) ];
  bool const badRow = out( i, n );
  int const len = badRow ? 1 : int( m[ i ].size() ), cap = badRow ? 1 : r.cap[ i ];
  int const op = c.choose( 6, "op" );
  bool bad = badRow, touchesSize = false;
  Poison p; guard( p, v, n, r, valuesOf( *a ), i );
  switch( op )
  {
    case 0: bad |= len + 1 > cap; say( "view emplaceBack(", i ); if( !expect( bad, [&] { v.emplaceBack( i, 7l ); } ) ) m[ i ].push_back( 7 ); break;
    case 1: bad |= len + 1 > cap; touchesSize = true; say( "view emplaceBackAtomic(", i ); if( !expect( bad, [&] { v.emplaceBackAtomic< RAJA::seq_atomic >( i, 7l ); } ) ) m[ i ].push_back( 7 ); break;
    case 2:
    {
      int const k = c.choose( 5, "number" );
      bool const list = c.flag( "from a list" );
      std::vector< long > x; for( int q = 0; q < k; ++q ) x.push_back( 200 + q );
      std::list< long > l( x.begin(), x.end() );
      bad |= len + k > cap;
      if( k == 0 && cap == 0 ) return;   // the position of an array without storage
      say( "view appendToArray(", i, ", ", k, " values, size ", len, " capacity ", cap );
      if( !( list ? expect( bad, [&] { v.appendToArray( i, l.begin(), l.end() ); } ) : expect( bad, [&] { v.appendToArray( i, x.begin(), x.end() ); } ) ) ) m[ i ].insert( m[ i ].end(), x.begin(), x.end() );
    }
    break;
    case 3:
    {
      auto const js = indices( Idx( len ) ); Idx const j = js[ c.choose( int( js.size() ), "position" ) ];
      bad |= len + 1 > cap || out( j, Idx( len + 1 ) );
      say( "view emplace(", i, ",", j, " size ", len, " capacity ", cap ); if( !expect( bad, [&] { v.emplace( i, j, 7l ); } ) ) m[ i ].insert( m[ i ].begin() + j, 7 );
    }
    break;
    case 4:
    {
      auto const js = indices( Idx( len ) ); Idx const j = js[ c.choose( int( js.size() ), "position" ) ];
      int const k = c.choose( 4, "number" );
      bool const list = c.flag( "from a list" );
      std::vector< long > x; for( int q = 0; q < k; ++q ) x.push_back( 200 + q );
      std::list< long > l( x.begin(), x.end() );
      bad |= len + k > cap || out( j, Idx( len + 1 ) );
      if( k == 0 && cap == 0 && !bad ) return;
      say( "view insertIntoArray(", i, ",", j, ", ", k, " values, size ", len, " capacity ", cap );
      if( !( list ? expect( bad, [&] { v.insertIntoArray( i, j, l.begin(), l.end() ); } ) : expect( bad, [&] { v.insertIntoArray( i, j, x.begin(), x.end() ); } ) ) ) m[ i ].insert( m[ i ].begin() + j, x.begin(), x.end() );
    }
    break;
    case 5:
    {
      auto const js = indices( Idx( len ) ); Idx const j = js[ c.choose( int( js.size() ), "position" ) ];
      int const k = c.choose( len + 4, "number" ) - 1;
      if( k == 0 ) return;               // erasing nothing: not specified for the end position
      if( k != 1 && j > 1000000 ) return;
      bad |= out( j, Idx( len ) ) || k < 0 || j + k > len;
      say( "view eraseFromArray(", i, ",", j, ",", k, " size ", len ); if( !expect( bad, [&] { v.eraseFromArray( i, j, Idx( k ) ); } ) ) m[ i ].erase( m[ i ].begin() + j, m[ i ].begin() + j + k );
    }
    break;
  }
  p.lift();
  checkRows( *a, m, touchesSize && bad ? int( i ) : -1 );
}

static void aoaOwner( mc::Chooser & c )
{
  Rows const & r = configs()[ c.choose( int( configs().size() ), "rows" ) ];
  Vals m;
  AoA * a = build( r, m );
  Idx const n = Idx( m.size() );
  auto const is = indices( n );
  int const op = c.choose( 12, "op" );
  Idx const i = op >= 10 ? 0 : is[ c.choose( int( is.size() ), "row" ) ];
  bool const badRow = out( i, n );
  int const len = badRow ? 1 : int( m[ i ].size() );
  bool bad = badRow;
  auto position = [&] { auto const js = indices( Idx( len ) ); return js[ c.choose( int( js.size() ), "position" ) ]; };
  auto batch = [&] { int const k = c.choose( 4, "number" ); std::vector< long > x; for( int q = 0; q < k; ++q ) x.push_back( 200 + q ); return x; };
  bool other = false;
  switch( op )
  {
    case 0: say( "emplaceBack(", i ); if( !expect( bad, [&] { a->emplaceBack( i, 7l ); } ) ) m[ i ].push_back( 7 ); break;
    case 1: { auto x = batch(); say( "appendToArray(", i ); if( x.empty() && !bad && r.cap[ i ] == 0 ) return; if( !expect( bad, [&] { a->appendToArray( i, x.begin(), x.end() ); } ) ) m[ i ].insert( m[ i ].end(), x.begin(), x.end() ); } break;
    case 2: { Idx j = position(); bad |= out( j, Idx( len + 1 ) ); say( "emplace(", i, ",", j, " size ", len ); if( !expect( bad, [&] { a->emplace( i, j, 7l ); } ) ) m[ i ].insert( m[ i ].begin() + j, 7 ); } break;
    case 3: { Idx j = position(); auto x = batch(); bad |= out( j, Idx( len + 1 ) ); if( x.empty() && !bad && r.cap[ i ] == 0 ) return; say( "insertIntoArray(", i, ",", j, " size ", len ); if( !expect( bad, [&] { a->insertIntoArray( i, j, x.begin(), x.end() ); } ) ) m[ i ].insert( m[ i ].begin() + j, x.begin(), x.end() ); } break;
    case 4: { Idx j = position(); int const k = 1 + c.choose( len + 2, "number" ); if( k != 1 && j > 1000000 ) return; bad |= out( j, Idx( len ) ) || j + k > len; say( "eraseFromArray(", i, ",", j, ",", k, " size ", len ); if( !expect( bad, [&] { a->eraseFromArray( i, j, Idx( k ) ); } ) ) m[ i ].erase( m[ i ].begin() + j, m[ i ].begin() + j + k ); } break;
    case 5: { int const k = c.choose( 6, "size" ) - 2; bad |= k < 0; say( "resizeArray(", i, ",", k ); if( !bad && k == 0 && r.cap[ i ] == 0 ) return; if( !expect( bad, [&] { a->resizeArray( i, Idx( k ), 9l ); } ) ) m[ i ].resize( k, 9 ); } break;
    case 6: { say( "clearArray(", i ); if( !bad && r.cap[ i ] == 0 ) return; if( !expect( bad, [&] { a->clearArray( i ); } ) ) m[ i ].clear(); } break;
    case 7: { int const k = c.choose( 8, "capacity" ) - 2; bad |= k < 0; say( "setCapacityOfArray(", i, ",", k ); if( !expect( bad, [&] { a->setCapacityOfArray( i, Idx( k ) ); } ) && int( m[ i ].size() ) > k ) m[ i ].resize( k ); } break;
    case 8: { auto x = batch(); bad = out( i, Idx( n + 1 ) ); say( "insertArray(", i ); if( x.empty() ) x.push_back( 3 ); if( !expect( bad, [&] { a->insertArray( i, x.begin(), x.end() ); } ) ) m.insert( m.begin() + i, x ); } break;
    case 9: say( "eraseArray(", i ); if( !expect( bad, [&] { a->eraseArray( i ); } ) ) m.erase( m.begin() + i ); break;
    case 10: { int const k = c.choose( 5, "rows" ) - 2; bad = k < 0; say( "resize(", k ); if( !expect( bad, [&] { a->resize( Idx( k ), 1 ); } ) ) m.resize( k ); other = bad; } break;
    case 11:
    {
      int const rows = c.choose( 4, "rows" ) - 1; std::vector< Idx > caps; bad = rows < 0;
      for( int q = 0; q < rows; ++q ) { caps.push_back( c.choose( 3, "capacity" ) - 1 ); bad |= caps.back() < 0; }
      say( "resizeFromCapacities(", rows, " rows" );
      caps.push_back( 0 );
      if( !expect( bad, [&] { a->resizeFromCapacities< RAJA::seq_exec >( Idx( rows ), caps.data() ); } ) ) m.assign( rows, {} );
      other = bad;
    }
    break;
  }
  if( other ) return;
  checkRows( *a, m );
}
MC_JOB( "array of arrays: reading" ) { mc::enumerate( aoaReads ); mc::g().bound += "up to 3 rows of sizes 0..2 and capacities 0..4"; }
MC_JOB( "array of arrays: modification through views" ) { mc::enumerate( aoaView ); mc::g().bound += "up to 3 rows, every position and up to 4 values"; }
MC_JOB( "array of arrays: modification by the owner" ) { mc::enumerate( aoaOwner ); mc::g().bound += "up to 3 rows, every position and up to 3 values"; }
#endif

// ---------------------------------------------------------------------------
// Arrays of sets, sparsity patterns, matrices
// ---------------------------------------------------------------------------
static std::vector< long > batchOf( mc::Chooser & c, int maxLen, long lo, long hi, bool & unsorted, std::string & text )
{
  int const len = c.choose( maxLen + 1, "batch length" );
  std::vector< long > x; std::ostringstream o;
  unsorted = false;
  for( int i = 0; i < len; ++i ) { x.push_back( lo + c.choose( int( hi - lo + 1 ), "value" ) ); o << x.back() << " "; if( i && x[ i ] <= x[ i - 1 ] ) unsorted = true; }
  text = o.str();
  return x;
}

#if PART == 2
using AoS = LvArray::ArrayOfSets< long, Idx, LvArray::MallocBuffer >;
static AoS * buildSets( Rows const & r, Vals & m )
{
  AoS * a = new AoS();
  std::vector< Idx > caps( r.cap.begin(), r.cap.end() );
  a->resizeFromCapacities< RAJA::seq_exec >( Idx( caps.size() ), caps.data() );
  m.assign( caps.size(), {} );
  for( size_t i = 0; i < caps.size(); ++i ) for( int k = 0; k < r.len[ i ]; ++k ) { a->insertIntoSet( Idx( i ), 1l + 2 * k ); m[ i ].push_back( 1 + 2 * k ); }
  return a;
}
static void checkSets( AoS const & a, Vals const & m )
{
  MC_EQ( size_t( a.size() ), m.size(), "number of sets after " << what );
  for( size_t r = 0; r < m.size(); ++r )
  {
    MC_EQ( size_t( a.sizeOfSet( r ) ), m[ r ].size(), "size of set " << r << " after " << what );
    for( size_t k = 0; k < m[ r ].size(); ++k ) MC_EQ( a( r, k ), m[ r ][ k ], "value (" << r << "," << k << ") after " << what );
  }
}
static long addTo( std::vector< long > & s, std::vector< long > const & x ) { std::set< long > t( s.begin(), s.end() ); long const n = long( t.size() ); t.insert( x.begin(), x.end() ); s.assign( t.begin(), t.end() ); return long( s.size() ) - n; }
static long dropFrom( std::vector< long > & s, std::vector< long > const & x ) { std::set< long > t( s.begin(), s.end() ); long n = 0; for( long y : x ) n += t.erase( y ); s.assign( t.begin(), t.end() ); return n; }

template< typename V >
void aosRead( V const & v, Vals const & m, Rows const & r, std::string const & who )
{
  Idx const n = Idx( m.size() );
  for( Idx i : indices( n ) )
  {
    bool const bad = out( i, n );
    volatile Idx x = 0;
    say( who, " sizeOfSet(", i ); if( !expect( bad, [&] { x = v.sizeOfSet( i ); } ) ) MC_EQ( size_t( x ), m[ i ].size(), what );
    say( who, " capacityOfSet(", i ); if( !expect( bad, [&] { x = v.capacityOfSet( i ); } ) ) MC_EQ( size_t( x ), size_t( r.cap[ i ] ), what );
    say( who, " operator[](", i ); expect( bad, [&] { auto s = v[ i ]; x = s.size(); } );
    for( long y = 0; y < 5; ++y ) { volatile bool q = false; say( who, " contains(", i, ",", y ); if( !expect( bad, [&] { q = v.contains( i, y ); } ) ) MC_EQ( bool( q ), std::count( m[ i ].begin(), m[ i ].end(), y ) == 1, what ); }
    Idx const len = bad ? 2 : Idx( m[ i ].size() );
    for( Idx j : indices( len ) )
    {
      bool const bad2 = bad || out( j, len );
      volatile long y = 0;
      say( who, " operator()(", i, ",", j ); if( !expect( bad2, [&] { y = v( i, j ); } ) ) MC_EQ( long( y ), m[ i ][ j ], what );
      say( who, " [", i, "][", j, "]" ); if( !expect( bad2, [&] { y = v[ i ][ j ]; } ) ) MC_EQ( long( y ), m[ i ][ j ], what );
    }
  }
}
static void aosReads( mc::Chooser & c )
{
  Rows const & r = configs()[ c.choose( int( configs().size() ), "rows" ) ];
  Vals m;
  AoS * a = buildSets( r, m );
  switch( c.choose( 3, "through" ) )
  {
    case 0: aosRead( *a, m, r, "ArrayOfSets" ); break;
    case 1: aosRead( a->toView(), m, r, "ArrayOfSetsView" ); break;
    case 2: aosRead( a->toViewConst(), m, r, "ArrayOfSetsView const" ); break;
  }
}
static void aosModify( mc::Chooser & c )
{
  Rows const & r = configs()[ c.choose( int( configs().size() ), "rows" ) ];
  Vals m;
  AoS * a = buildSets( r, m );
  auto const v = a->toView();
  Idx const n = Idx( m.size() );
  auto const is = indices( n );
  bool const view = c.flag( "through a view" );
  int const op = c.choose( view ? 4 : 12, "op" );
  Idx const i = op >= 9 ? 0 : is[ c.choose( int( is.size() ), "row" ) ];
  bool const badRow = out( i, n );
  bool bad = badRow, other = false;
  Poison p;
  if( view ) { long const * values = nullptr; for( Idx k = 0; k < n && !values; ++k ) if( r.cap[ k ] ) values = ( *a )[ k ].dataIfContiguous(); guard( p, v, n, r, values, i ); }
  volatile long ret = 0;
  std::string const who = view ? "ArrayOfSetsView " : "ArrayOfSets ";
  switch( op )
  {
    case 0:
    {
      long const y = c.choose( 6, "value" );
      Vals next = m; long const k = bad ? 0 : addTo( next[ i ], { y } );
      if( view && !bad && int( next[ i ].size() ) > r.cap[ i ] ) bad = true;
      say( who, "insertIntoSet(", i, ",", y ); if( !expect( bad, [&] { ret = view ? v.insertIntoSet( i, y ) : a->insertIntoSet( i, y ); } ) ) { m = next; MC_EQ( long( ret ), k, what ); }
    }
    break;
    case 1:
    {
      long const y = c.choose( 6, "value" );
      Vals next = m; long const k = bad ? 0 : dropFrom( next[ i ], { y } );
      say( who, "removeFromSet(", i, ",", y ); if( !expect( bad, [&] { ret = view ? v.removeFromSet( i, y ) : a->removeFromSet( i, y ); } ) ) { m = next; MC_EQ( long( ret ), k, what ); }
    }
    break;
    case 2: case 3:
    {
      bool unsorted; std::string t;
      auto const x = batchOf( c, 3, 0, 4, unsorted, t );
      Vals next = m; long const k = badRow ? 0 : op == 2 ? addTo( next[ i ], x ) : dropFrom( next[ i ], x );
      bad |= unsorted;
      if( view && !bad && op == 2 && int( next[ i ].size() ) > r.cap[ i ] ) bad = true;
      bool const storage = !badRow && r.cap[ i ] > 0;
      (void) storage;
      say( who, op == 2 ? "insertIntoSet(" : "removeFromSet(", i, ", batch ", t );
      if( !expect( bad, [&] { if( op == 2 ) ret = view ? v.insertIntoSet( i, x.begin(), x.end() ) : a->insertIntoSet( i, x.begin(), x.end() ); else ret = view ? v.removeFromSet( i, x.begin(), x.end() ) : a->removeFromSet( i, x.begin(), x.end() ); } ) ) { m = next; MC_EQ( long( ret ), k, what ); }
    }
    break;
    case 4: { int const k = c.choose( 4, "capacity" ) - 1; bad = out( i, Idx( n + 1 ) ) || k < 0; say( "insertSet(", i, ",", k ); if( !expect( bad, [&] { a->insertSet( i, Idx( k ) ); } ) ) m.insert( m.begin() + i, std::vector< long >{} ); } break;
    case 5: say( "eraseSet(", i ); if( !expect( bad, [&] { a->eraseSet( i ); } ) ) m.erase( m.begin() + i ); break;
    case 6: say( "clearSet(", i ); if( !bad && r.cap[ i ] == 0 ) return; if( !expect( bad, [&] { a->clearSet( i ); } ) ) m[ i ].clear(); break;
    case 7: { int const k = c.choose( 7, "capacity" ) - 2; bad |= k < 0; say( "setCapacityOfSet(", i, ",", k ); if( !expect( bad, [&] { a->setCapacityOfSet( i, Idx( k ) ); } ) && int( m[ i ].size() ) > k ) m[ i ].resize( k ); } break;
    case 8: { int const k = c.choose( 7, "capacity" ); say( "reserveCapacityOfSet(", i, ",", k ); expect( bad, [&] { a->reserveCapacityOfSet( i, Idx( k ) ); } ); } break;
    case 9: { int const k = c.choose( 5, "rows" ) - 2; bad = k < 0; say( "resize(", k ); if( !expect( bad, [&] { a->resize( Idx( k ), 1 ); } ) ) m.resize( k ); other = bad; } break;
    case 10: { int const k = c.choose( 4, "capacity" ) - 1; bad = k < 0; say( "appendSet(", k ); if( !expect( bad, [&] { a->appendSet( Idx( k ) ); } ) ) m.push_back( {} ); other = bad; } break;
    case 11:
    {
      // Assimilation: a description that does not fit the contents is an error.
      auto const desc = c.choose( 3, "description" );
      LvArray::ArrayOfArrays< long, Idx, LvArray::MallocBuffer > * src = new LvArray::ArrayOfArrays< long, Idx, LvArray::MallocBuffer >();
      bool unsorted, any = false; std::string t, all; Vals next;
      bool dup = false;
      for( int k = 0; k < 2; ++k ) { auto x = batchOf( c, k == 0 ? 3 : 1, 0, 2, unsorted, t ); src->appendArray( x.begin(), x.end() ); all += t + "/ "; std::set< long > s( x.begin(), x.end() ); next.push_back( { s.begin(), s.end() } ); bool const d = s.size() != x.size(); dup |= d; any |= !std::is_sorted( x.begin(), x.end() ); }
      if( src->sizeOfArray( 0 ) == 0 && src->sizeOfArray( 1 ) == 0 ) return;
      using D = LvArray::sortedArrayManipulation::Description;
      D const d = desc == 0 ? D::SORTED_UNIQUE : desc == 1 ? D::UNSORTED_NO_DUPLICATES : D::UNSORTED_WITH_DUPLICATES;
      bad = desc == 0 ? any || dup : desc == 1 ? dup : false;
      say( "assimilate(", all );
      if( !expect( bad, [&] { a->assimilate( std::move( *src ), d ); } ) ) m = next;
      other = bad;
    }
    break;
  }
  p.lift();
  if( other ) return;
  checkSets( *a, m );
}
MC_JOB( "array of sets: reading" ) { mc::enumerate( aosReads ); mc::g().bound += "up to 3 sets of sizes 0..2"; }
MC_JOB( "array of sets: modification" ) { mc::enumerate( aosModify ); mc::g().bound += "up to 3 sets, all batches up to length 3 over 5 values, views with poisoned neighbours"; }
#endif

#if PART == 3
#ifndef COLT
#define COLT long
#endif
using Col = COLT;
static constexpr long NCOLS = 4;
template< bool MATRIX > struct Pick { using type = LvArray::SparsityPattern< Col, Idx, LvArray::MallocBuffer >; };
template<> struct Pick< true > { using type = LvArray::CRSMatrix< long, Col, Idx, LvArray::MallocBuffer >; };
using Map = std::vector< std::map< long, long > >;

template< bool MATRIX >
void crs( mc::Chooser & c )
{
  using A = typename Pick< MATRIX >::type;
  static std::vector< Rows > const cfg = { { {}, {} }, { { 0 }, { 0 } }, { { 2 }, { 3 } }, { { 1, 2 }, { 3, 2 } }, { { 2, 1, 3 }, { 2, 1, 4 } } };
  Rows const & r = cfg[ c.choose( int( cfg.size() ), "rows" ) ];
  Idx const n = Idx( r.len.size() );
  A * a = new A();
  std::vector< Idx > caps( r.cap.begin(), r.cap.end() );
  a->template resizeFromRowCapacities< RAJA::seq_exec >( n, NCOLS, caps.data() );
  Map m( n );
  for( Idx i = 0; i < n; ++i )
  {
    // A larger column that was removed again: its stale value stays behind the row.
    if( r.cap[ i ] > r.len[ i ] )
    { if constexpr( MATRIX ) a->insertNonZero( i, Col( 3 ), 99l ); else a->insertNonZero( i, Col( 3 ) ); a->removeNonZero( i, Col( 3 ) ); }
    for( int k = 0; k < r.len[ i ]; ++k ) { if constexpr( MATRIX ) a->insertNonZero( i, Col( k ), 10l * i + k ); else a->insertNonZero( i, Col( k ) ); m[ i ][ k ] = 10l * i + k; }
  }
  for( Idx i = 0; i < n; ++i ) MC_EQ( long( a->nonZeroCapacity( i ) ), long( r.cap[ i ] ), "harness: capacity" );
  auto const is = indices( n );
  Idx const i = is[ c.choose( int( is.size() ), "row" ) ];
  bool const badRow = out( i, n );
  bool bad = badRow;
  auto const v = a->toView();
  Poison p;
  auto protect = [&] {
    Col const * cols = nullptr; for( Idx k = 0; k < n && !cols; ++k ) if( r.cap[ k ] ) cols = v.getColumns( k ).dataIfContiguous();
    long total = 0, lo = 0, hi = 0;
    for( Idx k = 0; k < n; ++k ) { if( k == i ) { lo = total; hi = total + r.cap[ k ]; } total += r.cap[ k ]; }
    if( cols ) p.except( cols, total, lo, hi );
    if constexpr( MATRIX ) { long const * e = nullptr; for( Idx k = 0; k < n && !e; ++k ) if( r.cap[ k ] ) e = v.getEntries( k ).dataIfContiguous(); if( e ) p.except( e, total, lo, hi ); }
  };
  int const who = c.choose( 2, "through a view" );
  std::string const name = std::string( MATRIX ? "CRSMatrix" : "SparsityPattern" ) + ( who ? "View " : " " );
  int const op = c.choose( MATRIX ? 11 : 7, "op" );
  bool skip = false;
  volatile long ret = 0;
  auto fits = [&] ( std::map< long, long > const & x ) { return !who || int( x.size() ) <= r.cap[ i ]; };
  switch( op )
  {
    case 0:
    {
      volatile Idx x = 0;
      auto const cv = a->toViewConst();
      if( who ) protect();
      say( name, "numNonZeros(", i ); if( !expect( bad, [&] { x = who ? cv.numNonZeros( i ) : a->numNonZeros( i ); } ) ) MC_EQ( size_t( x ), m[ i ].size(), what );
      say( name, "nonZeroCapacity(", i ); if( !expect( bad, [&] { x = who ? cv.nonZeroCapacity( i ) : a->nonZeroCapacity( i ); } ) ) MC_EQ( int( x ), r.cap[ i ], what );
      say( name, "empty(", i ); volatile bool e = false; if( !expect( bad, [&] { e = who ? cv.empty( i ) : a->empty( i ); } ) ) MC_EQ( bool( e ), m[ i ].empty(), what );
      Idx const len = bad ? 1 : Idx( m[ i ].size() );
      for( Idx j : indices( len ) )
      {
        volatile long y = 0;
        say( name, "getColumns(", i, ")[", j ); if( !expect( bad || out( j, len ), [&] { y = who ? v.getColumns( i )[ j ] : a->getColumns( i )[ j ]; } ) ) MC_EQ( long( y ), long( j ), what );
        if constexpr( MATRIX ) { say( name, "getEntries(", i, ")[", j ); if( !expect( bad || out( j, len ), [&] { y = who ? v.getEntries( i )[ j ] : a->getEntries( i )[ j ]; } ) ) MC_EQ( long( y ), m[ i ][ j ], what ); }
      }
      skip = true;
    }
    break;
    case 1:
    case 2:
    {
      long const col = c.choose( int( NCOLS ) + 4, "column" ) - ( std::is_signed< Col >::value ? 2 : 0 );
      bool const badCol = out( col, NCOLS );
      bad |= badCol;
      Map next = m; long k = 0;
      if( !bad ) { if( op == 1 ) k = next[ i ].insert( { col, 77 } ).second; else k = next[ i ].erase( col ); if( !fits( next[ i ] ) ) bad = true; }
      if( op == 1 && !badRow && !badCol && m[ i ].count( col ) ) next = m;
      if( who ) protect();
      say( name, op == 1 ? "insertNonZero(" : "removeNonZero(", i, ",", col );
      bool e;
      if constexpr( MATRIX ) e = expect( bad, [&] { if( op == 1 ) ret = who ? v.insertNonZero( i, Col( col ), 77l ) : a->insertNonZero( i, Col( col ), 77l ); else ret = who ? v.removeNonZero( i, Col( col ) ) : a->removeNonZero( i, Col( col ) ); } );
      else e = expect( bad, [&] { if( op == 1 ) ret = who ? v.insertNonZero( i, Col( col ) ) : a->insertNonZero( i, Col( col ) ); else ret = who ? v.removeNonZero( i, Col( col ) ) : a->removeNonZero( i, Col( col ) ); } );
      if( !e ) { m = next; MC_EQ( long( ret ), k, what ); }
    }
    break;
    case 3:
    case 4:
    {
      bool unsorted; std::string t;
      long const lo = std::is_signed< Col >::value ? -1 : 0;
      auto const x = batchOf( c, mc::thorough() ? 4 : 3, lo, NCOLS, unsorted, t );
      bad |= unsorted;
      for( long y : x ) bad |= out( y, NCOLS );
      Map next = m; long k = 0;
      if( !bad ) { for( long y : x ) { if( op == 3 ) k += next[ i ].insert( { y, 70 + y } ).second; else k += next[ i ].erase( y ); } if( !fits( next[ i ] ) ) bad = true; }
      std::vector< Col > cols( x.begin(), x.end() ); std::vector< long > ent; for( long y : x ) ent.push_back( 70 + y );
      if( who ) protect();
      say( name, op == 3 ? "insertNonZeros(" : "removeNonZeros(", i, ", ", t );
      bool e;
      if constexpr( MATRIX ) e = expect( bad, [&] { if( op == 3 ) ret = who ? v.insertNonZeros( i, cols.data(), ent.data(), Idx( cols.size() ) ) : a->insertNonZeros( i, cols.data(), ent.data(), Idx( cols.size() ) );
                                                    else ret = who ? v.removeNonZeros( i, cols.data(), Idx( cols.size() ) ) : a->removeNonZeros( i, cols.data(), Idx( cols.size() ) ); } );
      else e = expect( bad, [&] { if( op == 3 ) ret = who ? v.insertNonZeros( i, cols.begin(), cols.end() ) : a->insertNonZeros( i, cols.begin(), cols.end() );
                                  else ret = who ? v.removeNonZeros( i, cols.begin(), cols.end() ) : a->removeNonZeros( i, cols.begin(), cols.end() ); } );
      if( !e ) { m = next; MC_EQ( long( ret ), k, what ); }
    }
    break;
    case 5:
    {
      if( who ) return;
      int const k = c.choose( 7, "capacity" ) - 1;
      bad |= k < 0;
      say( name, "setRowCapacity(", i, ",", k );
      if( !expect( bad, [&] { a->setRowCapacity( i, Idx( k ) ); } ) ) { while( long( m[ i ].size() ) > k ) m[ i ].erase( std::prev( m[ i ].end() ) ); }
    }
    break;
    case 6:
    {
      if( who || i != 0 ) return;
      int const rows = c.choose( 5, "rows" ) - 2, cols = c.choose( 3, "columns" ) == 0 ? -1 : 4;
      bad = rows < 0 || cols < 0;
      say( name, "resize(", rows, ",", cols );
      if( !expect( bad, [&] { a->resize( Idx( rows ), Idx( cols ), 1 ); } ) ) m.resize( rows ); else skip = true;
    }
    break;
    default:
      if constexpr( MATRIX )
      {
        // Accumulation: every column has to be present.
        bool unsorted; std::string t;
        auto const x = batchOf( c, 3, 0, NCOLS, unsorted, t );
        bool missing = false;
        std::set< long > distinct( x.begin(), x.end() );
        if( !badRow ) for( long y : x ) missing |= !m[ i ].count( y );
        bool const any = op == 10;
        if( any && distinct.size() != x.size() ) return;
        bad |= missing || ( unsorted && !any );
        std::vector< Col > cols( x.begin(), x.end() ); std::vector< long > ent; for( long y : x ) ent.push_back( 1000 + y );
        protect();
        auto const cs = a->toViewConstSizes();
        static char const * const names[] = { "addToRow(", "addToRowLinearSearch(", "addToRowBinarySearch(", "addToRowBinarySearchUnsorted(" };
        say( name, names[ op - 7 ], i, ", ", t );
        Idx const q = Idx( cols.size() );
        bool const e = expect( bad, [&] {
          using P = RAJA::seq_atomic;
          if( op == 7 ) { if( who ) cs.template addToRow< P >( i, cols.data(), ent.data(), q ); else a->template addToRow< P >( i, cols.data(), ent.data(), q ); }
          if( op == 8 ) { if( who ) cs.template addToRowLinearSearch< P >( i, cols.data(), ent.data(), q ); else a->template addToRowLinearSearch< P >( i, cols.data(), ent.data(), q ); }
          if( op == 9 ) { if( who ) cs.template addToRowBinarySearch< P >( i, cols.data(), ent.data(), q ); else a->template addToRowBinarySearch< P >( i, cols.data(), ent.data(), q ); }
          if( op == 10 ) { if( who ) cs.template addToRowBinarySearchUnsorted< P >( i, cols.data(), ent.data(), q ); else a->template addToRowBinarySearchUnsorted< P >( i, cols.data(), ent.data(), q ); }
        } );
        if( !e ) for( long y : x ) m[ i ][ y ] += 1000 + y;
        else if( !badRow ) for( auto & y : m[ i ] ) { p.lift(); y.second = a->getEntries( i )[ std::distance( m[ i ].begin(), m[ i ].find( y.first ) ) ]; }
      }
      break;
  }
  p.lift();
  if( skip ) return;
  MC_EQ( size_t( a->numRows() ), m.size(), "rows after " << what );
  for( size_t k = 0; k < m.size(); ++k )
  {
    MC_EQ( size_t( a->numNonZeros( k ) ), m[ k ].size(), "non zeros of row " << k << " after " << what );
    Idx j = 0;
    for( auto const & y : m[ k ] )
    {
      MC_EQ( long( a->getColumns( k )[ j ] ), y.first, "column of row " << k << " after " << what );
      if constexpr( MATRIX ) MC_EQ( a->getEntries( k )[ j ], y.second, "entry of row " << k << " after " << what );
      ++j;
    }
  }
}
MC_JOB( "sparsity pattern" ) { mc::enumerate( crs< false > ); mc::g().bound += "up to 3 rows, 4 columns, columns -2..5, all batches up to length 3"; }
MC_JOB( "matrix" ) { mc::enumerate( crs< true > ); mc::g().bound += "up to 3 rows, 4 columns, columns -2..5, all batches up to length 3"; }
#endif
MC_MAIN
