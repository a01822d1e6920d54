/* P19: arrays on a fixed-capacity StackBuffer.  The heap-backed systems of P02, P03 and P06 run here with the
 * capacity as an additional limit; in every state every request beyond the capacity has to be reported. */
#include "elem.hpp"
struct Pod { int v; char pad[ 5 ]; };
namespace elem
{
template<> inline Pod make< Pod >( int v ) { Pod p{}; p.v = v; return p; }
inline int get( Pod const & p ) { return p.v; }
}
#include "sys_array1d.hpp"
#include "sys_arraynd.hpp"
#include "sys_sorted.hpp"
#include <cstdlib>
#include <new>

/* every allocation is counted, to show that none happens */
static long g_allocs = 0;
void * operator new( size_t n ) { ++g_allocs; return std::malloc( n ? n : 1 ); }
void * operator new[]( size_t n ) { ++g_allocs; return std::malloc( n ? n : 1 ); }
void operator delete( void * p ) noexcept { std::free( p ); }
void operator delete[]( void * p ) noexcept { std::free( p ); }
void operator delete( void * p, size_t ) noexcept { std::free( p ); }
void operator delete[]( void * p, size_t ) noexcept { std::free( p ); }

template< int L > struct Cap { template< typename U > using Buf = LvArray::StackBuffer< U, L >; };

template< typename A > void inside( A const & a, void const * obj, size_t bytes )
{
  char const * const p = reinterpret_cast< char const * >( a.data() ), * const q = static_cast< char const * >( obj );
  MC_CHECK( p >= q && reinterpret_cast< char const * >( a.data() + a.capacity() ) <= q + bytes, "the elements are not inside the array object" );
}
template< typename A > void byValue( A & a, long n )
{
  // views and captures are copies
  auto const v = a.toView(); auto const c = a.toViewConst(); auto const w = v; A const copy( a );
  auto const lambda = [v, copy] { return std::make_pair( v.data(), copy.data() ); };
  inside( v, &v, sizeof( v ) ); inside( c, &c, sizeof( c ) ); inside( w, &w, sizeof( w ) ); inside( copy, &copy, sizeof( copy ) );
  MC_CHECK( lambda().first != v.data() && lambda().second != copy.data(), "a captured array is not a copy" );
  MC_EQ( long( v.size() ), n, "view size" ); MC_EQ( long( c.size() ), n, "const view size" ); MC_EQ( long( copy.size() ), n, "copy size" );
  using T = std::decay_t< decltype( a.data()[ 0 ] ) >;
  std::vector< int > old;
  for( long i = 0; i < n; ++i ) old.push_back( elem::get( a.data()[ i ] ) );
  for( long i = 0; i < n; ++i )
  {
    MC_EQ( elem::get( v.data()[ i ] ), old[ i ], "view element " << i ); MC_EQ( elem::get( c.data()[ i ] ), old[ i ], "const view element " << i );
    MC_EQ( elem::get( w.data()[ i ] ), old[ i ], "copied view element " << i ); MC_EQ( elem::get( copy.data()[ i ] ), old[ i ], "copied element " << i );
    MC_EQ( elem::get( lambda().first[ i ] ), old[ i ], "captured view element" ); MC_EQ( elem::get( lambda().second[ i ] ), old[ i ], "captured element" );
  }
  for( long i = 0; i < n; ++i ) v.data()[ i ] = elem::make< T >( 777 );
  for( long i = 0; i < n; ++i )
  { MC_EQ( elem::get( a.data()[ i ] ), old[ i ], "element " << i << " changed by a write through a view" ); MC_EQ( elem::get( w.data()[ i ] ), old[ i ], "copied view changed by a write through another" ); }
  A b( a );
  for( long i = 0; i < n; ++i ) b.data()[ i ] = elem::make< T >( 778 );
  for( long i = 0; i < n; ++i ) { MC_EQ( elem::get( a.data()[ i ] ), old[ i ], "element " << i << " changed by a write to a copy" ); MC_EQ( elem::get( c.data()[ i ] ), old[ i ], "const view changed" ); }
}

#define OVER( what, ... ) do { B b( c ); MC_CHECK( mc::reportsError( [&] { __VA_ARGS__; } ), what << " past the capacity is not reported" ); MC_CHECK( b.capacity() == L, "capacity changed" ); } while( 0 )
template< typename A, int L > struct HistoryOf;
template< typename T, int N, typename P, typename I, template< typename > class BUF, int L >
struct HistoryOf< LvArray::Array< T, N, P, I, BUF >, L > { using type = Array1D< T, BUF, L, L, I >; };
template< typename T, int L, typename INDEX >
struct S1 : HistoryOf< LvArray::StackArray< T, 1, camp::idx_seq< 0 >, INDEX, L >, L >::type
{
  using P = typename HistoryOf< LvArray::StackArray< T, 1, camp::idx_seq< 0 >, INDEX, L >, L >::type;
  using P::P; using B = typename P::A;
  static_assert( std::is_same< B, LvArray::StackArray< T, 1, camp::idx_seq< 0 >, INDEX, L > >::value, "StackArray" );
  static int starts() { return L >= 3 ? 3 : 1; }
  void check() const
  {
    P::check();
    B & a = *this->a; B const & c = a;
    inside( a, &a, sizeof( a ) ); byValue( a, long( this->m.size() ) );
    MC_EQ( long( a.capacity() ), long( L ), "capacity" );
    int const n = int( this->m.size() );
    T const x = elem::make< T >( 5 ); T src[ L + 2 ] = {};
    if( n == L ) { OVER( "emplace_back", b.emplace_back( x ) ); for( int p = 0; p <= n; ++p ) OVER( "emplace(" << p << ")", b.emplace( p, x ) ); }
    for( int k = L - n + 1; k <= L + 2; ++k ) for( int p = 0; p <= n; ++p ) OVER( "insert(" << p << ") of " << k, b.insert( p, src, src + k ) );
    for( int k = L + 1; k <= L + 3; ++k )
    {
      OVER( "resize(" << k << ")", b.resize( INDEX( k ) ) ); OVER( "resizeDefault", b.resizeDefault( k, x ) ); OVER( "reserve(" << k << ")", b.reserve( k ) );
      OVER( "resizeDimension", b.template resizeDimension< 0 >( k ) ); OVER( "resizeWithoutInitializationOrDestruction", b.resizeWithoutInitializationOrDestruction( k ) );
      OVER( "resize(1,ptr)", int d[ 1 ] = { k }; b.resize( 1, d ) );
      MC_CHECK( mc::reportsError( [&] { B d( k ); } ), "construction past the capacity is not reported" );
    }
    { B b( c ); b.template setValues< RAJA::seq_exec >( x ); for( int i = 0; i < n; ++i ) MC_EQ( elem::get( b[ i ] ), 5, "element " << i << " after setValues" );
      if( n ) { T y = elem::make< T >( 9 ); b[ n - 1 ] = y; }
      B d( c ); d.template setValues< RAJA::seq_exec >( b.toViewConst() ); for( int i = 0; i < n; ++i ) MC_EQ( elem::get( d[ i ] ), i == n - 1 ? 9 : 5, "element " << i << " after setValues from a view" );
      d.zero(); for( int i = 0; i < n; ++i ) MC_EQ( elem::get( d[ i ] ), 0, "element " << i << " after zero" ); }
  }
};
template< typename PERM, size_t N, int L, int MAXE >
struct SN : ArrayND< int, PERM, N, Cap< L >::template Buf, MAXE, L >
{
  using P = ArrayND< int, PERM, N, Cap< L >::template Buf, MAXE, L >;
  using P::P; using B = typename P::A;
  using Dims = typename P::Dims;
  void check() const
  {
    P::check();
    B & a = *this->a; B const & c = a;
    inside( a, &a, sizeof( a ) ); byValue( a, P::prod( this->dims ) );
    MC_EQ( long( a.capacity() ), long( L ), "capacity" );
    Dims cur = this->dims;
    for( int k = 0; k < int( N ); ++k )
    {
      long const slab = cur[ k ] ? P::prod( cur ) / cur[ k ] : 0;
      if( !slab ) continue;
      long const m = L / slab + 1;
      Dims d = cur; d[ k ] = m;
      OVER( "resize", std::apply( [&]( auto... e ) { b.resize( e... ); }, d ) );
      OVER( "resize(n,ptr)", b.resize( int( N ), d.data() ) );
      OVER( "resizeWithoutInitializationOrDestruction", std::apply( [&]( auto... e ) { b.resizeWithoutInitializationOrDestruction( e... ); }, d ) );
      if( k == 0 ) OVER( "resizeDimension", b.template resizeDimension< 0 >( m ) );
      OVER( "resize of one dimension", b.setSingleParameterResizeIndex( k ); b.resize( m ) );
      OVER( "resizeDefault of one dimension", b.setSingleParameterResizeIndex( k ); b.resizeDefault( m, 3 ) );
    }
    OVER( "reserve", b.reserve( L + 1 ) );
  }
};
template< int L > struct SS : Sorted< int, Cap< L >::template Buf, L + 1, L >
{
  using P = Sorted< int, Cap< L >::template Buf, L + 1, L >;
  using P::P; using B = typename P::A;
  void check() const
  {
    P::check();
    B & a = *this->a; B const & c = a;
    inside2( a );
    if( int( this->m.size() ) == L ) for( int v = 0; v <= L + 2; ++v ) if( !this->m.count( v ) ) over( c, [&]( B & b ) { b.insert( v ); }, "insert" );
    for( int mask = 0; mask < 1 << ( L + 1 ); ++mask )
    {
      std::set< int > u = this->m; auto s = P::subset( mask ); for( int v : s ) u.insert( v );
      if( int( u.size() ) > L ) over( c, [&]( B & b ) { b.insert( s.begin(), s.end() ); }, "batch insert" );
    }
    over( c, [&]( B & b ) { b.reserve( L + 1 ); }, "reserve" );
  }
  void inside2( B const & a ) const
  { char const * const p = reinterpret_cast< char const * >( a.data() ), * const q = reinterpret_cast< char const * >( &a ); MC_CHECK( p >= q && p + L * sizeof( int ) <= q + sizeof( a ), "the elements are not inside the set object" ); }
  template< typename F > void over( B const & c, F && f, char const * what ) const
  { B b( c ); MC_CHECK( mc::reportsError( [&] { f( b ); } ), what << " past the capacity is not reported" ); }
};

/* leakCheck is off: a reported error leaves its message behind; that nothing is allocated is a job of its own */
template< typename S > void run( int q, int t, int nm = 1 )
{ mc::HistoryOptions o; o.leakCheck = false; o.depth = mc::thorough() ? t : q; o.noMerge = mc::thorough() ? nm + 1 : nm; mc::exploreHistories< S >( o ); }
template< typename S > void reg( std::string const & name, int q, int t, int nm = 1 ) { mc::jobs().push_back( { name, [=] { run< S >( q, t, nm ); }, false } ); }

/* No allocation: operation sequences whose arguments need none, on an array in automatic storage. */
template< typename T, int L, int N >
void allocations( mc::Chooser & c )
{
  using A = LvArray::StackArray< T, 1, camp::idx_seq< 0 >, int, L >;
  T src[ 3 ] = {};
  int ops[ N ];
  for( int & o : ops ) o = c.choose( 9, "op" );
  long const before = g_allocs;
  {
    A a; A b;
    int sz = 0;
    for( int step = 0; step < N; ++step )
    {
      int const op = ops[ step ];
      if( op == 0 && sz < L ) { a.emplace_back( src[ 0 ] ); ++sz; }
      if( op == 1 && sz > 0 ) { a.pop_back(); --sz; }
      if( op == 2 && sz < L ) { a.emplace( sz / 2, src[ 0 ] ); ++sz; }
      if( op == 3 && sz + 2 <= L ) { a.insert( 0, src, src + 2 ); sz += 2; }
      if( op == 4 && sz > 0 ) { a.erase( 0 ); --sz; }
      if( op == 5 ) { sz = L; a.resize( L ); }
      if( op == 6 ) { sz = 1; a.resizeDefault( 1, src[ 1 ] ); }
      if( op == 7 ) { a.reserve( L ); auto v = a.toView(); auto w = a.toViewConst(); A d( a ); b = a; A e( std::move( d ) ); a = b; }
      if( op == 8 ) { a.clear(); sz = 0; }
      MC_EQ( int( a.size() ), sz, "size" );
    }
    auto s = a.toSlice(); (void) s;
  }
  MC_EQ( g_allocs, before, "memory was allocated" );
}

static int all = [] {
#if PART == 0
  reg< S1< int, 1, long > >( "stack vector, capacity 1", 6, 8 );
  reg< S1< int, 2, int > >( "stack vector, capacity 2", 5, 7 );
  reg< S1< Pod, 3, long > >( "stack vector of structs, capacity 3", 4, 6 );
  reg< S1< double, 4, int > >( "stack vector of double, capacity 4", 3, 5 );
  reg< SS< 2 > >( "stack set, capacity 2", 4, 6 );
  reg< SS< 4 > >( "stack set, capacity 4", 2, 4 );
#elif PART == 1
  lay::forEach( lay::All< 2 >{}, []( auto p ) {
    reg< SN< decltype( p ), 2, 4, 4 > >( std::string( "stack matrix, capacity 4, " ) + lay::name( decltype( p ){} ), 4, 6 );
    reg< SN< decltype( p ), 2, 6, 3 > >( std::string( "stack matrix, capacity 6, " ) + lay::name( decltype( p ){} ), 4, 6 ); } );
#else
  lay::forEach( lay::All< 3 >{}, []( auto p ) { reg< SN< decltype( p ), 3, 8, 2 > >( std::string( "stack tensor, capacity 8, " ) + lay::name( decltype( p ){} ), 2, 4 ); } );
#endif
  return 0;
}();
#if PART == 0
MC_JOB( "stack array never allocates" ) { mc::enumerate( []( mc::Chooser & c ) { allocations< int, 4, 5 >( c ); }, false ); }
#endif
MC_MAIN
