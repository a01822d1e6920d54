/* P35: operations within the room a container has neither allocate nor move values; growth is amortised. */
#include "lv.hpp"
#include "Array.hpp"
#include "SortedArray.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#include "MallocBuffer.hpp"
#include <functional>
#include <memory>
#ifndef INDEXT
#define INDEXT long
#endif
using I = INDEXT;
using LvArray::MallocBuffer;
template< typename F > static long counted( F && f ) { auto & al = mc::allocs(); bool const was = al.on; long const c = al.calls; al.on = true; f(); al.on = was; return al.calls - c; }

static bool counts() { long const n = counted( [] { void * volatile p = malloc( 5 ); free( p ); } ); return n > 0; }
template< typename F > static long calls( F && f ) { static bool const ok = counts(); MC_CHECK( ok, "harness: allocations aren't counted" ); return counted( f ); }

/* One operation: when it may be used, when it has to do without an allocation, and whether the values it leaves in
 * place keep their addresses. */
template< typename X > struct Op { std::string name; std::function< bool( X const & ) > can, within; bool stable; std::function< void( X & ) > f; };
using Addr = std::vector< void const * >;
template< typename X > static bool always( X const & ) { return true; }
template< typename X > static bool never( X const & ) { return false; }

template< typename X > static void histories( std::vector< std::string > const & starts, std::function< void( X &, int ) > const & start, std::vector< Op< X > > const & ops,
                                              std::function< Addr( X const & ) > const & addr, std::function< void( X const &, std::vector< long > & ) > const & look, int depth )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    auto x = std::make_unique< X >();
    int const st = c.choose( int( starts.size() ), "start" ); c.noteIf( [&] { return starts[ st ]; } );
    start( *x, st );
    std::vector< long > seen, again; seen.reserve( 4000 ); again.reserve( 4000 );
    for( int d = 0; d < depth; ++d )
    {
      std::vector< int > en;
      for( int i = 0; i < int( ops.size() ); ++i ) if( ops[ i ].can( *x ) ) en.push_back( i );
      int const o = en[ c.choose( int( en.size() ), "op" ) ]; c.noteIf( [&] { return ops[ o ].name; } );
      Op< X > const & op = ops[ o ];
      bool const within = op.within( *x );
      Addr const before = addr( *x );
      long const n = calls( [&] { op.f( *x ); } );
      if( within ) MC_EQ( n, 0l, "allocations by " << op.name );
      if( within && op.stable )
      {
        Addr const after = addr( *x );
        for( size_t k = 0; k < std::min( before.size(), after.size() ); ++k ) if( before[ k ] && after[ k ] ) MC_CHECK( before[ k ] == after[ k ], op.name << " moved the values of part " << k << ", within the room there was" );
      }
      /* reading twice gives the same, without an allocation */
      seen.clear(); again.clear();
      MC_EQ( calls( [&] { look( *x, seen ); look( *x, again ); } ), 0l, "allocations by reading after " << op.name );
      MC_CHECK( seen == again, "reading twice after " << op.name );
      /* moving the container keeps everything where it is */
      Addr const here = addr( *x );
      std::unique_ptr< X > y;
      long const m = calls( [&] { alignas( X ) static char space[ sizeof( X ) ]; X * const z = new( space ) X( std::move( *x ) ); *x = std::move( *z ); z->~X(); } );
      MC_EQ( m, 0l, "allocations by moving there and back" );
      MC_CHECK( addr( *x ) == here, "moving there and back moved the values" );
      again.clear(); look( *x, again ); MC_CHECK( seen == again, "contents after moving there and back" );
      std::string s; for( long v : seen ) s += std::to_string( v ) + ","; mc::outcome( s );
    }
  } );
  mc::g().bound += "all histories of " + std::to_string( depth ) + " operations from " + std::to_string( starts.size() ) + " starts; ";
}

/* n single additions; reallocations are counted after each of them */
static long lg( long n ) { long r = 0; while( n > 0 ) { n >>= 1; ++r; } return r; }
static void growth( std::string const & what, int buffers, long start, int N, std::function< void( int ) > const & add, std::function< Addr() > const & addr )
{
  long total = 0, moved = 0; Addr last = addr();
  for( int k = 0; k < N; ++k )
  {
    total += calls( [&] { add( k ); } );
    Addr const now = addr();
    if( now != last ) ++moved;
    last = now;
    long const bound = buffers * ( 5 * lg( start + k + 1 ) + 8 );
    MC_CHECK( total <= bound, what << ": " << total << " allocations by " << k + 1 << " additions to " << start << " values" );
    MC_CHECK( moved <= bound, what << ": the values were moved " << moved << " times by " << k + 1 << " additions to " << start << " values" );
  }
  mc::outcome( what + std::to_string( total ) );
}
struct Counted
{
  static long & moves() { static long m = 0; return m; }
  long v = 0;
  Counted() = default;
  explicit Counted( long x ): v( x ) {}
  Counted( Counted const & o ): v( o.v ) { ++moves(); }
  Counted( Counted && o ): v( o.v ) { ++moves(); }
  Counted & operator=( Counted const & o ) { v = o.v; ++moves(); return *this; }
  Counted & operator=( Counted && o ) { v = o.v; ++moves(); return *this; }
};

#if PART == 0
using V = LvArray::Array< int, 1, RAJA::PERM_I, I, MallocBuffer >;
using M2 = LvArray::Array< int, 2, RAJA::PERM_IJ, I, MallocBuffer >;
using M2T = LvArray::Array< int, 2, RAJA::PERM_JI, I, MallocBuffer >;
using SA = LvArray::SortedArray< int, I, MallocBuffer >;
MC_JOB( "vector within its room" )
{
  using O = Op< V >;
  auto room = []( int k ) { return [k]( V const & a ) { return a.size() + k <= a.capacity(); }; };
  auto has = []( int k ) { return [k]( V const & a ) { return a.size() >= k; }; };
  static int const r[ 3 ] = { 7, 8, 9 };
  std::vector< O > ops = {
    O{ "push", always< V >, room( 1 ), true, []( V & a ) { a.emplace_back( 5 ); } },
    O{ "emplace in front", always< V >, room( 1 ), true, []( V & a ) { a.emplace( 0, 6 ); } },
    O{ "insert a range in the middle", always< V >, room( 3 ), true, []( V & a ) { a.insert( a.size() / 2, r, r + 3 ); } },
    O{ "insert an empty range", always< V >, always< V >, true, []( V & a ) { a.insert( a.size() / 2, r, r ); } },
    O{ "pop", has( 1 ), always< V >, true, []( V & a ) { a.pop_back(); } },
    O{ "erase the first", has( 1 ), always< V >, true, []( V & a ) { a.erase( 0 ); } },
    O{ "resize by two", always< V >, room( 2 ), true, []( V & a ) { a.resize( a.size() + 2 ); } },
    O{ "resize by two with a default", always< V >, room( 2 ), true, []( V & a ) { a.resizeDefault( a.size() + 2, 3 ); } },
    O{ "resize to the same size", always< V >, always< V >, true, []( V & a ) { a.resize( a.size() ); } },
    O{ "halve", always< V >, always< V >, true, []( V & a ) { a.resize( a.size() / 2 ); } },
    O{ "resize by index", always< V >, room( 1 ), true, []( V & a ) { a.template resizeDimension< 0 >( a.size() + 1 ); } },
    O{ "clear", always< V >, always< V >, true, []( V & a ) { a.clear(); } },
    O{ "reserve what there is", always< V >, always< V >, true, []( V & a ) { a.reserve( a.capacity() ); } },
    O{ "reserve eight", always< V >, []( V const & a ) { return a.capacity() >= 8; }, true, []( V & a ) { a.reserve( 8 ); } },
    O{ "fill", always< V >, always< V >, true, []( V & a ) { a.template setValues< RAJA::seq_exec >( 4 ); a.zero(); } } };
  histories< V >( { "empty", "three values", "three values and room for nine" }, []( V & a, int s ) { if( s == 2 ) a.reserve( 9 ); if( s ) for( int k = 0; k < 3; ++k ) a.emplace_back( k ); }, ops,
    []( V const & a ) { return Addr{ a.data() }; },
    []( V const & a, std::vector< long > & o ) { auto const v = a.toViewConst(); auto const w = v; auto const s = a.toSliceConst(); o.push_back( a.size() ); for( int x : a ) o.push_back( x ); for( I i = 0; i < a.size(); ++i ) { o.push_back( w[ i ] ); o.push_back( s( i ) ); } o.push_back( a.empty() ); },
    mc::thorough() ? 5 : 4 );
}
template< typename A > static void matrixJob()
{
  using O = Op< A >;
  auto fits = []( int r, int c ) { return [r, c]( A const & a ) { return r * c <= a.capacity(); }; };
  std::vector< O > ops;
  for( int r : { 0, 1, 2, 3 } ) for( int c : { 1, 2, 4 } ) ops.push_back( O{ "resize(" + std::to_string( r ) + "," + std::to_string( c ) + ")", always< A >, fits( r, c ), true, [r, c]( A & a ) { a.resize( r, c ); a.zero(); } } );
  ops.push_back( O{ "resize to the same", always< A >, always< A >, true, []( A & a ) { a.resize( a.size( 0 ), a.size( 1 ) ); } } );
  ops.push_back( O{ "one row less", []( A const & a ) { return a.size( 0 ) > 0; }, always< A >, true, []( A & a ) { a.resize( a.size( 0 ) - 1 ); } } );
  ops.push_back( O{ "one row more", always< A >, []( A const & a ) { return ( a.size( 0 ) + 1 ) * a.size( 1 ) <= a.capacity(); }, true, []( A & a ) { a.resizeDefault( a.size( 0 ) + 1, 5 ); } } );
  ops.push_back( O{ "one column less", []( A const & a ) { return a.size( 1 ) > 0; }, always< A >, true, []( A & a ) { a.template resizeDimension< 1 >( a.size( 1 ) - 1 ); } } );
  ops.push_back( O{ "clear", always< A >, always< A >, true, []( A & a ) { a.clear(); } } );
  ops.push_back( O{ "reserve seven", always< A >, []( A const & a ) { return a.capacity() >= 7; }, true, []( A & a ) { a.reserve( 7 ); } } );
  histories< A >( { "empty", "2x2", "1x4 and room for twelve" }, []( A & a, int s ) { if( s == 2 ) a.reserve( 12 ); if( s == 1 ) a.resize( 2, 2 ); if( s == 2 ) a.resize( 1, 4 ); a.zero(); }, ops,
    []( A const & a ) { return Addr{ a.data() }; },
    []( A const & a, std::vector< long > & o ) { auto const v = a.toViewConst(); auto const w = v; o.push_back( a.size( 0 ) ); o.push_back( a.size( 1 ) ); for( I i = 0; i < a.size( 0 ); ++i ) for( I j = 0; j < a.size( 1 ); ++j ) { o.push_back( a( i, j ) ); o.push_back( w[ i ][ j ] ); } },
    mc::thorough() ? 5 : 4 );
}
MC_JOB( "matrix within its room" ) { matrixJob< M2 >(); }
MC_JOB( "permuted matrix within its room" ) { matrixJob< M2T >(); }
MC_JOB( "sorted array within its room" )
{
  struct X : SA { long promised = 0; };
  using O = Op< X >;
  auto has = []( int k ) { return [k]( X const & a ) { return a.size() >= k; }; };
  static int const r[ 3 ] = { 11, 13, 40 };
  std::vector< O > ops;
  for( int v : { 0, 10, 11, 25, 99 } ) ops.push_back( O{ "insert(" + std::to_string( v ) + ")", always< X >, [v]( X const & a ) { return a.contains( v ) || a.size() + 1 <= a.promised; }, true, [v]( X & a ) { a.insert( v ); a.promised = std::max< long >( a.promised, a.size() ); } } );
  ops.push_back( O{ "insert three", always< X >, []( X const & a ) { return a.size() + 3 <= a.promised; }, true, []( X & a ) { a.insert( r, r + 3 ); a.promised = std::max< long >( a.promised, a.size() ); } } );
  ops.push_back( O{ "remove the first", has( 1 ), always< X >, true, []( X & a ) { int const v = a[ 0 ]; a.remove( v ); } } );
  ops.push_back( O{ "remove three", always< X >, always< X >, true, []( X & a ) { a.remove( r, r + 3 ); } } );
  ops.push_back( O{ "remove what isn't there", always< X >, always< X >, true, []( X & a ) { a.remove( 1 ); } } );
  ops.push_back( O{ "clear", always< X >, always< X >, true, []( X & a ) { a.clear(); a.promised = 0; } } );
  for( long n : { 3, 6 } ) ops.push_back( O{ "reserve " + std::to_string( n ), always< X >, [n]( X const & a ) { return a.promised >= n; }, true, [n]( X & a ) { a.reserve( I( n ) ); a.promised = std::max( a.promised, n ); } } );
  histories< X >( { "empty", "three values", "three values and room for nine" }, []( X & a, int s ) { if( s == 2 ) a.reserve( 9 ); a.promised = s == 2 ? 9 : 0; if( s ) for( int k = 1; k < 4; ++k ) a.insert( 10 * k ); a.promised = std::max< long >( a.promised, a.size() ); }, ops,
    []( X const & a ) { return Addr{ a.data() }; },
    []( X const & a, std::vector< long > & o ) { auto const v = a.toViewConst(); auto const w = v; for( int x : a ) o.push_back( x ); for( I i = 0; i < a.size(); ++i ) o.push_back( w[ i ] ); for( int k = 0; k < 50; k += 3 ) o.push_back( v.contains( k ) + 2 * a.contains( k + 1 ) ); },
    mc::thorough() ? 5 : 4 );
}
MC_JOB( "growth of vectors and sorted arrays" )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    long const start = c.range( 0, 40, "start" );
    int const how = c.choose( 10, "how" ); int const N = mc::thorough() ? 6000 : 2000;
    if( how < 4 )
    {
      LvArray::Array< int, 1, RAJA::PERM_I, I, MallocBuffer > a; a.resize( I( start ) );
      if( start % 2 ) a.reserve( I( start + 3 ) );
      static int const one[ 1 ] = { 3 };
      growth( "vector", 1, start, N, [&]( int k ) { if( how == 0 ) a.emplace_back( k ); else if( how == 1 ) a.emplace( 0, k ); else if( how == 2 ) a.insert( a.size() / 2, one, one + 1 ); else a.emplace( a.size() / 2, k ); }, [&] { return Addr{ a.data() }; } );
      MC_EQ( long( a.size() ), start + N, "size" );
    }
    else if( how < 8 )
    {
      SA a; for( long k = 0; k < start; ++k ) a.insert( int( 100000 + k ) );
      if( start % 2 ) a.reserve( I( start + 3 ) );
      growth( "sorted array", 1, start, N, [&]( int k ) { int const v = how == 4 ? k : how == 5 ? 99999 - k : how == 6 ? 200000 + k : ( k * 7919 ) % 65537; if( how == 7 ) a.insert( &v, &v + 1 ); else a.insert( v ); }, [&] { return Addr{ a.data() }; } );
      MC_EQ( long( a.size() ), start + N, "size" );
    }
    else
    {
      LvArray::Array< Counted, 1, RAJA::PERM_I, I, MallocBuffer > a; a.resize( I( start ) );
      Counted::moves() = 0;
      for( int k = 0; k < N; ++k )
      {
        if( how == 8 ) a.emplace_back( long( k ) ); else { a.emplace_back( long( k ) ); if( k % 3 == 2 ) a.pop_back(); }
        MC_CHECK( Counted::moves() <= 6 * ( start + k + 1 ) + 20, k + 1 << " values were appended to " << start << " with " << Counted::moves() << " copies or moves of values" );
      }
      mc::outcome( uint64_t( Counted::moves() ) );
    }
  } );
  mc::g().bound += "starts of 0 to 40 values, up to 2000 (thorough 6000) additions in 10 patterns; ";
}

#elif PART == 1
using AA = LvArray::ArrayOfArrays< int, I, MallocBuffer >;
using AS = LvArray::ArrayOfSets< int, I, MallocBuffer >;
static void lookRows( AA const & a, std::vector< long > & o )
{
  auto const v = a.toViewConst(); auto const w = v;
  o.push_back( a.size() );
  for( I i = 0; i < a.size(); ++i ) { o.push_back( a.sizeOfArray( i ) ); for( int x : a[ i ] ) o.push_back( x ); for( I j = 0; j < w.sizeOfArray( i ); ++j ) o.push_back( w( i, j ) ); }
}
static void lookRows( AS const & a, std::vector< long > & o )
{
  auto const v = a.toViewConst(); auto const w = v;
  o.push_back( a.size() );
  for( I i = 0; i < a.size(); ++i ) { o.push_back( a.sizeOfSet( i ) ); for( int x : a[ i ] ) o.push_back( x ); for( I j = 0; j < w.sizeOfSet( i ); ++j ) o.push_back( w( i, j ) ); for( int k = 0; k < 30; k += 5 ) o.push_back( v.contains( i, k ) ); }
}
template< typename A > static Addr rowAddr( A const & a ) { Addr r; for( I i = 0; i < a.size(); ++i ) r.push_back( a[ i ].size() ? (void const *) &a[ i ][ 0 ] : nullptr ); return r; }
MC_JOB( "array of arrays within its room" )
{
  using O = Op< AA >;
  std::vector< O > ops;
  static int const r[ 2 ] = { 7, 8 };
  for( int i : { 0, 1 } )
  {
    std::string const n = std::to_string( i );
    auto is = [i]( AA const & a ) { return i < a.size(); };
    auto has = [i]( AA const & a ) { return i < a.size() && a.sizeOfArray( i ) > 0; };
    auto room = [i]( int k ) { return [i, k]( AA const & a ) { return a.sizeOfArray( i ) + k <= a.capacityOfArray( i ); }; };
    ops.push_back( O{ "append to " + n, is, room( 1 ), true, [i]( AA & a ) { a.emplaceBack( i, 5 ); } } );
    ops.push_back( O{ "append two to " + n, is, room( 2 ), true, [i]( AA & a ) { a.appendToArray( i, r, r + 2 ); } } );
    ops.push_back( O{ "emplace in front of " + n, is, room( 1 ), true, [i]( AA & a ) { a.emplace( i, 0, 6 ); } } );
    ops.push_back( O{ "insert two into " + n, is, room( 2 ), true, [i]( AA & a ) { a.insertIntoArray( i, a.sizeOfArray( i ) / 2, r, r + 2 ); } } );
    ops.push_back( O{ "erase from " + n, has, always< AA >, true, [i]( AA & a ) { a.eraseFromArray( i, 0 ); } } );
    ops.push_back( O{ "clear " + n, is, always< AA >, true, [i]( AA & a ) { a.clearArray( i ); } } );
    ops.push_back( O{ "shrink " + n, is, always< AA >, true, [i]( AA & a ) { a.resizeArray( i, a.sizeOfArray( i ) / 2 ); } } );
    ops.push_back( O{ "grow " + n, is, room( 1 ), true, [i]( AA & a ) { a.resizeArray( i, a.sizeOfArray( i ) + 1, 9 ); } } );
    ops.push_back( O{ "erase array " + n, is, always< AA >, false, [i]( AA & a ) { a.eraseArray( i ); } } );
    ops.push_back( O{ "capacity of " + n + " := 3", is, [i]( AA const & a ) { return a.capacityOfArray( i ) >= 3; }, false, [i]( AA & a ) { a.setCapacityOfArray( i, 3 ); } } );
  }
  ops.push_back( O{ "append an empty array", []( AA const & a ) { return a.size() < 4; }, []( AA const & a ) { return a.size() < a.capacity(); }, true, []( AA & a ) { a.appendArray( 0 ); } } );
  ops.push_back( O{ "compress", always< AA >, never< AA >, false, []( AA & a ) { a.compress(); } } );
  ops.push_back( O{ "drop the last array", []( AA const & a ) { return a.size() > 0; }, always< AA >, true, []( AA & a ) { a.resize( a.size() - 1 ); } } );
  ops.push_back( O{ "reserve", always< AA >, []( AA const & a ) { return a.capacity() >= 4; }, true, []( AA & a ) { a.reserve( 4 ); } } );
  ops.push_back( O{ "reserve values", always< AA >, []( AA const & a ) { return a.valueCapacity() >= 12; }, true, []( AA & a ) { a.reserveValues( 12 ); } } );
  ops.push_back( O{ "two more values in new arrays", []( AA const & a ) { return a.size() < 3; }, []( AA const & a ) { I used = 0; for( I i = 0; i < a.size(); ++i ) used += a.capacityOfArray( i ); return a.size() < a.capacity() && used + 2 <= a.valueCapacity(); }, true, []( AA & a ) { a.appendArray( 2 ); for( int & x : a[ a.size() - 1 ] ) x = 1; } } );
  histories< AA >( { "empty", "two full arrays", "two arrays with room" }, []( AA & a, int s ) { if( s == 1 ) { a.appendArray( r, r + 2 ); a.appendArray( r, r + 1 ); } if( s == 2 ) { a.reserve( 5 ); a.reserveValues( 20 ); a.resize( 2, 4 ); a.emplaceBack( 0, 1 ); a.emplaceBack( 1, 2 ); a.emplaceBack( 1, 3 ); } }, ops,
    rowAddr< AA >, []( AA const & a, std::vector< long > & o ) { lookRows( a, o ); }, mc::thorough() ? 5 : 4 );
}
MC_JOB( "array of sets within its room" )
{
  using O = Op< AS >;
  std::vector< O > ops;
  static int const r[ 2 ] = { 7, 12 };
  for( int i : { 0, 1 } )
  {
    std::string const n = std::to_string( i );
    auto is = [i]( AS const & a ) { return i < a.size(); };
    for( int v : { 3, 10, 25 } ) ops.push_back( O{ "insert " + std::to_string( v ) + " into " + n, is, [i, v]( AS const & a ) { return a.contains( i, v ) || a.sizeOfSet( i ) + 1 <= a.capacityOfSet( i ); }, true, [i, v]( AS & a ) { a.insertIntoSet( i, v ); } } );
    ops.push_back( O{ "insert two into " + n, is, [i]( AS const & a ) { return a.sizeOfSet( i ) + 2 <= a.capacityOfSet( i ); }, true, [i]( AS & a ) { a.insertIntoSet( i, r, r + 2 ); } } );
    ops.push_back( O{ "remove from " + n, is, always< AS >, true, [i]( AS & a ) { a.removeFromSet( i, 10 ); } } );
    ops.push_back( O{ "remove two from " + n, is, always< AS >, true, [i]( AS & a ) { a.removeFromSet( i, r, r + 2 ); } } );
    ops.push_back( O{ "clear " + n, is, always< AS >, true, [i]( AS & a ) { a.clearSet( i ); } } );
    ops.push_back( O{ "erase set " + n, is, always< AS >, false, [i]( AS & a ) { a.eraseSet( i ); } } );
    ops.push_back( O{ "room for three in " + n, is, [i]( AS const & a ) { return a.capacityOfSet( i ) >= 3; }, true, [i]( AS & a ) { a.reserveCapacityOfSet( i, 3 ); } } );
  }
  ops.push_back( O{ "append an empty set", []( AS const & a ) { return a.size() < 4; }, []( AS const & a ) { return a.size() < a.capacity(); }, true, []( AS & a ) { a.appendSet( 0 ); } } );
  ops.push_back( O{ "compress", always< AS >, never< AS >, false, []( AS & a ) { a.compress(); } } );
  ops.push_back( O{ "reserve", always< AS >, []( AS const & a ) { return a.capacity() >= 4; }, true, []( AS & a ) { a.reserve( 4 ); } } );
  ops.push_back( O{ "reserve values", always< AS >, []( AS const & a ) { return a.valueCapacity() >= 12; }, true, []( AS & a ) { a.reserveValues( 12 ); } } );
  histories< AS >( { "empty", "two full sets", "two sets with room" }, []( AS & a, int s ) { if( s == 1 ) { a.appendSet( 2 ); a.insertIntoSet( 0, r, r + 2 ); a.appendSet( 1 ); a.insertIntoSet( 1, 10 ); } if( s == 2 ) { a.reserve( 5 ); a.reserveValues( 20 ); a.resize( 2, 4 ); a.insertIntoSet( 0, 1 ); a.insertIntoSet( 1, r, r + 2 ); } }, ops,
    rowAddr< AS >, []( AS const & a, std::vector< long > & o ) { lookRows( a, o ); }, mc::thorough() ? 5 : 4 );
}
MC_JOB( "growth of arrays of arrays and of sets" )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    int const rows = c.range( 1, 6, "rows" ), start = c.range( 0, 9, "start" ), how = c.choose( 9, "how" ), N = mc::thorough() ? 6000 : 2000;
    int const row = how < 8 ? c.choose( rows, "row" ) : 0;
    AA a; AS s;
    for( int i = 0; i < rows; ++i ) { a.appendArray( I( start ) ); for( int & x : a[ i ] ) x = 0; s.appendSet( I( start ) ); for( int k = 0; k < start; ++k ) s.insertIntoSet( i, 100000 + k ); }
    static int const one[ 1 ] = { 3 };
    auto pa = [&] { return how == 2 || how == 5 ? Addr{} : Addr{ a.size() && a[ 0 ].size() ? &a[ 0 ][ 0 ] : nullptr }; };
    long const total = long( rows ) * start;
    if( how < 3 )
      growth( "array of arrays", 3, total, N, [&]( int k ) { if( how == 0 ) a.emplaceBack( row, k ); else if( how == 1 ) a.emplace( row, a.sizeOfArray( row ) / 2, k ); else a.emplaceBack( k % rows, k ); }, pa );
    else if( how == 3 )
      growth( "array of arrays, ranges of one", 3, total, N, [&]( int k ) { if( k % 2 ) a.appendToArray( row, one, one + 1 ); else a.insertIntoArray( row, 0, one, one + 1 ); }, pa );
    else if( how < 7 )
      growth( "array of sets", 3, total, N, [&]( int k ) { if( how == 4 ) s.insertIntoSet( row, k ); else if( how == 5 ) s.insertIntoSet( k % rows, 99999 - k ); else { int const v = 200000 + k; s.insertIntoSet( row, &v, &v + 1 ); } }, [] { return Addr{}; } );
    else if( how == 7 )
      growth( "sets appended", 3, total + rows, N, [&]( int k ) { s.appendSet( k % 2 ); if( k % 2 ) s.insertIntoSet( s.size() - 1, k ); }, [] { return Addr{}; } );
    else
      growth( "arrays appended", 3, total + rows, N, [&]( int k ) { if( k % 2 ) a.appendArray( one, one + 1 ); else a.appendArray( 0 ); }, pa );
    /* nothing was lost */
    long n = 0; if( how < 4 || how == 8 ) { for( I i = 0; i < a.size(); ++i ) n += a.sizeOfArray( i ); MC_EQ( n, total + ( how == 8 ? N / 2 : N ), "values" ); }
    else { for( I i = 0; i < s.size(); ++i ) n += s.sizeOfSet( i ); MC_EQ( n, total + ( how == 7 ? N / 2 : N ), "values" ); }
  } );
  mc::g().bound += "1 to 6 arrays of 0 to 9 values, up to 2000 (thorough 6000) additions in 9 patterns to each of them; ";
}
MC_JOB( "work to grow an array of arrays" )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    int const rows = c.range( 1, 6, "rows" ), start = c.flag( "large" ) ? 400 : c.range( 0, 4, "start" ), how = c.choose( 3, "how" ), N = mc::thorough() ? 30000 : 8000, row = c.choose( rows, "row" );
    LvArray::ArrayOfArrays< Counted, I, MallocBuffer > a;
    for( int i = 0; i < rows; ++i ) a.appendArray( I( start ) );
    Counted::moves() = 0;
    static Counted const one[ 1 ];
    for( int k = 0; k < N; ++k )
    {
      if( how == 0 ) a.emplaceBack( row, long( k ) ); else if( how == 1 ) a.appendToArray( row, one, one + 1 ); else a.appendArray( one, one + 1 );
      long const others = long( rows ) * start, n = others + k + 1;
      MC_CHECK( Counted::moves() <= 12 * n + ( 5 * lg( n ) + 8 ) * others + 50, k + 1 << " values were appended to " << rows << " arrays of " << start << " with " << Counted::moves() << " copies or moves of values" );
    }
    mc::outcome( uint64_t( Counted::moves() ) );
  } );
  mc::g().bound += "1 to 6 arrays of 0 to 4 and of 400 values, up to 8000 (thorough 30000) values appended to each of them; ";
}

#else
template< bool M > using Mat = std::conditional_t< M, LvArray::CRSMatrix< double, int, I, MallocBuffer >, LvArray::SparsityPattern< int, I, MallocBuffer > >;
template< bool M > static void ins( Mat< M > & a, I r, int c ) { if constexpr( M ) a.insertNonZero( r, c, c + .5 ); else a.insertNonZero( r, c ); }
template< bool M > static void insMany( Mat< M > & a, I r, int const * c, int n ) { static double const e[ 3 ] = { 1, 2, 3 }; if constexpr( M ) a.insertNonZeros( r, c, e, n ); else a.insertNonZeros( r, c, c + n ); }
template< bool M > static Addr rowAddr( Mat< M > const & a ) { Addr r; for( I i = 0; i < a.numRows(); ++i ) { r.push_back( a.numNonZeros( i ) ? (void const *) &a.getColumns( i )[ 0 ] : nullptr ); if constexpr( M ) r.push_back( a.numNonZeros( i ) ? (void const *) &a.getEntries( i )[ 0 ] : nullptr ); } return r; }
template< bool M > static void room()
{
  using A = Mat< M >; using O = Op< A >;
  std::vector< O > ops;
  static int const r[ 2 ] = { 2, 7 };
  for( int i : { 0, 1 } )
  {
    std::string const n = std::to_string( i );
    auto fits = [i]( int k ) { return [i, k]( A const & a ) { return a.numNonZeros( i ) + k <= a.nonZeroCapacity( i ); }; };
    auto is = [i]( A const & a ) { return i < a.numRows(); };
    for( int v : { 0, 3, 9 } ) ops.push_back( O{ "insert " + std::to_string( v ) + " into " + n, is, [i, v]( A const & a ) { return !a.empty( i, v ) || a.numNonZeros( i ) + 1 <= a.nonZeroCapacity( i ); }, true, [i, v]( A & a ) { ins< M >( a, i, v ); } } );
    ops.push_back( O{ "insert two into " + n, is, fits( 2 ), true, [i]( A & a ) { insMany< M >( a, i, r, 2 ); } } );
    ops.push_back( O{ "remove from " + n, is, always< A >, true, [i]( A & a ) { a.removeNonZero( i, 3 ); } } );
    ops.push_back( O{ "remove two from " + n, is, always< A >, true, [i]( A & a ) { if constexpr( M ) a.removeNonZeros( i, r, 2 ); else a.removeNonZeros( i, r, r + 2 ); } } );
    ops.push_back( O{ "room for three in " + n, is, [i]( A const & a ) { return a.nonZeroCapacity( i ) >= 3; }, true, [i]( A & a ) { a.reserveNonZeros( i, 3 ); } } );
  }
  ops.push_back( O{ "compress", always< A >, never< A >, false, []( A & a ) { a.compress(); } } );
  ops.push_back( O{ "room for twelve", always< A >, []( A const & a ) { return a.nonZeroCapacity() >= 12; }, true, []( A & a ) { a.reserveNonZeros( 12 ); } } );
  if constexpr( M ) ops.push_back( O{ "fill and add", always< A >, always< A >, true, []( A & a ) { a.template setValues< RAJA::seq_exec >( 2 ); for( I i = 0; i < a.numRows(); ++i ) a.template addToRow< RAJA::seq_atomic >( i, a.getColumns( i ).begin(), a.getEntries( i ).begin(), a.numNonZeros( i ) ); } } );
  histories< A >( { "no room", "full rows", "rows with room" }, []( A & a, int s ) { if( s == 0 ) a.resize( 2, 10, 0 ); if( s == 1 ) { a.resize( 2, 10, 2 ); insMany< M >( a, 0, r, 2 ); insMany< M >( a, 1, r, 2 ); } if( s == 2 ) { a.resize( 2, 10, 5 ); ins< M >( a, 0, 4 ); insMany< M >( a, 1, r, 2 ); } }, ops,
    rowAddr< M >, []( A const & a, std::vector< long > & o ) { auto const v = a.toViewConst(); auto const w = v; for( I i = 0; i < a.numRows(); ++i ) { o.push_back( w.numNonZeros( i ) ); for( int x : v.getColumns( i ) ) o.push_back( x ); if constexpr( M ) for( double x : w.getEntries( i ) ) o.push_back( long( 2 * x ) ); for( int k = 0; k < 10; ++k ) o.push_back( a.empty( i, k ) ); } },
    mc::thorough() ? 5 : 4 );
}
MC_JOB( "sparsity pattern within its room" ) { room< false >(); }
MC_JOB( "matrix within its room" ) { room< true >(); }
template< bool M > static void grow()
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    int const rows = c.range( 1, 5, "rows" ), start = c.range( 0, 9, "start" ), how = c.choose( 4, "how" ), N = mc::thorough() ? 6000 : 2000, row = c.choose( rows, "row" );
    Mat< M > a( rows, 400000, c.choose( 2, "exact" ) ? start : 0 );
    for( int i = 0; i < rows; ++i ) for( int k = 0; k < start; ++k ) ins< M >( a, i, 100000 + k );
    growth( M ? "matrix" : "pattern", 2, long( rows ) * start, N, [&]( int k ) { int const v = how == 1 ? 99999 - k : 200000 + k; if( how == 2 ) insMany< M >( a, row, &v, 1 ); else ins< M >( a, how == 3 ? k % rows : row, v ); }, [] { return Addr{}; } );
    MC_EQ( long( a.numNonZeros() ), long( rows ) * start + N, "non-zeros" );
  } );
  mc::g().bound += "1 to 5 rows of 0 to 9 entries, up to 2000 (thorough 6000) insertions in 4 patterns; ";
}
MC_JOB( "work to grow a matrix" )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    int const rows = c.range( 1, 5, "rows" ), start = c.flag( "large" ) ? 400 : c.range( 0, 4, "start" ), N = mc::thorough() ? 30000 : 8000, row = c.choose( rows, "row" );
    LvArray::CRSMatrix< Counted, int, I, MallocBuffer > a( rows, 400000, 0 );
    for( int i = 0; i < rows; ++i ) for( int k = 0; k < start; ++k ) a.insertNonZero( i, 1000 + k, Counted( k ) );
    Counted::moves() = 0;
    for( int k = 0; k < N; ++k )
    {
      a.insertNonZero( row, 200000 + k, Counted( k ) );
      long const others = long( rows ) * start, n = others + k + 1;
      MC_CHECK( Counted::moves() <= 12 * n + ( 5 * lg( n ) + 8 ) * others + 50, k + 1 << " entries were appended to row " << row << " of " << rows << " rows of " << start << " with " << Counted::moves() << " copies or moves of entries" );
    }
    mc::outcome( uint64_t( Counted::moves() ) );
  } );
  mc::g().bound += "1 to 5 rows of 0 to 4 and of 400 entries, up to 8000 (thorough 30000) entries appended to each of them; ";
}
MC_JOB( "growth of a sparsity pattern" ) { grow< false >(); }
MC_JOB( "growth of a matrix" ) { grow< true >(); }
#endif
MC_MAIN
