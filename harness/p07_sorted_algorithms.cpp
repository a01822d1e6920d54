/* Sorting, searching and set algorithms on raw ranges, for every small input. */
#include "lv.hpp"
#include "elem.hpp"
#include "sortedArrayManipulation.hpp"
#include <set>
#include <list>
#include <memory>
namespace sam = LvArray::sortedArrayManipulation;

#ifndef ELEM
#define ELEM int
#endif
using T = ELEM;
constexpr bool plain = std::is_same< T, int >::value;

static T val( int v ) { return elem::make< T >( v ); }
struct Lt { bool operator()( T const & a, T const & b ) const { return a < b; } };
struct Gt { bool operator()( T const & a, T const & b ) const { return a > b; } };
/* by remainder: many different values compare equal */
struct Mod { bool operator()( T const & a, T const & b ) const { return elem::get( a ) % 2 < elem::get( b ) % 2; } };

/* exactly n raw slots at the end of a heap block, so that ASan guards both ends */
struct Raw
{
  T * p; int live = 0, cap;
  Raw( int n ): p( static_cast< T * >( malloc( n * sizeof( T ) ) ) ), cap( n ) {}
  Raw( std::vector< int > const & v, int extra = 0 ): Raw( int( v.size() ) + extra ) { for( int x : v ) { new ( p + live ) T( val( x ) ); ++live; } }
  ~Raw() { for( int i = 0; i < live; ++i ) p[ i ].~T(); free( p ); }
  std::vector< int > values() const { std::vector< int > r; for( int i = 0; i < live; ++i ) r.push_back( elem::get( p[ i ] ) ); return r; }
};
static std::string show( std::vector< int > const & v ) { std::string s = "{"; for( int x : v ) s += std::to_string( x ) + " "; return s + "}"; }
#define SAME( GOT, EXP, MSG ) do { auto const g_ = ( GOT ); auto const e_ = ( EXP ); if( g_ != e_ ) { std::ostringstream o_; o_ << MSG << ": got " << show( g_ ) << " expected " << show( e_ ); mc::violation( o_.str() ); } } while( false )

template< typename CMP > void dualCase( std::vector< int > const & v, CMP cmp )
{
  int const n = int( v.size() );
  {
    Raw a( v ); std::vector< int > idx( n ); for( int i = 0; i < n; ++i ) idx[ i ] = i;
    std::unique_ptr< int[] > d( new int[ n ] ); std::copy( idx.begin(), idx.end(), d.get() );
    sam::dualSort( a.p, a.p + n, d.get(), cmp );
    std::vector< int > const got = a.values();
    std::vector< char > used( n, 0 );
    for( int i = 0; i < n; ++i )
    {
      if( i + 1 < n ) { if( cmp( a.p[ i + 1 ], a.p[ i ] ) ) mc::violation( "dualSort result is not ordered: " + show( got ) + " from " + show( v ) ); }
      MC_CHECK( d[ i ] >= 0 && d[ i ] < n && !used[ d[ i ] ], "dualSort lost or duplicated a data entry at " << i << " sorting " << show( v ) );
      used[ d[ i ] ] = 1;
      if( got[ i ] != v[ d[ i ] ] ) mc::violation( "dualSort permuted the data differently from the values: " + show( v ) );
    }
  }
}
template< typename CMP > void sortCase( std::vector< int > const & v, CMP cmp )
{
  Raw a( v ); sam::makeSorted( a.p, a.p + v.size(), cmp );
  for( size_t i = 0; i + 1 < v.size(); ++i ) MC_CHECK( !cmp( a.p[ i + 1 ], a.p[ i ] ), "makeSorted result is not ordered, from " << show( v ) );
  std::vector< int > g = a.values(), e = v; std::sort( g.begin(), g.end() ); std::sort( e.begin(), e.end() ); SAME( g, e, "makeSorted is not a permutation" );
}
template< typename CMP > void predicateCase( std::vector< int > const & v, CMP cmp, bool uniqueToo )
{
  Raw a( v ); int const n = int( v.size() );
  bool sorted = true, uniq = true;
  for( int i = 0; i + 1 < n; ++i ) { if( cmp( a.p[ i + 1 ], a.p[ i ] ) ) sorted = false; if( !cmp( a.p[ i ], a.p[ i + 1 ] ) ) uniq = false; }
  MC_EQ( sam::isSorted( a.p, a.p + n, cmp ), sorted, "isSorted of " << show( v ) );
  MC_EQ( sam::isSortedUnique( a.p, a.p + n, cmp ), sorted && uniq, "isSortedUnique of " << show( v ) );
  { std::list< T > l( a.p, a.p + n ); MC_EQ( sam::isSorted( l.begin(), l.end(), cmp ), sorted, "isSorted of a list" ); MC_EQ( sam::isSortedUnique( l.begin(), l.end(), cmp ), sorted && uniq, "isSortedUnique of a list" ); }
  if( sorted )
  {
    std::vector< int > e; for( int i = 0; i < n; ++i ) if( i == 0 || cmp( a.p[ i - 1 ], a.p[ i ] ) ) e.push_back( v[ i ] );
    std::ptrdiff_t const k = sam::removeDuplicates( a.p, a.p + n, cmp );
    MC_EQ( long( k ), long( e.size() ), "removeDuplicates count of " << show( v ) );
    std::vector< int > g; for( int i = 0; i < k; ++i ) g.push_back( elem::get( a.p[ i ] ) );
    SAME( g, e, "removeDuplicates of " << show( v ) );
  }
  if( uniqueToo )
  {
    Raw b( v ); std::ptrdiff_t const k = sam::makeSortedUnique( b.p, b.p + n, cmp );
    std::vector< int > e = v; std::sort( e.begin(), e.end(), [ & ]( int x, int y ) { return cmp( val( x ), val( y ) ); } ); e.erase( std::unique( e.begin(), e.end() ), e.end() );
    MC_EQ( long( k ), long( e.size() ), "makeSortedUnique count of " << show( v ) );
    std::vector< int > g; for( int i = 0; i < k; ++i ) g.push_back( elem::get( b.p[ i ] ) );
    SAME( g, e, "makeSortedUnique of " << show( v ) );
  }
}

/* the library's comparator agrees with the plain one */
template< typename A, typename B > void ordersMatch( std::vector< int > const & v )
{
  Raw a( v );
  for( size_t i = 0; i < v.size(); ++i ) for( size_t j = 0; j < v.size(); ++j ) MC_EQ( A()( a.p[ i ], a.p[ j ] ), B()( a.p[ i ], a.p[ j ] ), "the library's comparison of " << v[ i ] << " and " << v[ j ] );
}

static std::vector< int > chooseSequence( mc::Chooser & c, int maxLen, int nvals )
{ int const n = c.choose( maxLen + 1, "len" ); std::vector< int > v( n ); for( int & x : v ) x = 1 + c.choose( nvals, "v" ); return v; }

MC_JOB( "sort, dual sort, predicates, duplicates: all short sequences" )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    std::vector< int > const v = chooseSequence( c, mc::thorough() ? 7 : 6, plain ? 4 : 3 );
    int const k = c.choose( 5, "cmp" );
    if( k == 3 ) { sortCase( v, sam::less< T >() ); dualCase( v, sam::less< T >() ); predicateCase( v, sam::less< T >(), true ); ordersMatch< sam::less< T >, Lt >( v ); }
    if( k == 4 ) { sortCase( v, sam::greater< T >() ); dualCase( v, sam::greater< T >() ); predicateCase( v, sam::greater< T >(), true ); ordersMatch< sam::greater< T >, Gt >( v ); }
    if( k == 0 ) { sortCase( v, Lt() ); dualCase( v, Lt() ); predicateCase( v, Lt(), true ); }
    if( k == 1 ) { sortCase( v, Gt() ); dualCase( v, Gt() ); predicateCase( v, Gt(), true ); }
    if( k == 2 ) { sortCase( v, Mod() ); dualCase( v, Mod() ); predicateCase( v, Mod(), false ); }
    if( elem::isTracked< T > ) elem::checkNoneLeft();
  }, true );
  mc::g().bound += "every sequence of length <= 6 (7 thorough) over 3-4 values, the library's two comparators and three others; ";
}
MC_JOB( "all permutations" )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    int const n = c.choose( mc::thorough() ? 9 : 8, "len" );
    std::vector< int > rest, v; for( int i = 1; i <= n; ++i ) rest.push_back( i );
    for( int i = 0; i < n; ++i ) { int const k = c.choose( n - i, "p" ); v.push_back( rest[ k ] ); rest.erase( rest.begin() + k ); }
    dualCase( v, Lt() ); sortCase( v, Lt() );
    if( elem::isTracked< T > ) elem::checkNoneLeft();
  } );
  mc::g().bound += "every permutation up to 7 (8 thorough) elements; ";
}
MC_JOB( "find and contains: all sorted sequences" )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    int const n = c.choose( 8, "len" ); std::vector< int > v; int last = 1;
    for( int i = 0; i < n; ++i ) { last = last + c.choose( 6 - last, "step" ); v.push_back( last ); }
    bool const down = c.flag( "greater" ); if( down ) std::reverse( v.begin(), v.end() );
    Raw a( v );
    for( int x = 0; x <= 6; ++x )
    {
      MC_EQ( ( down ? sam::find( a.p, n, val( x ), sam::greater< T >() ) : sam::find( a.p, n, val( x ), sam::less< T >() ) ), ( down ? sam::find( a.p, n, val( x ), Gt() ) : sam::find( a.p, n, val( x ), Lt() ) ), "find with the library's comparator" );
      long e = 0; while( e < n && ( down ? v[ e ] > x : v[ e ] < x ) ) ++e;
      long g = down ? sam::find( a.p, n, val( x ), Gt() ) : sam::find( a.p, n, val( x ) );
      MC_EQ( g, e, "find(" << x << ") in " << show( v ) );
      bool const in = std::count( v.begin(), v.end(), x ) > 0;
      MC_EQ( down ? sam::contains( a.p, n, val( x ), Gt() ) : sam::contains( a.p, n, val( x ) ), in, "contains(" << x << ") in " << show( v ) );
      mc::outcome( mc::hashBytes( &g, sizeof( g ), in ) );
    }
  } );
}
#ifndef SMALLTYPE
MC_JOB( "find on every size up to 70" )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    int const n = c.choose( 71, "len" ); std::vector< int > v; for( int i = 0; i < n; ++i ) v.push_back( 2 * i + 1 );
    Raw a( v );
    for( int x = 0; x <= 2 * n + 1; ++x )
    { MC_EQ( long( sam::find( a.p, n, val( x ) ) ), long( x / 2 ), "find(" << x << ") among " << n << " odd numbers" ); MC_EQ( sam::contains( a.p, n, val( x ) ), x % 2 == 1 && x < 2 * n, "contains(" << x << ")" ); }
  } );
}
#endif

/* Keeps a parallel array in step, the way a matrix keeps its entries, and the list of positions notified. */
struct Shadow
{
  std::vector< int > & data;          // data value of each position
  std::vector< int > const & batch;   // data values of the batch, by position in the batch
  int single;
  T * * where; int * grown;
  T * incrementSize( T * const p, std::ptrdiff_t const n ) { *grown += int( n ) + 1000; data.resize( data.size() + n, -1 ); (void) p; return *where; }
  void insert( std::ptrdiff_t pos )
  { for( long i = long( data.size() ) - 1; i > pos; --i ) data[ i ] = data[ i - 1 ]; data.at( pos ) = single; }
  void set( std::ptrdiff_t pos, std::ptrdiff_t v ) { data.at( pos ) = batch.at( v ); }
  void insert( std::ptrdiff_t left, std::ptrdiff_t v, std::ptrdiff_t pos, std::ptrdiff_t prev )
  { for( long i = prev; i > pos; --i ) data.at( i - 1 + left ) = data.at( i - 1 ); data.at( pos + left - 1 ) = batch.at( v ); }
  void remove( std::ptrdiff_t pos ) { data.erase( data.begin() + pos ); }
  int removed = 0;
  void remove( std::ptrdiff_t n, std::ptrdiff_t cur, std::ptrdiff_t next )
  { ++removed; MC_EQ( long( n ), long( removed ), "removal counter given to the callback" ); for( long i = cur + 1; i < next; ++i ) data.at( i - n ) = data.at( i ); }
};

#ifndef UNIVERSE
#define UNIVERSE ( plain ? 7 : 5 )
#endif
static std::vector< int > subset( int mask, int n ) { std::vector< int > r; for( int i = 0; i < n; ++i ) if( mask >> i & 1 ) r.push_back( i + 1 ); return r; }

MC_JOB( "single insertion and removal: all sets and values" )
{
  int const N = 8;
  mc::enumerate( [&]( mc::Chooser & c ) {
    std::vector< int > const s = subset( c.choose( 1 << N, "set" ), N );
    int const x = c.choose( N + 2, "value" );
    bool const in = std::count( s.begin(), s.end(), x ) > 0;
    for( int relocate = 0; relocate < 2; ++relocate )
    {
      std::set< int > m( s.begin(), s.end() );
      std::unique_ptr< Raw > a( new Raw( s, relocate ? 0 : ( in ? 0 : 1 ) ) ), b;
      std::vector< int > data, none; for( int v : s ) data.push_back( v * 10 );
      T * where = a->p; int grown = 0;
      if( relocate )
      { /* the callback hands out a different block which already holds the values */
        b.reset( new Raw( s, in ? 0 : 1 ) ); where = b->p; }
      Raw & target = relocate && true ? *b : *a;
      bool const r = sam::insert( a->p, long( s.size() ), val( x ), Shadow{ data, none, x * 10, &where, &grown } );
      MC_EQ( r, !in, "insert(" << x << ") into " << show( s ) );
      MC_EQ( grown, 1000 + ( in ? 0 : 1 ), "growth announced by insert(" << x << ") into " << show( s ) );
      if( r ) ++target.live;
      m.insert( x );
      std::vector< int > const e( m.begin(), m.end() ); SAME( target.values(), e, "insert(" << x << ") into " << show( s ) );
      std::vector< int > ed; for( int v : e ) ed.push_back( v * 10 ); SAME( data, ed, "positions notified by insert(" << x << ") into " << show( s ) );
    }
    {
      std::set< int > m( s.begin(), s.end() ); Raw a( s ); std::vector< int > data, none; for( int v : s ) data.push_back( v * 10 );
      T * where = a.p; int grown = 0;
      bool const r = sam::remove( a.p, long( s.size() ), val( x ), Shadow{ data, none, 0, &where, &grown } );
      MC_EQ( r, in, "remove(" << x << ") from " << show( s ) ); if( r ) --a.live;
      m.erase( x ); std::vector< int > const e( m.begin(), m.end() ); SAME( a.values(), e, "remove(" << x << ") from " << show( s ) );
      std::vector< int > ed; for( int v : e ) ed.push_back( v * 10 ); SAME( data, ed, "positions notified by remove" );
    }
    if( elem::isTracked< T > ) elem::checkNoneLeft();
  }, true );
}
template< int HOW > void batchCase( std::vector< int > const & s, std::vector< int > const & b )
{
  std::vector< T > src; for( int v : b ) src.push_back( val( v ) );
  std::list< T > lst( src.begin(), src.end() );
  std::vector< int > bd; for( int v : b ) bd.push_back( v * 10 + 1 );
  {
    std::set< int > m( s.begin(), s.end() ); m.insert( b.begin(), b.end() ); int const added = int( m.size() - s.size() );
    Raw a( s, added ); std::vector< int > data; for( int v : s ) data.push_back( v * 10 );
    T * where = a.p; int grown = 0;
    long r;
    if( HOW == 0 ) r = sam::insert( a.p, long( s.size() ), src.data(), src.data() + src.size(), Shadow{ data, bd, 0, &where, &grown } );
    if( HOW == 1 ) r = sam::insert( a.p, long( s.size() ), lst.begin(), lst.end(), Shadow{ data, bd, 0, &where, &grown } );
    MC_EQ( r, long( added ), "insert " << show( b ) << " into " << show( s ) );
    MC_EQ( grown, 1000 + added, "growth announced by insert " << show( b ) << " into " << show( s ) );
    a.live += r;
    std::vector< int > const e( m.begin(), m.end() ); SAME( a.values(), e, "insert " << show( b ) << " into " << show( s ) );
    std::vector< int > ed; for( int v : e ) ed.push_back( std::count( s.begin(), s.end(), v ) ? v * 10 : v * 10 + 1 );
    SAME( data, ed, "positions notified by insert " << show( b ) << " into " << show( s ) );
    int i = 0; for( T const & t : src ) MC_EQ( elem::get( t ), b[ i++ ], "insert changed its input" );
  }
  {
    std::set< int > m( s.begin(), s.end() ); for( int v : b ) m.erase( v );
    Raw a( s ); std::vector< int > data; for( int v : s ) data.push_back( v * 10 );
    T * where = a.p; int grown = 0;
    long r;
    if( HOW == 0 ) r = sam::remove( a.p, long( s.size() ), src.data(), src.data() + src.size(), Shadow{ data, bd, 0, &where, &grown } );
    if( HOW == 1 ) r = sam::remove( a.p, long( s.size() ), lst.begin(), lst.end(), Shadow{ data, bd, 0, &where, &grown } );
    MC_EQ( r, long( s.size() - m.size() ), "remove " << show( b ) << " from " << show( s ) );
    a.live -= r; data.resize( a.live );
    std::vector< int > const e( m.begin(), m.end() ); SAME( a.values(), e, "remove " << show( b ) << " from " << show( s ) );
    std::vector< int > ed; for( int v : e ) ed.push_back( v * 10 ); SAME( data, ed, "positions notified by remove " << show( b ) << " from " << show( s ) );
  }
}
MC_JOB( "batch insertion and removal: all pairs of sets" )
{
  int const N = UNIVERSE;
  mc::enumerate( [&]( mc::Chooser & c ) {
    std::vector< int > const s = subset( c.choose( 1 << N, "set" ), N ), b = subset( c.choose( 1 << N, "batch" ), N );
    batchCase< 0 >( s, b ); batchCase< 1 >( s, b );
    if( elem::isTracked< T > ) elem::checkNoneLeft();
  }, true );
}
#ifdef LARGE
#ifndef NSIZES
#define NSIZES 8
#endif
/* Above 64 elements the dual sort partitions.  Families of inputs, each taken completely. */
static std::vector< int > family( mc::Chooser & c )
{
  int const kind = c.choose( 6, "family" );
  static int const sizes[] = { 63, 64, 65, 66, 67, 68, 80, 127, 129, 130, 200 };
  int const n = sizes[ c.choose( mc::thorough() ? 11 : NSIZES, "size" ) ];
  std::vector< int > v( n );
  switch( kind )
  {
    case 0: /* sorted or reversed, one element moved */
    { bool const rev = c.flag( "rev" ); for( int i = 0; i < n; ++i ) v[ i ] = rev ? n - i : i + 1; int const from = c.choose( n, "from" ), to = c.choose( n, "to" ); int const x = v[ from ]; v.erase( v.begin() + from ); v.insert( v.begin() + to, x ); break; }
    case 1: /* saw teeth */
    { int const p = 1 + c.choose( n, "period" ); bool const down = c.flag( "down" ); for( int i = 0; i < n; ++i ) v[ i ] = 1 + ( down ? ( n - i ) % p : i % p ); break; }
    case 2: /* three blocks of constant values */
    { int const a = c.choose( n, "a" ), b = a + c.choose( n - a, "b" ); int const perm = c.choose( 27, "vals" ); int const x[ 3 ] = { 1 + perm % 3, 1 + perm / 3 % 3, 1 + perm / 9 };
      for( int i = 0; i < n; ++i ) v[ i ] = x[ i < a ? 0 : i < b ? 1 : 2 ]; break; }
    case 3: /* organ pipes with every split */
    { int const a = c.choose( n, "top" ); bool const valley = c.flag( "valley" ); for( int i = 0; i < n; ++i ) v[ i ] = valley ? 1 + abs( i - a ) : n - abs( i - a ); break; }
    case 4: /* multiplicative shuffles */
    { int const m = 1 + c.choose( n, "mult" ), d = c.choose( 8, "div" ) + 1; for( int i = 0; i < n; ++i ) v[ i ] = 1 + ( i * m % ( n + 1 ) ) / d; break; }
    case 5: /* all equal but two */
    { for( int & x : v ) x = 2; v[ c.choose( n, "low" ) ] = 1; v[ c.choose( n, "high" ) ] = 3; break; }
  }
  return v;
}
MC_JOB( "dual sort of large ranges: complete families" )
{ mc::enumerate( [&]( mc::Chooser & c ) { std::vector< int > const v = family( c ); if( c.flag( "greater" ) ) dualCase( v, Gt() ); else dualCase( v, Lt() ); } );
  mc::g().bound += "six complete input families at sizes 63..130 (200 thorough); "; }

/* McIlroy's adversary: values are decided during the sort so that every pivot is as bad as possible. */
struct Adversary
{
  std::vector< int > val; int gas, solid = 0, candidate = 0;
  Adversary( int n ): val( n, n + 1 ), gas( n + 1 ) {}
  bool less( int x, int y )
  {
    if( val[ x ] == gas && val[ y ] == gas ) { if( x == candidate ) val[ x ] = ++solid; else val[ y ] = ++solid; }
    if( val[ x ] == gas ) candidate = x; else if( val[ y ] == gas ) candidate = y;
    return val[ x ] < val[ y ];
  }
};
MC_JOB( "dual sort against an adversary, every size" )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    int const n = c.choose( 600, "size" );
    bool const flip = c.flag( "greater" );
    Adversary adv( n );
    std::vector< int > idx( n ), data( n ); for( int i = 0; i < n; ++i ) idx[ i ] = data[ i ] = i;
    sam::dualSort( idx.data(), idx.data() + n, data.data(), [&]( int x, int y ) { return flip ? adv.less( y, x ) : adv.less( x, y ); } );
    for( int i = 0; i < n; ++i ) MC_EQ( idx[ i ], data[ i ], "dualSort separated the data from the values" );
    /* the values it settled on are a concrete input */
    std::vector< int > v( n ); for( int i = 0; i < n; ++i ) v[ i ] = 1 + adv.val[ i ];
    if( flip ) dualCase( v, Gt() ); else dualCase( v, Lt() );
  } );
}
#endif
MC_MAIN
