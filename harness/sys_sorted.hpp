/* SortedArray against an ordered set. */
#pragma once
#include "lv.hpp"
#include "elem.hpp"
#ifdef NO_MOVED_FROM
#define NO_MOVED_FROM_STARTS 1
#else
#define NO_MOVED_FROM_STARTS 0
#endif
#include "SortedArray.hpp"
#include "MallocBuffer.hpp"
#include "StackBuffer.hpp"
#include <set>
#ifdef BIG
#define BIG_SORTED 1
#else
#define BIG_SORTED 0
#endif

template< typename T, template< typename > class BUFFER, int V, int CAPLIMIT = 1000, typename INDEX = long >
struct Sorted
{
  using A = LvArray::SortedArray< T, INDEX, BUFFER >;
  static constexpr bool shallow = BUFFER< T >::hasShallowCopy;
  enum Kind { INSERT, REMOVE, INSERT_MANY, REMOVE_MANY, CLEAR, RESERVE, COPY_ASSIGN, COPY_CTOR, MOVE_CTOR, MOVE_ROUND, SELF_ASSIGN, SELF_INSERT, SELF_REMOVE };
  struct Op { Kind k; int a, b; };
  static std::vector< int > subset( int mask ) { std::vector< int > r; for( int i = 0; i < V; ++i ) if( mask >> i & 1 ) r.push_back( i + 1 ); return r; }
  static std::vector< Op > const & ops()
  {
    static std::vector< Op > const v = [] {
      std::vector< Op > o;
      for( int x = 1; x <= V; ++x ) for( Kind k : { INSERT, REMOVE } ) o.push_back( { k, x, 0 } );
      if( !BIG_SORTED ) for( int s = 0; s < ( 1 << V ); ++s ) for( Kind k : { INSERT_MANY, REMOVE_MANY } ) o.push_back( { k, s, 0 } );
      for( int n : { 0, 1, 2, 5, 9 } ) if( n <= CAPLIMIT ) o.push_back( { RESERVE, n, 0 } );
      for( Kind k : { CLEAR, COPY_CTOR, MOVE_CTOR, MOVE_ROUND, SELF_ASSIGN } ) o.push_back( { k, 0, 0 } );
      for( int k = 0; k < 3; ++k ) o.push_back( { COPY_ASSIGN, k, 0 } );
      for( int p : { 0, 1, 2 } ) for( Kind k : { SELF_INSERT, SELF_REMOVE } ) o.push_back( { k, p, 0 } );
#ifdef BIG
      for( int s : { 0, 1, 0x15555555, 0x2AAAAAAA, 0x7FFF, 0x3FFF8000, 0x3FFFFFFF, 0x24924924, 0x12492492, 0x20000000, 0x3FFC0, 0x1FF, 0x1FFFE, 0x1FFFF } ) for( Kind k : { INSERT_MANY, REMOVE_MANY } ) o.push_back( { k, s & ( ( 1 << V ) - 1 ), 0 } );
      for( int n : { 16, 17, 33, 70 } ) o.push_back( { RESERVE, n, 0 } );
      for( int p : { 8, 16, 29 } ) for( Kind k : { SELF_INSERT, SELF_REMOVE } ) o.push_back( { k, p, 0 } );
#endif
#ifdef NO_MOVED_FROM   /* buffers whose moved-from state may only be assigned to */
      o.erase( std::remove_if( o.begin(), o.end(), []( Op const & x ) { return x.k == MOVE_CTOR || x.k == MOVE_ROUND; } ), o.end() );
#endif
      return o;
    }();
    return v;
  }
#ifdef BIG
  static int starts() { return 6; }
  static std::string startName( int s ) { char const * n[] = { "the odd values", "all values", "every third value", "the first 17 values", "the last 8 values", "empty" }; return n[ s ]; }
#else
  static int starts() { return 3 - NO_MOVED_FROM_STARTS; }
  static std::string startName( int s ) { return s == 0 ? "empty" : s == 1 ? "{2,3}" : "moved-from"; }
#endif
  std::unique_ptr< A > a;
  std::set< int > m;
  T val( int v ) const { return elem::make< T >( v ); }
  Sorted( int s )
  {
    a = std::make_unique< A >();
#ifdef BIG
    for( int v = 1; v <= V; ++v ) if( s == 0 ? v % 2 == 1 : s == 1 || ( s == 2 ? v % 3 == 0 : s == 3 ? v <= 17 : s == 4 && v > V - 8 ) ) { a->insert( val( v ) ); m.insert( v ); }
    return;
#endif
    if( s == 1 ) { a->insert( val( 3 ) ); a->insert( val( 2 ) ); m = { 2, 3 }; }
    if( s == 2 ) { a->insert( val( 1 ) ); A b( std::move( *a ) ); MC_EQ( long( b.size() ), 1l, "size after move construction" ); }
  }
  ~Sorted() { a.reset(); if( elem::isTracked< T > ) elem::checkNoneLeft(); }
  void adopt( Sorted const & o ) { m = o.m; }
  void forget() { m.clear(); }
  bool onMovedFrom( int ) const { return true; }
  int nOps() const { return int( ops().size() ); }
  std::string opName( int i ) const
  {
    Op const & o = ops()[ i ];
    static char const * const n[] = { "insert", "remove", "insertMany", "removeMany", "clear", "reserve", "copy-assign", "copy-ctor", "move-ctor", "move-round", "self-assign", "insert-own-element", "remove-own-element" };
    std::string s = n[ o.k ]; s += "(";
    if( o.k == INSERT_MANY || o.k == REMOVE_MANY ) for( int v : subset( o.a ) ) s += std::to_string( v ) + " "; else s += std::to_string( o.a );
    return s + ")";
  }
  bool fits( size_t n ) const { return long( n ) <= CAPLIMIT; }
  bool enabled( int x ) const
  {
    Op const & o = ops()[ x ];
    if( o.k == INSERT ) return fits( m.size() + !m.count( o.a ) );
    if( o.k == INSERT_MANY ) { std::set< int > u = m; for( int v : subset( o.a ) ) u.insert( v ); return fits( u.size() ); }
    if( o.k == SELF_INSERT || o.k == SELF_REMOVE ) return o.a < int( m.size() );
    return true;
  }
  void apply( int x )
  {
    Op const & o = ops()[ x ];
    int const n = int( m.size() );
    switch( o.k )
    {
      case INSERT: { bool const e = m.insert( o.a ).second; MC_EQ( a->insert( val( o.a ) ), e, "return value of insert(" << o.a << ")" ); break; }
      case REMOVE: { bool const e = m.erase( o.a ) > 0; MC_EQ( a->remove( val( o.a ) ), e, "return value of remove(" << o.a << ")" ); break; }
      case INSERT_MANY: case REMOVE_MANY:
      {
        std::vector< T > src; int e = 0;
        for( int v : subset( o.a ) ) { src.push_back( val( v ) ); e += o.k == INSERT_MANY ? int( m.insert( v ).second ) : int( m.erase( v ) ); }
        long g;
        if( o.a & 1 ) g = o.k == INSERT_MANY ? a->insert( src.begin(), src.end() ) : a->remove( src.begin(), src.end() );
        else { std::set< T > s( src.begin(), src.end() ); g = o.k == INSERT_MANY ? a->insert( s.begin(), s.end() ) : a->remove( s.begin(), s.end() ); }
        MC_EQ( g, long( e ), "number of values changed by a batch" );
        size_t i = 0; for( int v : subset( o.a ) ) MC_EQ( elem::get( src[ i++ ] ), v, "a batch operation changed its input" );
        break;
      }
      case CLEAR: a->clear(); m.clear(); break;
      case RESERVE:
      {
        a->reserve( o.a ); T const * const p = a->data();
        if( o.a > n )
        { /* everything up to the reserved size fits without moving */
          A b( *a ); b.reserve( o.a ); T const * const q = b.data(); std::set< int > mm = m;
          for( int v = 1; v <= V && int( mm.size() ) < o.a; ++v ) { b.insert( val( v ) ); mm.insert( v ); }
          MC_CHECK( b.data() == q, "insertion within the reserved capacity moved the values" );
        }
        MC_CHECK( a->data() == p, "data moved" );
        break;
      }
      case COPY_ASSIGN:
      { auto b = std::make_unique< A >(); if( o.a >= 1 ) b->insert( val( 4 ) ); if( o.a == 2 ) for( int v = 1; v <= V && b->size() < CAPLIMIT; ++v ) b->insert( val( v ) );
        *b = *a; same( *b, "copy-assigned" ); if( n ) MC_CHECK( b->data() != a->data(), "copy shares storage" ); b->insert( val( n < CAPLIMIT || m.empty() ? 1 : *m.begin() ) ); same( *a, "source after its copy was changed" );
        *b = *a; a = std::move( b ); break; }
      case COPY_CTOR: { auto b = std::make_unique< A >( *a ); same( *b, "copy-constructed" ); if( n ) MC_CHECK( b->data() != a->data(), "copy shares storage" ); a = std::move( b ); break; }
      case MOVE_CTOR:
      { auto b = std::make_unique< A >( std::move( *a ) ); MC_EQ( long( a->size() ), 0l, "moved-from size" ); MC_CHECK( a->empty(), "moved-from set is empty" );
        { A c( *a ); MC_EQ( long( c.size() ), 0l, "copy of a moved-from set" ); } a = std::move( b ); break; }
      case MOVE_ROUND:
      { A b; b.insert( val( 4 ) ); b = std::move( *a ); MC_EQ( long( a->size() ), 0l, "moved-from size" ); same( b, "move-assigned" );
        a->insert( val( 2 ) ); a->insert( val( 1 ) ); if( CAPLIMIT >= 2 ) { MC_EQ( long( a->size() ), 2l, "reused moved-from set" ); MC_EQ( elem::get( ( *a )[ 0 ] ), 1, "reused moved-from set" ); }
        *a = std::move( b ); MC_EQ( long( b.size() ), 0l, "moved-from size" ); b.insert( val( 3 ) ); MC_EQ( elem::get( b[ 0 ] ), 3, "reused moved-from set" ); break; }
      case SELF_ASSIGN: { A & r = *a; *a = r; A & q = *a; *a = std::move( q ); break; }
      case SELF_INSERT: MC_EQ( a->insert( ( *a )[ o.a ] ), false, "insertion of an element of the set" ); break;
      case SELF_REMOVE: { auto it = m.begin(); std::advance( it, o.a ); T const v = ( *a )[ o.a ]; m.erase( it ); MC_EQ( a->remove( v ), true, "removal of an element of the set" ); break; }
    }
  }
  template< typename X > void same( X const & x, char const * who ) const
  {
    MC_EQ( long( x.size() ), long( m.size() ), who << " size" );
    MC_EQ( x.empty(), m.empty(), who << " empty()" );
    size_t k = 0;
    for( int v : m ) { MC_EQ( elem::get( x[ k ] ), v, who << " [" << k << "]" ); MC_EQ( elem::get( x( k ) ), v, who << " (" << k << ")" ); MC_EQ( elem::get( x.data()[ k ] ), v, who << " data()" ); ++k; }
    auto it = m.begin();
    for( T const & e : x ) { MC_CHECK( it != m.end(), who << " iterates past the end" ); MC_EQ( elem::get( e ), *it, who << " iteration" ); ++it; }
    MC_CHECK( it == m.end(), who << " iteration stops early" );
    for( int v = 0; v <= V + 1; ++v ) { MC_EQ( x.contains( val( v ) ), m.count( v ) > 0, who << " contains(" << v << ")" ); MC_EQ( bool( x.count( val( v ) ) ), m.count( v ) > 0, who << " count(" << v << ")" ); }
  }
  void check() const
  {
    same( *a, "set" );
    if constexpr( shallow )
    {
      auto const v = a->toView(); same( v, "view" ); auto const w = a->toViewConst(); same( w, "const view" );
      MC_CHECK( v.data() == a->data() && w.data() == a->data(), "views alias the set" );
      auto u = v; same( u, "copied view" ); auto q = std::move( u ); same( q, "moved view" );
    }
    auto const s = a->toSlice();
    MC_EQ( long( s.size() ), long( m.size() ), "slice size" );
    size_t k = 0; for( int v : m ) MC_EQ( elem::get( s[ k++ ] ), v, "slice" );
  }
  void key( mc::Key & k ) const
  {
    k.add( bool( a->data() == nullptr ) ); k.add( int( m.size() ) );
    for( int v : m ) k.add( v );
    k.add( cap() );
  }
  /* the capacity is not public; without it more states are merged */
  struct Peek : A
  {
    template< typename Q > static auto of( Q const & x, int ) -> decltype( long( x.m_values.capacity() ) ) { return x.m_values.capacity(); }
    template< typename Q > static long of( Q const &, long ) { return -1; }
  };
  long cap() const { return Peek::of( static_cast< Peek const & >( *a ), 0 ); }
};
