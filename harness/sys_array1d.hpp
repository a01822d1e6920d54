/* One-dimensional Array against std::vector. */
#pragma once
#include "lv.hpp"
#include "elem.hpp"
#ifdef NO_MOVED_FROM
#define NO_MOVED_FROM_STARTS 1
#else
#define NO_MOVED_FROM_STARTS 0
#endif
#include "Array.hpp"
#include "MallocBuffer.hpp"
#include <list>

template< typename T, template< typename > class BUFFER, int MAXSIZE, int CAPLIMIT = 1000, typename INDEX = long, int VALS = 0 >
struct Array1D
{
  using A = LvArray::Array< T, 1, camp::idx_seq< 0 >, INDEX, BUFFER >;
  enum Kind { PUSH, EMPLACE, INSERT, INSERT_LIST, POP, ERASE, RESIZE, RESIZE_DEFAULT, RESIZE_RAW, RESIZE_DIM, RESIZE_PTR, RESERVE, CLEAR, WRITE, COPY_ASSIGN, MOVE_ROUND, COPY_CTOR, MOVE_CTOR, SELF_ASSIGN, SHRINK_COPY, VIEW_WRITE };
  struct Op { Kind k; int a, b; };
  static std::vector< Op > const & ops()
  {
    static std::vector< Op > const v = [] {
      std::vector< Op > o;
      o.push_back( { PUSH, 0, 0 } );
      o.push_back( { POP, 0, 0 } );
      for( int p = 0; p <= MAXSIZE; ++p ) o.push_back( { EMPLACE, p, 0 } );
      for( int p = 0; p < MAXSIZE; ++p ) o.push_back( { ERASE, p, 0 } );
      for( int p = 0; p <= MAXSIZE; ++p ) for( int n = 0; n <= 3; ++n ) o.push_back( { INSERT, p, n } );
      for( int p = 0; p <= 2; ++p ) o.push_back( { INSERT_LIST, p, 2 } );
      for( int n = 0; n <= MAXSIZE; ++n ) o.push_back( { RESIZE, n, 0 } );
      for( int n = 0; n <= MAXSIZE; ++n ) o.push_back( { RESIZE_DEFAULT, n, 0 } );
      for( int n = 0; n <= MAXSIZE; n += 2 ) o.push_back( { RESIZE_DIM, n, 0 } );
      for( int n = 1; n <= MAXSIZE; n += 2 ) o.push_back( { RESIZE_PTR, n, 0 } );
      if( std::is_trivial< T >::value ) for( int n = 0; n <= MAXSIZE; ++n ) o.push_back( { RESIZE_RAW, n, 0 } );
      for( int n : { 0, 1, 2, 3, 4, 6, 9 } ) if( n <= CAPLIMIT ) o.push_back( { RESERVE, n, 0 } );
#ifdef BIG
      for( int p : { 0, 8, 16, 17, 33 } ) for( int n : { 9, 16, 17 } ) o.push_back( { INSERT, p, n } );
      o.erase( std::remove_if( o.begin(), o.end(), []( Op const & x ) {
        auto in = []( int v, std::initializer_list< int > l ) { return std::find( l.begin(), l.end(), v ) != l.end(); };
        if( x.k == RESIZE_DIM ) return !in( x.a, { 0, 2, 16, 18, 32, 34, 40 } );
        return x.k != PUSH && x.k != POP && !in( x.a, { 0, 1, 7, 8, 15, 16, 17, 31, 32, 33, 34, 39, 40 } ); } ), o.end() );
      for( int n : { 16, 17, 33, 34, 70 } ) o.push_back( { RESERVE, n, 0 } );
#endif
      o.push_back( { CLEAR, 0, 0 } );
      o.push_back( { WRITE, 0, 0 } );
      o.push_back( { VIEW_WRITE, 0, 0 } );
      o.push_back( { COPY_ASSIGN, 0, 0 } );
      o.push_back( { COPY_CTOR, 0, 0 } );
      o.push_back( { MOVE_CTOR, 0, 0 } );
      o.push_back( { MOVE_ROUND, 0, 0 } );
      o.push_back( { SELF_ASSIGN, 0, 0 } );
      return o;
    }();
    return v;
  }
#ifdef BIG
  static int starts() { return 5; }
  static std::string startName( int s ) { char const * n[] = { "size 17", "size 33", "size 17 in a capacity of 40", "size 8", "empty" }; return n[ s ]; }
#else
  static int starts() { return 3 - NO_MOVED_FROM_STARTS; }
  static std::string startName( int s ) { return s == 0 ? "empty" : s == 1 ? "size 3" : "moved-from"; }
#endif

  std::unique_ptr< A > a;
  std::vector< int > m;
  int fresh = 0;
  long guaranteed = 0;   // capacity that must be available since the last reallocation we can rely on

  Array1D( int start )
  {
    a = std::make_unique< A >();
#ifdef BIG
    if( start < 4 ) { int const n = start == 1 ? 33 : start == 3 ? 8 : 17; if( start == 2 ) a->reserve( 40 ); a->resize( n ); m.assign( n, 0 ); for( int i = 0; i < n; ++i ) { ( *a )[ i ] = elem::make< T >( ++fresh ); m[ i ] = fresh; } }
    return;
#endif
    if( start == 1 ) { a->resize( 3 ); m.assign( 3, 0 ); for( int i = 0; i < 3; ++i ) { ( *a )[ i ] = elem::make< T >( ++fresh ); m[ i ] = fresh; } }
    if( start == 2 ) { a->resize( 2 ); auto b = std::make_unique< A >( std::move( *a ) ); MC_EQ( long( b->size() ), 2l, "size after move construction" ); }
  }
  ~Array1D()
  {
    a.reset();
    if( elem::isTracked< T > ) elem::checkNoneLeft();
  }
  void adopt( Array1D const & o ) { m = o.m; fresh = std::max( fresh, o.fresh ) + 100; }
  void forget() { m.clear(); }
  bool onMovedFrom( int ) const { return true; }
  int nOps() const { return int( ops().size() ); }
  std::string opName( int i ) const
  {
    Op const & o = ops()[ i ];
    static char const * const n[] = { "push", "emplace", "insert", "insert-list", "pop", "erase", "resize", "resizeDefault", "resizeWithoutInit", "resizeDimension", "resize-ptr", "reserve", "clear", "write", "copy-assign", "move-round", "copy-ctor", "move-ctor", "self-assign", "shrink", "view-write" };
    return std::string( n[ o.k ] ) + "(" + std::to_string( o.a ) + "," + std::to_string( o.b ) + ")";
  }
  bool enabled( int i ) const
  {
    Op const & o = ops()[ i ];
    int const n = int( m.size() );
    switch( o.k )
    {
      case PUSH: return n < MAXSIZE && needs( n + 1 );
      case EMPLACE: return o.a <= n && n < MAXSIZE && needs( n + 1 );
      case INSERT: case INSERT_LIST: return o.a <= n && n + o.b <= MAXSIZE && needs( n + o.b );
      case POP: return n > 0;
      case ERASE: return o.a < n;
      case WRITE: case VIEW_WRITE: return n > 0;
      case RESIZE: case RESIZE_DEFAULT: case RESIZE_RAW: case RESIZE_DIM: case RESIZE_PTR: return o.a <= CAPLIMIT;
      default: return true;
    }
  }
  static bool needs( int n ) { return n <= CAPLIMIT; }

  void apply( int i )
  {
    Op const & o = ops()[ i ];
    int const n = int( m.size() );
    T const * const before = a->data();
    long const capBefore = a->capacity();
    bool mayMove = false;
    switch( o.k )
    {
      case PUSH: a->emplace_back( elem::make< T >( ++fresh ) ); m.push_back( fresh ); mayMove = n + 1 > capBefore; break;
      case POP: a->pop_back(); m.pop_back(); break;
      case EMPLACE: a->emplace( o.a, elem::make< T >( ++fresh ) ); m.insert( m.begin() + o.a, fresh ); mayMove = n + 1 > capBefore; break;
      case ERASE: a->erase( o.a ); m.erase( m.begin() + o.a ); break;
      case INSERT:
      { std::vector< T > src; std::vector< int > ms;
        for( int k = 0; k < o.b; ++k ) { src.push_back( elem::make< T >( ++fresh ) ); ms.push_back( fresh ); }
        if( o.a % 2 ) a->insert( o.a, src.begin(), src.end() ); else a->insert( o.a, src.data(), src.data() + src.size() );
        for( int k = 0; k < o.b; ++k ) MC_EQ( elem::get( src[ k ] ), ms[ k ], "insert changed the source range at " << k );
        m.insert( m.begin() + o.a, ms.begin(), ms.end() ); mayMove = n + o.b > capBefore; break; }
      case INSERT_LIST:
      { std::list< T > src;
        std::vector< int > ms;
        for( int k = 0; k < o.b; ++k ) { src.push_back( elem::make< T >( ++fresh ) ); ms.push_back( fresh ); }
        a->insert( o.a, src.begin(), src.end() );
        m.insert( m.begin() + o.a, ms.begin(), ms.end() ); mayMove = n + o.b > capBefore; break; }
      case RESIZE: a->resize( INDEX( o.a ) ); m.resize( o.a, 0 ); mayMove = o.a > capBefore; break;
      case RESIZE_DIM: a->template resizeDimension< 0 >( o.a ); m.resize( o.a, 0 ); mayMove = o.a > capBefore; break;
      case RESIZE_PTR: { int d[ 1 ] = { o.a }; a->resize( 1, d ); m.resize( o.a, 0 ); mayMove = o.a > capBefore; break; }
      case RESIZE_DEFAULT: { T const v = elem::make< T >( ++fresh ); a->resizeDefault( o.a, v ); m.resize( o.a, fresh ); mayMove = o.a > capBefore; break; }
      case RESIZE_RAW:
        if constexpr( std::is_trivial< T >::value )
        { a->resizeWithoutInitializationOrDestruction( o.a ); MC_EQ( long( a->size() ), long( o.a ), "size after resizeWithoutInitializationOrDestruction" );
          for( int k = n; k < o.a; ++k ) { ( *a )[ k ] = elem::make< T >( ++fresh ); m.push_back( fresh ); }
          m.resize( o.a ); mayMove = o.a > capBefore; }
        break;
      case RESERVE: a->reserve( o.a ); MC_CHECK( a->capacity() >= o.a, "reserve(" << o.a << ") left capacity " << a->capacity() ); mayMove = o.a > capBefore; break;
      case CLEAR: a->clear(); m.clear(); break;
      case WRITE: ( *a )[ n - 1 ] = elem::make< T >( ++fresh ); m[ n - 1 ] = fresh; ( *a )( 0 ) = elem::make< T >( ++fresh ); m[ 0 ] = fresh; break;
      case VIEW_WRITE:
        if constexpr( BUFFER< T >::hasShallowCopy )
        { auto const v = a->toView(); auto const w = v; w[ n / 2 ] = elem::make< T >( ++fresh ); m[ n / 2 ] = fresh; *( v.begin() ) = elem::make< T >( ++fresh ); m[ 0 ] = fresh; MC_CHECK( v.data() == a->data(), "view does not alias" ); }
        else { auto const s = a->toSlice(); s[ n / 2 ] = elem::make< T >( ++fresh ); m[ n / 2 ] = fresh; }
        break;
      case COPY_ASSIGN:
      { auto b = std::make_unique< A >(); b->emplace_back( elem::make< T >( ++fresh ) ); *b = *a; same( *b, "copy-assigned array" ); if( n ) MC_CHECK( b->data() != a->data(), "copy shares storage" ); a = std::move( b ); mayMove = true; break; }
      case COPY_CTOR:
      { auto b = std::make_unique< A >( *a ); same( *b, "copy-constructed array" ); if( n ) MC_CHECK( b->data() != a->data(), "copy shares storage" ); a = std::move( b ); mayMove = true; break; }
      case MOVE_CTOR:
      { auto b = std::make_unique< A >( std::move( *a ) ); MC_EQ( long( a->size() ), 0l, "moved-from size" ); MC_CHECK( a->empty(), "moved-from array is not empty" ); a = std::move( b ); mayMove = true; break; }
      case MOVE_ROUND:
      { A b; b.emplace_back( elem::make< T >( ++fresh ) ); b = std::move( *a ); MC_EQ( long( a->size() ), 0l, "moved-from size" ); same( b, "move-assigned array" ); *a = std::move( b ); MC_EQ( long( b.size() ), 0l, "moved-from size" ); if( !NO_MOVED_FROM_STARTS ) { b.emplace_back( elem::make< T >( ++fresh ) ); MC_EQ( elem::get( b[ 0 ] ), fresh, "reused moved-from array" ); } mayMove = true; break; }
      case SELF_ASSIGN: { A & r = *a; *a = r; break; }
      default: break;
    }
    if( !mayMove && before != nullptr && a->size() > 0 && capBefore >= long( m.size() ) )
    {
      MC_CHECK( a->data() == before, "elements moved although the capacity sufficed" );
      MC_CHECK( a->capacity() >= capBefore, "capacity shrank from " << capBefore << " to " << a->capacity() );
    }
  }
  void same( A const & x, char const * who ) const
  {
    MC_EQ( long( x.size() ), long( m.size() ), who << " size" );
    MC_EQ( long( x.size( 0 ) ), long( m.size() ), who << " extent" );
    MC_EQ( x.empty(), m.empty(), who << " empty()" );
    MC_CHECK( x.capacity() >= x.size(), who << " capacity " << x.capacity() << " below size " << x.size() );
    for( size_t k = 0; k < m.size(); ++k )
    {
      MC_EQ( elem::get( x[ k ] ), m[ k ], who << " [" << k << "]" );
      MC_EQ( elem::get( x( k ) ), m[ k ], who << " (" << k << ")" );
    }
    size_t k = 0;
    for( T const & e : x ) { MC_CHECK( k < m.size(), who << " iterates past the end" ); MC_EQ( elem::get( e ), m[ k ], who << " iteration " << k ); ++k; }
    MC_EQ( k, m.size(), who << " iteration length" );
    if( !m.empty() ) { MC_EQ( elem::get( x.front() ), m.front(), who << " front" ); MC_EQ( elem::get( x.back() ), m.back(), who << " back" ); }
  }
  void check() const
  {
    same( *a, "array" );
    A const & c = *a;
    if constexpr( BUFFER< T >::hasShallowCopy )
    {
      auto const v = c.toViewConst();
      MC_EQ( long( v.size() ), long( m.size() ), "view size" );
      for( size_t k = 0; k < m.size(); ++k ) MC_EQ( elem::get( v[ k ] ), m[ k ], "view [" << k << "]" );
    }
  }
  void key( mc::Key & k ) const
  {
    MC_EQ( long( a->strides()[ 0 ] ), 1l, "stride of a one-dimensional array" );
    k.add( int( m.size() ) ); k.add( long( a->capacity() ) );
    k.add( bool( a->data() == nullptr ) );
    k.add( a->strides()[ 0 ] );
    std::map< int, int > ren; ren[ 0 ] = 0;
    for( int v : m ) { auto it = ren.insert( { v, int( ren.size() ) } ).first; k.add( it->second ); }
  }
};
