/* Multidimensional Array: resize semantics against a map from multi-index to value. */
#pragma once
#include "lv.hpp"
#include "elem.hpp"
#include "layouts.hpp"
#include "Array.hpp"
#include "MallocBuffer.hpp"

template< typename T, typename PERM, size_t N, template< typename > class BUFFER, int MAXE, int CAPLIMIT = 100000 >
struct ArrayND
{
  using A = LvArray::Array< T, int( N ), PERM, long, BUFFER >;
  using Dims = std::array< long, N >;
  enum Kind { RESIZE_ALL, RESIZE_PTR, RESIZE_RAW, RESIZE_DIM, RESIZE_DIM2, RESIZE, RESIZE_DEFAULT, SET_INDEX, RESERVE, CLEAR, COPY, MOVE, ASSIGN };
  struct Op { Kind k; int a, b, c; Dims d; };
  static long prod( Dims const & d ) { long p = 1; for( long x : d ) p *= x; return p; }
  static std::vector< Op > const & ops()
  {
    static std::vector< Op > const v = [] {
      std::vector< Op > o;
      for( int k = 0; k < int( N ); ++k ) o.push_back( { SET_INDEX, k, 0, 0, {} } );
      for( int n = 0; n <= MAXE; ++n ) o.push_back( { RESIZE, n, 0, 0, {} } );
      for( int n = 0; n <= MAXE; ++n ) o.push_back( { RESIZE_DEFAULT, n, 0, 0, {} } );
      for( int k = 0; k < int( N ); ++k ) for( int n = 0; n <= MAXE; ++n ) o.push_back( { RESIZE_DIM, k, n, 0, {} } );
      if( N > 1 ) for( int n = 0; n <= MAXE; n += 2 ) o.push_back( { RESIZE_DIM2, 1, n, 2, {} } );
      Dims d{};
      for(;; )
      {
        o.push_back( { RESIZE_ALL, 0, 0, 0, d } );
        if( prod( d ) % 2 == 0 ) o.push_back( { RESIZE_PTR, 0, 0, 0, d } );
        if( std::is_trivial< T >::value && prod( d ) % 3 != 1 ) o.push_back( { RESIZE_RAW, 0, 0, 0, d } );
        int k = int( N ) - 1;
        while( k >= 0 && ++d[ k ] > MAXE ) { d[ k ] = 0; --k; }
        if( k < 0 ) break;
      }
#ifdef BIG
      o.erase( std::remove_if( o.begin(), o.end(), []( Op const & x ) {
        auto in = []( int v ) { for( int l : { 0, 1, 4, 5, 6, 8, 9 } ) if( v == l ) return true; return false; };
        if( x.k <= RESIZE_RAW ) { for( long e : x.d ) if( !in( int( e ) ) || e == 1 || e == 6 || e == 8 ) return true; return false; }
        if( x.k == RESIZE_DIM || x.k == RESIZE_DIM2 ) return !in( x.b );
        return !in( x.a ); } ), o.end() );
      o.push_back( { RESERVE, 100, 0, 0, {} } ); o.push_back( { RESERVE, 400, 0, 0, {} } );
#endif
      o.push_back( { RESERVE, 0, 0, 0, {} } ); o.push_back( { RESERVE, 5, 0, 0, {} } ); o.push_back( { RESERVE, 30, 0, 0, {} } );
      o.push_back( { CLEAR, 0, 0, 0, {} } );
      o.push_back( { COPY, 0, 0, 0, {} } ); o.push_back( { MOVE, 0, 0, 0, {} } ); o.push_back( { ASSIGN, 0, 0, 0, {} } );
      return o;
    }();
    return v;
  }
#ifdef BIG
  static int starts() { return 3; }
  static std::string startName( int s ) { return s == 2 ? "empty" : s == 0 ? "all extents 5" : "extents 9, 8, 7..."; }
#else
  static int starts() { return 3; }
  static std::string startName( int s ) { return s == 0 ? "default constructed" : s == 1 ? "all extents 2" : "moved-from"; }
#endif

  std::unique_ptr< A > a;
  Dims dims{};
  int index = 0, fresh = 0;
  std::map< Dims, int > snapshot;   // value of every element

  ArrayND( int start )
  {
#ifdef BIG
    if( start == 2 ) a = std::make_unique< A >(); else { Dims d; d.fill( 5 ); if( start == 1 ) for( size_t k = 0; k < N; ++k ) d[ k ] = 9 - long( k ); std::apply( [&]( auto... e ) { a = std::make_unique< A >( e ... ); }, d ); dims = d; allInitial( "sized construction" ); number(); }
    return;
#endif
    if( start == 0 ) a = std::make_unique< A >();
    else
    {
      Dims two; two.fill( 2 );
      std::apply( [&]( auto... d ) { a = std::make_unique< A >( d ... ); }, two );
      dims = two;
      allInitial( "sized construction" );
      number();
      if( start == 2 ) { A b( std::move( *a ) ); MC_EQ( long( b.size() ), prod( two ), "moved-to size" ); dims = {}; }
    }
  }
  ~ArrayND() { a.reset(); if( elem::isTracked< T > ) elem::checkNoneLeft(); }

  static std::string str( Dims const & d ) { std::string s; for( long x : d ) s += ( s.empty() ? "" : "x" ) + std::to_string( x ); return s; }
  void adopt( ArrayND const & o ) { dims = o.dims; index = o.index; snapshot = o.snapshot; }
  void forget() { dims = {}; index = a->getSingleParameterResizeIndex(); snapshot.clear(); }
  bool onMovedFrom( int ) const { return true; }
  int nOps() const { return int( ops().size() ); }
  std::string opName( int i ) const
  {
    Op const & o = ops()[ i ];
    static char const * const n[] = { "resize", "resize-ptr", "resizeWithoutInit", "resizeDimension", "resizeDimension2", "resize1", "resizeDefault", "setResizeIndex", "reserve", "clear", "copy", "move", "assign" };
    return std::string( n[ o.k ] ) + ( o.k <= RESIZE_RAW ? "(" + str( o.d ) + ")" : "(" + std::to_string( o.a ) + "," + std::to_string( o.b ) + ( o.k == RESIZE_DIM2 ? "," + std::to_string( o.c ) : "" ) + ")" );
  }
  Dims after( Op const & o ) const
  {
    Dims d = dims;
    if( o.k <= RESIZE_RAW ) return o.d;
    if( o.k == RESIZE_DIM ) d[ o.a ] = o.b;
    if( o.k == RESIZE_DIM2 ) { d[ 0 ] = o.b; d[ N - 1 ] = o.c; }
    if( o.k == RESIZE || o.k == RESIZE_DEFAULT ) d[ index ] = o.a;
    if( o.k == CLEAR ) d[ index ] = 0;
    return d;
  }
  bool enabled( int i ) const
  { Op const & o = ops()[ i ]; return prod( after( o ) ) <= CAPLIMIT && ( o.k != RESERVE || o.a <= CAPLIMIT ); }

  void number() { snapshot.clear(); lay::forAll( dims, [&]( Dims const & x ) { lay::call( *a, x ) = elem::make< T >( ++fresh ); snapshot[ x ] = fresh; } ); }
  void allInitial( char const * who ) const
  { lay::forAll( dims, [&]( Dims const & x ) { MC_EQ( elem::get( lay::call( *a, x ) ), 0, who << ": element not value-initialised" ); } ); }

  template< size_t... K > void resizeDim( int k, int n, std::index_sequence< K... > )
  { (void) std::initializer_list< int >{ 0, ( int( K ) == k ? ( a->template resizeDimension< long( K ) >( n ), 0 ) : 0 )... }; }

  void apply( int i )
  {
    Op const & o = ops()[ i ];
    Dims const old = dims;
    long const cap = a->capacity();
    bool const wasUnallocated = cap == 0;
    // snapshot of the values by multi-index
    std::map< Dims, int > before;
    lay::forAll( old, [&]( Dims const & x ) { before[ x ] = elem::get( lay::call( *a, x ) ); } );
    dims = after( o );
    int added = 0; bool preserves = false, replaced = false, raw = false;
    switch( o.k )
    {
      case RESIZE_ALL: std::apply( [&]( auto... d ) { a->resize( d ... ); }, o.d ); break;
      case RESIZE_PTR: { std::array< int, N > d; for( size_t k = 0; k < N; ++k ) d[ k ] = int( o.d[ k ] ); a->resize( int( N ), d.data() ); break; }
      case RESIZE_RAW: if constexpr( std::is_trivial< T >::value ) { std::apply( [&]( auto... d ) { a->resizeWithoutInitializationOrDestruction( d ... ); }, o.d ); raw = true; } break;
      case RESIZE_DIM: resizeDim( o.a, o.b, std::make_index_sequence< N >{} ); break;
      case RESIZE_DIM2: if constexpr( N > 1 ) a->template resizeDimension< 0, long( N - 1 ) >( o.b, short( o.c ) ); break;
      case RESIZE: a->resize( long( o.a ) ); preserves = true; break;
      case RESIZE_DEFAULT: { T const v = elem::make< T >( ++fresh ); added = fresh; a->resizeDefault( o.a, v ); preserves = true; break; }
      case SET_INDEX: a->setSingleParameterResizeIndex( o.a ); index = o.a; preserves = true; break;
      case RESERVE: a->reserve( o.a ); MC_CHECK( a->capacity() >= o.a, "reserve(" << o.a << ") left capacity " << a->capacity() ); preserves = true; break;
      case CLEAR: a->clear(); break;
      case COPY: { auto b = std::make_unique< A >( *a ); a = std::move( b ); preserves = replaced = true; break; }
      case ASSIGN: { auto b = std::make_unique< A >(); Dims one; one.fill( 1 ); std::apply( [&]( auto... d ) { b->resize( d ... ); }, one ); *b = *a; a = std::move( b ); preserves = replaced = true; break; }
      case MOVE: { auto b = std::make_unique< A >( std::move( *a ) ); MC_EQ( long( a->size() ), 0l, "moved-from size" ); preserves = replaced = true; a = std::move( b ); break; }
    }
    if( !replaced ) MC_CHECK( a->capacity() >= cap, "capacity shrank from " << cap << " to " << a->capacity() );
    shape();
    if( preserves )
    {
      lay::forAll( dims, [&]( Dims const & x ) {
        auto it = before.find( x );
        int const expect = it == before.end() ? added : it->second;
        MC_EQ( elem::get( lay::call( *a, x ) ), expect, ( it == before.end() ? "new element" : "surviving element" ) << " after " << opName( i ) << " from " << str( old ) << " to " << str( dims ) );
      } );
    }
    else if( wasUnallocated && !raw ) allInitial( "resize from nothing" );
    else if( N == 1 && !raw )
    { lay::forAll( dims, [&]( Dims const & x ) { auto it = before.find( x ); MC_EQ( elem::get( lay::call( *a, x ) ), it == before.end() ? 0 : it->second, "one-dimensional resize" ); } ); }
    else if( !raw )
    { lay::forAll( dims, [&]( Dims const & x ) { (void) elem::get( lay::call( *a, x ) ); } ); }
    number();
  }
  void shape() const
  {
    long total = 1;
    Dims const st = lay::strides( lay::toVector( PERM{} ), dims );
    for( size_t k = 0; k < N; ++k )
    {
      MC_EQ( long( a->size( int( k ) ) ), dims[ k ], "extent " << k );
      MC_EQ( long( a->strides()[ k ] ), st[ k ], "stride " << k << " with extents " << str( dims ) );
      total *= dims[ k ];
    }
    MC_EQ( long( a->size() ), total, "size" );
    MC_EQ( a->empty(), total == 0, "empty" );
    MC_CHECK( a->capacity() >= total, "capacity " << a->capacity() << " below size " << total );
    MC_EQ( a->getSingleParameterResizeIndex(), index, "resizable dimension" );
  }
  void check() const { shape(); lay::forAll( dims, [&]( Dims const & x ) { MC_EQ( elem::get( lay::call( *a, x ) ), snapshot.at( x ), "element" ); } ); }
  void key( mc::Key & k ) const { for( long d : dims ) k.add( d ); k.add( long( a->capacity() ) ); k.add( index ); k.add( bool( a->data() == nullptr ) ); }
};
