/* ArrayOfArrays against a vector of vectors. */
#pragma once
#include "lv.hpp"
#include "elem.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "MallocBuffer.hpp"
#include <list>

template< typename T, template< typename > class BUFFER, int MAXROWS, int MAXLEN, typename INDEX = long >
struct AoA
{
  using A = LvArray::ArrayOfArrays< T, INDEX, BUFFER >;
  enum Kind { APPEND_N, APPEND_RANGE, INSERT_ARRAY, ERASE_ARRAY, EMPLACE_BACK, APPEND_TO, EMPLACE, INSERT_INTO, ERASE_FROM, RESIZE_ARRAY, RESIZE_ARRAY_VAL, CLEAR_ARRAY, SET_CAP,
              RESIZE, RESERVE, RESERVE_VALUES, COMPRESS, FROM_CAPS, WRITE, COPY_ASSIGN, COPY_CTOR, MOVE_CTOR, MOVE_ROUND, SELF_ASSIGN, VIEW_EMPLACE_BACK, VIEW_EMPLACE, VIEW_ERASE, VIEW_APPEND, VIEW_INSERT, VIEW_ATOMIC, VIEW_WRITE, ASSIMILATE };
  struct Op { Kind k; int a, b, c; };
  static std::vector< Op > const & ops()
  {
    static std::vector< Op > const v = [] {
      std::vector< Op > o;
      for( int n = 0; n <= 2; ++n ) { o.push_back( { APPEND_N, n, 0, 0 } ); o.push_back( { APPEND_RANGE, n, 0, 0 } ); }
      for( int i = 0; i <= MAXROWS; ++i ) for( int n = 0; n <= 2; n += 1 ) o.push_back( { INSERT_ARRAY, i, n, 0 } );
      for( int i = 0; i < MAXROWS; ++i )
      {
        o.push_back( { ERASE_ARRAY, i, 0, 0 } );
        o.push_back( { EMPLACE_BACK, i, 0, 0 } );
        for( int n : { 0, 2 } ) o.push_back( { APPEND_TO, i, n, 0 } );
        for( int j = 0; j < MAXLEN; ++j ) { o.push_back( { EMPLACE, i, j, 0 } ); o.push_back( { VIEW_EMPLACE, i, j, 0 } ); }
        for( int j = 0; j <= MAXLEN; ++j ) for( int n : { 0, 2 } ) { o.push_back( { INSERT_INTO, i, j, n } ); o.push_back( { VIEW_INSERT, i, j, n } ); }
        for( int j = 0; j < MAXLEN; ++j ) for( int n = 1; j + n <= MAXLEN; ++n ) { o.push_back( { ERASE_FROM, i, j, n } ); if( n == 1 ) o.push_back( { VIEW_ERASE, i, j, n } ); }
        for( int n = 0; n <= MAXLEN; ++n ) { o.push_back( { RESIZE_ARRAY, i, n, 0 } ); o.push_back( { RESIZE_ARRAY_VAL, i, n, n % 2 } ); }
        o.push_back( { CLEAR_ARRAY, i, 0, 0 } );
        for( int c = 0; c <= MAXLEN + 1; ++c ) o.push_back( { SET_CAP, i, c, 0 } );
        o.push_back( { VIEW_EMPLACE_BACK, i, 0, 0 } );
        o.push_back( { VIEW_ATOMIC, i, 0, 0 } );
        o.push_back( { VIEW_APPEND, i, 2, 0 } );
      }
      for( int n = 0; n <= MAXROWS; ++n ) for( int c : { 0, 2 } ) o.push_back( { RESIZE, n, c, 0 } );
      for( int n : { 0, 1, MAXROWS, MAXROWS + 3 } ) o.push_back( { RESERVE, n, 0, 0 } );
      for( int n : { 0, 3, 7, 20 } ) o.push_back( { RESERVE_VALUES, n, 0, 0 } );
      o.push_back( { COMPRESS, 0, 0, 0 } );
      for( int n = 0; n <= MAXROWS; ++n ) for( int s = 0; s < ( n ? 3 : 1 ); ++s ) o.push_back( { FROM_CAPS, n, s, 0 } );
      for( Kind k : { WRITE, COPY_ASSIGN, COPY_CTOR, MOVE_CTOR, MOVE_ROUND, SELF_ASSIGN, VIEW_WRITE, ASSIMILATE } ) o.push_back( { k, 0, 0, 0 } );
      for( int k = 1; k < 4; ++k ) o.push_back( { COPY_ASSIGN, k, 0, 0 } );
#ifdef BIG   /* large containers: the first, a middle and the last arrays, a few positions */
      for( int i : { 0, 6, 11 } )
      {
        for( int n : { 9 } ) { o.push_back( { APPEND_TO, i, n, 0 } ); for( int j : { 0, 3, 10 } ) { o.push_back( { INSERT_INTO, i, j, n } ); o.push_back( { VIEW_INSERT, i, j, n } ); } }
        o.push_back( { INSERT_ARRAY, i, 9, 0 } );
      }
      o.push_back( { APPEND_RANGE, 9, 0, 0 } );
      for( int n : { 40, 100, 200 } ) { o.push_back( { RESERVE, n, 0, 0 } ); o.push_back( { RESERVE_VALUES, n, 0, 0 } ); }
      o.erase( std::remove_if( o.begin(), o.end(), []( Op const & x ) {
        auto in = []( int v, std::initializer_list< int > l ) { return std::find( l.begin(), l.end(), v ) != l.end(); };
        switch( x.k )
        {
          case INSERT_ARRAY: return !in( x.a, { 0, 6, 11, 12 } );
          case RESIZE: case FROM_CAPS: return !in( x.a, { 0, 1, 6, 11, 14 } );
          case EMPLACE: case VIEW_EMPLACE: case INSERT_INTO: case VIEW_INSERT: return !in( x.a, { 0, 6, 11 } ) || !in( x.b, { 0, 3, 9, 10 } );
          case ERASE_FROM: case VIEW_ERASE: return !in( x.a, { 0, 6, 11 } ) || !in( x.b, { 0, 3, 9 } ) || !in( x.c, { 1, 2, 6, 10 } );
          case RESIZE_ARRAY: case RESIZE_ARRAY_VAL: case SET_CAP: return !in( x.a, { 0, 6, 11 } ) || !in( x.b, { 0, 1, 5, 9, 10, 12, 16 } );
          case ERASE_ARRAY: case EMPLACE_BACK: case APPEND_TO: case CLEAR_ARRAY: case VIEW_EMPLACE_BACK: case VIEW_ATOMIC: case VIEW_APPEND: return !in( x.a, { 0, 6, 11 } );
          default: return false;
        } } ), o.end() );
#endif
#ifdef NO_MOVED_FROM   /* buffers whose moved-from state may only be assigned to */
      o.erase( std::remove_if( o.begin(), o.end(), []( Op const & x ) { return x.k == MOVE_CTOR || x.k == MOVE_ROUND; } ), o.end() );
#endif
      return o;
    }();
    return v;
  }
#ifdef BIG
  static int starts() { return 4; }
  static std::string startName( int s ) { return s == 3 ? "empty" : s == 0 ? "12 arrays of up to 10 with gaps" : s == 1 ? "12 arrays of up to 10, compressed" : "1 array of 10"; }
#else
  static int starts() { return 4; }
  static std::string startName( int s ) { return s == 0 ? "empty" : s == 1 ? "2 arrays of capacity 2" : s == 2 ? "sizes 2,0,3 with gaps" : "sizes 1,2 compressed"; }
#endif

  std::unique_ptr< A > a;
  std::vector< std::vector< int > > m;
  int fresh = 0;

  T next() { return elem::make< T >( ++fresh ); }
  AoA( int s )
  {
#ifdef BIG
    if( s == 3 ) a = std::make_unique< A >(); else if( s < 2 ) { std::vector< int > l; for( int i = 0; i < 12; ++i ) l.push_back( ( 10 + i * 7 ) % 11 ); build( l, s == 1 ); } else build( { 10 }, true );
    return;
#endif
    if( s == 0 ) a = std::make_unique< A >();
    if( s == 1 ) { a = std::make_unique< A >( 2, 2 ); m.resize( 2 ); MC_EQ( long( a->capacityOfArray( 0 ) ), 2l, "capacity from constructor" ); MC_EQ( long( a->capacityOfArray( 1 ) ), 2l, "capacity from constructor" ); }
    if( s == 2 && MAXROWS >= 3 ) build( { 2, 0, 3 }, false ); else if( s == 2 ) build( { 2, 0 }, false );
    if( s == 3 ) build( { 1, 2 }, true );
  }
  void build( std::vector< int > const & lens, bool compress )
  {
    a = std::make_unique< A >( lens.size(), 3 ); m.resize( lens.size() );
    for( size_t i = 0; i < lens.size(); ++i ) for( int k = 0; k < lens[ i ]; ++k ) { a->emplaceBack( i, next() ); m[ i ].push_back( fresh ); }
    if( compress ) a->compress();
  }
  ~AoA()
  {
    a.reset();
    if( elem::isTracked< T > ) elem::checkNoneLeft();
  }
  void adopt( AoA const & o ) { m = o.m; fresh = std::max( fresh, o.fresh ) + 100; }
  void forget() { m.clear(); }
  bool onMovedFrom( int i ) const { Kind const k = ops()[ i ].k; return k == RESIZE || k == COPY_CTOR || k == COPY_ASSIGN || k == SELF_ASSIGN || k == FROM_CAPS; }
  int nOps() const { return int( ops().size() ); }
  std::string opName( int i ) const
  {
    Op const & o = ops()[ i ];
    static char const * const n[] = { "appendArray(n)", "appendArray(range)", "insertArray", "eraseArray", "emplaceBack", "appendToArray", "emplace", "insertIntoArray", "eraseFromArray", "resizeArray", "resizeArray(value)", "clearArray", "setCapacityOfArray",
      "resize", "reserve", "reserveValues", "compress", "resizeFromCapacities", "write", "copy-assign", "copy-ctor", "move-ctor", "move-round", "self-assign", "view.emplaceBack", "view.emplace", "view.erase", "view.append", "view.insert", "view.emplaceBackAtomic", "view-write", "assimilate-sets" };
    return std::string( n[ o.k ] ) + "(" + std::to_string( o.a ) + "," + std::to_string( o.b ) + "," + std::to_string( o.c ) + ")";
  }
  int rows() const { return int( m.size() ); }
  int len( int i ) const { return int( m[ i ].size() ); }
  int cap( int i ) const { return int( a->capacityOfArray( i ) ); }
  bool enabled( int x ) const
  {
    Op const & o = ops()[ x ];
    int const n = rows();
    switch( o.k )
    {
      case APPEND_N: case APPEND_RANGE: return n < MAXROWS && o.a <= MAXLEN;
      case INSERT_ARRAY: return n < MAXROWS && o.a <= n;
      case ERASE_ARRAY: case CLEAR_ARRAY: case SET_CAP: return o.a < n;
      case EMPLACE_BACK: return o.a < n && len( o.a ) < MAXLEN;
      case APPEND_TO: return o.a < n && len( o.a ) + o.b <= MAXLEN;
      case EMPLACE: return o.a < n && o.b <= len( o.a ) && len( o.a ) < MAXLEN;
      case INSERT_INTO: return o.a < n && o.b <= len( o.a ) && len( o.a ) + o.c <= MAXLEN;
      case ERASE_FROM: case VIEW_ERASE: return o.a < n && o.b + o.c <= len( o.a );
      case RESIZE_ARRAY: case RESIZE_ARRAY_VAL: return o.a < n;
      case VIEW_EMPLACE_BACK: case VIEW_ATOMIC: return o.a < n && len( o.a ) < cap( o.a );
      case VIEW_EMPLACE: return o.a < n && o.b <= len( o.a ) && len( o.a ) < cap( o.a );
      case VIEW_APPEND: return o.a < n && len( o.a ) + o.b <= cap( o.a );
      case VIEW_INSERT: return o.a < n && o.b <= len( o.a ) && len( o.a ) + o.c <= cap( o.a );
      case WRITE: case VIEW_WRITE: for( auto const & r : m ) if( !r.empty() ) return true; return false;
      case MOVE_CTOR: case MOVE_ROUND: return true;
      default: return true;
    }
  }
  std::vector< T > range( int n, std::vector< int > & ms )
  { std::vector< T > s; for( int k = 0; k < n; ++k ) { s.push_back( next() ); ms.push_back( fresh ); } return s; }

  void apply( int x )
  {
    Op const & o = ops()[ x ];
    std::vector< int > ms;
    int touched = -1;           // the only inner array allowed to change (-1: structure changes)
    std::vector< long > capsBefore;
    for( int i = 0; i < rows(); ++i ) capsBefore.push_back( a->capacityOfArray( i ) );
    bool rowLocal = false, view = false;
    T const * const valuesBefore = a->toViewConst().getValues();
    switch( o.k )
    {
      case APPEND_N: a->appendArray( INDEX( o.a ) ); m.push_back( std::vector< int >( o.a, 0 ) ); break;
      case APPEND_RANGE: { auto s = range( o.a, ms ); a->appendArray( s.begin(), s.end() ); m.push_back( ms ); break; }
      case INSERT_ARRAY: { auto s = range( o.b, ms ); std::list< T > l( s.begin(), s.end() ); if( o.b == 2 ) a->insertArray( o.a, l.begin(), l.end() ); else a->insertArray( o.a, s.data(), s.data() + s.size() ); m.insert( m.begin() + o.a, ms ); break; }
      case ERASE_ARRAY: a->eraseArray( o.a ); m.erase( m.begin() + o.a ); break;
      case EMPLACE_BACK: a->emplaceBack( o.a, next() ); m[ o.a ].push_back( fresh ); rowLocal = true; break;
      case APPEND_TO: { auto s = range( o.b, ms ); a->appendToArray( o.a, s.begin(), s.end() ); m[ o.a ].insert( m[ o.a ].end(), ms.begin(), ms.end() ); rowLocal = true; break; }
      case EMPLACE: a->emplace( o.a, o.b, next() ); m[ o.a ].insert( m[ o.a ].begin() + o.b, fresh ); rowLocal = true; break;
      case INSERT_INTO: { auto s = range( o.c, ms ); a->insertIntoArray( o.a, o.b, s.begin(), s.end() ); m[ o.a ].insert( m[ o.a ].begin() + o.b, ms.begin(), ms.end() ); rowLocal = true; break; }
      case ERASE_FROM: if( o.c == 1 ) a->eraseFromArray( o.a, o.b ); else a->eraseFromArray( o.a, o.b, o.c ); m[ o.a ].erase( m[ o.a ].begin() + o.b, m[ o.a ].begin() + o.b + o.c ); rowLocal = true; break;
      case RESIZE_ARRAY: a->resizeArray( o.a, o.b ); m[ o.a ].resize( o.b, 0 ); rowLocal = true; break;
      case RESIZE_ARRAY_VAL: if( o.c ) { T const v = next(); a->resizeArray( o.a, o.b, v ); } else a->resizeArray( o.a, o.b, next() ); m[ o.a ].resize( o.b, fresh ); rowLocal = true; break;
      case CLEAR_ARRAY: a->clearArray( o.a ); m[ o.a ].clear(); rowLocal = true; break;
      case SET_CAP: a->setCapacityOfArray( o.a, o.b ); if( o.b < len( o.a ) ) m[ o.a ].resize( o.b ); MC_EQ( long( a->capacityOfArray( o.a ) ), long( o.b ), "capacity after setCapacityOfArray" );
        for( int i = 0; i < rows(); ++i ) if( i != o.a ) MC_EQ( long( a->capacityOfArray( i ) ), capsBefore[ i ], "setCapacityOfArray(" << o.a << ") changed the capacity of array " << i );
        break;
      case RESIZE: { int const before = rows(); a->resize( o.a, o.b ); m.resize( o.a ); for( int i = before; i < o.a; ++i ) MC_EQ( long( a->capacityOfArray( i ) ), long( o.b ), "capacity of array " << i << " created by resize" ); break; }
      case RESERVE: { auto const capBefore = a->capacity(); a->reserve( o.a ); MC_CHECK( a->capacity() >= capBefore, "reserve(" << o.a << ") lowered the capacity from " << capBefore << " to " << a->capacity() ); MC_CHECK( a->capacity() >= o.a, "reserve(" << o.a << ") left capacity " << a->capacity() ); break; }
      case RESERVE_VALUES: { auto const capBefore = a->valueCapacity(); a->reserveValues( o.a ); MC_CHECK( a->valueCapacity() >= capBefore, "reserveValues(" << o.a << ") lowered the capacity from " << capBefore << " to " << a->valueCapacity() ); MC_CHECK( a->valueCapacity() >= o.a, "reserveValues(" << o.a << ") left " << a->valueCapacity() ); break; }
      case COMPRESS: a->compress(); for( int i = 0; i < rows(); ++i ) MC_EQ( long( a->capacityOfArray( i ) ), long( len( i ) ), "capacity of array " << i << " after compress" ); break;
      case FROM_CAPS:
      { std::vector< INDEX > c; for( int i = 0; i < o.a; ++i ) c.push_back( o.b == 0 ? 0 : o.b == 1 ? i + 1 : ( i + 1 ) % 3 * 2 );
        a->template resizeFromCapacities< RAJA::loop_exec >( o.a, c.data() );
        m.assign( o.a, {} );
        for( int i = 0; i < o.a; ++i ) MC_EQ( long( a->capacityOfArray( i ) ), long( c[ i ] ), "capacity of array " << i << " after resizeFromCapacities" );
        break; }
      case WRITE: for( int i = 0; i < rows(); ++i ) if( len( i ) ) { ( *a )( i, len( i ) - 1 ) = next(); m[ i ].back() = fresh; ( *a )[ i ][ 0 ] = next(); m[ i ][ 0 ] = fresh; } break;
      case VIEW_WRITE:
      { auto const v = a->toViewConstSizes(); auto const w = v;
        for( int i = 0; i < rows(); ++i ) if( len( i ) ) { w( i, 0 ) = next(); m[ i ][ 0 ] = fresh; v[ i ][ len( i ) - 1 ] = next(); m[ i ].back() = fresh; }
        break; }
      case COPY_ASSIGN:
      { auto b = std::make_unique< A >();
        if( o.a == 1 ) { b->resize( 1, 1 ); b->emplaceBack( 0, next() ); }
        if( o.a == 2 ) { b->resize( MAXROWS + 1, 1 ); for( int i = 0; i <= MAXROWS; ++i ) b->emplaceBack( i, next() ); }
        if( o.a == 3 ) { b->resize( MAXROWS + 2, 6 ); b->emplaceBack( 0, next() ); b->resize( 1 ); }
        *b = *a; same( *b, "copy-assigned" ); apart( *b ); a = std::move( b ); break; }
      case COPY_CTOR: { auto b = std::make_unique< A >( *a ); same( *b, "copy-constructed" ); apart( *b ); a = std::move( b ); break; }
      case MOVE_CTOR: { auto b = std::make_unique< A >( std::move( *a ) ); MC_EQ( long( a->size() ), 0l, "moved-from size" );
        { A c( *a ); MC_EQ( long( c.size() ), 0l, "copy of a moved-from container" ); A d( 2, 2 ); d.emplaceBack( 1, next() ); d = *a; MC_EQ( long( d.size() ), 0l, "copy of a moved-from container" ); d.resize( 1, 1 ); d.emplaceBack( 0, next() ); MC_EQ( elem::get( d( 0, 0 ) ), fresh, "reuse after assignment from a moved-from container" ); A & r = *a; *a = r; }
        a = std::move( b ); break; }
      case MOVE_ROUND:
      { A b( 1, 2 ); b.emplaceBack( 0, next() ); b = std::move( *a ); MC_EQ( long( a->size() ), 0l, "moved-from size" ); same( b, "move-assigned" );
        *a = std::move( b ); MC_EQ( long( b.size() ), 0l, "moved-from size" );
        b.resize( 2, 1 ); b.emplaceBack( 1, next() ); MC_EQ( elem::get( b( 1, 0 ) ), fresh, "reused moved-from container" ); MC_EQ( long( b.sizeOfArray( 0 ) ), 0l, "reused moved-from container" );
        b = *a; same( b, "copy-assigned over a reused container" );
        break; }
      case SELF_ASSIGN: { A & r = *a; *a = r; break; }
      case VIEW_EMPLACE_BACK: { auto const v = a->toView(); v.emplaceBack( o.a, next() ); m[ o.a ].push_back( fresh ); rowLocal = view = true; break; }
      case VIEW_ATOMIC: { auto const v = a->toView(); v.template emplaceBackAtomic< RAJA::seq_atomic >( o.a, next() ); m[ o.a ].push_back( fresh ); rowLocal = view = true; break; }
      case VIEW_EMPLACE: { auto const v = a->toView(); v.emplace( o.a, o.b, next() ); m[ o.a ].insert( m[ o.a ].begin() + o.b, fresh ); rowLocal = view = true; break; }
      case VIEW_ERASE: { auto const v = a->toView(); v.eraseFromArray( o.a, o.b, o.c ); m[ o.a ].erase( m[ o.a ].begin() + o.b, m[ o.a ].begin() + o.b + o.c ); rowLocal = view = true; break; }
      case VIEW_APPEND: { auto const v = a->toView(); auto s = range( o.b, ms ); v.appendToArray( o.a, s.begin(), s.end() ); m[ o.a ].insert( m[ o.a ].end(), ms.begin(), ms.end() ); rowLocal = view = true; break; }
      case VIEW_INSERT: { auto const v = a->toView(); auto s = range( o.c, ms ); v.insertIntoArray( o.a, o.b, s.begin(), s.end() ); m[ o.a ].insert( m[ o.a ].begin() + o.b, ms.begin(), ms.end() ); rowLocal = view = true; break; }
      case ASSIMILATE:
      { /* the rows as sets (fresh numbers are not sorted): use a set container with the same shape */
        LvArray::ArrayOfSets< T, INDEX, BUFFER > s( rows(), 2 );
        for( int i = 0; i < rows(); ++i ) { int const n = len( i ); m[ i ].clear(); for( int k = 0; k < n; ++k ) { s.insertIntoSet( i, next() ); m[ i ].push_back( fresh ); } }
        a->assimilate( std::move( s ) );
        MC_EQ( long( s.size() ), 0l, "size of the assimilated container" );
        break; }
    }
    (void) touched;
    if( rowLocal ) for( int i = 0; i < rows(); ++i ) if( i != o.a ) MC_EQ( long( a->capacityOfArray( i ) ), capsBefore[ i ], "an operation on array " << o.a << " changed the capacity of array " << i );
    if( view ) { MC_CHECK( a->toViewConst().getValues() == valuesBefore, "mutation through a view reallocated the values" ); MC_EQ( long( a->capacityOfArray( o.a ) ), capsBefore[ o.a ], "mutation through a view changed the capacity" ); }
  }
  void apart( A const & b ) const
  {
    for( int i = 0; i < rows(); ++i ) if( len( i ) ) MC_CHECK( &b( i, 0 ) != &( *a )( i, 0 ), "the copy shares storage with its source" );
  }
  template< typename X > void same( X const & x, char const * who ) const
  {
    MC_EQ( long( x.size() ), long( rows() ), who << " number of arrays" );
    MC_CHECK( x.capacity() >= x.size(), who << " capacity " << x.capacity() << " below size" );
    long total = 0;
    std::vector< std::pair< char const *, char const * > > runs;
    for( int i = 0; i < rows(); ++i )
    {
      MC_EQ( long( x.sizeOfArray( i ) ), long( len( i ) ), who << " size of array " << i );
      MC_CHECK( x.capacityOfArray( i ) >= len( i ), who << " capacity of array " << i << " is " << x.capacityOfArray( i ) << ", size " << len( i ) );
      total += x.capacityOfArray( i );
      auto const s = x[ i ];
      MC_EQ( long( s.size() ), long( len( i ) ), who << " slice size of array " << i );
      for( int j = 0; j < len( i ); ++j )
      {
        MC_EQ( elem::get( x( i, j ) ), m[ i ][ j ], who << " (" << i << "," << j << ")" );
        MC_EQ( elem::get( s[ j ] ), m[ i ][ j ], who << " [" << i << "][" << j << "]" );
      }
      int k = 0;
      for( auto const & e : s ) { MC_CHECK( k < len( i ), who << " iterates past the end of array " << i ); MC_EQ( elem::get( e ), m[ i ][ k ], who << " iteration" ); ++k; }
      if( len( i ) ) runs.push_back( { reinterpret_cast< char const * >( &x( i, 0 ) ), reinterpret_cast< char const * >( &x( i, 0 ) + x.capacityOfArray( i ) ) } );
    }
    MC_CHECK( total <= x.valueCapacity(), who << " inner capacities add up to " << total << " but there is room for " << x.valueCapacity() );
    for( size_t p = 0; p < runs.size(); ++p ) for( size_t q = p + 1; q < runs.size(); ++q )
      MC_CHECK( runs[ p ].second <= runs[ q ].first || runs[ q ].second <= runs[ p ].first, who << " inner arrays overlap" );
  }
  void check() const
  {
    same( *a, "container" );
    same( a->toView(), "view" );
    same( a->toViewConst(), "const view" );
  }
  void key( mc::Key & k ) const
  {
    k.add( rows() ); k.add( long( a->valueCapacity() ) ); k.add( long( a->capacity() ) );
    auto const v = a->toViewConst();
    k.add( bool( v.getValues() == nullptr ) ); k.add( bool( v.getSizes() == nullptr ) ); k.add( bool( v.getOffsets() == nullptr ) );
    std::map< int, int > ren; ren[ 0 ] = 0;
    for( int i = 0; i < rows(); ++i )
    {
      k.add( long( a->capacityOfArray( i ) ) ); k.add( len( i ) );
      for( int val : m[ i ] ) k.add( ren.insert( { val, int( ren.size() ) } ).first->second );
    }
  }
};
