/* ArrayOfSets against a vector of ordered sets. */
#pragma once
#include "lv.hpp"
#include "elem.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "MallocBuffer.hpp"
#include <set>
#ifdef BIG
#define BIG_SETS 1
#else
#define BIG_SETS 0
#endif

template< typename T, template< typename > class BUFFER, int MAXROWS, int V, typename INDEX = long >
struct AoS
{
  using A = LvArray::ArrayOfSets< T, INDEX, BUFFER >;
  using D = LvArray::sortedArrayManipulation::Description;
  enum Kind { INSERT, REMOVE, INSERT_MANY, REMOVE_MANY, V_INSERT, V_REMOVE, V_INSERT_MANY, V_REMOVE_MANY, APPEND_SET, INSERT_SET, ERASE_SET, CLEAR_SET, SET_CAP, RESERVE_CAP, RESIZE, RESERVE, RESERVE_VALUES, COMPRESS, FROM_CAPS,
              ASSIMILATE, COPY_ASSIGN, COPY_CTOR, MOVE_CTOR, MOVE_ROUND, SELF_ASSIGN };
  struct Op { Kind k; int a, b; };
  static std::vector< int > subset( int mask ) { std::vector< int > r; for( int i = 0; i < V; ++i ) if( mask >> i & 1 ) r.push_back( i + 1 ); return r; }
  static std::vector< Op > const & ops()
  {
    static std::vector< Op > const v = [] {
      std::vector< Op > o;
      for( int i = 0; i < MAXROWS; ++i )
      {
        for( int x = 1; x <= V; ++x ) for( Kind k : { INSERT, REMOVE, V_INSERT, V_REMOVE } ) o.push_back( { k, i, x } );
        if( !BIG_SETS ) for( int s = 0; s < ( 1 << V ); ++s ) for( Kind k : { INSERT_MANY, REMOVE_MANY, V_INSERT_MANY, V_REMOVE_MANY } ) o.push_back( { k, i, s } );
        o.push_back( { ERASE_SET, i, 0 } ); o.push_back( { CLEAR_SET, i, 0 } );
        for( int c = 0; c <= V + 1; ++c ) o.push_back( { SET_CAP, i, c } );
        o.push_back( { RESERVE_CAP, i, 1 } ); o.push_back( { RESERVE_CAP, i, V } );
      }
      for( int c : { 0, 2 } ) { o.push_back( { APPEND_SET, c, 0 } ); for( int i = 0; i <= MAXROWS; ++i ) o.push_back( { INSERT_SET, i, c } ); }
      for( int n = 0; n <= MAXROWS; ++n ) for( int c : { 0, 2 } ) o.push_back( { RESIZE, n, c } );
      for( int n : { 1, MAXROWS, MAXROWS + 3 } ) o.push_back( { RESERVE, n, 0 } );
      for( int n : { 1, 7, 20 } ) o.push_back( { RESERVE_VALUES, n, 0 } );
      o.push_back( { COMPRESS, 0, 0 } );
      for( int n = 0; n <= MAXROWS; ++n ) for( int s = 0; s < ( n ? 2 : 1 ); ++s ) o.push_back( { FROM_CAPS, n, s } );
      for( int d = 0; d < 4; ++d ) for( int variant = 0; variant < 3; ++variant ) o.push_back( { ASSIMILATE, d, variant } );
      for( Kind k : { COPY_ASSIGN, COPY_CTOR, MOVE_CTOR, MOVE_ROUND, SELF_ASSIGN } ) o.push_back( { k, 0, 0 } );
      for( int k = 1; k < 4; ++k ) o.push_back( { COPY_ASSIGN, k, 0 } );
#ifdef BIG   /* large containers: the first, a middle and the last sets, a few batches */
      o.erase( std::remove_if( o.begin(), o.end(), []( Op const & x ) {
        auto in = []( int v, std::initializer_list< int > l ) { return std::find( l.begin(), l.end(), v ) != l.end(); };
        switch( x.k )
        {
          case INSERT: case REMOVE: case V_INSERT: case V_REMOVE: return !in( x.a, { 0, 6, 11 } ) || !in( x.b, { 1, 2, 9, 10, 19, 20 } );
          case SET_CAP: return !in( x.a, { 0, 6, 11 } ) || !in( x.b, { 0, 1, 5, 10, 11, 21 } );
          case ERASE_SET: case CLEAR_SET: case RESERVE_CAP: return !in( x.a, { 0, 6, 11 } );
          case INSERT_SET: return !in( x.a, { 0, 6, 11, 12 } );
          case RESIZE: case FROM_CAPS: return !in( x.a, { 0, 1, 6, 11, 14 } );
          default: return false;
        } } ), o.end() );
      for( int i : { 0, 6, 11 } ) for( int s : { 0, 1, 0x55555, 0xAAAAA, 0x3FF, 0xFFC00, 0xFFFFF, 0x24924, 0x80000, 0x3F0 } ) for( Kind k : { INSERT_MANY, REMOVE_MANY, V_INSERT_MANY, V_REMOVE_MANY } ) o.push_back( { k, i, s } );
      for( int n : { 40, 100 } ) { o.push_back( { RESERVE, n, 0 } ); o.push_back( { RESERVE_VALUES, n, 0 } ); }
#endif
#ifdef NO_MOVED_FROM   /* buffers whose moved-from state may only be assigned to */
      o.erase( std::remove_if( o.begin(), o.end(), []( Op const & x ) { return x.k == MOVE_CTOR || x.k == MOVE_ROUND; } ), o.end() );
#endif
      return o;
    }();
    return v;
  }
#ifdef BIG
  static int starts() { return 3; }
  static std::string startName( int s ) { return s == 2 ? "empty" : s == 0 ? "12 sets of up to 19 with gaps" : "12 sets of up to 19, compressed"; }
#else
  static int starts() { return 3; }
  static std::string startName( int s ) { return s == 0 ? "empty" : s == 1 ? "2 sets of capacity 2" : "sets {1,3},{},{2..} compressed"; }
#endif

  std::unique_ptr< A > a;
  std::vector< std::set< int > > m;
  T val( int v ) const { return elem::make< T >( v ); }

  AoS( int s )
  {
#ifdef BIG
    if( s == 2 ) { a = std::make_unique< A >(); return; }
    a = std::make_unique< A >( 12, 20 ); m.resize( 12 );
    for( int i = 0; i < 12; ++i ) for( int v = 1; v <= V; ++v ) if( ( v * 7 + i ) % V < ( 19 + i * 7 ) % V ) { a->insertIntoSet( i, val( v ) ); m[ i ].insert( v ); }
    if( s == 1 ) a->compress();
    return;
#endif
    if( s == 0 ) a = std::make_unique< A >();
    if( s == 1 ) { a = std::make_unique< A >( 2, 2 ); m.resize( 2 ); }
    if( s == 2 )
    {
      a = std::make_unique< A >( MAXROWS ); m.resize( MAXROWS );
      auto put = [&]( int i, int v ) { a->insertIntoSet( i, val( v ) ); m[ i ].insert( v ); };
      put( 0, 3 ); put( 0, 1 );
      for( int v = 2; v <= V; ++v ) put( MAXROWS - 1, v );
      a->compress();
    }
  }
  ~AoS() { a.reset(); if( elem::isTracked< T > ) elem::checkNoneLeft(); }
  void adopt( AoS const & o ) { m = o.m; }
  void forget() { m.clear(); }
  bool onMovedFrom( int i ) const { Kind const k = ops()[ i ].k; return k == RESIZE || k == COPY_CTOR || k == COPY_ASSIGN || k == SELF_ASSIGN || k == FROM_CAPS || k == ASSIMILATE; }
  int nOps() const { return int( ops().size() ); }
  std::string opName( int i ) const
  {
    Op const & o = ops()[ i ];
    static char const * const n[] = { "insert", "remove", "insertMany", "removeMany", "view.insert", "view.remove", "view.insertMany", "view.removeMany", "appendSet", "insertSet", "eraseSet", "clearSet", "setCapacityOfSet", "reserveCapacityOfSet", "resize", "reserve", "reserveValues", "compress", "resizeFromCapacities",
      "assimilate", "copy-assign", "copy-ctor", "move-ctor", "move-round", "self-assign" };
    return std::string( n[ o.k ] ) + "(" + std::to_string( o.a ) + "," + std::to_string( o.b ) + ")";
  }
  int rows() const { return int( m.size() ); }
  int len( int i ) const { return int( m[ i ].size() ); }
  bool enabled( int x ) const
  {
    Op const & o = ops()[ x ];
    int const n = rows();
    switch( o.k )
    {
      case INSERT: case REMOVE: case V_REMOVE: case INSERT_MANY: case REMOVE_MANY: case V_REMOVE_MANY: case ERASE_SET: case CLEAR_SET: case RESERVE_CAP: return o.a < n;
      case V_INSERT: return o.a < n && len( o.a ) + ( m[ o.a ].count( o.b ) ? 0 : 1 ) <= a->capacityOfSet( o.a );
      case V_INSERT_MANY:
      { if( o.a >= n ) return false; std::set< int > u = m[ o.a ]; for( int v : subset( o.b ) ) u.insert( v ); return int( u.size() ) <= a->capacityOfSet( o.a ); }
      case SET_CAP: return o.a < n;
      case APPEND_SET: return n < MAXROWS;
      case INSERT_SET: return n < MAXROWS && o.a <= n;
      case COPY_ASSIGN: return true;
      default: return true;
    }
  }
  template< typename X > void mutate( X & x, Op const & o, bool insert, bool many )
  {
    int const i = o.a;
    if( !many )
    {
      bool const expect = insert ? m[ i ].insert( o.b ).second : m[ i ].erase( o.b ) > 0;
      bool const got = insert ? x.insertIntoSet( i, val( o.b ) ) : x.removeFromSet( i, val( o.b ) );
      MC_EQ( got, expect, "return value of " << ( insert ? "insertIntoSet" : "removeFromSet" ) << " of " << o.b );
      return;
    }
    std::vector< T > src; int expect = 0;
    for( int v : subset( o.b ) ) { src.push_back( val( v ) ); expect += insert ? int( m[ i ].insert( v ).second ) : int( m[ i ].erase( v ) ); }
    long got;
    if( o.b & 1 ) got = insert ? x.insertIntoSet( i, src.begin(), src.end() ) : x.removeFromSet( i, src.begin(), src.end() );
    else { std::set< T > s( src.begin(), src.end() ); got = insert ? x.insertIntoSet( i, s.begin(), s.end() ) : x.removeFromSet( i, s.begin(), s.end() ); }
    MC_EQ( got, long( expect ), "number of values changed by a batch " << ( insert ? "insertion" : "removal" ) );
  }
  void apply( int x )
  {
    Op const & o = ops()[ x ];
    std::vector< long > capsBefore;
    for( int i = 0; i < rows(); ++i ) capsBefore.push_back( a->capacityOfSet( i ) );
    T const * const valuesBefore = a->toViewConst().getValues();
    bool rowLocal = false, view = false;
    switch( o.k )
    {
      case INSERT: case REMOVE: case INSERT_MANY: case REMOVE_MANY: mutate( *a, o, o.k == INSERT || o.k == INSERT_MANY, o.k == INSERT_MANY || o.k == REMOVE_MANY ); rowLocal = true; break;
      case V_INSERT: case V_REMOVE: case V_INSERT_MANY: case V_REMOVE_MANY: { auto const v = a->toView(); mutate( v, o, o.k == V_INSERT || o.k == V_INSERT_MANY, o.k == V_INSERT_MANY || o.k == V_REMOVE_MANY ); rowLocal = view = true; break; }
      case APPEND_SET: if( o.a ) a->appendSet( o.a ); else a->appendSet(); m.push_back( {} ); MC_EQ( long( a->capacityOfSet( rows() - 1 ) ), long( o.a ), "capacity of the appended set" ); break;
      case INSERT_SET: a->insertSet( o.a, o.b ); m.insert( m.begin() + o.a, std::set< int >{} ); MC_EQ( long( a->capacityOfSet( o.a ) ), long( o.b ), "capacity of the inserted set" ); break;
      case ERASE_SET: a->eraseSet( o.a ); m.erase( m.begin() + o.a ); break;
      case CLEAR_SET: a->clearSet( o.a ); m[ o.a ].clear(); rowLocal = true; break;
      case SET_CAP: a->setCapacityOfSet( o.a, o.b ); while( len( o.a ) > o.b ) m[ o.a ].erase( --m[ o.a ].end() ); MC_EQ( long( a->capacityOfSet( o.a ) ), long( o.b ), "capacity after setCapacityOfSet" ); rowLocal = true; break;
      case RESERVE_CAP: a->reserveCapacityOfSet( o.a, o.b ); MC_EQ( long( a->capacityOfSet( o.a ) ), std::max< long >( o.b, capsBefore[ o.a ] ), "capacity after reserveCapacityOfSet" ); rowLocal = true; break;
      case RESIZE: { int const before = rows(); a->resize( o.a, o.b ); m.resize( o.a ); for( int i = before; i < o.a; ++i ) MC_EQ( long( a->capacityOfSet( i ) ), long( o.b ), "capacity of set " << i << " created by resize" ); break; }
      case RESERVE: { auto const capBefore = a->capacity(); a->reserve( o.a ); MC_CHECK( a->capacity() >= capBefore, "reserve(" << o.a << ") lowered the capacity from " << capBefore << " to " << a->capacity() ); MC_CHECK( a->capacity() >= o.a, "reserve(" << o.a << ") left capacity " << a->capacity() ); break; }
      case RESERVE_VALUES: { auto const capBefore = a->valueCapacity(); a->reserveValues( o.a ); MC_CHECK( a->valueCapacity() >= capBefore, "reserveValues(" << o.a << ") lowered the capacity from " << capBefore << " to " << a->valueCapacity() ); MC_CHECK( a->valueCapacity() >= o.a, "reserveValues(" << o.a << ") left " << a->valueCapacity() ); break; }
      case COMPRESS: a->compress(); for( int i = 0; i < rows(); ++i ) MC_EQ( long( a->capacityOfSet( i ) ), long( len( i ) ), "capacity of set " << i << " after compress" ); break;
      case FROM_CAPS:
      { std::vector< INDEX > c; for( int i = 0; i < o.a; ++i ) c.push_back( o.b ? ( i + 1 ) % 3 * 2 : 1 );
        a->template resizeFromCapacities< RAJA::loop_exec >( o.a, c.data() ); m.assign( o.a, {} );
        for( int i = 0; i < o.a; ++i ) MC_EQ( long( a->capacityOfSet( i ) ), long( c[ i ] ), "capacity of set " << i << " after resizeFromCapacities" );
        break; }
      case ASSIMILATE:
      {
        D const desc = o.a == 0 ? LvArray::sortedArrayManipulation::SORTED_UNIQUE : o.a == 1 ? LvArray::sortedArrayManipulation::UNSORTED_NO_DUPLICATES : o.a == 2 ? LvArray::sortedArrayManipulation::SORTED_WITH_DUPLICATES : LvArray::sortedArrayManipulation::UNSORTED_WITH_DUPLICATES;
        static int const data[ 4 ][ 3 ][ 6 ] = {
          { { 1, 2, 3, 0 }, { 0 }, { 2, 4, 0 } },
          { { 3, 1, 2, 0 }, { 4, 3, 2, 1, 0 }, { 2, 0 } },
          { { 1, 1, 2, 0 }, { 3, 3, 3, 0 }, { 1, 2, 2, 4, 4, 0 } },
          { { 2, 1, 2, 0 }, { 4, 4, 1, 4, 0 }, { 3, 1, 2, 3, 1, 0 } } };
        LvArray::ArrayOfArrays< T, INDEX, BUFFER > src( 0, 0 );
        m.clear();
        int const nr = o.b == 0 ? 0 : o.b == 1 ? 1 : MAXROWS;
        for( int i = 0; i < nr; ++i )
        {
          src.resize( i + 1, i % 2 ? 0 : 7 ); m.push_back( {} );
          for( int const * p = data[ o.a ][ ( i + o.b - 1 ) % 3 ]; *p; ++p ) { src.emplaceBack( i, val( *p ) ); m[ i ].insert( *p ); }
        }
        a->assimilate( std::move( src ), desc );
        MC_EQ( long( src.size() ), 0l, "size of the assimilated container" );
        break; }
      case COPY_ASSIGN:
      { auto b = std::make_unique< A >();
        if( o.a == 1 ) { b->resize( 1, 1 ); b->insertIntoSet( 0, val( 1 ) ); }
        if( o.a == 2 ) { b->resize( MAXROWS + 1, 1 ); for( int i = 0; i <= MAXROWS; ++i ) b->insertIntoSet( i, val( 2 ) ); }
        if( o.a == 3 ) { b->resize( MAXROWS + 2, 6 ); b->insertIntoSet( 0, val( 3 ) ); b->resize( 1 ); }
        *b = *a; same( *b, "copy-assigned" ); apart( *b ); a = std::move( b ); break; }
      case COPY_CTOR: { auto b = std::make_unique< A >( *a ); same( *b, "copy-constructed" ); apart( *b ); a = std::move( b ); break; }
      case MOVE_CTOR: { auto b = std::make_unique< A >( std::move( *a ) ); MC_EQ( long( a->size() ), 0l, "moved-from size" );
        { A c( *a ); MC_EQ( long( c.size() ), 0l, "copy of a moved-from container" ); A d( 2, 2 ); d.insertIntoSet( 1, val( 2 ) ); d = *a; MC_EQ( long( d.size() ), 0l, "copy of a moved-from container" ); d.resize( 1, 1 ); d.insertIntoSet( 0, val( 1 ) ); MC_EQ( elem::get( d( 0, 0 ) ), 1, "reuse" ); }
        a = std::move( b ); break; }
      case MOVE_ROUND:
      { A b( 1, 2 ); b.insertIntoSet( 0, val( 2 ) ); b = std::move( *a ); MC_EQ( long( a->size() ), 0l, "moved-from size" ); same( b, "move-assigned" );
        *a = std::move( b ); MC_EQ( long( b.size() ), 0l, "moved-from size" );
        b.resize( 2, 1 ); b.insertIntoSet( 1, val( 3 ) ); MC_EQ( elem::get( b( 1, 0 ) ), 3, "reused moved-from container" );
        b = *a; same( b, "copy-assigned over a reused container" ); break; }
      case SELF_ASSIGN: { A & r = *a; *a = r; break; }
    }
    if( rowLocal ) for( int i = 0; i < rows(); ++i ) if( i != o.a ) MC_EQ( long( a->capacityOfSet( i ) ), capsBefore[ i ], "an operation on set " << o.a << " changed the capacity of set " << i );
    if( view ) { MC_CHECK( a->toViewConst().getValues() == valuesBefore, "mutation through a view reallocated the values" ); MC_EQ( long( a->capacityOfSet( o.a ) ), capsBefore[ o.a ], "mutation through a view changed the capacity" ); }
  }
  void apart( A const & b ) const { for( int i = 0; i < rows(); ++i ) if( len( i ) ) MC_CHECK( &b( i, 0 ) != &( *a )( i, 0 ), "the copy shares storage with its source" ); }
  template< typename X > void same( X const & x, char const * who ) const
  {
    MC_EQ( long( x.size() ), long( rows() ), who << " number of sets" );
    long total = 0;
    for( int i = 0; i < rows(); ++i )
    {
      MC_EQ( long( x.sizeOfSet( i ) ), long( len( i ) ), who << " size of set " << i );
      MC_CHECK( x.capacityOfSet( i ) >= len( i ), who << " capacity of set " << i << " is " << x.capacityOfSet( i ) << ", size " << len( i ) );
      total += x.capacityOfSet( i );
      int j = 0;
      auto const s = x[ i ];
      MC_EQ( long( s.size() ), long( len( i ) ), who << " slice size of set " << i );
      for( int v : m[ i ] )
      {
        MC_EQ( elem::get( x( i, j ) ), v, who << " (" << i << "," << j << ")" );
        MC_EQ( elem::get( s[ j ] ), v, who << " [" << i << "][" << j << "]" );
        ++j;
      }
      for( int v = 0; v <= V + 1; ++v ) MC_EQ( x.contains( i, val( v ) ), m[ i ].count( v ) > 0, who << " contains(" << i << "," << v << ")" );
    }
    MC_CHECK( total <= x.valueCapacity(), who << " capacities add up to " << total << " but there is room for " << x.valueCapacity() );
    x.consistencyCheck();
  }
  void check() const
  {
    same( *a, "container" );
    same( a->toViewConst(), "const view" );
    auto const v = a->toView();
    for( int i = 0; i < rows(); ++i ) { int j = 0; for( int x : m[ i ] ) MC_EQ( elem::get( v( i, j++ ) ), x, "view" ); for( int x = 0; x <= V + 1; ++x ) MC_EQ( v.contains( i, val( x ) ), m[ i ].count( x ) > 0, "view contains" ); }
    auto const w = a->toArrayOfArraysView();
    MC_EQ( long( w.size() ), long( rows() ), "array-of-arrays view size" );
    for( int i = 0; i < rows(); ++i ) { MC_EQ( long( w.sizeOfArray( i ) ), long( len( i ) ), "array-of-arrays view" ); int j = 0; for( int x : m[ i ] ) MC_EQ( elem::get( w( i, j++ ) ), x, "array-of-arrays view" ); }
  }
  void key( mc::Key & k ) const
  {
    k.add( rows() ); k.add( long( a->valueCapacity() ) ); k.add( long( a->capacity() ) );
    auto const v = a->toViewConst();
    k.add( bool( v.getValues() == nullptr ) ); k.add( bool( v.getSizes() == nullptr ) ); k.add( bool( v.getOffsets() == nullptr ) );
    for( int i = 0; i < rows(); ++i ) { k.add( long( a->capacityOfSet( i ) ) ); k.add( len( i ) ); for( int x : m[ i ] ) k.add( x ); }
  }
};
