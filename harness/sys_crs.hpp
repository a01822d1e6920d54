/* SparsityPattern (ENT = void) and CRSMatrix against a map from positions to values. */
#pragma once
#include "lv.hpp"
#include "elem.hpp"
#ifdef NO_MOVED_FROM
#define NO_MOVED_FROM_STARTS 1
#else
#define NO_MOVED_FROM_STARTS 0
#endif
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#include "MallocBuffer.hpp"
#include <set>
#include <map>
#ifdef BIG
#define BIG_CRS 1
#else
#define BIG_CRS 0
#endif

template< typename ENT, typename COL, typename INDEX, template< typename > class BUFFER > struct CrsTypes
{ using A = LvArray::CRSMatrix< ENT, COL, INDEX, BUFFER >; using E = ENT; };
template< typename COL, typename INDEX, template< typename > class BUFFER > struct CrsTypes< void, COL, INDEX, BUFFER >
{ using A = LvArray::SparsityPattern< COL, INDEX, BUFFER >; using E = int; };

template< typename ENT, template< typename > class BUFFER, int MAXROWS, int C, typename COL = int, typename INDEX = long >
struct Crs
{
  static constexpr bool matrix = !std::is_same< ENT, void >::value;
  using Types = CrsTypes< ENT, COL, INDEX, BUFFER >;
  using A = typename Types::A;
  using E = typename Types::E;
  using P = LvArray::SparsityPattern< COL, INDEX, BUFFER >;
  static constexpr bool arithmetic = matrix && std::is_arithmetic< E >::value;

  enum Kind { INSERT, REMOVE, INSERT_MANY, REMOVE_MANY, V_INSERT, V_REMOVE, V_INSERT_MANY, V_REMOVE_MANY, SET_ROW_CAP, RESERVE_ROW, RESERVE_ROWS, RESERVE_NNZ, COMPRESS, RESIZE, APPEND_ROW, FROM_CAPS, COPY_ASSIGN, COPY_CTOR, MOVE_CTOR, MOVE_ROUND, SELF_ASSIGN,
              WRITE, SET_VALUES, ZERO, ADD, ASSIMILATE };
  struct Op { Kind k; int a, b, c; };
  static std::vector< int > subset( int mask ) { std::vector< int > r; for( int i = 0; i < C; ++i ) if( mask >> i & 1 ) r.push_back( i ); return r; }
  static std::vector< Op > const & ops()
  {
    static std::vector< Op > const v = [] {
      std::vector< Op > o;
      for( int i = 0; i < MAXROWS; ++i )
      {
        for( int x = 0; x < C; ++x ) for( Kind k : { INSERT, REMOVE, V_INSERT, V_REMOVE } ) o.push_back( { k, i, x, 0 } );
        if( !BIG_CRS ) for( int s = 0; s < ( 1 << C ); ++s ) for( Kind k : { INSERT_MANY, REMOVE_MANY, V_INSERT_MANY, V_REMOVE_MANY } ) o.push_back( { k, i, s, 0 } );
        for( int c = 0; c <= C + 1; ++c ) o.push_back( { SET_ROW_CAP, i, c, 0 } );
        o.push_back( { RESERVE_ROW, i, 1, 0 } ); o.push_back( { RESERVE_ROW, i, C + 3, 0 } );
        if( matrix ) o.push_back( { WRITE, i, 0, 0 } );
        if( arithmetic && !BIG_CRS ) for( int how = 0; how < 8; ++how ) for( int s : { 0, 1, ( 1 << C ) - 1, 1 << ( C - 1 ), 5 } ) o.push_back( { ADD, i, s, how } );
      }
      for( int n : { 1, 7, 20 } ) o.push_back( { RESERVE_NNZ, n, 0, 0 } );
      if( !matrix ) { for( int n : { 1, MAXROWS + 3 } ) o.push_back( { RESERVE_ROWS, n, 0, 0 } ); for( int c : { 0, 2, C + 2 } ) o.push_back( { APPEND_ROW, c, 0, 0 } ); }
      o.push_back( { COMPRESS, 0, 0, 0 } );
      for( int n = 0; n <= MAXROWS; ++n ) for( int nc : { C - 1, C } ) for( int cap : { 0, 2 } ) o.push_back( { RESIZE, n, nc, cap } );
      for( int n = 0; n <= MAXROWS; ++n ) for( int s = 0; s < ( n ? 2 : 1 ); ++s ) for( int nc : { C, C - 1 } ) if( nc == C || ( n != 1 && s == 0 ) ) o.push_back( { FROM_CAPS, n, s, nc } );
      for( int k = 0; k < 3; ++k ) o.push_back( { COPY_ASSIGN, k, 0, 0 } );
      for( Kind k : { COPY_CTOR, MOVE_CTOR, MOVE_ROUND, SELF_ASSIGN } ) o.push_back( { k, 0, 0, 0 } );
      if( matrix ) { o.push_back( { SET_VALUES, 0, 0, 0 } ); for( int n = 0; n < 5; ++n ) o.push_back( { ASSIMILATE, n, 0, 0 } ); }
      if( arithmetic ) o.push_back( { ZERO, 0, 0, 0 } );
#ifdef BIG   /* large containers: the first, a middle and the last rows, a few batches */
      o.erase( std::remove_if( o.begin(), o.end(), []( Op const & x ) {
        auto in = []( int v, std::initializer_list< int > l ) { return std::find( l.begin(), l.end(), v ) != l.end(); };
        switch( x.k )
        {
          case INSERT: case REMOVE: case V_INSERT: case V_REMOVE: return !in( x.a, { 0, 6, 11 } ) || !in( x.b, { 0, 1, 9, 10, C - 2, C - 1 } );
          case SET_ROW_CAP: return !in( x.a, { 0, 6, 11 } ) || !in( x.b, { 0, 1, 5, 10, 11, C + 1 } );
          case RESERVE_ROW: case WRITE: return !in( x.a, { 0, 6, 11 } );
          case RESIZE: case FROM_CAPS: return !in( x.a, { 0, 1, 6, 11, 14 } );
          default: return false;
        } } ), o.end() );
      for( int i : { 0, 6, 11 } ) for( int s : { 0, 1, 0x55555, 0xAAAAA, 0x3FF, 0xFFC00, 0xFFFFF, 0x24924, 0x80000, 0x3F0 } )
      {
        s &= ( 1 << C ) - 1;
        for( Kind k : { INSERT_MANY, REMOVE_MANY, V_INSERT_MANY, V_REMOVE_MANY } ) o.push_back( { k, i, s, 0 } );
      }
      if( arithmetic ) for( int i : { 0, 11 } ) for( int s : bigRows( i ) ) for( int how = 0; how < 8; ++how ) o.push_back( { ADD, i, s, how } );
      for( int n : { 40, 200 } ) o.push_back( { RESERVE_NNZ, n, 0, 0 } );
      if( !matrix ) o.push_back( { RESERVE_ROWS, 40, 0, 0 } );
#endif
#ifdef NO_MOVED_FROM   /* buffers whose moved-from state may only be assigned to */
      o.erase( std::remove_if( o.begin(), o.end(), []( Op const & x ) { return x.k == MOVE_CTOR || x.k == MOVE_ROUND; } ), o.end() );
#endif
      return o;
    }();
    return v;
  }
#ifdef BIG
  static bool inBig( int i, int c ) { return ( c * 7 + i ) % C < ( C - 1 + i * 7 ) % C; }
  static std::vector< int > bigRows( int i )
  { /* subsets of a starting row */
    int all = 0, first = 0, last = 0, half = 0, n = 0;
    for( int c = 0; c < C; ++c ) if( inBig( i, c ) ) { all |= 1 << c; if( !first ) first = 1 << c; last = 1 << c; if( n++ % 2 ) half |= 1 << c; }
    return { all, first, last, half, first | last };
  }
  static int starts() { return 3; }
  static std::string startName( int s ) { return s == 2 ? "empty" : s == 0 ? "12 rows of up to C-1 with gaps" : "12 rows of up to C-1, compressed"; }
#else
  static int starts() { return 4 - NO_MOVED_FROM_STARTS; }
  static std::string startName( int s ) { return s == 0 ? "empty" : s == 1 ? "2 rows of capacity 2" : s == 2 ? "all rows, compressed" : "moved-from, then resized"; }
#endif

  std::unique_ptr< A > a;
  std::vector< std::map< int, int > > m;
  int cols = 0, fresh = 0;

  static E val( int v ) { return elem::make< E >( v ); }
  template< typename X > bool put( X & x, int i, int c, int v ) const { if constexpr( matrix ) return x.insertNonZero( i, COL( c ), val( v ) ); else return x.insertNonZero( i, COL( c ) ); }
  Crs( int s )
  {
#ifdef BIG
    if( s == 2 ) { a = std::make_unique< A >(); return; }
    a = std::make_unique< A >( 12, C, C ); m.resize( 12 ); cols = C;
    for( int i = 0; i < 12; ++i ) for( int c = 0; c < C; ++c ) if( inBig( i, c ) ) { put( *a, i, c, ++fresh ); m[ i ][ c ] = fresh; }
    if( s == 1 ) a->compress();
    return;
#endif
    if( s == 0 ) a = std::make_unique< A >();
    if( s == 1 ) { a = std::make_unique< A >( 2, C, 2 ); m.resize( 2 ); cols = C; }
    if( s == 2 )
    {
      a = std::make_unique< A >( MAXROWS, C ); m.resize( MAXROWS ); cols = C;
      auto add = [&]( int i, int c ) { put( *a, i, c, ++fresh ); m[ i ][ c ] = fresh; };
      add( 0, 2 ); add( 0, 0 ); for( int c = 1; c < C; ++c ) add( MAXROWS - 1, c );
      a->compress();
    }
    if( s == 3 )
    {
      a = std::make_unique< A >( 2, C, 2 ); put( *a, 0, 1, 1 ); { A b( std::move( *a ) ); MC_EQ( long( b.numNonZeros() ), 1l, "non-zeros after move construction" ); }
      a->resize( 1, C, 1 ); m.resize( 1 ); cols = C;
    }
  }
  ~Crs() { a.reset(); if( elem::isTracked< E > ) elem::checkNoneLeft(); }
  void adopt( Crs const & o ) { m = o.m; cols = o.cols; fresh = std::max( fresh, o.fresh ) + 100; }
  void forget() { m.clear(); cols = 0; }
  bool onMovedFrom( int i ) const { Kind const k = ops()[ i ].k; return k == RESIZE || k == COPY_CTOR || k == COPY_ASSIGN || k == SELF_ASSIGN || k == FROM_CAPS || k == ASSIMILATE; }
  int nOps() const { return int( ops().size() ); }
  std::string opName( int i ) const
  {
    Op const & o = ops()[ i ];
    static char const * const n[] = { "insert", "remove", "insertMany", "removeMany", "view.insert", "view.remove", "view.insertMany", "view.removeMany", "setRowCapacity", "reserveRow", "reserveRows", "reserveNonZeros", "compress", "resize", "appendRow", "resizeFromRowCapacities",
      "copy-assign", "copy-ctor", "move-ctor", "move-round", "self-assign", "write", "setValues", "zero", "addToRow", "assimilate" };
    return std::string( n[ o.k ] ) + "(" + std::to_string( o.a ) + "," + std::to_string( o.b ) + "," + std::to_string( o.c ) + ")";
  }
  int rows() const { return int( m.size() ); }
  int len( int i ) const { return int( m[ i ].size() ); }
  int maxCol() const { int r = -1; for( auto const & x : m ) if( !x.empty() ) r = std::max( r, x.rbegin()->first ); return r; }
  bool below( int mask ) const { return mask < ( 1 << cols ); }
  bool enabled( int x ) const
  {
    Op const & o = ops()[ x ];
    int const n = rows();
    switch( o.k )
    {
      case INSERT: case REMOVE: case V_REMOVE: return o.a < n && o.b < cols;
      case INSERT_MANY: case REMOVE_MANY: case V_REMOVE_MANY: return o.a < n && below( o.b );
      case V_INSERT: return o.a < n && o.b < cols && len( o.a ) + ( m[ o.a ].count( o.b ) ? 0 : 1 ) <= a->nonZeroCapacity( o.a );
      case V_INSERT_MANY:
      { if( o.a >= n || !below( o.b ) ) return false; std::map< int, int > u = m[ o.a ]; for( int c : subset( o.b ) ) u[ c ]; return int( u.size() ) <= a->nonZeroCapacity( o.a ); }
      case SET_ROW_CAP: case RESERVE_ROW: case WRITE: return o.a < n;
      case ADD: { if( o.a >= n ) return false; for( int c : subset( o.b ) ) if( !m[ o.a ].count( c ) ) return false; return true; }
      case APPEND_ROW: return n < MAXROWS;
      case RESIZE: { int hi = -1; for( int i = 0; i < n && i < o.a; ++i ) if( len( i ) ) hi = std::max( hi, m[ i ].rbegin()->first ); 
        for( int i = 0; i < n && i < o.a; ++i ) if( a->nonZeroCapacity( i ) > o.b ) return false;
        return hi < o.b; }
      default: return true;
    }
  }
  template< typename X > void mutate( X & x, Op const & o, bool insert, bool many )
  {
    int const i = o.a;
    if( !many )
    {
      if( insert )
      {
        ++fresh; bool const e = m[ i ].insert( { o.b, fresh } ).second;
        MC_EQ( put( x, i, o.b, fresh ), e, "return value of insertNonZero(" << i << "," << o.b << ")" );
      }
      else { bool const e = m[ i ].erase( o.b ) > 0; MC_EQ( x.removeNonZero( i, COL( o.b ) ), e, "return value of removeNonZero(" << i << "," << o.b << ")" ); }
      return;
    }
    std::vector< COL > cs; std::vector< E > es; int expect = 0;
    for( int c : subset( o.b ) )
    {
      cs.push_back( COL( c ) );
      if( insert ) { ++fresh; es.push_back( val( fresh ) ); expect += int( m[ i ].insert( { c, fresh } ).second ); } else expect += int( m[ i ].erase( c ) );
    }
    long got;
    if constexpr( matrix )
      got = insert ? x.insertNonZeros( i, cs.data(), es.data(), INDEX( cs.size() ) ) : x.removeNonZeros( i, cs.data(), INDEX( cs.size() ) );
    else if( o.b & 1 ) got = insert ? x.insertNonZeros( i, cs.begin(), cs.end() ) : x.removeNonZeros( i, cs.begin(), cs.end() );
    else { std::set< COL > s( cs.begin(), cs.end() ); got = insert ? x.insertNonZeros( i, s.begin(), s.end() ) : x.removeNonZeros( i, s.begin(), s.end() ); }
    MC_EQ( got, long( expect ), "number of positions changed by a batch " << ( insert ? "insertion" : "removal" ) );
    size_t k = 0; for( int c : subset( o.b ) ) { MC_EQ( int( cs[ k ] ), c, "a batch changed its columns" ); ++k; }
  }
  void apply( int x )
  {
    Op const & o = ops()[ x ];
    std::vector< long > caps;
    for( int i = 0; i < rows(); ++i ) caps.push_back( a->nonZeroCapacity( i ) );
    COL const * const colsBefore = a->getColumns();
    bool rowLocal = false, view = false;
    switch( o.k )
    {
      case INSERT: case REMOVE: case INSERT_MANY: case REMOVE_MANY: mutate( *a, o, o.k == INSERT || o.k == INSERT_MANY, o.k == INSERT_MANY || o.k == REMOVE_MANY ); rowLocal = true; break;
      case V_INSERT: case V_REMOVE: case V_INSERT_MANY: case V_REMOVE_MANY: { auto const v = a->toView(); mutate( v, o, o.k == V_INSERT || o.k == V_INSERT_MANY, o.k == V_INSERT_MANY || o.k == V_REMOVE_MANY ); rowLocal = view = true; break; }
      case SET_ROW_CAP: { a->setRowCapacity( o.a, o.b ); int const c = std::min( o.b, cols ); while( len( o.a ) > c ) m[ o.a ].erase( --m[ o.a ].end() ); MC_EQ( long( a->nonZeroCapacity( o.a ) ), long( c ), "capacity after setRowCapacity" ); rowLocal = true; break; }
      case RESERVE_ROW: a->reserveNonZeros( o.a, o.b ); MC_EQ( long( a->nonZeroCapacity( o.a ) ), std::max< long >( caps[ o.a ], std::min( o.b, cols ) ), "capacity after reserveNonZeros of a row" ); rowLocal = true; break;
      case RESERVE_ROWS: if constexpr( !matrix ) { a->reserveRows( o.a ); auto const * p = a->getOffsets(); while( rows() && rows() < o.a && rows() < MAXROWS ) { a->appendRow(); m.push_back( {} ); MC_CHECK( a->getOffsets() == p, "appending within the reserved rows reallocated" ); } } break;
      case RESERVE_NNZ: { auto const capBefore = a->nonZeroCapacity(); a->reserveNonZeros( o.a ); MC_CHECK( a->nonZeroCapacity() >= capBefore, "reserveNonZeros(" << o.a << ") lowered the capacity from " << capBefore << " to " << a->nonZeroCapacity() ); MC_CHECK( a->nonZeroCapacity() >= o.a, "reserveNonZeros(" << o.a << ") left " << a->nonZeroCapacity() ); break; }
      case COMPRESS: a->compress(); for( int i = 0; i < rows(); ++i ) MC_EQ( long( a->nonZeroCapacity( i ) ), long( len( i ) ), "capacity of row " << i << " after compress" ); break;
      case RESIZE: { int const before = rows(); a->resize( o.a, o.b, o.c ); cols = o.b; m.resize( o.a ); for( int i = before; i < o.a; ++i ) MC_EQ( long( a->nonZeroCapacity( i ) ), long( o.c ), "capacity of row " << i << " created by resize" ); break; }
      case APPEND_ROW: if constexpr( !matrix ) { a->appendRow( o.a ); m.push_back( {} ); MC_EQ( long( a->nonZeroCapacity( rows() - 1 ) ), long( std::min( o.a, cols ) ), "capacity of the appended row" ); } break;
      case FROM_CAPS:
      { std::vector< INDEX > c; for( int i = 0; i < o.a; ++i ) c.push_back( std::min( o.c, o.b ? ( i + 1 ) % 3 * 2 % ( C + 1 ) : 1 ) );
        a->template resizeFromRowCapacities< RAJA::loop_exec >( o.a, o.c, c.data() ); m.assign( o.a, {} ); cols = o.c;
        for( int i = 0; i < o.a; ++i ) MC_EQ( long( a->nonZeroCapacity( i ) ), long( c[ i ] ), "capacity of row " << i << " after resizeFromRowCapacities" );
        break; }
      case COPY_ASSIGN:
      { auto b = std::make_unique< A >();
        if( o.a == 1 ) { b->resize( 1, C + 2, 1 ); put( *b, 0, C, 9 ); }
        if( o.a == 2 ) { b->resize( MAXROWS + 2, C, 2 ); for( int i = 0; i < MAXROWS + 2; ++i ) put( *b, i, i % C, 9 ); }
        *b = *a; same( *b, "copy-assigned" ); apart( *b ); a = std::move( b ); break; }
      case COPY_CTOR: { auto b = std::make_unique< A >( *a ); same( *b, "copy-constructed" ); apart( *b ); a = std::move( b ); break; }
      case MOVE_CTOR:
      { auto b = std::make_unique< A >( std::move( *a ) ); movedFrom( *a ); { A c( *a ); MC_EQ( long( c.numRows() ), 0l, "copy of a moved-from container" ); A d( 2, C, 1 ); put( d, 1, 1, 5 ); d = *a; MC_EQ( long( d.numRows() ), 0l, "copy of a moved-from container" ); d.resize( 1, C, 1 ); put( d, 0, 1, 5 ); MC_EQ( long( d.numNonZeros() ), 1l, "reuse" ); }
        a = std::move( b ); break; }
      case MOVE_ROUND:
      { A b( 1, C, 2 ); put( b, 0, 1, 9 ); b = std::move( *a ); movedFrom( *a ); same( b, "move-assigned" ); *a = std::move( b ); movedFrom( b );
        b.resize( 2, C, 1 ); put( b, 1, 1, 7 ); MC_EQ( int( b.getColumns( 1 )[ 0 ] ), 1, "reused moved-from container" ); b = *a; same( b, "copy-assigned over a reused container" ); break; }
      case SELF_ASSIGN: { A & r = *a; *a = r; break; }
      case WRITE: if constexpr( matrix ) { int j = 0; for( auto & e : m[ o.a ] ) { auto const s = a->toViewConstSizes().getEntries( o.a ); s[ j++ ] = val( ++fresh ); e.second = fresh; } } rowLocal = view = true; break;
      case SET_VALUES: if constexpr( matrix ) { ++fresh; a->template setValues< RAJA::loop_exec >( val( fresh ) ); for( auto & r : m ) for( auto & e : r ) e.second = fresh; } break;
      case ZERO: if constexpr( arithmetic ) { a->zero(); for( auto & r : m ) for( auto & e : r ) e.second = 0; } break;
      case ADD: if constexpr( arithmetic )
      {
        std::vector< COL > cs; std::vector< E > es; for( int c : subset( o.b ) ) { cs.push_back( COL( c ) ); ++fresh; es.push_back( E( 1000 * fresh ) ); m[ o.a ][ c ] += 1000 * fresh; }
        INDEX const n = INDEX( cs.size() );
        switch( o.c )
        {
          case 0: a->template addToRow< RAJA::seq_atomic >( o.a, cs.data(), es.data(), n ); break;
          case 1: a->template addToRowBinarySearch< RAJA::seq_atomic >( o.a, cs.data(), es.data(), n ); break;
          case 2: a->template addToRowLinearSearch< RAJA::seq_atomic >( o.a, cs.data(), es.data(), n ); break;
          case 3: std::reverse( cs.begin(), cs.end() ); std::reverse( es.begin(), es.end() ); a->template addToRowBinarySearchUnsorted< RAJA::seq_atomic >( o.a, cs.data(), es.data(), n ); break;
          case 4: a->toViewConstSizes().template addToRow< RAJA::builtin_atomic >( o.a, cs.data(), es.data(), n ); break;
          case 5: a->toView().template addToRowBinarySearch< RAJA::builtin_atomic >( o.a, cs.data(), es.data(), n ); break;
          case 6: a->toViewConstSizes().template addToRowLinearSearch< RAJA::builtin_atomic >( o.a, cs.data(), es.data(), n ); break;
          case 7: if( n > 1 ) { std::swap( cs[ 0 ], cs[ n - 1 ] ); std::swap( es[ 0 ], es[ n - 1 ] ); cs.push_back( cs[ 0 ] ); es.push_back( es[ 0 ] ); m[ o.a ][ int( cs[ 0 ] ) ] += es[ 0 ]; }
                  a->toView().template addToRowBinarySearchUnsorted< RAJA::builtin_atomic >( o.a, cs.data(), es.data(), INDEX( cs.size() ) ); break;
        }
        rowLocal = view = true;
      } break;
      case ASSIMILATE: if constexpr( matrix )
      {
        P p( o.a < 2 ? 0 : o.a == 2 ? 1 : MAXROWS, C - ( o.a == 1 ), o.a == 4 ? 2 : 0 );
        m.clear(); cols = C - ( o.a == 1 );
        if( o.a >= 2 ) for( int i = 0; i < p.numRows(); ++i ) { m.push_back( {} ); for( int c = i % 2; c < C; c += 1 + ( i + o.a ) % 2 ) { p.insertNonZero( i, COL( c ) ); m[ i ][ c ] = 0; } }
        if( o.a == 3 ) p.compress();
        COL const * const pc = p.getColumns();
        a->template assimilate< RAJA::loop_exec >( std::move( p ) );
        if( o.a >= 2 ) MC_CHECK( a->getColumns() == pc, "adopting a pattern copied it" );
        MC_EQ( long( p.numRows() ), 0l, "rows left in the adopted pattern" ); MC_EQ( long( p.numNonZeros() ), 0l, "non-zeros left in the adopted pattern" );
#ifndef NO_MOVED_FROM
        p.resize( 1, C, 1 ); p.insertNonZero( 0, COL( 1 ) ); MC_EQ( long( p.numNonZeros() ), 1l, "reused adopted pattern" );
#endif
      } break;
    }
    if( rowLocal ) for( int i = 0; i < rows(); ++i ) if( i != o.a ) MC_EQ( long( a->nonZeroCapacity( i ) ), caps[ i ], "an operation on row " << o.a << " changed the capacity of row " << i );
    if( view ) { MC_CHECK( a->getColumns() == colsBefore, "mutation through a view reallocated the columns" ); MC_EQ( long( a->nonZeroCapacity( o.a ) ), caps[ o.a ], "mutation through a view changed the capacity" ); }
  }
  void movedFrom( A const & x ) const { MC_EQ( long( x.numRows() ), 0l, "rows of a moved-from container" ); MC_EQ( long( x.numNonZeros() ), 0l, "non-zeros of a moved-from container" ); MC_EQ( long( x.numColumns() ), 0l, "columns of a moved-from container" ); MC_CHECK( x.empty(), "moved-from container is empty" ); }
  void apart( A const & b ) const { for( int i = 0; i < rows(); ++i ) if( len( i ) ) { MC_CHECK( &b.getColumns( i )[ 0 ] != &a->getColumns( i )[ 0 ], "the copy shares columns with its source" ); if constexpr( matrix ) MC_CHECK( &b.getEntries( i )[ 0 ] != &a->getEntries( i )[ 0 ], "the copy shares entries with its source" ); } }
  template< typename X, bool ENTRIES > void same( X const & x, char const * who, std::integral_constant< bool, ENTRIES > ) const
  {
    MC_EQ( long( x.numRows() ), long( rows() ), who << " number of rows" );
    MC_EQ( long( x.numColumns() ), long( cols ), who << " number of columns" );
    long total = 0, nnz = 0;
    for( int i = 0; i < rows(); ++i )
    {
      nnz += len( i );
      MC_EQ( long( x.numNonZeros( i ) ), long( len( i ) ), who << " non-zeros of row " << i );
      MC_EQ( x.empty( i ), len( i ) == 0, who << " empty(" << i << ")" );
      MC_CHECK( x.nonZeroCapacity( i ) >= len( i ), who << " capacity of row " << i << " is " << x.nonZeroCapacity( i ) << ", non-zeros " << len( i ) );
      total += x.nonZeroCapacity( i );
      MC_EQ( long( x.getOffsets()[ i + 1 ] - x.getOffsets()[ i ] ), long( x.nonZeroCapacity( i ) ), who << " offsets" );
      auto const cs = x.getColumns( i );
      MC_EQ( long( cs.size() ), long( len( i ) ), who << " slice size of row " << i );
      int j = 0;
      for( auto const & e : m[ i ] )
      {
        MC_EQ( int( cs[ j ] ), e.first, who << " column " << j << " of row " << i );
        MC_EQ( int( x.getColumns()[ x.getOffsets()[ i ] + j ] ), e.first, who << " columns through the offsets" );
        if constexpr( ENTRIES )
        {
          MC_EQ( elem::get( x.getEntries( i )[ j ] ), e.second, who << " entry (" << i << "," << e.first << ")" );
          MC_CHECK( &x.getEntries()[ x.getOffsets()[ i ] + j ] == &x.getEntries( i )[ j ], who << " entries through the offsets" );
        }
        ++j;
      }
      for( int c = 0; c < cols; ++c ) MC_EQ( x.empty( i, COL( c ) ), m[ i ].count( c ) == 0, who << " empty(" << i << "," << c << ")" );
    }
    MC_EQ( long( x.numNonZeros() ), nnz, who << " number of non-zeros" );
    MC_EQ( x.empty(), nnz == 0, who << " empty()" );
    MC_CHECK( total <= x.nonZeroCapacity(), who << " row capacities add up to " << total << ", there is room for " << x.nonZeroCapacity() );
  }
  template< typename X > void same( X const & x, char const * who ) const { same( x, who, std::integral_constant< bool, matrix >{} ); }
  void check() const
  {
    same( *a, "container" ); same( a->toViewConst(), "const view" ); same( a->toView(), "view" );
    { auto const v = a->toView(); auto w = v; same( w, "copied view" ); auto const u = w.toViewConst(); same( u, "view of a view" ); }
    if constexpr( matrix ) { same( a->toViewConstSizes(), "const-sizes view" ); same( a->toSparsityPatternView(), "pattern view", std::false_type{} ); same( a->toView().toSparsityPatternView(), "pattern view of a view", std::false_type{} ); }
  }
  /* the capacity of the entries is not public; without it more states are merged */
  struct Peek : A
  {
    template< typename Q > static auto of( Q const & x, int ) -> decltype( long( x.m_entries.capacity() ) ) { return x.m_entries.capacity(); }
    template< typename Q > static long of( Q const &, long ) { return -1; }
  };
  void key( mc::Key & k ) const
  {
    k.add( rows() ); k.add( cols ); k.add( long( a->nonZeroCapacity() ) );
    k.add( bool( a->getOffsets() == nullptr ) ); k.add( bool( a->getColumns() == nullptr ) );
    if constexpr( matrix ) { k.add( bool( a->getEntries() == nullptr ) ); k.add( Peek::of( static_cast< Peek const & >( *a ), 0 ) ); }
    for( int i = 0; i < rows(); ++i ) { k.add( long( a->nonZeroCapacity( i ) ) ); k.add( len( i ) ); for( auto const & e : m[ i ] ) k.add( e.first ); }
  }
};
