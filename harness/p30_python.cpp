/* Containers exposed to Python: histories of calls from both sides. */
#include "py.hpp"
#include "layouts.hpp"
#ifndef WHAT
#define WHAT 0
#endif
using namespace py;
template< typename T > using Buf = LvArray::MallocBuffer< T >;

template< typename T > std::string lit( std::vector< long > const & v )
{
  std::string s = std::string( "np.array( [" );
  for( size_t i = 0; i < v.size(); ++i ) s += ( i ? "," : "" ) + std::to_string( v[ i ] );
  return s + "], dtype=" + Dtype< T >::name() + " )";
}

inline void commonChecks( PyObject * w, int level, std::string const & dtype )
{
  Result r = call( w, "get_access_level" ); ok( r, "get_access_level" ); MC_EQ( asLong( r.v ), long( level ), "access level" );
  Ref d( attr( w, "dtype" ) ); MC_CHECK( d && d.p == value( dtype ), "dtype attribute" );
  Ref s( PyObject_Repr( w ) ); MC_CHECK( s && PyUnicode_GetLength( s ) > 0, "representation" );
}

/* ------------------------------------------------------------------ Array */
#if WHAT == 0
template< typename T, int NDIM, typename PERM, typename INDEX >
struct ArrSys
{
  using A = LvArray::Array< T, NDIM, PERM, INDEX, Buf >;
  enum Kind { LEVEL, RESIZE, SETDIM, RESIZE_ALL, WRITE, CPP_WRITE, CPP_RESIZE, WRAP, HOLD, BAD_SPACE };
  struct Op { Kind k; int a; };
  static std::vector< std::string > const & alls()
  {
    static std::vector< std::string > const v = [] {
      std::vector< std::string > r;
      auto rep = []( std::vector< long > d ) { std::string s = "["; for( size_t i = 0; i < d.size(); ++i ) s += ( i ? "," : "" ) + std::to_string( d[ i ] ); return s + "]"; };
      std::vector< long > d;
      d.assign( NDIM, 0 ); r.push_back( rep( d ) );
      d.assign( NDIM, 2 ); d[ 0 ] = 1; r.push_back( rep( d ) );
      d.assign( NDIM, 1 ); d[ NDIM - 1 ] = 3; r.push_back( rep( d ) );
      r.push_back( "np.array( " + rep( d ) + ", dtype=np.longlong )" );
      r.push_back( "np.array( " + rep( d ) + ", dtype=np.short )" );
      d.assign( NDIM, 2 ); d[ NDIM - 1 ] = -1; r.push_back( rep( d ) );
      d.assign( NDIM, -2 ); r.push_back( rep( d ) );
      d.assign( NDIM + 1, 1 ); r.push_back( rep( d ) );
      d.assign( NDIM - 1, 1 ); r.push_back( rep( d ) );
      r.push_back( "None" ); r.push_back( "1.5" ); r.push_back( "'ab'" );
      return r;
    }();
    return v;
  }
  static std::vector< Op > const & ops()
  {
    static std::vector< Op > const v = [] {
      std::vector< Op > o;
      for( int l = 0; l < 3; ++l ) o.push_back( { LEVEL, l } );
      for( int n : { -1, 0, 1, 3 } ) o.push_back( { RESIZE, n } );
      for( int d = -1; d <= NDIM; ++d ) o.push_back( { SETDIM, d } );
      for( size_t i = 0; i < alls().size(); ++i ) o.push_back( { RESIZE_ALL, int( i ) } );
      for( int k = 0; k < 2; ++k ) o.push_back( { WRITE, k } );
      o.push_back( { CPP_WRITE, 0 } );
      for( int n : { 0, 2 } ) o.push_back( { CPP_RESIZE, n } );
      o.push_back( { WRAP, 0 } ); o.push_back( { HOLD, 0 } ); o.push_back( { BAD_SPACE, 0 } );
      return o;
    }();
    return v;
  }
  static int starts() { return 2; }
  static std::string startName( int s ) { return s == 0 ? "empty" : "2 x ... x 2"; }
  std::unique_ptr< A > a, twin;
  Ref w, held; bool heldWriteable = false;
  int level = 0;
  template< typename X > static void fill( X & x, int from ) { for( long i = 0; i < x.size(); ++i ) x.data()[ i ] = T( from + i ); }
  ArrSys( int s )
  {
    init();
    a = std::make_unique< A >(); twin = std::make_unique< A >();
    if( s == 1 ) { std::array< INDEX, NDIM > d; d.fill( 2 ); a->resize( NDIM, d.data() ); twin->resize( NDIM, d.data() ); fill( *a, 1 ); fill( *twin, 1 ); }
    w = Ref( LvArray::python::create( *a ) ); MC_CHECK( bool( w ), "creation failed" );
  }
  int nOps() const { return int( ops().size() ); }
  std::string opName( int i ) const
  {
    static char const * const n[] = { "set_access_level", "resize", "set_single_parameter_resize_index", "resize_all", "view[..]=", "C++ write", "C++ resize", "another wrapper", "keep a view", "set_access_level with a bad space" };
    Op const & o = ops()[ i ];
    return std::string( n[ o.k ] ) + "(" + ( o.k == RESIZE_ALL ? alls()[ o.a ] : std::to_string( o.a ) ) + ")";
  }
  bool enabled( int x ) const { Op const & o = ops()[ x ]; return ( o.k != WRITE && o.k != CPP_WRITE ) || ( a->size() > 0 && ( o.a == 0 || a->size() > 1 ) ); }
  void apply( int x )
  {
    Op const & o = ops()[ x ];
    switch( o.k )
    {
      case LEVEL: ok( call( w, "set_access_level", num( o.a ) ), "set_access_level" ); level = o.a; break;
      case BAD_SPACE: raises( call( w, "set_access_level", num( 2 ), num( 77 ) ), "set_access_level with an unknown space" ); break;
      case RESIZE:
      {
        Result r = call( w, "resize", num( o.a ) );
        if( level < 2 || o.a < 0 ) { raises( r, "resize" ); break; }
        ok( r, "resize" ); MC_CHECK( r.v.p == Py_None, "resize returns None" );
        held = Ref(); twin->resize( INDEX( o.a ) ); break;
      }
      case SETDIM:
      {
        Result r = call( w, "set_single_parameter_resize_index", num( o.a ) );
        if( level < 2 || o.a < 0 || o.a >= NDIM ) { raises( r, "set_single_parameter_resize_index" ); break; }
        ok( r, "set_single_parameter_resize_index" ); twin->setSingleParameterResizeIndex( o.a ); break;
      }
      case RESIZE_ALL:
      {
        std::string const & e = alls()[ o.a ];
        Result r = call( w, "resize_all", value( e ) );
        bool good = level == 2 && evalLong( "safe( np.longlong, " + e + " )" );
        std::vector< long > d;
        if( good ) { d = valuesOf< long >( e ); good = d.size() == size_t( NDIM ); for( long q : d ) good &= q >= 0; }
        if( !good ) { raises( r, "resize_all" ); break; }
        ok( r, "resize_all" ); held = Ref();
        std::array< INDEX, NDIM > dd; for( int i = 0; i < NDIM; ++i ) dd[ i ] = INDEX( d[ i ] );
        twin->resize( NDIM, dd.data() );
        for( int i = 0; i < NDIM; ++i ) MC_EQ( long( a->size( i ) ), long( d[ i ] ), "extent after resize_all" );
        fill( *a, 5 ); fill( *twin, 5 ); break;   // the values were discarded
      }
      case WRITE:
      {
        Result r = call( w, "to_numpy" ); ok( r, "to_numpy" );
        long const flat = o.a == 0 ? 0 : a->size() - 1;
        /* position in index space of the first or last element */
        Ref idx( PyTuple_New( NDIM ) );
        INDEX lin = 0;
        for( int i = 0; i < NDIM; ++i ) { long const c = o.a == 0 ? 0 : a->size( i ) - 1; PyTuple_SetItem( idx, i, PyLong_FromLong( c ) ); lin += INDEX( c ) * a->strides()[ i ]; }
        (void) flat;
        int const rc = PyObject_SetItem( held && o.a == 1 ? held.p : r.v.p, idx, num( 9 ) );
        bool const wr = held && o.a == 1 ? heldWriteable : level >= 1;
        Result s = take( rc == 0 ? Py_NewRef( Py_None ) : nullptr, "assignment" );
        if( !wr ) { MC_CHECK( s.is( "ValueError" ), "assignment through a read-only view" ); break; }
        ok( s, "assignment through a writable view" );
        MC_EQ( a->data()[ lin ], T( 9 ), "a value written through the view" );
        twin->data()[ lin ] = T( 9 ); break;
      }
      case CPP_WRITE: a->data()[ 0 ] = T( 4 ); twin->data()[ 0 ] = T( 4 ); break;
      case CPP_RESIZE: a->resize( INDEX( o.a ) ); twin->resize( INDEX( o.a ) ); held = Ref(); break;
      case WRAP: w = Ref( LvArray::python::create( *a ) ); level = 0; break;
      case HOLD: held = call( w, "to_numpy" ).v; heldWriteable = level >= 1; break;
    }
  }
  void check() const
  {
    commonChecks( w, level, Dtype< T >::name() );
    for( int i = 0; i < NDIM; ++i ) MC_EQ( a->size( i ), twin->size( i ), "extent " << i );
    for( long i = 0; i < a->size(); ++i ) MC_EQ( a->data()[ i ], twin->data()[ i ], "value " << i );
    Result r = call( w, "get_single_parameter_resize_index" ); ok( r, "get_single_parameter_resize_index" );
    MC_EQ( asLong( r.v ), long( twin->getSingleParameterResizeIndex() ), "resize index" ); MC_EQ( a->getSingleParameterResizeIndex(), twin->getSingleParameterResizeIndex(), "resize index of the array" );
    Result v = call( w, "to_numpy" ); ok( v, "to_numpy" );
    sameMemory( v.v, a->data(), NDIM, a->dims(), a->strides(), level >= 1, "view" );
    if( held ) sameMemory( held, a->data(), NDIM, a->dims(), a->strides(), heldWriteable, "kept view" );
  }
  void key( mc::Key & k ) const
  { for( int i = 0; i < NDIM; ++i ) k.add( long( a->size( i ) ) ); k.add( level ); k.add( a->getSingleParameterResizeIndex() ); k.add( bool( held ) ); k.add( heldWriteable ); for( long i = 0; i < a->size(); ++i ) k.add( long( a->data()[ i ] ) ); }
};
MC_JOB( "array of long shared with Python" ) { init(); mc::exploreHistories< ArrSys< long, 1, RAJA::PERM_I, int > >( { .depth = mc::thorough() ? 6 : 4, .noMerge = 2, .leakCheck = true, .leakRuns = 24 } ); }
MC_JOB( "2D array of double shared with Python" ) { init(); mc::exploreHistories< ArrSys< double, 2, RAJA::PERM_JI, std::ptrdiff_t > >( { .depth = mc::thorough() ? 5 : 3, .noMerge = 2, .leakCheck = true, .leakRuns = 24 } ); }
MC_JOB( "2D array of int shared with Python" ) { init(); mc::exploreHistories< ArrSys< int, 2, RAJA::PERM_IJ, long long > >( { .depth = mc::thorough() ? 5 : 3, .noMerge = 2, .leakCheck = true, .leakRuns = 24 } ); }
MC_JOB( "3D array of float shared with Python" ) { init(); mc::exploreHistories< ArrSys< float, 3, RAJA::PERM_KIJ, int > >( { .depth = mc::thorough() ? 4 : 3, .noMerge = 1, .leakCheck = true, .leakRuns = 24 } ); }
#endif

/* ------------------------------------------------------------------ SortedArray */
#if WHAT == 1
inline std::vector< std::vector< long > > const & smallValues()
{ static std::vector< std::vector< long > > const v = { {}, { 1 }, { 2 }, { 1, 2 }, { 2, 1 }, { 1, 1 }, { 3, 1, 2 }, { 2, 3, 2 } }; return v; }

template< typename T, typename INDEX >
struct SortedSys
{
  using A = LvArray::SortedArray< T, INDEX, Buf >;
  enum Kind { LEVEL, INSERT, REMOVE, CPP_INSERT, CPP_REMOVE, WRAP, WRITE, INSERT_ONE, REMOVE_ONE };
  struct Op { Kind k; int a; };
  static std::vector< Op > const & ops()
  {
    static std::vector< Op > const v = [] {
      std::vector< Op > o;
      for( int l = 0; l < 3; ++l ) o.push_back( { LEVEL, l } );
      for( size_t i = 0; i < smallValues().size(); ++i ) for( Kind k : { INSERT, REMOVE } ) o.push_back( { k, int( i ) } );
      for( int x : { 1, 3 } ) for( Kind k : { CPP_INSERT, CPP_REMOVE, INSERT_ONE, REMOVE_ONE } ) o.push_back( { k, x } );
      o.push_back( { WRAP, 0 } ); o.push_back( { WRITE, 0 } );
      return o;
    }();
    return v;
  }
  static int starts() { return 1; }
  static std::string startName( int ) { return "empty"; }
  std::unique_ptr< A > a; std::set< long > m; Ref w; int level = 0;
  SortedSys( int ) { init(); a = std::make_unique< A >(); w = Ref( LvArray::python::create( *a ) ); }
  int nOps() const { return int( ops().size() ); }
  std::string opName( int i ) const
  {
    static char const * const n[] = { "set_access_level", "insert", "remove", "C++ insert", "C++ remove", "another wrapper", "view[0]=", "insert scalar", "remove scalar" };
    Op const & o = ops()[ i ];
    return std::string( n[ o.k ] ) + "(" + ( o.k == INSERT || o.k == REMOVE ? lit< T >( smallValues()[ o.a ] ) : std::to_string( o.a ) ) + ")";
  }
  bool enabled( int x ) const { return ops()[ x ].k != WRITE || !m.empty(); }
  void batch( bool ins, std::string const & e, std::vector< long > const & vals )
  {
    Result r = call( w, ins ? "insert" : "remove", value( e ) );
    if( level < 2 ) { raises( r, "change of a set that is not resizeable" ); return; }
    ok( r, ins ? "insert" : "remove" );
    long n = 0; for( long v : vals ) n += ins ? long( m.insert( v ).second ) : long( m.erase( v ) );
    MC_EQ( asLong( r.v ), n, "number of values changed" );
  }
  void apply( int x )
  {
    Op const & o = ops()[ x ];
    switch( o.k )
    {
      case LEVEL: ok( call( w, "set_access_level", num( o.a ) ), "set_access_level" ); level = o.a; break;
      case INSERT: case REMOVE: batch( o.k == INSERT, lit< T >( smallValues()[ o.a ] ), smallValues()[ o.a ] ); break;
      case INSERT_ONE: case REMOVE_ONE: batch( o.k == INSERT_ONE, std::string( Dtype< T >::name() ) + "( " + std::to_string( o.a ) + " )", { o.a } ); break;
      case CPP_INSERT: a->insert( T( o.a ) ); m.insert( o.a ); break;
      case CPP_REMOVE: a->remove( T( o.a ) ); m.erase( o.a ); break;
      case WRAP: w = Ref( LvArray::python::create( *a ) ); level = 0; break;
      case WRITE:
      { Result r = call( w, "to_numpy" ); int const rc = PyObject_SetItem( r.v, num( 0 ), num( 9 ) );
        Result s = take( rc == 0 ? Py_NewRef( Py_None ) : nullptr, "assignment" ); MC_CHECK( s.is( "ValueError" ), "the view of a sorted array is read-only" ); break; }
    }
  }
  void check() const
  {
    commonChecks( w, level, Dtype< T >::name() );
    MC_EQ( long( a->size() ), long( m.size() ), "size" );
    long k = 0; for( long v : m ) MC_EQ( ( *a )[ k++ ], T( v ), "value" );
    Result r = call( w, "to_numpy" ); ok( r, "to_numpy" );
    sameRow( r.v, a->data(), long( m.size() ), false, "view" );
  }
  void key( mc::Key & k ) const { k.add( level ); for( long v : m ) k.add( v ); }
};
MC_JOB( "sorted array of int shared with Python" ) { init(); mc::exploreHistories< SortedSys< int, std::ptrdiff_t > >( { .depth = mc::thorough() ? 6 : 4, .noMerge = 2, .leakCheck = true, .leakRuns = 24 } ); }
MC_JOB( "sorted array of double shared with Python" ) { init(); mc::exploreHistories< SortedSys< double, int > >( { .depth = mc::thorough() ? 6 : 4, .noMerge = 2, .leakCheck = true, .leakRuns = 24 } ); }
#endif

/* ------------------------------------------------------------------ ArrayOfArrays, ArrayOfSets */
#if WHAT == 2 || WHAT == 3
template< typename T, typename INDEX, bool SETS >
struct RaggedSys
{
  using A = std::conditional_t< SETS, LvArray::ArrayOfSets< T, INDEX, Buf >, LvArray::ArrayOfArrays< T, INDEX, Buf > >;
  enum Kind { LEVEL, INSERT, INSERT_INTO, ERASE_FROM, DEL, SETITEM, WRITE, CPP_ADD, CPP_ERASE, WRAP, REMOVE_SET };
  struct Op { Kind k; int a, b, c; };
  static std::vector< std::vector< long > > const & vals()
  { static std::vector< std::vector< long > > const v = SETS ? std::vector< std::vector< long > >{ {}, { 2 }, { 2, 1 }, { 1, 3, 3 } } : std::vector< std::vector< long > >{ {}, { 1 }, { 2, 3 } }; return v; }
  static std::vector< Op > const & ops()
  {
    static std::vector< Op > const v = [] {
      std::vector< Op > o;
      for( int l = 0; l < 3; ++l ) o.push_back( { LEVEL, l, 0, 0 } );
      for( int i = -1; i <= 3; ++i )
      {
        for( int b = SETS ? -1 : 0; b < ( SETS ? 3 : int( vals().size() ) ); ++b ) o.push_back( { INSERT, i, b, 0 } );
        if( i < 3 )
        {
          if( SETS ) for( int c = 0; c < int( vals().size() ); ++c ) { o.push_back( { INSERT_INTO, i, 0, c } ); o.push_back( { REMOVE_SET, i, 0, c } ); }
          else for( int j = -1; j <= 2; ++j ) { o.push_back( { ERASE_FROM, i, j, 0 } ); for( int c = 0; c < int( vals().size() ); ++c ) o.push_back( { INSERT_INTO, i, j, c } ); }
        }
      }
      for( int i = -2; i <= 2; ++i ) o.push_back( { DEL, i, 0, 0 } );
      o.push_back( { SETITEM, 0, 0, 0 } ); o.push_back( { WRITE, 0, 0, 0 } );
      o.push_back( { CPP_ADD, 0, 0, 0 } ); o.push_back( { CPP_ERASE, 0, 0, 0 } ); o.push_back( { WRAP, 0, 0, 0 } );
      return o;
    }();
    return v;
  }
  static int starts() { return 2; }
  static std::string startName( int s ) { return s == 0 ? "empty" : "two rows"; }
  std::unique_ptr< A > a; std::vector< std::vector< long > > m; Ref w; int level = 0;
  void cppAppend( std::vector< long > const & v )
  {
    std::vector< T > t( v.begin(), v.end() );
    if constexpr( SETS ) { a->appendSet( 1 ); a->insertIntoSet( a->size() - 1, t.begin(), t.end() ); }
    else a->appendArray( t.begin(), t.end() );
    m.push_back( v );
  }
  RaggedSys( int s )
  {
    init(); a = std::make_unique< A >();
    if( s == 1 ) { cppAppend( { 1 } ); cppAppend( { 2, 3 } ); level = 2; }
    w = Ref( LvArray::python::create( *a ) );
    if( s == 1 ) ok( call( w, "set_access_level", num( 2 ) ), "set_access_level" );
  }
  int nOps() const { return int( ops().size() ); }
  std::string opName( int i ) const
  {
    static char const * const n[] = { "set_access_level", "insert", "insert_into", "erase_from", "del", "setitem", "row[0]=", "C++ append", "C++ erase first", "another wrapper", "erase_from(values)" };
    Op const & o = ops()[ i ];
    return std::string( n[ o.k ] ) + "(" + std::to_string( o.a ) + "," + std::to_string( o.b ) + "," + std::to_string( o.c ) + ")";
  }
  bool enabled( int x ) const
  {
    Op const & o = ops()[ x ];
    if( o.k == WRITE ) return !m.empty() && !m[ 0 ].empty();
    if( o.k == CPP_ERASE ) return !m.empty();
    if( o.k == CPP_ADD ) return m.size() < 3;
    if( o.k == INSERT ) return m.size() < 3;
    if( o.k == INSERT_INTO && o.a >= 0 && o.a < int( m.size() ) ) return m[ o.a ].size() < 4;
    return true;
  }
  bool row( int i ) const { return i >= 0 && i < int( m.size() ); }
  void apply( int x )
  {
    Op const & o = ops()[ x ];
    switch( o.k )
    {
      case LEVEL: ok( call( w, "set_access_level", num( o.a ) ), "set_access_level" ); level = o.a; break;
      case INSERT:
      {
        bool good = level >= 2 && o.a >= 0 && o.a <= int( m.size() ); Result r; std::vector< long > v;
        if( SETS ) { good = good && o.b >= 0; r = o.b == 0 ? call( w, "insert", num( o.a ) ) : call( w, "insert", num( o.a ), num( o.b ) ); }
        else { v = vals()[ o.b ]; r = call( w, "insert", num( o.a ), value( lit< T >( v ) ) ); }
        if( !good ) { raises( r, "insert" ); break; }
        ok( r, "insert" ); MC_CHECK( r.v.p == Py_None, "insert returns None" ); m.insert( m.begin() + o.a, v ); break;
      }
      case INSERT_INTO:
      {
        std::vector< long > const & v = vals()[ o.c ];
        if( SETS )
        {
          Result r = call( w, "insert_into", num( o.a ), value( lit< T >( v ) ) );
          if( level < 2 || !row( o.a ) ) { raises( r, "insert_into" ); break; }
          ok( r, "insert_into" );
          std::set< long > s( m[ o.a ].begin(), m[ o.a ].end() ); long n = 0; for( long q : v ) n += s.insert( q ).second;
          MC_EQ( asLong( r.v ), n, "number of values inserted" ); m[ o.a ].assign( s.begin(), s.end() ); break;
        }
        Result r = call( w, "insert_into", num( o.a ), num( o.b ), value( lit< T >( v ) ) );
        if( level < 2 || !row( o.a ) || o.b < 0 || o.b > int( m[ o.a ].size() ) ) { raises( r, "insert_into" ); break; }
        ok( r, "insert_into" ); m[ o.a ].insert( m[ o.a ].begin() + o.b, v.begin(), v.end() ); break;
      }
      case ERASE_FROM:
      {
        Result r = call( w, "erase_from", num( o.a ), num( o.b ) );
        if( level < 2 || !row( o.a ) || o.b < 0 || o.b >= int( m[ o.a ].size() ) ) { raises( r, "erase_from" ); break; }
        ok( r, "erase_from" ); m[ o.a ].erase( m[ o.a ].begin() + o.b ); break;
      }
      case REMOVE_SET:
      {
        std::vector< long > const & v = vals()[ o.c ];
        Result r = call( w, "erase_from", num( o.a ), value( lit< T >( v ) ) );
        if( level < 2 || !row( o.a ) ) { raises( r, "erase_from" ); break; }
        ok( r, "erase_from" );
        std::set< long > s( m[ o.a ].begin(), m[ o.a ].end() ); long n = 0; for( long q : v ) n += long( s.erase( q ) );
        MC_EQ( asLong( r.v ), n, "number of values removed" ); m[ o.a ].assign( s.begin(), s.end() ); break;
      }
      case DEL:
      {
        int const i = o.a < 0 ? o.a + int( m.size() ) : o.a;
        int const rc = PyObject_DelItem( w, num( o.a ) );
        Result s = take( rc == 0 ? Py_NewRef( Py_None ) : nullptr, "del" );
        if( level < 2 || !row( i ) ) { raises( s, "del" ); break; }
        ok( s, "del" ); m.erase( m.begin() + i ); break;
      }
      case SETITEM:
      { int const rc = PyObject_SetItem( w, num( 0 ), value( lit< T >( { 1 } ) ) ); raises( take( rc == 0 ? Py_NewRef( Py_None ) : nullptr, "assignment of a row" ), "assignment of a row" ); break; }
      case WRITE:
      {
        Ref v( PyObject_GetItem( w, num( 0 ) ) ); MC_CHECK( bool( v ), "row 0" );
        int const rc = PyObject_SetItem( v, num( 0 ), num( 7 ) );
        Result s = take( rc == 0 ? Py_NewRef( Py_None ) : nullptr, "assignment" );
        if( SETS || level < 1 ) { MC_CHECK( s.is( "ValueError" ), "assignment through a read-only view" ); break; }
        ok( s, "assignment" ); m[ 0 ][ 0 ] = 7; break;
      }
      case CPP_ADD: cppAppend( { 5 } ); break;
      case CPP_ERASE: if constexpr( SETS ) a->eraseSet( 0 ); else a->eraseArray( 0 ); m.erase( m.begin() ); break;
      case WRAP: w = Ref( LvArray::python::create( *a ) ); level = 0; break;
    }
  }
  void check() const
  {
    commonChecks( w, level, Dtype< T >::name() );
    MC_EQ( long( a->size() ), long( m.size() ), "number of rows" );
    MC_EQ( long( PyObject_Length( w ) ), long( m.size() ), "len()" );
    for( int i = -int( m.size() ) - 1; i <= int( m.size() ); ++i )
    {
      Result r = take( PyObject_GetItem( w, num( i ) ), "subscript" );
      int const j = i < 0 ? i + int( m.size() ) : i;
      if( !row( j ) ) { MC_CHECK( r.is( "IndexError" ), "subscript " << i << " of " << m.size() << " rows" ); continue; }
      ok( r, "subscript" );
      auto const s = ( *a )[ j ];
      MC_EQ( long( s.size() ), long( m[ j ].size() ), "size of row " << j );
      for( size_t q = 0; q < m[ j ].size(); ++q ) MC_EQ( s[ q ], T( m[ j ][ q ] ), "row " << j << " value " << q );
      sameRow( r.v, &*s.begin(), long( m[ j ].size() ), !SETS && level >= 1, "row" );
    }
    Ref l( PySequence_List( w ) ); MC_CHECK( l && PyList_Size( l ) == Py_ssize_t( m.size() ), "iteration" );
  }
  void key( mc::Key & k ) const
  { k.add( level ); for( auto const & r : m ) { k.add( -1l ); for( long v : r ) k.add( v ); } for( long i = 0; i < a->size(); ++i ) { if constexpr( SETS ) k.add( long( a->capacityOfSet( i ) ) ); else k.add( long( a->capacityOfArray( i ) ) ); } }
};
#if WHAT == 2
MC_JOB( "array of arrays of double shared with Python" ) { init(); mc::exploreHistories< RaggedSys< double, int, false > >( { .depth = mc::thorough() ? 4 : 2, .noMerge = 1, .leakCheck = true, .leakRuns = 24 } ); }
MC_JOB( "array of arrays of int shared with Python" ) { init(); mc::exploreHistories< RaggedSys< int, std::ptrdiff_t, false > >( { .depth = mc::thorough() ? 4 : 3, .noMerge = 1, .leakCheck = true, .leakRuns = 24 } ); }
#else
MC_JOB( "array of sets of long shared with Python" ) { init(); mc::exploreHistories< RaggedSys< long, int, true > >( { .depth = mc::thorough() ? 4 : 3, .noMerge = 1, .leakCheck = true, .leakRuns = 24 } ); }
MC_JOB( "array of sets of float shared with Python" ) { init(); mc::exploreHistories< RaggedSys< float, std::ptrdiff_t, true > >( { .depth = mc::thorough() ? 4 : 2, .noMerge = 1, .leakCheck = true, .leakRuns = 24 } ); }
#endif
#endif

/* ------------------------------------------------------------------ CRSMatrix */
#if WHAT == 4
template< typename T, typename COL, typename INDEX >
struct CrsSys
{
  using A = LvArray::CRSMatrix< T, COL, INDEX, Buf >;
  enum Kind { LEVEL, RESIZE, COMPRESS, INSERT, REMOVE, ADD, SCIPY, WRITE, CPP_INSERT, WRAP };
  struct Op { Kind k; int a, b, c; };
  using V = std::vector< long >;
  static std::vector< V > const & cols() { static std::vector< V > const v = { {}, { 0 }, { 1 }, { 0, 2 }, { 2, 0 }, { 1, 1 }, { 0, 1, 2 }, { 3 }, { -1 }, { 2, 0, 1 }, { 3, 1, 2, 0 }, { 0, 2, 1, 0 } }; return v; }
  static std::vector< Op > const & ops()
  {
    static std::vector< Op > const v = [] {
      std::vector< Op > o;
      for( int l = 0; l < 3; ++l ) o.push_back( { LEVEL, l, 0, 0 } );
      for( auto d : std::vector< std::array< int, 3 > >{ { 0, 0, 0 }, { 1, 2, 0 }, { 2, 3, 1 }, { 2, 3, 0 }, { -1, 1, 0 }, { 1, -1, 0 }, { 1, 1, -1 } } ) o.push_back( { RESIZE, d[ 0 ], d[ 1 ], d[ 2 ] } );
      o.push_back( { COMPRESS, 0, 0, 0 } ); o.push_back( { SCIPY, 0, 0, 0 } ); o.push_back( { WRITE, 0, 0, 0 } ); o.push_back( { WRAP, 0, 0, 0 } ); o.push_back( { CPP_INSERT, 0, 0, 0 } );
      for( int r = -1; r <= 2; ++r ) for( int c = 0; c < int( cols().size() ); ++c )
        {
          if( ( r == -1 || r == 2 ) && c > 1 ) continue;
          o.push_back( { REMOVE, r, c, 0 } );
          for( Kind k : { INSERT, ADD } ) { o.push_back( { k, r, c, 0 } ); if( c < 3 ) o.push_back( { k, r, c, 1 } ); if( c == 3 || c == 1 ) o.push_back( { k, r, c, -1 } ); }
        }
      return o;
    }();
    return v;
  }
  static int starts() { return 3; }
  static std::string startName( int s ) { return s == 0 ? "empty" : s == 1 ? "2 x 3" : "1 x 4"; }
  std::unique_ptr< A > a; std::vector< std::map< long, long > > m; long nc = 0; Ref w; int level = 0;
  CrsSys( int s )
  {
    init(); a = std::make_unique< A >();
    if( s == 1 ) { a->resize( 2, 3, 0 ); a->insertNonZero( 0, 1, T( 2 ) ); a->insertNonZero( 1, 0, T( 3 ) ); a->insertNonZero( 1, 2, T( 4 ) ); nc = 3; m = { { { 1, 2 } }, { { 0, 3 }, { 2, 4 } } }; level = 2; }
    if( s == 2 ) { a->resize( 1, 4, 4 ); m.resize( 1 ); for( int j = 0; j < 4; ++j ) { a->insertNonZero( 0, j, T( 2 + j ) ); m[ 0 ][ j ] = 2 + j; } nc = 4; level = 2; }
    w = Ref( LvArray::python::create( *a ) );
    if( s > 0 ) ok( call( w, "set_access_level", num( 2 ) ), "set_access_level" );
  }
  int nOps() const { return int( ops().size() ); }
  std::string opName( int i ) const
  {
    static char const * const n[] = { "set_access_level", "resize", "compress", "insert_nonzeros", "remove_nonzeros", "add_to_row", "to_scipy", "entries[0]=", "C++ insertNonZero", "another wrapper" };
    Op const & o = ops()[ i ];
    return std::string( n[ o.k ] ) + "(" + std::to_string( o.a ) + "," + ( o.k == RESIZE ? std::to_string( o.b ) : lit< COL >( cols()[ o.b ] ) ) + "," + std::to_string( o.c ) + ")";
  }
  bool row( int i ) const { return i >= 0 && i < int( m.size() ); }
  bool enabled( int x ) const
  {
    Op const & o = ops()[ x ];
    if( o.k == WRITE ) return !m.empty() && !m[ 0 ].empty();
    if( o.k == CPP_INSERT ) return !m.empty() && nc > 1;
    // Shrinking below the columns in use is documented to leave an invalid matrix.
    if( o.k == RESIZE && o.b >= 0 ) for( int i = 0; i < std::min( o.a, int( m.size() ) ); ++i ) if( !m[ i ].empty() && m[ i ].rbegin()->first >= o.b ) return level < 2;
    return true;
  }
  /* entries: as many as columns plus o.c */
  std::vector< long > entries( Op const & o ) const { std::vector< long > e; for( int i = 0; i < int( cols()[ o.b ].size() ) + o.c; ++i ) e.push_back( 5 + i ); return e; }
  void apply( int x )
  {
    Op const & o = ops()[ x ];
    std::vector< long > const & c = cols()[ o.b < 0 || o.k == RESIZE ? 0 : o.b ];
    bool const unit = std::is_sorted( c.begin(), c.end() ) && std::adjacent_find( c.begin(), c.end() ) == c.end();
    bool in = true; for( long q : c ) in &= q >= 0 && q < nc;
    switch( o.k )
    {
      case LEVEL: ok( call( w, "set_access_level", num( o.a ) ), "set_access_level" ); level = o.a; break;
      case RESIZE:
      {
        Result r = o.c == 0 ? call( w, "resize", num( o.a ), num( o.b ) ) : call( w, "resize", num( o.a ), num( o.b ), num( o.c ) );
        if( level < 2 || o.a < 0 || o.b < 0 || o.c < 0 ) { raises( r, "resize" ); break; }
        ok( r, "resize" ); m.resize( o.a ); nc = o.b; break;
      }
      case COMPRESS: { Result r = call( w, "compress" ); if( level < 2 ) raises( r, "compress" ); else ok( r, "compress" ); break; }
      case INSERT:
      {
        std::vector< long > const e = entries( o );
        Result r = call( w, "insert_nonzeros", num( o.a ), value( lit< COL >( c ) ), value( lit< T >( e ) ) );
        if( level < 2 || !row( o.a ) || o.c != 0 || !in || ( !unit && std::set< long >( c.begin(), c.end() ).size() != c.size() ) ) { raises( r, "insert_nonzeros" ); break; }
        if( !unit && r.raised ) break;        // unsorted columns: either refused, or inserted
        ok( r, "insert_nonzeros" ); long n = 0; for( size_t i = 0; i < c.size(); ++i ) n += m[ o.a ].emplace( c[ i ], e[ i ] ).second;
        MC_EQ( asLong( r.v ), n, "number of entries inserted" ); break;
      }
      case REMOVE:
      {
        Result r = call( w, "remove_nonzeros", num( o.a ), value( lit< COL >( c ) ) );
        if( level < 2 || !row( o.a ) ) { raises( r, "remove_nonzeros" ); break; }
        if( ( !unit || !in ) && r.raised ) break;
        ok( r, "remove_nonzeros" ); long n = 0; for( long q : c ) n += long( m[ o.a ].erase( q ) );
        MC_EQ( asLong( r.v ), n, "number of entries removed" ); break;
      }
      case ADD:
      {
        std::vector< long > const e = entries( o );
        Result r = call( w, "add_to_row", num( o.a ), value( lit< COL >( c ) ), value( lit< T >( e ) ) );
        bool all = row( o.a ); if( all ) for( long q : c ) all &= m[ o.a ].count( q ) > 0;
        if( level < 2 || !all || o.c != 0 ) { raises( r, "add_to_row" ); break; }
        ok( r, "add_to_row" ); for( size_t i = 0; i < c.size(); ++i ) m[ o.a ][ c[ i ] ] += e[ i ]; break;
      }
      case SCIPY:
      {
        bool compressed = true; for( long i = 0; i < a->numRows(); ++i ) compressed &= a->numNonZeros( i ) == a->nonZeroCapacity( i );
        Unaccounted const scope;
        Result r = call( w, "to_scipy" );
        if( m.empty() || !compressed ) { MC_CHECK( r.is( "RuntimeError" ), "to_scipy of a matrix that is empty or not compressed" ); break; }
        ok( r, "to_scipy" );
        Result d = call( r.v, "toarray" ); ok( d, "toarray" );
        Py_buffer b; MC_CHECK( PyObject_GetBuffer( d.v, &b, PyBUF_FULL_RO ) == 0 && b.ndim == 2 && b.shape[ 0 ] == Py_ssize_t( m.size() ) && b.shape[ 1 ] == nc, "shape of the scipy matrix" );
        long nnz = 0;
        for( long i = 0; i < long( m.size() ); ++i ) for( long j = 0; j < nc; ++j )
          { auto const it = m[ i ].find( j ); nnz += it != m[ i ].end(); MC_EQ( *reinterpret_cast< T const * >( static_cast< char const * >( b.buf ) + i * b.strides[ 0 ] + j * b.strides[ 1 ] ), T( it == m[ i ].end() ? 0 : it->second ), "scipy entry " << i << "," << j ); }
        PyBuffer_Release( &b );
        Ref data( attr( r.v, "data" ) ); sameRow( data, a->getEntries( 0 ).begin(), nnz, level >= 1, "scipy data" );
        data = Ref();
        for( char const * n : { "data", "indices", "indptr" } )
        {
          // SciPy keeps some memory for itself, so that what is released is judged by the references to the arrays it was given.
          Ref x( attr( r.v, n ) ), root( x );
          for( Ref b( attr( root, "base" ) ); b && b.p != Py_None && PyObject_HasAttrString( b, "base" ); b = Ref( attr( root, "base" ) ) ) root = b;
          MC_EQ( long( Py_REFCNT( root.p ) ), root.p == x.p ? 3l : 2l, "references to the array that holds the " << n << " of the scipy matrix" );
        }
        d = Result(); r = Result(); PyGC_Collect();
        break;
      }
      case WRITE:
      {
        Result v = call( w, "get_entries", num( 0 ) ); ok( v, "get_entries" );
        int const rc = PyObject_SetItem( v.v, num( 0 ), num( 7 ) );
        Result s = take( rc == 0 ? Py_NewRef( Py_None ) : nullptr, "assignment" );
        if( level < 1 ) { MC_CHECK( s.is( "ValueError" ), "assignment through a read-only view" ); break; }
        ok( s, "assignment" ); m[ 0 ].begin()->second = 7; break;
      }
      case CPP_INSERT: a->insertNonZero( 0, 1, T( 6 ) ); m[ 0 ].emplace( 1, 6 ); break;
      case WRAP: w = Ref( LvArray::python::create( *a ) ); level = 0; break;
    }
  }
  void check() const
  {
    commonChecks( w, level, Dtype< T >::name() );
    Result r = call( w, "num_rows" ); ok( r, "num_rows" ); MC_EQ( asLong( r.v ), long( m.size() ), "num_rows" );
    r = call( w, "num_columns" ); ok( r, "num_columns" ); MC_EQ( asLong( r.v ), nc, "num_columns" );
    for( int i = -1; i <= int( m.size() ); ++i )
    {
      Result c = call( w, "get_columns", num( i ) ), e = call( w, "get_entries", num( i ) );
      if( !row( i ) ) { raises( c, "get_columns" ); raises( e, "get_entries" ); continue; }
      ok( c, "get_columns" ); ok( e, "get_entries" );
      MC_EQ( long( a->numNonZeros( i ) ), long( m[ i ].size() ), "entries of row " << i );
      size_t k = 0; for( auto const & q : m[ i ] ) { MC_EQ( long( a->getColumns( i )[ k ] ), q.first, "column " << k << " of row " << i ); MC_EQ( a->getEntries( i )[ k ], T( q.second ), "entry " << k << " of row " << i ); ++k; }
      sameRow< COL >( c.v, a->getColumns( i ).begin(), long( m[ i ].size() ), false, "columns" );
      sameRow< T >( e.v, a->getEntries( i ).begin(), long( m[ i ].size() ), level >= 1, "entries" );
    }
  }
  void key( mc::Key & k ) const
  { k.add( level ); k.add( nc ); for( size_t i = 0; i < m.size(); ++i ) { k.add( -1l ); k.add( long( a->nonZeroCapacity( i ) ) ); for( auto const & q : m[ i ] ) { k.add( q.first ); k.add( q.second ); } } }
};
MC_JOB( "matrix of double shared with Python" ) { init(); exec( "import scipy.sparse" ); mc::exploreHistories< CrsSys< double, int, std::ptrdiff_t > >( { .depth = mc::thorough() ? 4 : 3, .noMerge = 1, .leakCheck = true, .leakRuns = 24 } ); }
MC_JOB( "matrix of int shared with Python" ) { init(); exec( "import scipy.sparse" ); mc::exploreHistories< CrsSys< int, short, int > >( { .depth = mc::thorough() ? 4 : 2, .noMerge = 1, .leakCheck = true, .leakRuns = 24 } ); }
#endif
MC_MAIN
