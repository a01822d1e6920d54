/* What the bindings accept and refuse: every argument of a pool for every parameter, objects that wrap nothing,
   conversions of scalars and strings, callbacks and references. */
#include "py.hpp"
#ifndef PART
#define PART 0
#endif
using namespace py;
template< typename T > using Buf = LvArray::MallocBuffer< T >;

/* ------------------------------------------------------------------ contents of a container, to compare before and after */
template< typename T, int N, typename P, typename I >
std::vector< double > contents( LvArray::Array< T, N, P, I, Buf > & a )
{ std::vector< double > r; for( int d = 0; d < N; ++d ) r.push_back( double( a.size( d ) ) ); r.push_back( a.getSingleParameterResizeIndex() ); for( long i = 0; i < long( a.size() ); ++i ) r.push_back( double( a.data()[ i ] ) ); return r; }
template< typename T, typename I >
std::vector< double > contents( LvArray::SortedArray< T, I, Buf > & a ) { std::vector< double > r; for( long i = 0; i < long( a.size() ); ++i ) r.push_back( double( a[ i ] ) ); return r; }
template< typename A >
std::vector< double > rows( A & a ) { std::vector< double > r; for( long i = 0; i < long( a.size() ); ++i ) { r.push_back( -1000 ); for( long j = 0; j < long( a[ i ].size() ); ++j ) r.push_back( double( a[ i ][ j ] ) ); } return r; }
template< typename T, typename I > std::vector< double > contents( LvArray::ArrayOfArrays< T, I, Buf > & a ) { return rows( a ); }
template< typename T, typename I > std::vector< double > contents( LvArray::ArrayOfSets< T, I, Buf > & a ) { return rows( a ); }
template< typename T, typename C, typename I >
std::vector< double > contents( LvArray::CRSMatrix< T, C, I, Buf > & a )
{ std::vector< double > r; r.push_back( double( a.numColumns() ) ); for( long i = 0; i < long( a.numRows() ); ++i ) { r.push_back( -1000 ); for( long j = 0; j < long( a.numNonZeros( i ) ); ++j ) { r.push_back( double( a.getColumns( i )[ j ] ) ); r.push_back( double( a.getEntries( i )[ j ] ) ); } } return r; }

/* The fingerprints are compared outside of the accounted region. */
template< typename A, typename F >
Result guarded( A & a, char const * what, F && f )
{
  std::vector< double > const before = contents( a );
  Result r = f();
  if( r.raised ) MC_CHECK( contents( a ) == before, what << " raised " << r.type << " but changed the container" );
  return r;
}

#if PART == 0 || PART >= 3
/* ------------------------------------------------------------------ every values argument */
template< typename T > struct Caller
{
  std::string const & arg; Verdict v; std::vector< T > x;
  Caller( std::string const & s ): arg( s ), v( acceptable( Dtype< T >::name(), s ) ) { if( v != Verdict::MUST_NOT ) x = valuesOf< T >( s ); }
  /* True if the values were accepted. */
  bool judge( Result const & r, char const * what ) const
  {
    if( v == Verdict::MUST_NOT ) { MC_CHECK( r.raised, what << " accepted " << arg << " for " << Dtype< T >::name() ); return false; }
    if( v == Verdict::MUST ) MC_CHECK( !r.raised, what << " refused " << arg << " for " << Dtype< T >::name() << " with " << r.type );
    mc::outcome( std::string( what ) + ( r.raised ? " refused" : " accepted" ) );
    return !r.raised;
  }
};
inline std::string pickArg( mc::Chooser & c ) { return valueArgs()[ c.choose( int( valueArgs().size() ), "argument" ) ]; }

template< typename T >
void sortedValues()
{
  mc::enumerate( []( mc::Chooser & c ) {
    std::string const arg = pickArg( c ); bool const ins = c.flag( "insert" );
    LvArray::SortedArray< T, int, Buf > a; a.insert( T( 1 ) ); a.insert( T( 4 ) );
    Ref w( LvArray::python::create( a ) ); ok( call( w, "set_access_level", num( 2 ) ), "set_access_level" );
    Caller< T > k( arg );
    Result r = guarded( a, arg.c_str(), [&] { return call( w, ins ? "insert" : "remove", value( arg ) ); } );
    if( !k.judge( r, ins ? "insert" : "remove" ) ) return;
    std::set< T > m = { T( 1 ), T( 4 ) }; long n = 0;
    for( T const & q : k.x ) n += ins ? long( m.insert( q ).second ) : long( m.erase( q ) );
    MC_EQ( asLong( r.v ), n, "number of values changed by " << arg );
    MC_CHECK( contents( a ) == std::vector< double >( m.begin(), m.end() ), "values after " << arg );
  }, true );
}
template< typename T >
void aoaValues()
{
  mc::enumerate( []( mc::Chooser & c ) {
    std::string const arg = pickArg( c ); int const where = c.choose( 5, "where" );
    LvArray::ArrayOfArrays< T, int, Buf > a; T const init[] = { T( 1 ), T( 4 ) }; a.appendArray( init, init + 2 );
    Ref w( LvArray::python::create( a ) ); ok( call( w, "set_access_level", num( 2 ) ), "set_access_level" );
    Caller< T > k( arg );
    Result r = guarded( a, arg.c_str(), [&] { return where < 2 ? call( w, "insert", num( where ), value( arg ) ) : call( w, "insert_into", num( 0 ), num( where - 2 ), value( arg ) ); } );
    if( !k.judge( r, "insertion" ) ) return;
    std::vector< std::vector< T > > m = { { T( 1 ), T( 4 ) } };
    if( where < 2 ) m.insert( m.begin() + where, k.x ); else m[ 0 ].insert( m[ 0 ].begin() + ( where - 2 ), k.x.begin(), k.x.end() );
    std::vector< double > e; for( auto const & q : m ) { e.push_back( -1000 ); e.insert( e.end(), q.begin(), q.end() ); }
    MC_CHECK( contents( a ) == e, "values after inserting " << arg );
  }, true );
}
template< typename T >
void aosValues()
{
  mc::enumerate( []( mc::Chooser & c ) {
    std::string const arg = pickArg( c ); bool const ins = c.flag( "insert" );
    LvArray::ArrayOfSets< T, int, Buf > a; a.appendSet(); a.insertIntoSet( 0, T( 1 ) ); a.insertIntoSet( 0, T( 4 ) ); a.appendSet();
    Ref w( LvArray::python::create( a ) ); ok( call( w, "set_access_level", num( 2 ) ), "set_access_level" );
    Caller< T > k( arg );
    Result r = guarded( a, arg.c_str(), [&] { return call( w, ins ? "insert_into" : "erase_from", num( 0 ), value( arg ) ); } );
    if( !k.judge( r, ins ? "insert_into" : "erase_from" ) ) return;
    std::set< T > m = { T( 1 ), T( 4 ) }; long n = 0;
    for( T const & q : k.x ) n += ins ? long( m.insert( q ).second ) : long( m.erase( q ) );
    MC_EQ( asLong( r.v ), n, "number of values changed by " << arg );
    std::vector< double > e = { -1000 }; e.insert( e.end(), m.begin(), m.end() ); e.push_back( -1000 );
    MC_CHECK( contents( a ) == e, "values after " << arg );
  }, true );
}
inline std::string asArray( size_t n, std::string const & dtype, std::string const & expr ) { return "np.array( [ " + expr + " for i in range( " + std::to_string( n ) + " ) ], dtype=" + dtype + " )"; }
/* The columns from the pool with matching entries, and the entries from the pool with matching columns. */
template< typename T, typename COL >
void crsValues()
{
  mc::enumerate( []( mc::Chooser & c ) {
    std::string const arg = pickArg( c ); int const op = c.choose( 5, "operation" );
    LvArray::CRSMatrix< T, COL, int, Buf > a( 2, 5 );
    std::map< long, T > m;
    for( long q : { 0, 1, 2, 3 } ) if( op >= 2 || q == 1 ) { a.insertNonZero( 0, COL( q ), T( 1 ) ); m[ q ] = T( 1 ); }
    Ref w( LvArray::python::create( a ) ); ok( call( w, "set_access_level", num( 2 ) ), "set_access_level" );
    auto same = [&] { std::vector< double > e = { 5, -1000 }; for( auto const & q : m ) { e.push_back( double( q.first ) ); e.push_back( double( q.second ) ); } e.push_back( -1000 ); MC_CHECK( contents( a ) == e, "matrix after " << arg ); };
    if( op == 1 || op == 4 )      // entries
    {
      Caller< T > k( arg ); std::string const cols = asArray( k.x.size(), Dtype< COL >::name(), "i" );
      Result r = guarded( a, arg.c_str(), [&] { return call( w, op == 1 ? "insert_nonzeros" : "add_to_row", num( 0 ), value( cols ), value( arg ) ); } );
      if( !k.judge( r, "entries" ) ) return;
      long n = 0;
      for( size_t i = 0; i < k.x.size(); ++i ) if( op == 1 ) n += m.emplace( long( i ), k.x[ i ] ).second; else m[ long( i ) ] += k.x[ i ];
      if( op == 1 ) MC_EQ( asLong( r.v ), n, "number of entries inserted" );
      same(); return;
    }
    Caller< COL > k( arg ); std::string const ents = asArray( k.x.size(), Dtype< T >::name(), "i + 5" );
    Result r = guarded( a, arg.c_str(), [&] { return op == 2 ? call( w, "remove_nonzeros", num( 0 ), value( arg ) ) : call( w, op == 0 ? "insert_nonzeros" : "add_to_row", num( 0 ), value( arg ), value( ents ) ); } );
    if( k.v != Verdict::MUST_NOT && !( std::is_sorted( k.x.begin(), k.x.end() ) && std::adjacent_find( k.x.begin(), k.x.end() ) == k.x.end() ) ) k.v = op == 0 && std::set< COL >( k.x.begin(), k.x.end() ).size() != k.x.size() ? Verdict::MUST_NOT : op == 3 ? k.v : Verdict::MAY;
    for( COL q : k.x ) if( k.v != Verdict::MUST_NOT && ( q < 0 || q >= 5 ) ) k.v = op == 0 ? Verdict::MUST_NOT : op == 2 ? Verdict::MAY : k.v;
    if( k.v != Verdict::MUST_NOT && op == 3 ) for( COL q : k.x ) if( m.count( q ) == 0 ) k.v = Verdict::MUST_NOT;
    if( !k.judge( r, "columns" ) ) return;
    long n = 0; int i = 5;
    for( COL q : k.x ) { if( op == 0 ) n += m.emplace( long( q ), T( i ) ).second; else if( op == 2 ) n += long( m.erase( long( q ) ) ); else m[ long( q ) ] += T( i ); ++i; }
    if( op != 3 ) MC_EQ( asLong( r.v ), n, "number of entries changed" );
    same();
  }, true );
}
template< typename I >
void dimensionValues()
{
  mc::enumerate( []( mc::Chooser & c ) {
    std::string const arg = pickArg( c );
    LvArray::Array< int, 2, camp::idx_seq< 0, 1 >, I, Buf > a( 2, 2 );
    Ref w( LvArray::python::create( a ) ); ok( call( w, "set_access_level", num( 2 ) ), "set_access_level" );
    Caller< long long > k( arg );
    if( k.v != Verdict::MUST_NOT ) { if( k.x.size() != 2 ) k.v = Verdict::MUST_NOT; for( auto q : k.x ) if( q < 0 ) k.v = Verdict::MUST_NOT; }
    Result r = guarded( a, arg.c_str(), [&] { return call( w, "resize_all", value( arg ) ); } );
    if( !k.judge( r, "resize_all" ) ) return;
    MC_EQ( long( a.size( 0 ) ), long( k.x[ 0 ] ), "extent 0" ); MC_EQ( long( a.size( 1 ) ), long( k.x[ 1 ] ), "extent 1" );
  }, true );
}
#define ALL_TYPES( X ) X( signed char ) X( unsigned char ) X( short ) X( unsigned short ) X( int ) X( unsigned ) X( long ) X( unsigned long ) X( long long ) X( unsigned long long ) X( float ) X( double )
#if PART == 0
MC_JOB( "values given to sorted arrays of every type" ) { init(); 
#define X( T ) sortedValues< T >();
ALL_TYPES( X )
#undef X
}
#endif
#if PART == 3
MC_JOB( "values given to arrays of arrays of every type" ) { init();
#define X( T ) aoaValues< T >();
ALL_TYPES( X )
#undef X
}
#endif
#if PART == 5
MC_JOB( "values given to arrays of sets of every type" ) { init();
#define X( T ) aosValues< T >();
ALL_TYPES( X )
#undef X
}
#endif
#if PART == 4
MC_JOB( "columns and entries given to matrices" ) { init(); crsValues< double, int >(); crsValues< float, long >(); crsValues< int, short >(); crsValues< long, unsigned >(); crsValues< short, long long >(); }
MC_JOB( "dimensions given to arrays" ) { init(); dimensionValues< std::ptrdiff_t >(); dimensionValues< int >(); }
#endif
#endif

#if PART == 1
/* ------------------------------------------------------------------ malformed argument lists, objects that wrap nothing */
inline std::vector< std::string > const & pool()
{
  static std::vector< std::string > const v = { "0", "1", "2", "-1", "-3", "2**31", "-2**63", "2**70", "True", "1.5", "None", "'a'", "[]", "np.array( [ 1, 2 ] )", "np.array( [ 1, 2 ], dtype=np.intc )", "np.array( [ 0.5 ] )", "np.long( 1 )", "object()" };
  return v;
}
template< typename A > struct Methods;
struct Method { char const * name; int maxArgs; bool sizes; };      // sizes: a number makes the container that big
template< typename T, int N, typename P, typename I > struct Methods< LvArray::Array< T, N, P, I, Buf > >
{ static std::vector< Method > list() { return { { "set_single_parameter_resize_index", 1, false }, { "resize", 1, true }, { "resize_all", 1, true }, { "to_numpy", 1, false }, { "get_single_parameter_resize_index", 1, false } }; } };
template< typename T, typename I > struct Methods< LvArray::SortedArray< T, I, Buf > >
{ static std::vector< Method > list() { return { { "insert", 1, false }, { "remove", 1, false }, { "to_numpy", 1, false } }; } };
template< typename T, typename I > struct Methods< LvArray::ArrayOfArrays< T, I, Buf > >
{ static std::vector< Method > list() { return { { "insert", 2, false }, { "insert_into", 3, false }, { "erase_from", 2, false } }; } };
template< typename T, typename I > struct Methods< LvArray::ArrayOfSets< T, I, Buf > >
{ static std::vector< Method > list() { return { { "insert", 2, true }, { "insert_into", 2, false }, { "erase_from", 2, false } }; } };
template< typename T, typename C, typename I > struct Methods< LvArray::CRSMatrix< T, C, I, Buf > >
{ static std::vector< Method > list() { return { { "get_columns", 1, false }, { "get_entries", 1, false }, { "resize", 3, true }, { "insert_nonzeros", 3, false }, { "remove_nonzeros", 2, false }, { "add_to_row", 3, false }, { "compress", 1, false }, { "num_rows", 1, false }, { "num_columns", 1, false } }; } };

template< typename A > struct Make;
template< typename T, int N, typename P, typename I > struct Make< LvArray::Array< T, N, P, I, Buf > > { static auto make() { auto a = std::make_unique< LvArray::Array< T, N, P, I, Buf > >(); std::array< I, N > s; s.fill( 2 ); a->resize( N, s.data() ); return a; } };
template< typename T, typename I > struct Make< LvArray::SortedArray< T, I, Buf > > { static auto make() { auto a = std::make_unique< LvArray::SortedArray< T, I, Buf > >(); a->insert( T( 1 ) ); return a; } };
template< typename T, typename I > struct Make< LvArray::ArrayOfArrays< T, I, Buf > > { static auto make() { auto a = std::make_unique< LvArray::ArrayOfArrays< T, I, Buf > >(); T const x[] = { T( 1 ), T( 2 ) }; a->appendArray( x, x + 2 ); a->appendArray( x, x + 1 ); return a; } };
template< typename T, typename I > struct Make< LvArray::ArrayOfSets< T, I, Buf > > { static auto make() { auto a = std::make_unique< LvArray::ArrayOfSets< T, I, Buf > >(); a->appendSet(); a->appendSet(); a->insertIntoSet( 0, T( 1 ) ); return a; } };
template< typename T, typename C, typename I > struct Make< LvArray::CRSMatrix< T, C, I, Buf > > { static auto make() { auto a = std::make_unique< LvArray::CRSMatrix< T, C, I, Buf > >( 2, 3 ); a->insertNonZero( 0, 1, T( 1 ) ); return a; } };

/* Every call with 0 .. max + 1 arguments of the pool, at every access level. */
template< typename A >
void malformed()
{
  static std::vector< Method > const ms = Methods< A >::list();
  mc::enumerate( []( mc::Chooser & c ) {
    Method const m = ms[ c.choose( int( ms.size() ), "method" ) ];
    int const n = c.choose( m.maxArgs + 2, "number of arguments" );
    int const level = c.choose( 3, "access level" );
    // with too many arguments or too low a level the values do not matter so much
    std::vector< int > pick; bool huge = false;
    for( int i = 0; i < n; ++i )
    {
      int const k = ( n > m.maxArgs || level < 2 ) ? 2 * c.choose( 2, "argument" ) : c.choose( int( pool().size() ), "argument" );
      pick.push_back( k ); huge = huge || ( m.sizes && ( pool()[ k ] == "2**31" ) );
    }
    if( huge ) return;      // not a size that this machine is asked for
    auto a = Make< A >::make();
    Ref w( LvArray::python::create( *a ) ); ok( call( w, "set_access_level", num( level ) ), "set_access_level" );
    Ref t( PyTuple_New( n ) );
    for( int i = 0; i < n; ++i ) PyTuple_SET_ITEM( t.p, i, Py_NewRef( value( pool()[ pick[ i ] ] ) ) );
    Result r = guarded( *a, m.name, [&] { return callTuple( w, m.name, t ); } );
    if( n > m.maxArgs && std::strcmp( m.name, "to_numpy" ) != 0 ) MC_CHECK( level < 2 ? r.raised : r.is( "TypeError" ), m.name << " with too many arguments" );
    // booleans and NumPy's integers count as integers; nothing else is turned into one
    mc::outcome( std::string( m.name ) + " " + r.type );
    (void) contents( *a );
  }, true );
}
MC_JOB( "malformed calls of an array" ) { init(); malformed< LvArray::Array< int, 2, camp::idx_seq< 0, 1 >, std::ptrdiff_t, Buf > >(); }
MC_JOB( "malformed calls of a sorted array" ) { init(); malformed< LvArray::SortedArray< int, std::ptrdiff_t, Buf > >(); }
MC_JOB( "malformed calls of an array of arrays" ) { init(); malformed< LvArray::ArrayOfArrays< int, std::ptrdiff_t, Buf > >(); }
MC_JOB( "malformed calls of an array of arrays with a narrow index" ) { init(); malformed< LvArray::ArrayOfArrays< long, int, Buf > >(); }
MC_JOB( "malformed calls of an array of sets" ) { init(); malformed< LvArray::ArrayOfSets< int, std::ptrdiff_t, Buf > >(); }
MC_JOB( "malformed calls of an array of sets with a narrow index" ) { init(); malformed< LvArray::ArrayOfSets< long, int, Buf > >(); }
MC_JOB( "malformed calls of a matrix" ) { init(); malformed< LvArray::CRSMatrix< int, int, std::ptrdiff_t, Buf > >(); }
MC_JOB( "malformed calls of a matrix with a narrow index" ) { init(); malformed< LvArray::CRSMatrix< double, long, int, Buf > >(); }

/* Subscripts by every object of the pool. */
template< typename A >
void subscripts()
{
  mc::enumerate( []( mc::Chooser & c ) {
    int const k = c.choose( int( pool().size() ), "subscript" ), op = c.choose( 3, "operation" ), level = c.choose( 3, "access level" );
    auto a = Make< A >::make();
    Ref w( LvArray::python::create( *a ) ); ok( call( w, "set_access_level", num( level ) ), "set_access_level" );
    Result r = guarded( *a, "subscript", [&] {
      if( op == 0 ) return take( PyObject_GetItem( w, value( pool()[ k ] ) ), "subscript" );
      int const rc = op == 1 ? PyObject_DelItem( w, value( pool()[ k ] ) ) : PyObject_SetItem( w, value( pool()[ k ] ), value( "np.array( [ 1 ], dtype=np.intc )" ) );
      return take( rc == 0 ? Py_NewRef( Py_None ) : nullptr, "subscript" ); } );
    bool const in = evalLong( "1 if ( lambda x: isinstance( x, ( int, np.integer ) ) and -2 <= x < 2 )( " + pool()[ k ] + " ) else 0" );
    bool const good = in && ( op == 0 || ( op == 1 && level == 2 ) );
    MC_EQ( !r.raised, good, "subscript " << pool()[ k ] << ( op == 0 ? " read" : op == 1 ? " deleted" : " assigned" ) );
  }, true );
}
MC_JOB( "subscripts of arrays of arrays and of sets" ) { init(); subscripts< LvArray::ArrayOfArrays< int, std::ptrdiff_t, Buf > >(); subscripts< LvArray::ArrayOfArrays< int, int, Buf > >(); subscripts< LvArray::ArrayOfSets< int, std::ptrdiff_t, Buf > >(); subscripts< LvArray::ArrayOfSets< int, int, Buf > >(); }

/* Access levels by every object of the pool. */
template< typename A >
void levels()
{
  mc::enumerate( []( mc::Chooser & c ) {
    int const n = c.choose( 4, "number of arguments" );
    std::vector< int > pick; for( int i = 0; i < n; ++i ) pick.push_back( n == 3 ? 0 : c.choose( int( pool().size() ), "argument" ) );
    auto a = Make< A >::make();
    Ref w( LvArray::python::create( *a ) ); ok( call( w, "set_access_level", num( 1 ) ), "set_access_level" );
    Ref t( PyTuple_New( n ) );
    for( int i = 0; i < n; ++i ) PyTuple_SET_ITEM( t.p, i, Py_NewRef( value( pool()[ pick[ i ] ] ) ) );
    Result r = guarded( *a, "set_access_level", [&] { return callTuple( w, "set_access_level", t ); } );
    auto isInt = [&]( int k ) { return evalLong( "1 if ( lambda x: isinstance( x, ( int, np.integer ) ) and -2**31 <= x < 2**31 )( " + pool()[ k ] + " ) else 0" ) != 0; };
    bool good = n == 1 || n == 2; for( int k : pick ) good = good && isInt( k );
    if( !good ) { MC_CHECK( r.raised, "set_access_level with arguments that aren't one or two integers" ); }
    Result l = call( w, "get_access_level" ); ok( l, "get_access_level" );
    if( r.raised ) MC_EQ( asLong( l.v ), 1l, "access level after a call that failed" );
    else MC_EQ( asLong( l.v ), evalLong( "int( " + pool()[ pick[ 0 ] ] + " )" ), "access level" );
    if( n == 1 && good && evalLong( "1 if " + pool()[ pick[ 0 ] ] + " in ( 0, 1, 2 ) else 0" ) ) ok( r, "set_access_level" );
    Result x = call( w, "get_access_level", num( 1 ) ); MC_CHECK( x.is( "TypeError" ), "get_access_level with an argument" );
  }, true );
}
MC_JOB( "access levels" ) { init(); levels< LvArray::Array< int, 2, camp::idx_seq< 1, 0 >, int, Buf > >(); levels< LvArray::SortedArray< int, int, Buf > >(); levels< LvArray::ArrayOfArrays< int, int, Buf > >(); levels< LvArray::ArrayOfSets< int, int, Buf > >(); levels< LvArray::CRSMatrix< int, int, int, Buf > >(); }

/* Objects made by calling the types wrap nothing: whatever is done to them raises. */
MC_JOB( "objects that wrap nothing" )
{
  init();
  mc::enumerate( []( mc::Chooser & c ) {
    static char const * const types[] = { "Array", "SortedArray", "ArrayOfArrays", "ArrayOfSets", "CRSMatrix" };
    int const k = c.choose( 5, "type" );
    PyObject * const type = value( std::string( "pylvarray." ) + types[ k ] );
    Result o = take( PyObject_CallNoArgs( type ), "constructing" );
    if( o.raised ) return;
    static std::vector< Method > const ms[] = { Methods< LvArray::Array< int, 2, camp::idx_seq< 0, 1 >, int, Buf > >::list(), Methods< LvArray::SortedArray< int, int, Buf > >::list(), Methods< LvArray::ArrayOfArrays< int, int, Buf > >::list(), Methods< LvArray::ArrayOfSets< int, int, Buf > >::list(), Methods< LvArray::CRSMatrix< int, int, int, Buf > >::list() };
    int const op = c.choose( int( ms[ k ].size() ) + 8, "operation" );
    Ref w = o.v; int const nm = int( ms[ k ].size() );
    if( op < nm )
    {
      int const n = c.choose( ms[ k ][ op ].maxArgs + 1, "number of arguments" );
      Ref t( PyTuple_New( n ) );
      for( int i = 0; i < n; ++i ) PyTuple_SET_ITEM( t.p, i, Py_NewRef( value( pool()[ c.choose( int( pool().size() ), "argument" ) ] ) ) );
      raises( callTuple( w, ms[ k ][ op ].name, t ), ms[ k ][ op ].name );
    }
    else switch( op - nm )
    {
      case 0: raises( call( w, "get_access_level" ), "get_access_level" ); break;
      case 1: raises( call( w, "set_access_level", num( c.choose( 3, "level" ) ) ), "set_access_level" ); break;
      case 2: raises( take( PyObject_Repr( w ), "repr" ), "repr" ); break;
      case 3: raises( take( PyObject_GetItem( w, num( 0 ) ), "subscript" ), "subscript" ); break;
      case 4: raises( take( PyObject_DelItem( w, num( 0 ) ) == 0 ? Py_NewRef( Py_None ) : nullptr, "del" ), "del" ); break;
      case 5: { Py_ssize_t const n = PyObject_Length( w ); raises( take( n >= 0 ? Py_NewRef( Py_None ) : nullptr, "len()" ), "len()" ); break; }
      case 6: if( k == 4 ) raises( call( w, "to_scipy" ), "to_scipy" ); break;
      case 7: { Result r = take( attr( w, "dtype" ), "dtype" ); (void) r; break; }
    }
  }, true );
}
#endif

#if PART == 2
#include <climits>
/* ------------------------------------------------------------------ scalars, arrays and strings of every type */
template< typename T, bool CONST >
void scalar()
{
  mc::enumerate( []( mc::Chooser & c ) {
    T v = c.flag( "maximum" ) ? std::numeric_limits< T >::max() : std::numeric_limits< T >::lowest();
    std::conditional_t< CONST, T const, T > & ref = v;
    Result r = take( LvArray::python::create( ref ), "create" );
    if( std::is_same< T, bool >::value ) { MC_CHECK( r.is( "TypeError" ), "a type that NumPy has no counterpart for" ); return; }
    ok( r, "create" ); sameRow< T >( r.v, &v, 1, !CONST, "scalar" );
    MC_EQ( long( Py_REFCNT( r.v.p ) ), 1l, "references to a new scalar" );
    if( CONST ) return;
    MC_CHECK( PyObject_SetItem( r.v, num( 0 ), num( 3 ) ) == 0, "assignment" ); MC_CHECK( v == T( 3 ), "scalar assigned from Python" );
    v = T( 1 ); Ref x( PyObject_GetItem( r.v, num( 0 ) ) ); MC_CHECK( x && PyObject_RichCompareBool( x, num( 1 ), Py_EQ ) == 1, "scalar assigned from C++" );
  }, true );
}
template< typename T >
void arrayOf()
{
  mc::enumerate( []( mc::Chooser & c ) {
    int const n = c.choose( 3, "size" ), level = c.choose( 3, "level" );
    LvArray::Array< T, 1, camp::idx_seq< 0 >, int, Buf > a( n ); for( int i = 0; i < n; ++i ) a[ i ] = T( i + 1 );
    Result w = take( LvArray::python::create( a ), "create" );
    if( std::is_same< T, bool >::value ) { MC_CHECK( w.is( "TypeError" ), "a type that NumPy has no counterpart for" ); return; }
    ok( w, "create" ); ok( call( w.v, "set_access_level", num( level ) ), "set_access_level" );
    Result r = call( w.v, "to_numpy" ); ok( r, "to_numpy" ); sameRow< T >( r.v, a.data(), n, level >= 1, "array" );
    Ref d( attr( w.v, "dtype" ) ); MC_CHECK( d.p == value( Dtype< T >::name() ), "dtype" );
  }, true );
}
#define EVERY( X ) X( char ) X( signed char ) X( unsigned char ) X( short ) X( unsigned short ) X( int ) X( unsigned ) X( long ) X( unsigned long ) X( long long ) X( unsigned long long ) X( float ) X( double ) X( long double ) X( bool )
MC_JOB( "scalars of every type" ) { init();
#define X( T ) scalar< T, false >(); scalar< T, true >();
EVERY( X )
#undef X
}
MC_JOB( "arrays of every type" ) { init();
#define X( T ) arrayOf< T >();
EVERY( X )
#undef X
}
/* From NumPy's type numbers back to types, against the numbers NumPy itself gives. */
MC_JOB( "types of NumPy's type numbers" )
{
  init();
  mc::g().bound = "every type number from -3 to 300";
  struct Known { long num; std::type_index type; std::string name; PyObject * dtype; };
  static std::vector< Known > known;
#define X( T ) if( !std::is_same< T, bool >::value && !std::is_same< T, char >::value ) { std::string const n = Dtype< T >::name(); Ref num( PyObject_GetAttrString( value( "np.dtype(" + n + ")" ), "num" ) ); known.push_back( { PyLong_AsLong( num ), typeid( T ), "", value( n ) } ); }
  EVERY( X )
#undef X
  MC_EQ( known.size(), size_t( 13 ), "types with a counterpart" );
  mc::enumerate( []( mc::Chooser & c ) {
    int const n = c.range( -3, 300, "number" );
    Known const * k = nullptr;
    for( Known const & x : known ) if( x.num == n ) k = &x;
    std::type_index const got = LvArray::python::getTypeIndexFromNumPy( n );
    MC_CHECK( got == ( k ? k->type : std::type_index( typeid( nullptr ) ) ), "the type of number " << n << " is " << got.name() );
    if( k ) { Result r = take( LvArray::python::getNumPyTypeObject( got ), "type object" ); ok( r, "type object" ); MC_CHECK( r.v.p == k->dtype, "type object of number " << n ); }
    static std::map< std::string, int > names;
    std::string const name = LvArray::python::getNumPyTypeName( n );
    MC_CHECK( !name.empty(), "name of number " << n );
    if( k ) MC_EQ( names.emplace( name, n ).first->second, n, "number with the name " << name );
  }, true );
}
/* The other containers of a type without a counterpart. */
MC_JOB( "containers of a type without a counterpart" )
{
  init();
  mc::enumerate( []( mc::Chooser & c ) {
    Result r;
    switch( c.choose( 4, "container" ) )
    {
      case 0: { LvArray::SortedArray< bool, int, Buf > a; r = take( LvArray::python::create( a ), "create" ); break; }
      case 1: { LvArray::ArrayOfArrays< bool, int, Buf > a; r = take( LvArray::python::create( a ), "create" ); break; }
      case 2: { LvArray::ArrayOfSets< bool, int, Buf > a; r = take( LvArray::python::create( a ), "create" ); break; }
      case 3: { LvArray::CRSMatrix< bool, int, int, Buf > a; r = take( LvArray::python::create( a ), "create" ); break; }
    }
    MC_CHECK( r.is( "TypeError" ), "a type that NumPy has no counterpart for" );
  }, true );
}

inline std::vector< std::string > const & symbols() { static std::vector< std::string > const v = { "a", std::string( 1, '\0' ), "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\x80", "\xff", "\xc3", "\xed\xa0\x80" }; return v; }
/* RFC 3629, written independently of the code. */
inline bool utf8( std::string const & s )
{
  for( size_t i = 0; i < s.size(); )
  {
    unsigned const b = (unsigned char) s[ i ]; int const n = b < 0x80 ? 0 : b >= 0xc2 && b < 0xe0 ? 1 : b >= 0xe0 && b < 0xf0 ? 2 : b >= 0xf0 && b < 0xf5 ? 3 : -1;
    if( n < 0 || i + n >= s.size() + ( n == 0 ) ) return false;
    unsigned cp = n == 0 ? b : b & ( 0x3f >> n );
    for( int k = 1; k <= n; ++k ) { unsigned const x = (unsigned char) s[ i + k ]; if( ( x & 0xc0 ) != 0x80 ) return false; cp = cp << 6 | ( x & 0x3f ); }
    if( n == 2 && ( cp < 0x800 || ( cp >= 0xd800 && cp < 0xe000 ) ) ) return false;
    if( n == 3 && ( cp < 0x10000 || cp > 0x10ffff ) ) return false;
    i += n + 1;
  }
  return true;
}
inline std::string pickString( mc::Chooser & c, int max ) { std::string s; int const n = c.choose( max + 1, "length" ); for( int i = 0; i < n; ++i ) s += symbols()[ c.choose( int( symbols().size() ), "symbol" ) ]; return s; }
inline void sameString( PyObject * o, std::string const & s )
{ Py_ssize_t n = 0; MC_CHECK( o && PyUnicode_Check( o ), "a string" ); char const * const p = PyUnicode_AsUTF8AndSize( o, &n ); MC_CHECK( p && std::string( p, size_t( n ) ) == s, "contents of a string" ); }
MC_JOB( "strings" )
{
  init();
  mc::enumerate( []( mc::Chooser & c ) {
    std::string const s = pickString( c, mc::thorough() ? 4 : 3 );
    Result r = take( LvArray::python::create( s ), "create" );
    if( !utf8( s ) ) { raises( r, "a string that isn't UTF-8" ); return; }
    ok( r, "create" ); sameString( r.v, s );
  }, true );
}
MC_JOB( "lists of strings" )
{
  init();
  mc::enumerate( []( mc::Chooser & c ) {
    int const form = c.choose( 2, "vector or array" ), n = c.choose( 4, "number" ); std::vector< std::string > v; bool good = true;
    for( int i = 0; i < n; ++i ) { v.push_back( n < 3 ? pickString( c, 1 ) : c.flag( "long" ) ? "a string that is longer than the ones before it" : c.flag( "bad" ) ? "\xff" : "" ); good = good && utf8( v.back() ); }
    Result r;
    if( form == 0 ) r = take( LvArray::python::create( v ), "create" );
    else { LvArray::Array< std::string, 1, camp::idx_seq< 0 >, int, Buf > a; for( auto const & s : v ) a.emplace_back( s ); Result w = take( LvArray::python::create( a ), "create" ); ok( w, "create" ); r = call( w.v, "to_numpy" ); }
    if( !good ) { raises( r, "a string that isn't UTF-8" ); return; }
    ok( r, "create" ); MC_CHECK( PyList_CheckExact( r.v ) && PyList_Size( r.v ) == n, "list of strings" );
    for( int i = 0; i < n; ++i ) sameString( PyList_GetItem( r.v, i ), v[ size_t( i ) ] );
  }, true );
}

/* ------------------------------------------------------------------ callbacks */
inline char const * const functions =
  "kept = []\n"
  "calls = []\n"
  "class Boom( Exception ): pass\n"
  "def f_pass( *a ): pass\n"
  "def f_value( *a ): return a\n"
  "def f_raise( *a ): raise Boom\n"
  "def f_keep( *a ): kept.append( a )\n"
  "def f_three( a, b, c ): pass\n"
  "def f_write( *a ):\n"
  "    for x in a:\n"
  "        if isinstance( x, np.ndarray ): x[ 0 ] = 7\n"
  "        elif isinstance( x, pylvarray.SortedArray ):\n"
  "            x.set_access_level( 2 ); x.insert( np.array( [ 9 ], dtype=np.intc ) )\n"
  "        else:\n"
  "            x.set_access_level( 1 ); x.to_numpy()[ 0 ] = 7\n";
struct Fn { char const * name; bool raisesAlways; };
MC_JOB( "callbacks" )
{
  init(); exec( functions );
  mc::enumerate( []( mc::Chooser & c ) {
    static char const * const names[] = { "f_pass", "f_value", "f_raise", "f_keep", "f_three", "f_write", "3", "f_pass if True else 0" };
    int const k = c.choose( 8, "function" ), form = c.choose( 5, "arguments" ), calls = 1 + c.choose( 2, "calls" ); bool const copied = c.flag( "copy" );
    PyObject * const f = value( names[ k ] );
    int x = 1; double y = 2; LvArray::Array< int, 1, camp::idx_seq< 0 >, int, Buf > a( 2 ); a[ 0 ] = 5; LvArray::SortedArray< int, int, Buf > s; s.insert( 4 );
    int const nArgs = form == 3 ? 3 : form == 4 ? 2 : 1;
    long const before = long( Py_REFCNT( f ) );
    {
      bool threw = false; char type[ 64 ] = "";
      auto run = [&]( auto & fn, auto & ... args ) {
        for( int i = 0; i < calls; ++i )
        {
          threw = false;
          try { fn( args ... ); } catch( LvArray::python::PythonError const & ) { threw = true; }
          Result r = take( PyErr_Occurred() ? nullptr : Py_NewRef( Py_None ), "callback" );
          MC_EQ( r.raised, threw, "a Python exception is set exactly when the C++ one was thrown" ); snprintf( type, sizeof( type ), "%s", r.type );
          bool const should = k == 2 || k == 6 || ( k == 4 && nArgs != 3 );
          MC_EQ( threw, should, "exception of " << names[ k ] << " with " << nArgs << " argument(s)" );
          if( k == 2 ) MC_CHECK( std::strcmp( type, "Boom" ) == 0, "the exception that the function raised, not " << type );
        }
      };
      auto start = [&]( auto fn, auto & ... args ) { if( copied ) { auto other = fn; run( other, args ... ); } else run( fn, args ... ); };
      using namespace LvArray::python;
      if( form == 0 ) { int & r = x; start( PythonFunction< int & >( f ), r ); }
      else if( form == 1 ) { auto & r = a; start( PythonFunction< decltype( a ) & >( f ), r ); }
      else if( form == 2 ) { auto & r = s; start( PythonFunction< decltype( s ) & >( f ), r ); }
      else if( form == 3 ) start( PythonFunction< int &, decltype( a ) &, decltype( s ) & >( f ), x, a, s );
      else start( PythonFunction< double &, int & >( f ), y, x );
    }
    MC_EQ( long( Py_REFCNT( f ) ), before, "references to the function" );
    if( k == 3 )
    {
      Ref kept( Py_NewRef( value( "kept" ) ) );
      MC_EQ( long( PyList_Size( kept ) ), long( calls ), "calls of the function" );
      for( int i = 0; i < calls; ++i ) { PyObject * const t = PyList_GetItem( kept, i ); MC_EQ( long( PyTuple_Size( t ) ), long( nArgs ), "arguments" ); for( int j = 0; j < nArgs; ++j ) MC_EQ( long( Py_REFCNT( PyTuple_GetItem( t, j ) ) ), 1l, "references to an argument that was kept" ); }
      PyList_SetSlice( kept, 0, PyList_Size( kept ), nullptr );
    }
    bool const w = k == 5; bool const hasX = form == 0 || form == 3 || form == 4, hasA = form == 1 || form == 3, hasS = form == 2 || form == 3;
    MC_EQ( x, w && hasX ? 7 : 1, "the scalar that the function was given" ); MC_EQ( y, w && form == 4 ? 7. : 2., "the scalar that the function was given" );
    MC_EQ( a[ 0 ], w && hasA ? 7 : 5, "the array that the function was given" ); MC_EQ( long( s.size() ), w && hasS ? 2l : 1l, "the sorted array that the function was given" );
  }, true );
}
/* An argument that cannot be converted. */
MC_JOB( "callbacks with arguments that have no counterpart" )
{
  init(); exec( functions );
  mc::enumerate( []( mc::Chooser & c ) {
    PyObject * const f = value( "f_pass" ); bool b = true; int x = 1; bool const second = c.flag( "second" ), first = c.flag( "first" ); if( !first && !second ) return;
    long const before = long( Py_REFCNT( f ) );
    {
      bool threw = false;
      try
      {
        if( first && second ) { LvArray::python::PythonFunction< bool &, bool & > g( f ); g( b, b ); }
        else if( first ) { LvArray::python::PythonFunction< bool &, int & > g( f ); g( b, x ); }
        else { LvArray::python::PythonFunction< int &, bool & > g( f ); g( x, b ); }
      }
      catch( LvArray::python::PythonError const & ) { threw = true; }
      MC_CHECK( threw, "an argument without a counterpart" );
      Result r = take( PyErr_Occurred() ? nullptr : Py_NewRef( Py_None ), "callback" ); MC_CHECK( r.is( "TypeError" ), "exception for an argument without a counterpart" );
    }
    MC_EQ( long( Py_REFCNT( f ) ), before, "references to the function" );
  }, true );
}

/* ------------------------------------------------------------------ the module, wrappers, references */
MC_JOB( "the module" )
{
  init();
  mc::enumerate( []( mc::Chooser & c ) {
    int const times = c.choose( 4, "times added" );
    PyObject * const p = value( "pylvarray" ); long const before = long( Py_REFCNT( p ) );
    {
      Ref m( PyModule_New( "host" ) );
      for( int i = 0; i < times; ++i )
      {
        MC_CHECK( LvArray::python::addPyLvArrayModule( m ), "adding the module" ); MC_CHECK( !PyErr_Occurred(), "no exception" );
        MC_EQ( long( Py_REFCNT( p ) ), before + 1, "references to the module while it is an attribute of another one" );
      }
      if( times ) { Ref a( attr( m, "pylvarray" ) ); MC_CHECK( a.p == p, "the module added" ); }
    }
    MC_EQ( long( Py_REFCNT( p ) ), before, "references to the module" );
    static char const * const names[] = { "READ_ONLY", "MODIFIABLE", "RESIZEABLE", "CPU" }; static long const values[] = { 0, 1, 2, long( LvArray::MemorySpace::host ) };
    for( int i = 0; i < 4; ++i ) { Ref v( attr( p, names[ i ] ) ); MC_CHECK( v && asLong( v ) == values[ i ], "constant " << names[ i ] ); }
  }, true );
}
/* Casting to a type, adding types to a module, and text and lists of text. */
MC_JOB( "casts, types and text" )
{
  init();
  exec( "class Base: pass\nclass Derived( Base ): pass\n"
        "class MetaRaise( type ):\n  def __instancecheck__( cls, o ): raise KeyError( 'no answer' )\n"
        "class Raises( metaclass=MetaRaise ): pass\n"
        "castable = [ 3, True, 'text', None, [ 1 ], Base(), Derived(), Derived ]\n"
        "castTo = [ int, bool, str, list, object, Base, Derived, Raises, type ]\n" );
  mc::enumerate( []( mc::Chooser & c ) {
    int const what = c.choose( 4, "what" );
    if( what == 0 )
    {
      Ref objs( Py_NewRef( value( "castable" ) ) ), types( Py_NewRef( value( "castTo" ) ) );
      int const i = c.choose( int( PyList_Size( objs ) ) + 1, "object" ), j = c.choose( int( PyList_Size( types ) ), "type" );
      PyObject * const o = i == PyList_Size( objs ) ? nullptr : PyList_GetItem( objs, i ); PyObject * const t = PyList_GetItem( types, j );
      int const want = o ? PyObject_IsInstance( o, t ) : 0; PyErr_Clear();
      long const ro = o ? long( Py_REFCNT( o ) ) : 0, rt = long( Py_REFCNT( t ) );
      PyObject * const got = LvArray::python::convert< PyObject >( o, reinterpret_cast< PyTypeObject * >( t ) );
      MC_CHECK( got == ( want == 1 ? o : nullptr ), "the object as the type" );
      Result r = take( PyErr_Occurred() ? nullptr : Py_NewRef( Py_None ), "cast" );
      MC_CHECK( want == 1 ? !r.raised : !o ? r.is( "RuntimeError" ) : want < 0 ? r.is( "KeyError" ) : r.is( "TypeError" ), "exception for a cast" );
      if( o ) MC_EQ( long( Py_REFCNT( o ) ), ro, "references to the object" );
      MC_EQ( long( Py_REFCNT( t ) ), rt, "references to the type" );
    }
    else if( what == 1 )
    {
      bool const isModule = c.flag( "a module" ); int const times = c.choose( 3, "times" );
      PyObject * const t = value( "Base" ); long const rt = long( Py_REFCNT( t ) );
      {
        Ref m( isModule ? PyModule_New( "host" ) : PyList_New( 0 ) );
        for( int i = 0; i < times; ++i )
        {
          bool const ok = LvArray::python::addTypeToModule( m, reinterpret_cast< PyTypeObject * >( t ), "Named" );
          MC_EQ( ok, isModule, "adding a type" ); MC_CHECK( isModule ? !PyErr_Occurred() : PyErr_Occurred() != nullptr, "exception" ); PyErr_Clear();
          MC_EQ( long( Py_REFCNT( t ) ), rt + isModule, "references to the type" );
          if( isModule ) { Ref a( attr( m, "Named" ) ); MC_CHECK( a.p == t, "the type added" ); }
        }
      }
      MC_EQ( long( Py_REFCNT( t ) ), rt, "references to the type" );
    }
    else
    {
      static std::string const texts[] = { "", "a", std::string( "nul\0inside", 10 ), "\xc3\xa9t\xc3\xa9", std::string( 300, 'x' ), "bad\xff" };
      int const n = what == 2 ? 1 : c.range( 0, mc::thorough() ? 4 : 3, "length" ); bool bad = false;
      std::vector< std::string > v; for( int i = 0; i < n; ++i ) { int const k = c.choose( 6, "text" ); bad = bad || k == 5; v.push_back( texts[ k ] ); }
      Ref o( what == 2 ? LvArray::python::create( v[ 0 ] ) : LvArray::python::create( v ) );
      MC_EQ( bool( o ), !bad, "text that is UTF-8" ); MC_CHECK( bad == ( PyErr_Occurred() != nullptr ), "exception" ); PyErr_Clear();
      if( bad ) return;
      if( what == 3 ) { MC_CHECK( PyList_CheckExact( o ), "a list" ); MC_EQ( long( PyList_Size( o ) ), long( n ), "length of the list" ); }
      for( int i = 0; i < n; ++i )
      {
        PyObject * const e = what == 2 ? o.p : PyList_GetItem( o, i ); Py_ssize_t len = 0; char const * const p = PyUnicode_AsUTF8AndSize( e, &len );
        MC_CHECK( p != nullptr && std::string( p, size_t( len ) ) == v[ size_t( i ) ], "the text" );
      }
    }
  }, true );
}
/* Wrappers and views by histories of making and dropping them: the references are counted exactly. */
struct RefSys
{
  using R = LvArray::python::PyObjectRef<>;
  static constexpr int N = 2;
  PyObject * obj[ 2 ]; long base[ 2 ]; std::unique_ptr< R > r[ N ]; int held[ N ] = { -1, -1 };
  struct Op { int k, a, b; };
  static std::vector< Op > const & ops()
  {
    static std::vector< Op > const v = [] { std::vector< Op > o;
      for( int a = 0; a < N; ++a ) { for( int b = 0; b < N; ++b ) for( int k : { 0, 1, 2 } ) o.push_back( { k, a, b } ); for( int b = -1; b < 2; ++b ) o.push_back( { 3, a, b } ); for( int k : { 4, 5, 6 } ) for( int b = 0; b < ( k == 5 || k == 6 ? 2 : 1 ); ++b ) o.push_back( { k, a, b } ); }
      return o; }();
    return v;
  }
  static int starts() { return 1; }
  static std::string startName( int ) { return "two empty references"; }
  RefSys( int ) { init(); obj[ 0 ] = value( "object()" ); obj[ 1 ] = value( "[ object() ][ 0 ]" ); for( int i = 0; i < 2; ++i ) base[ i ] = long( Py_REFCNT( obj[ i ] ) ); for( auto & q : r ) q = std::make_unique< R >(); }
  int nOps() const { return int( ops().size() ); }
  std::string opName( int i ) const { static char const * const n[] = { "copy-assign", "move-assign", "copy-construct", "assign a pointer", "release", "move-construct", "steal" }; return std::string( n[ ops()[ i ].k ] ) + std::to_string( ops()[ i ].a ) + "," + std::to_string( ops()[ i ].b ); }
  bool enabled( int i ) const { Op const & o = ops()[ i ]; return !( o.k == 5 && o.a == o.b ) && !( o.k == 2 && o.a == o.b ); }
  void apply( int i )
  {
    Op const & o = ops()[ i ];
    switch( o.k )
    {
      case 0: *r[ o.a ] = static_cast< R const & >( *r[ o.b ] ); held[ o.a ] = held[ o.b ]; break;
      case 1: *r[ o.a ] = std::move( *r[ o.b ] ); if( o.a != o.b ) { held[ o.a ] = held[ o.b ]; held[ o.b ] = -1; } break;
      case 2: r[ o.a ] = std::make_unique< R >( static_cast< R const & >( *r[ o.b ] ) ); held[ o.a ] = held[ o.b ]; break;
      case 3: *r[ o.a ] = o.b < 0 ? static_cast< PyObject * >( nullptr ) : Py_NewRef( obj[ o.b ] ); held[ o.a ] = o.b; break;
      case 4: { PyObject * const p = r[ o.a ]->release(); MC_CHECK( p == ( held[ o.a ] < 0 ? nullptr : obj[ held[ o.a ] ] ), "released pointer" ); Py_XDECREF( p ); held[ o.a ] = -1; break; }
      case 5: r[ o.a ] = std::make_unique< R >( std::move( *r[ o.b ] ) ); held[ o.a ] = held[ o.b ]; held[ o.b ] = -1; break;
      case 6: r[ o.a ] = std::make_unique< R >( Py_NewRef( obj[ o.b ] ) ); held[ o.a ] = o.b; break;
    }
  }
  void check() const
  {
    for( int i = 0; i < N; ++i )
    {
      PyObject * const e = held[ i ] < 0 ? nullptr : obj[ held[ i ] ];
      MC_CHECK( r[ i ]->get() == e && static_cast< PyObject * >( *r[ i ] ) == e && *r[ i ]->getAddress() == e, "object of reference " << i );
    }
    for( int k = 0; k < 2; ++k ) MC_EQ( long( Py_REFCNT( obj[ k ] ) ), base[ k ] + ( held[ 0 ] == k ) + ( held[ 1 ] == k ), "references to object " << k );
  }
  void key( mc::Key & k ) const { for( int h : held ) k.add( h ); }
};
MC_JOB( "references" ) { init(); mc::exploreHistories< RefSys >( { .depth = mc::thorough() ? 5 : 4, .noMerge = 3, .leakCheck = true } ); }
#endif
MC_MAIN
