/* P21: parsing and printing.  Every string up to a length over a small alphabet, and every single (thorough: double)
 * edit of every small well-formed text, is parsed by input::stringToArray and by the reference parser below. */
#include "lv.hpp"
#include "layouts.hpp"
#include "input.hpp"
#include "output.hpp"
#include "MallocBuffer.hpp"
#include <climits>
#include <regex>
#include <unistd.h>
#include <fcntl.h>
using LvArray::MallocBuffer;

/* ---- reference ---- */
template< typename T > struct Tok;
static bool digits( std::string const & s, size_t & i ) { size_t const b = i; while( i < s.size() && s[ i ] >= '0' && s[ i ] <= '9' ) ++i; return i > b; }
template<> struct Tok< int >
{
  static bool parse( std::string const & s, int & v )
  {
    size_t i = 0; if( i < s.size() && ( s[ i ] == '-' || s[ i ] == '+' ) ) ++i;
    if( !digits( s, i ) || i != s.size() ) return false;
    errno = 0; long const l = strtol( s.c_str(), nullptr, 10 );
    if( errno || l < INT_MIN || l > INT_MAX ) return false;
    v = int( l ); return true;
  }
};
template<> struct Tok< double >
{
  static bool parse( std::string const & s, double & v )
  {
    size_t i = 0; if( i < s.size() && ( s[ i ] == '-' || s[ i ] == '+' ) ) ++i;
    bool const a = digits( s, i ); bool b = false;
    if( i < s.size() && s[ i ] == '.' ) { ++i; b = digits( s, i ); }
    if( !a && !b ) return false;
    if( i < s.size() && s[ i ] == 'e' ) { ++i; if( i < s.size() && ( s[ i ] == '-' || s[ i ] == '+' ) ) ++i; if( !digits( s, i ) ) return false; }
    if( i != s.size() ) return false;
    v = strtod( s.c_str(), nullptr ); return v == v && v - v == 0;
  }
};
template<> struct Tok< std::string > { static bool parse( std::string const & s, std::string & v ) { v = s; return !s.empty(); } };

template< typename T > struct Ref
{
  std::string const & s; int nd; size_t i = 0;
  std::vector< long > dims; std::vector< T > vals;
  Ref( std::string const & t, int n ): s( t ), nd( n ), dims( n, -1 ) {}
  void sp() { while( i < s.size() && s[ i ] == ' ' ) ++i; }
  bool list( int level )
  {
    sp(); if( i >= s.size() || s[ i ] != '{' ) return false;
    ++i; long n = 0;
    for(;; )
    {
      if( level + 1 == nd ) { if( !value() ) return false; } else if( !list( level + 1 ) ) return false;
      ++n; sp();
      if( i < s.size() && s[ i ] == ',' ) { ++i; continue; }
      if( i < s.size() && s[ i ] == '}' ) { ++i; break; }
      return false;
    }
    if( dims[ level ] >= 0 && dims[ level ] != n ) return false;
    dims[ level ] = n; return true;
  }
  bool value()
  {
    sp(); size_t const b = i;
    while( i < s.size() && s[ i ] != ' ' && s[ i ] != ',' && s[ i ] != '{' && s[ i ] != '}' ) ++i;
    T v; if( !Tok< T >::parse( s.substr( b, i - b ), v ) ) return false;
    vals.push_back( v ); return true;
  }
  bool parse()
  {
    { std::string t; for( char c : s ) if( c != ' ' ) t += c; if( t == "{}" ) { dims.assign( nd, 0 ); return true; } }
    if( !list( 0 ) ) return false;
    sp(); return i == s.size();
  }
};

template< typename T > T stale();
template<> int stale< int >() { return -77; }
template<> double stale< double >() { return -77; }
template<> std::string stale< std::string >() { return "stale"; }

template< typename T, typename PERM, int ND, typename INDEX >
void parseOne( std::string const & text )
{
  using A = LvArray::Array< T, ND, PERM, INDEX, MallocBuffer >;
  Ref< T > ref( text, ND );
  bool const ok = ref.parse();
  A a; { std::array< INDEX, ND > d; d.fill( 1 ); a.resize( ND, d.data() ); *a.data() = stale< T >(); }
  mc::context() = "text \"" + text + "\": ";
  bool reported = false;
  try { reported = mc::throwsError( [&] { LvArray::input::stringToArray( a, text ); } ); }
  catch( std::exception const & e ) { mc::violation( std::string( "an exception escapes instead of an error report: " ) + e.what() ); }
  MC_EQ( reported, !ok, ( ok ? "a well-formed text is rejected" : "a malformed text is accepted" ) );
  if( ok )
  {
    if( ref.dims[ 0 ] == 0 ) { MC_EQ( long( a.size() ), 0l, "size for the empty list" ); }
    else
    {
      long n = 1;
      for( int k = 0; k < ND; ++k ) { MC_EQ( long( a.size( k ) ), ref.dims[ k ], "extent " << k ); n *= ref.dims[ k ]; }
      MC_EQ( long( a.size() ), n, "size" );
      std::array< long, ND > e; for( int k = 0; k < ND; ++k ) e[ k ] = ref.dims[ k ];
      size_t k = 0;
      lay::forAll( e, [&]( std::array< long, ND > const & x ) { MC_CHECK( lay::call( a, x ) == ref.vals[ k ], "value " << k << " in order is " << lay::call( a, x ) << ", expected " << ref.vals[ k ] ); ++k; } );
    }
    mc::outcome( "accepted" + std::to_string( ref.vals.size() ) );
  }
  else mc::outcome( "rejected" );
  mc::context().clear();
}

/* ---- all strings ---- */
template< typename T, typename PERM, int ND, typename INDEX >
void regAll( std::string const & name, std::string const & alpha, int q, int t )
{
  mc::jobs().push_back( { name, [=] {
    int const len = mc::thorough() ? t : q;
    mc::g().bound += "all strings of up to " + std::to_string( len ) + " characters over \"" + alpha + "\"; ";
    mc::enumerate( [&]( mc::Chooser & c ) {
      std::string s;
      int const n = c.choose( len + 1, "length" );
      for( int i = 0; i < n; ++i ) s += alpha[ c.choose( int( alpha.size() ), "char" ) ];
      c.noteIf( [&] { return "\"" + s + "\""; } );
      parseOne< T, PERM, ND, INDEX >( s );
    }, false ); }, false } );
}
/* ---- all strings that begin with a prefix every well-formed text of the rank begins with ---- */
template< typename T, typename PERM, int ND, typename INDEX >
void regTail( std::string const & name, std::string const & head, std::string const & alpha, int q, int t )
{
  mc::jobs().push_back( { name, [=] {
    int const len = mc::thorough() ? t : q;
    mc::g().bound += "\"" + head + "\" followed by all strings of up to " + std::to_string( len ) + " characters over \"" + alpha + "\"; ";
    mc::enumerate( [&]( mc::Chooser & c ) {
      std::string s = head;
      int const n = c.choose( len + 1, "length" );
      for( int i = 0; i < n; ++i ) s += alpha[ c.choose( int( alpha.size() ), "char" ) ];
      c.noteIf( [&] { return "\"" + s + "\""; } );
      parseOne< T, PERM, ND, INDEX >( s );
    }, false ); }, false } );
}
/* ---- edits of well-formed texts ---- */
template< size_t N > std::string make( std::array< long, N > const & e, size_t level, int & v, bool spaces, char const * const * tok )
{
  std::string s = spaces ? " { " : "{";
  for( long i = 0; i < e[ level ]; ++i )
  {
    if( i ) s += spaces ? " , " : ",";
    if( level + 1 == N ) s += tok[ v++ % 5 ]; else s += make( e, level + 1, v, spaces, tok );
  }
  return s + ( spaces ? " } " : "}" );
}
template< typename T, typename PERM, size_t N, typename INDEX >
void regEdits( std::string const & name, int maxE, char const * const * tok, std::string const & alpha )
{
  mc::jobs().push_back( { name, [=] {
    int const edits = 1 + mc::thorough();
    mc::g().bound += "all texts of arrays with extents 1.." + std::to_string( maxE ) + " with and without spaces, with all sets of up to " + std::to_string( edits ) + " edits (delete, insert, replace, swap); ";
    mc::enumerate( [&]( mc::Chooser & c ) {
      std::array< long, N > e; for( auto & x : e ) x = 1 + c.choose( maxE, "extent" );
      int v = 0; std::string s = make( e, 0, v, c.flag( "spaces" ), tok );
      for( int k = 0; k < edits; ++k )
      {
        int const p = c.choose( int( s.size() ) + 1, "position" );
        int const what = c.choose( 2 + 2 * int( alpha.size() ), "edit" );
        if( what == 0 ) { if( p < int( s.size() ) ) s.erase( p, 1 ); }
        else if( what == 1 ) { if( p + 1 < int( s.size() ) ) std::swap( s[ p ], s[ p + 1 ] ); }
        else if( what < 2 + int( alpha.size() ) ) s.insert( p, 1, alpha[ what - 2 ] );
        else if( p < int( s.size() ) ) s[ p ] = alpha[ what - 2 - alpha.size() ];
      }
      c.noteIf( [&] { return "\"" + s + "\""; } );
      parseOne< T, PERM, int( N ), INDEX >( s );
    }, false ); }, false } );
}

/* ---- printing ---- */
template< typename X > std::string str( X const & x ) { std::ostringstream o; o << x; return o.str(); }
template< size_t N > std::string refText( std::array< long, N > const & e, size_t level, std::vector< std::string > const & vals, size_t & k )
{
  std::string s = "{ ";
  for( long i = 0; i < e[ level ]; ++i ) { if( i ) s += ", "; if( level + 1 == N ) s += vals[ k++ ]; else s += refText( e, level + 1, vals, k ); }
  return s + " }";
}
template< typename T > std::vector< T > const & values();
template<> std::vector< int > const & values< int >() { static std::vector< int > const v{ 0, 1, -1, 7, INT_MAX, INT_MIN, 42 }; return v; }
template<> std::vector< double > const & values< double >() { static std::vector< double > const v{ 0, 1.5, -2, 1e-5, 123456, 1e300, 0.1 }; return v; }
template< typename T, typename PERM, size_t N > void regPrint( int maxE )
{
  mc::jobs().push_back( { std::string( "print and parse back " ) + std::to_string( sizeof( T ) ) + " byte numbers, layout " + lay::name( PERM{} ), [=] {
    mc::g().bound += "extents 0.." + std::to_string( maxE ) + "; ";
    mc::enumerate( [&]( mc::Chooser & c ) {
      using A = LvArray::Array< T, int( N ), PERM, long, MallocBuffer >;
      std::array< long, N > e; for( auto & x : e ) x = c.choose( maxE + 1, "extent" );
      int const off = c.choose( int( values< T >().size() ), "first value" );
      A a; a.resize( int( N ), e.data() );
      std::vector< std::string > t; int k = 0;
      lay::forAll( e, [&]( std::array< long, N > const & x ) { T const v = values< T >()[ ( off + k++ ) % values< T >().size() ]; lay::call( a, x ) = v; std::ostringstream o; o << v; t.push_back( o.str() ); } );
      size_t p = 0; std::string const want = refText( e, 0, t, p );
      MC_EQ( str( a ), want, "printed array" ); MC_EQ( str( a.toView() ), want, "printed view" ); MC_EQ( str( a.toViewConst() ), want, "printed const view" );
      MC_EQ( str( a.toSlice() ), want, "printed slice" ); MC_EQ( str( a.toSliceConst() ), want, "printed const slice" );
      if constexpr( N > 1 ) if( e[ 0 ] > 0 )
      { std::array< long, N - 1 > r; for( size_t j = 0; j + 1 < N; ++j ) r[ j ] = e[ j + 1 ]; size_t q = 0; MC_EQ( str( a[ 0 ] ), refText( r, 0, t, q ), "printed subslice" ); }
      bool full = true; for( long x : e ) full = full && x > 0;
      if( full || N == 1 )
      {
        A b; b.resize( int( N ), e.data() ); 
        LvArray::input::stringToArray( b, str( a ) );
        for( size_t j = 0; j < N; ++j ) MC_EQ( long( b.size( int( j ) ) ), e[ j ], "extent after printing and parsing" );
        lay::forAll( e, [&]( std::array< long, N > const & x ) { MC_EQ( lay::call( b, x ), lay::call( a, x ), "value after printing and parsing" ); } );
      }
    }, false ); }, false } );
}

static std::string captureStdout( std::function< void() > f )
{
  fflush( stdout ); std::cout.flush();
  char name[] = "/tmp/p21_XXXXXX"; int const fd = mkstemp( name ); unlink( name );
  int const old = dup( 1 ); dup2( fd, 1 );
  f();
  fflush( stdout ); std::cout.flush(); dup2( old, 1 ); close( old );
  std::string s; char b[ 4096 ]; lseek( fd, 0, SEEK_SET ); ssize_t n; while( ( n = read( fd, b, sizeof( b ) ) ) > 0 ) s.append( b, n );
  close( fd ); return s;
}

static char const * const NUM[] = { "1", "-2", "30", "+4", "0" };
static char const * const DBL[] = { "1", "-2.5", ".5", "3.", "1e-2" };
static char const * const STR[] = { "a", "bc", "-", "1x", "d" };

static int all = [] {
#if PART == 0
  regAll< int, camp::idx_seq< 0 >, 1, long >( "all strings, 1 dimension", "{},1 x-", 6, 8 );
  regTail< int, camp::idx_seq< 0 >, 1, int >( "longer strings, 1 dimension", "{", "{},1 -", 7, 8 );
  regTail< int, camp::idx_seq< 1, 0 >, 2, long >( "longer strings, 2 dimensions", "{{", "{},1 ", 8, 9 );
  regTail< int, camp::idx_seq< 0, 1 >, 2, int >( "second rows, 2 dimensions", "{{1},", "{},1-", 7, 9 );
  regTail< int, camp::idx_seq< 2, 0, 1 >, 3, long >( "second blocks, 3 dimensions", "{{{1}", "{},1", 8, 10 );
  regTail< double, camp::idx_seq< 0 >, 1, long >( "number formats", "{", "1.e-,}", 7, 8 );
  regTail< std::string, camp::idx_seq< 0 >, 1, long >( "arrays of strings", "{", "{},a ", 8, 9 );
  regTail< std::string, camp::idx_seq< 0, 1 >, 2, long >( "matrices of strings", "{{", "{},a", 8, 10 );
#elif PART == 1
  regEdits< int, camp::idx_seq< 0 >, 1, long >( "edits, 1 dimension", 4, NUM, "{},1 x-" );
  regEdits< int, camp::idx_seq< 0, 1 >, 2, int >( "edits, 2 dimensions", 3, NUM, "{},1 x-" );
  regEdits< int, camp::idx_seq< 2, 1, 0 >, 3, long >( "edits, 3 dimensions", 2, NUM, "{},1 x-" );
  regEdits< int, camp::idx_seq< 3, 1, 0, 2 >, 4, long >( "edits, 4 dimensions", 2, NUM, "{},1 " );
  regEdits< double, camp::idx_seq< 1, 0 >, 2, long >( "edits of numbers", 2, DBL, "{},1.e-" );
  regEdits< std::string, camp::idx_seq< 0, 1 >, 2, long >( "edits of strings", 2, STR, "{},a " );
#else
  lay::forEach( lay::All< 1 >{}, []( auto p ) { regPrint< int, decltype( p ), 1 >( 4 ); regPrint< double, decltype( p ), 1 >( 4 ); } );
  lay::forEach( lay::All< 2 >{}, []( auto p ) { regPrint< int, decltype( p ), 2 >( 3 ); regPrint< double, decltype( p ), 2 >( 2 ); } );
  lay::forEach( lay::All< 3 >{}, []( auto p ) { regPrint< int, decltype( p ), 3 >( 3 ); } );
  regPrint< int, camp::idx_seq< 2, 0, 3, 1 >, 4 >( 3 ); regPrint< double, camp::idx_seq< 0, 1, 2, 3 >, 4 >( 2 ); regPrint< int, camp::idx_seq< 4, 2, 0, 3, 1 >, 5 >( 2 );
#endif
  return 0;
}();

#if PART == 2
MC_JOB( "out of range numbers" )
{
  for( char const * s : { "{2147483647}", "{2147483648}", "{-2147483648}", "{-2147483649}", "{99999999999999999999}", "{1,2147483648}", "{00000000000001}", "", " ", "{", "}", "{ }", " { } ", "{{}}", "{{},{}}" } ) parseOne< int, camp::idx_seq< 0 >, 1, long >( s );
  for( char const * s : { "{{}}", "{}", "{{},{}}", "{{1},{}}", "{{1,2147483648}}", "{ { 1 } , { 2 } }" } ) parseOne< int, camp::idx_seq< 0, 1 >, 2, long >( s );
}
MC_JOB( "printing sorted arrays" )
{
  mc::enumerate( []( mc::Chooser & c ) {
    LvArray::SortedArray< int, long, MallocBuffer > a; std::string want;
    for( int v = -1; v < 4; ++v ) if( c.flag( "member" ) ) { a.insert( v ); want += ( want.empty() ? "{ " : ", " ) + std::to_string( v ); }
    want = want.empty() ? "{}" : want + " }";
    MC_EQ( str( a ), want, "printed sorted array" ); MC_EQ( str( a.toViewConst() ), want, "printed view" ); MC_EQ( str( a.toView() ), want, "printed view" );
    LvArray::Array< int, 1, camp::idx_seq< 0 >, long, MallocBuffer > b; LvArray::input::stringToArray( b, str( a ) );
    MC_EQ( long( b.size() ), long( a.size() ), "size after printing and parsing" ); for( int i = 0; i < a.size(); ++i ) MC_EQ( b[ i ], a[ i ], "value after printing and parsing" );
  }, false );
}
MC_JOB( "printing arrays of arrays" )
{
  mc::enumerate( []( mc::Chooser & c ) {
    LvArray::ArrayOfArrays< int, long, MallocBuffer > a( c.choose( 4, "rows" ), 2 ); std::string want = "{\n"; int v = c.choose( 2, "sign" ) ? -2 : 5;
    for( int i = 0; i < a.size(); ++i )
    {
      want += std::to_string( i ) + "\t{"; int const n = c.choose( 4, "length" );
      for( int j = 0; j < n; ++j ) { a.emplaceBack( i, v ); want += std::to_string( v++ ) + ", "; }
      want += "}\n";
    }
    want += "}\n";
    MC_EQ( str( a ), want, "printed array of arrays" ); MC_EQ( str( a.toViewConst() ), want, "printed view" );
  }, false );
}
MC_JOB( "printing matrices" )
{
  mc::enumerate( []( mc::Chooser & c ) {
    int const nr = c.choose( 4, "rows" );
    LvArray::CRSMatrix< double, int, long, MallocBuffer > a( nr, 3, c.choose( 3, "capacity" ) );
    std::string want = "{\n", sizes, offs, cells; long off = 0; double v = 0.5;
    char b[ 200 ];
    std::vector< std::vector< std::pair< int, double > > > rows( nr );
    for( int i = 0; i < nr; ++i ) for( int j = 0; j < 3; ++j ) if( c.flag( "entry" ) ) { a.insertNonZero( i, j, v ); rows[ i ].push_back( { j, v } ); v += 1.25; }
    for( int i = 0; i < nr; ++i )
    {
      std::string cs, vs; for( auto & p : rows[ i ] ) { cs += ( cs.empty() ? "" : ", " ) + std::to_string( p.first ); vs += ( vs.empty() ? "" : ", " ) + str( p.second ); }
      want += "row " + std::to_string( i ) + "\n\tcolumns: { " + cs + " }\n\tvalues: { " + vs + " }\n";
      snprintf( b, sizeof( b ), "%4lld, ", (long long) rows[ i ].size() ); sizes += b;
      snprintf( b, sizeof( b ), "%4lld\n", (long long) rows[ i ].size() ); cells += b;
      for( auto & p : rows[ i ] ) { snprintf( b, sizeof( b ), "%4d %9d %9.2g\n", i, p.first, p.second ); cells += b; }
    }
    want += "}\n";
    MC_EQ( str( a.toViewConst() ), want, "printed matrix" );
    for( int i = 0; i < nr + 1; ++i ) { snprintf( b, sizeof( b ), "%4lld, ", (long long) a.getOffsets()[ i ] ); offs += b; (void) off; }
    std::string const p = captureStdout( [&] { LvArray::print< RAJA::seq_exec >( a.toViewConst() ); } );
    auto words = []( std::string const & t ) { std::istringstream in( t ); std::string w, r; while( in >> w ) r += w + ' '; return r; };
    MC_EQ( words( p ), words( "numRows = " + std::to_string( nr ) + " ncols = { " + sizes + " } row_indexes = { " + offs + " } row col value ---- --------- --------- " + cells ), "words of the console listing of a matrix" );
  }, false );
}
MC_JOB( "printing C arrays" )
{
  using LvArray::operator<<;
  mc::enumerate( []( mc::Chooser & c ) {
    int const v = c.choose( 3, "value" ) - 1;
    auto put = []( auto const & x ) { std::ostringstream o; LvArray::operator<<( o, x ); return o.str(); };
    { int a[ 1 ] = { v }; MC_EQ( put( a ), "{ " + str( v ) + " }", "C array" ); }
    { int a[ 3 ] = { v, v + 1, 5 }; MC_EQ( put( a ), "{ " + str( v ) + ", " + str( v + 1 ) + ", 5 }", "C array" ); }
    { int a[ 2 ][ 2 ] = { { v, 1 }, { 2, 3 } }; MC_EQ( put( a ), "{ { " + str( v ) + ", 1 }, { 2, 3 } }", "C array" ); }
    { double a[ 1 ][ 3 ] = { { 0.5, 1., double( v ) } }; MC_EQ( put( a ), "{ { 0.5, 1, " + str( v ) + " } }", "C array" ); }
    { int a[ 3 ][ 1 ] = { { v }, { 1 }, { 2 } }; MC_EQ( put( a ), "{ { " + str( v ) + " }, { 1 }, { 2 } }", "C array" ); }
  }, false );
}
#endif
MC_MAIN
