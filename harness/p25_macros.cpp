/* Every reporting macro on every pair of operands, in debug and release configurations. */
#include "lv.hpp"
#include "Macros.hpp"
#include <cmath>
#include <limits>

struct CustomError : std::runtime_error { using std::runtime_error::runtime_error; };

template< typename T > struct Operands
{
  static T a, b; static int na, nb;
  static T A() { ++na; return a; }
  static T B() { ++nb; return b; }
};
template< typename T > T Operands< T >::a; template< typename T > T Operands< T >::b;
template< typename T > int Operands< T >::na; template< typename T > int Operands< T >::nb;

enum Family { ERR, THROWS, ASSERTS };
enum Rel { EQ, NE, GT, GE, LT, LE };
static char const * const REL[] = { "==", "!=", ">", ">=", "<", "<=" };
static char const * const NOT[] = { "!=", "==", "<=", "<", ">=", ">" };

template< typename T > bool holds( Rel r, T x, T y )
{
  switch( r ) { case EQ: return x == y; case NE: return !( x == y ); case GT: return x > y; case GE: return x >= y; case LT: return x < y; default: return x <= y; }
}
template< typename T > struct Macro { char const * name; Family family; Rel rel; bool msg; bool custom; int line; void ( *run )(); };

template< typename T > std::vector< Macro< T > > macros()
{
  using O = Operands< T >;
  std::vector< Macro< T > > v;
#define ADD( NAME, FAMILY, R, MSG, CUSTOM, ... ) v.push_back( { NAME, FAMILY, R, MSG, CUSTOM, __LINE__, [] { __VA_ARGS__; } } );
#define REL6( R ) \
  ADD( "ERROR_IF_" #R, ERR, R, false, false, LVARRAY_ERROR_IF_ ## R( O::A(), O::B() ) ) \
  ADD( "ERROR_IF_" #R "_MSG", ERR, R, true, false, LVARRAY_ERROR_IF_ ## R ## _MSG( O::A(), O::B(), "the " << 6 * 7 << " message" ) ) \
  ADD( "THROW_IF_" #R, THROWS, R, false, false, LVARRAY_THROW_IF_ ## R( O::A(), O::B(), std::runtime_error ) ) \
  ADD( "THROW_IF_" #R "_MSG", THROWS, R, true, true, LVARRAY_THROW_IF_ ## R ## _MSG( O::A(), O::B(), "the " << 6 * 7 << " message", CustomError ) )
#define ASS( R ) \
  ADD( "ASSERT_" #R, ASSERTS, R, false, false, LVARRAY_ASSERT_ ## R( O::A(), O::B() ) ) \
  ADD( "ASSERT_" #R "_MSG", ASSERTS, R, true, false, LVARRAY_ASSERT_ ## R ## _MSG( O::A(), O::B(), "the " << 6 * 7 << " message" ) )
  REL6( EQ ) REL6( NE ) REL6( GT ) REL6( GE ) REL6( LT ) REL6( LE )
  ASS( EQ ) ASS( NE ) ASS( GT ) ASS( GE )
  return v;
}
static std::string here( int line ) { return std::string( __FILE__ ) + ":" + std::to_string( line ); }
template< typename T > std::string text( T const & v ) { std::ostringstream o; o << v; return o.str(); }
static void has( std::string const & s, std::string const & part, char const * what, char const * macro )
{ if( s.find( part ) == std::string::npos ) mc::violation( std::string( macro ) + " does not report " + what + " (\"" + part + "\") but: " + s.substr( 0, 900 ) ); }

struct Seen { bool handler = false, thrown = false, custom = false; std::string out, what; };
template< typename F > Seen observe( F && f )
{
  Seen s;
  mc::ErrorState & e = mc::errorState();
  e.mode = mc::ErrorState::THROW; int const before = e.count;
  mc::captured().str( "" );
  try { f(); }
  catch( mc::ExpectedError const & ) { s.handler = true; }
  catch( CustomError const & x ) { s.thrown = s.custom = true; s.what = x.what(); }
  catch( std::runtime_error const & x ) { s.thrown = true; s.what = x.what(); }
  e.mode = mc::ErrorState::UNEXPECTED;
  MC_EQ( e.count - before, int( s.handler ), "calls of the error handler" );
  s.out = mc::captured().str(); mc::captured().str( "" );
  return s;
}
#ifdef NDEBUG
static bool const debug = false;
#else
static bool const debug = true;
#endif

template< typename T > void compare( std::vector< T > const & values )
{
  auto const ms = macros< T >();
  mc::enumerate( [&]( mc::Chooser & c ) {
    using O = Operands< T >;
    Macro< T > const & m = ms[ c.choose( int( ms.size() ), "macro" ) ];
    O::a = c.pick( values, "lhs" ); O::b = c.pick( values, "rhs" );
    c.noteIf( [&] { return std::string( m.name ) + "(" + text( O::a ) + "," + text( O::b ) + ")"; } );
    O::na = O::nb = 0;
    Seen const s = observe( m.run );
    bool const rel = holds( m.rel, O::a, O::b );
    bool const fires = m.family == ASSERTS ? debug && !rel : rel;
    std::string const args = "(" + text( O::a ) + ", " + text( O::b ) + ")";
    MC_EQ( s.handler, fires && m.family != THROWS, "LVARRAY_" << m.name << args << " called the error handler" );
    MC_EQ( s.thrown, fires && m.family == THROWS, "LVARRAY_" << m.name << args << " threw" );
    if( !fires )
    {
      int const once = m.family == ASSERTS && !debug ? 0 : 1;
      MC_EQ( O::na, once, m.name << args << ": evaluations of the left operand" ); MC_EQ( O::nb, once, m.name << args << ": evaluations of the right operand" );
      MC_EQ( s.out, std::string(), m.name << " printed something without firing" );
    }
    else
    {
      std::string const & t = m.family == THROWS ? s.what : s.out;
      if( m.family == THROWS ) { MC_EQ( s.custom, m.custom, m.name << ": type of the exception" ); MC_EQ( s.out, std::string(), m.name << " printed" ); }
      else has( t, "ERROR", "the kind", m.name );
      has( t, here( m.line ), "the location", m.name );
      has( t, "  O::A() = " + text( O::a ) + "\n", "the left value", m.name ); has( t, "  O::B() = " + text( O::b ) + "\n", "the right value", m.name );
      if( m.family != ASSERTS )
      { has( t, std::string( "Expected O::A() " ) + NOT[ m.rel ] + " O::B()\n", "what was expected", m.name ); has( t, std::string( "(should be false): O::A() " ) + REL[ m.rel ] + " O::B()\n", "the expression", m.name ); }
      else has( t, std::string( "(should be false): !(O::A() " ) + REL[ m.rel ] + " O::B())\n", "the expression", m.name );
      if( m.msg ) has( t, "the 42 message", "the message", m.name );
    }
    mc::outcome( std::string( m.name ) + ( fires ? "1" : "0" ) );
  } );
  mc::g().bound += "every macro on every pair of " + std::to_string( values.size() ) + " values; ";
}
#define TYPE( T, ... ) MC_JOB( "comparison macros on " #T ) { compare< T >( { __VA_ARGS__ } ); }
TYPE( int, -2147483647 - 1, -1, 0, 1, 2, 2147483647 )
TYPE( unsigned, 0, 1, 2, 4294967295u )
TYPE( long, -9223372036854775807l - 1, -1, 0, 1, 2, 4294967296l )
TYPE( unsigned long, 0, 1, 2, ~0ul )
TYPE( double, -1.0, -0.0, 0.0, 0.5, 1.0, 2.0, std::numeric_limits< double >::infinity(), -std::numeric_limits< double >::infinity(), std::numeric_limits< double >::quiet_NaN() )
TYPE( char, 'a', 'b', 'z' )
TYPE( std::string, "", "a", "b", "ab" )

MC_JOB( "condition macros" )
{
  static int n; static bool cond; static int line;
  n = 0;
  auto evaluate = []() -> bool { ++n; return cond; };
  struct K { char const * name; char const * kind; int fam; bool on; std::string expr; std::function< void() > run; bool always; };
  std::vector< K > ks;
#define ONE( NAME, KIND, FAM, ON, EXPR, ALWAYS, ... ) ks.push_back( { NAME, KIND, FAM, ON, EXPR, [&] { line = __LINE__; __VA_ARGS__; }, ALWAYS } );
  ONE( "ERROR_IF", "ERROR", 0, true, "(should be false): evaluate()\n", false, LVARRAY_ERROR_IF( evaluate(), "m" << 1 << "sg" ) )
  ONE( "THROW_IF", "", 1, true, "(should be false): evaluate()\n", false, LVARRAY_THROW_IF( evaluate(), "m" << 1 << "sg", CustomError ) )
  ONE( "ASSERT_MSG", "ERROR", 2, false, "evaluate()", false, LVARRAY_ASSERT_MSG( evaluate(), "m" << 1 << "sg" ) )
  ONE( "ASSERT", "ERROR", 2, false, "evaluate()", false, LVARRAY_ASSERT( evaluate() ) )
  ONE( "WARNING_IF", "WARNING", 3, true, "(should be false): evaluate()\n", false, LVARRAY_WARNING_IF( evaluate(), "m" << 1 << "sg" ) )
  ONE( "INFO_IF", "INFO", 3, true, "evaluate()\n", false, LVARRAY_INFO_IF( evaluate(), "m" << 1 << "sg" ) )
  ONE( "ERROR", "ERROR", 0, true, "", true, LVARRAY_ERROR( "m" << 1 << "sg" ) )
  ONE( "WARNING", "WARNING", 3, true, "", true, LVARRAY_WARNING( "m" << 1 << "sg" ) )
  ONE( "INFO", "INFO", 3, true, "", true, LVARRAY_INFO( "m" << 1 << "sg" ) )
  ONE( "ERROR_IF of a compound condition", "ERROR", 0, true, "", false, LVARRAY_ERROR_IF( evaluate() && true || false, "m" << 1 << "sg" ) )
  ONE( "ASSERT_MSG of a compound condition", "ERROR", 2, false, "", false, LVARRAY_ASSERT_MSG( evaluate() || false, "m" << 1 << "sg" ) )
  ONE( "ASSERT of a compound condition", "ERROR", 2, false, "", false, LVARRAY_ASSERT( false || evaluate() ) )
  ONE( "WARNING_IF of a compound condition", "WARNING", 3, true, "", false, LVARRAY_WARNING_IF( false || evaluate(), "m" << 1 << "sg" ) )
  ONE( "THROW_IF of a compound condition", "", 1, true, "", false, LVARRAY_THROW_IF( evaluate() || false, "m" << 1 << "sg", std::runtime_error ) )
  /* as the only statement of an if with an else */
  ONE( "ERROR_IF as a statement", "ERROR", 0, true, "", false, if( line > 0 ) LVARRAY_ERROR_IF( evaluate(), "m" << 1 << "sg" ); else n += 100 )
  ONE( "ASSERT_MSG as a statement", "ERROR", 2, false, "", false, if( line > 0 ) LVARRAY_ASSERT_MSG( evaluate(), "m" << 1 << "sg" ); else n += 100 )
  mc::enumerate( [&]( mc::Chooser & c ) {
    K const & k = ks[ c.choose( int( ks.size() ), "macro" ) ];
    cond = c.flag( "condition" ); n = 0;
    c.note( k.name );
    Seen const s = observe( k.run );
    bool const fires = k.always || ( k.fam == 2 ? debug && !cond : cond );
    if( !k.always ) MC_EQ( n, k.fam == 2 && !debug ? 0 : 1, k.name << ": evaluations of the condition" );
    MC_EQ( s.handler, fires && ( k.fam == 0 || k.fam == 2 ), k.name << " called the error handler" );
    MC_EQ( s.thrown, fires && k.fam == 1, k.name << " threw" );
    if( !fires ) { MC_EQ( s.out, std::string(), k.name << " printed" ); }
    else
    {
      std::string const & t = k.fam == 1 ? s.what : s.out;
      has( t, here( line ), "the location", k.name ); has( t, k.kind, "the kind", k.name ); has( t, k.expr, "the expression", k.name );
      if( std::string( k.name ).substr( 0, 6 ) != "ASSERT" || std::string( k.name ).find( "MSG" ) != std::string::npos ) has( t, "m1sg", "the message", k.name );
      if( k.fam == 1 ) MC_EQ( s.out, std::string(), k.name << " printed" );
    }
    mc::outcome( std::string( k.name ) + ( fires ? "1" : "0" ) );
  } );
}
MC_JOB( "logging macros" )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    int const v = c.range( -3, 3, "v" );
    Seen s = observe( [&] { LVARRAY_LOG( "a" << v << "b" ); } );
    MC_EQ( s.out, "a" + std::to_string( v ) + "b\n", "LVARRAY_LOG" );
    s = observe( [&] { LVARRAY_LOG_VAR( v ); } );
    MC_EQ( s.out, "v = " + std::to_string( v ) + "\n", "LVARRAY_LOG_VAR" );
    int const * const p = &v; TYPEOFPTR( p ) w = v; TYPEOFREF( v ) u = w; LVARRAY_UNUSED_VARIABLE( u ); LVARRAY_DEBUG_VAR( w );
    MC_EQ( std::string( LOCATION ), here( __LINE__ ), "LOCATION" );
    MC_EQ( std::string( STRINGIZE( __LINE__ ) ), std::to_string( __LINE__ ), "STRINGIZE" );
    MC_EQ( std::string( STRINGIZE_NX( __LINE__ ) ), std::string( "__LINE__" ), "STRINGIZE_NX" );
  } );
}
MC_MAIN
