/* Integer conversions between all pairs of built-in integer types, and the limits wrappers. */
#include "lv.hpp"
#include "limits.hpp"
#include <tuple>
using I128 = __int128;
static std::string str( I128 v ) { if( v < 0 ) return "-" + str( -v ); std::string s; do { s.insert( s.begin(), char( '0' + int( v % 10 ) ) ); v /= 10; } while( v ); return s; }
template< typename T > char const * nm();
#define NM( T ) template<> char const * nm< T >() { return #T; }
NM( signed char ) NM( unsigned char ) NM( char ) NM( short ) NM( unsigned short ) NM( int ) NM( unsigned ) NM( long ) NM( unsigned long ) NM( long long ) NM( unsigned long long )
using All = std::tuple< signed char, unsigned char, char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long >;

template< typename OUT, typename IN > void one( IN const v )
{
  static_assert( std::is_same< decltype( LvArray::integerConversion< OUT >( v ) ), OUT >::value, "" );
  bool const fits = I128( v ) >= I128( std::numeric_limits< OUT >::min() ) && I128( v ) <= I128( std::numeric_limits< OUT >::max() );
  OUT volatile r = 0;
  int const before = mc::errorState().count;
  bool const err = mc::reportsError( [&] { r = LvArray::integerConversion< OUT >( v ); } );
  if( err != !fits ) mc::violation( std::string( "converting " ) + str( v ) + " from " + nm< IN >() + " to " + nm< OUT >() + ( err ? " reported an error although it is representable" : " gave " + str( r ) + " without an error" ) );
  if( !err && I128( r ) != I128( v ) ) mc::violation( std::string( "converting " ) + str( v ) + " from " + nm< IN >() + " to " + nm< OUT >() + " gave " + str( r ) );
  if( err && mc::errorState().count != before + 1 ) mc::violation( "more than one report" );
  mc::g().transitions += 1;
}
template< typename IN > std::vector< IN > values()
{
  std::set< IN > s;
  using L = std::numeric_limits< IN >;
  #ifdef SMALL
  int const W0 = 6;
#else
  int const W0 = 130;
#endif
  if( sizeof( IN ) <= ( W0 < 100 ? 1 : 2 ) ) for( I128 v = L::min(); v <= I128( L::max() ); ++v ) s.insert( IN( v ) );
  else
  {
    int const W = mc::thorough() && W0 > 100 ? 3000 : W0;
    auto around = [&]( I128 c ) { for( I128 v = c - W; v <= c + W; ++v ) if( v >= I128( L::min() ) && v <= I128( L::max() ) ) s.insert( IN( v ) ); };
    around( 0 ); for( int k = 0; k <= 64; ++k ) { around( I128( 1 ) << k ); around( -( I128( 1 ) << k ) ); }
  }
  return std::vector< IN >( s.begin(), s.end() );
}
template< typename OUT, typename IN > void pair()
{
  std::vector< IN > const vals = values< IN >();
  mc::enumerate( [&]( mc::Chooser & c ) { int const i = c.choose( int( vals.size() ), "value" ); one< OUT >( vals[ i ] ); } );
  mc::sample( std::string( nm< IN >() ) + " -> " + nm< OUT >() + ": " + std::to_string( vals.size() ) + " values", 200 );
  mc::outcome( std::string( nm< IN >() ) + nm< OUT >() );
}
template< typename IN, typename ... OUTS > void from( std::tuple< OUTS ... > ) { ( pair< OUTS, IN >(), ... ); }
template< typename ... INS > void registerAll( std::tuple< INS ... > )
{ ( mc::jobs().push_back( { std::string( "from " ) + nm< INS >(), [] { from< INS >( All() ); mc::g().bound += "to 11 types; "; }, false } ), ... ); }
static int const reg = ( registerAll( All() ), 0 );

template< typename T > void limits()
{
  using L = std::numeric_limits< T >;
  using N = LvArray::NumericLimits< T >;
  auto same = []( T a, T b ) { return memcmp( &a, &b, sizeof( T ) > 8 ? 10 : sizeof( T ) ) == 0; };
#define SAME( X ) MC_CHECK( same( N::X, L::X() ), "NumericLimits::" #X )
  SAME( min ); SAME( max ); SAME( lowest ); SAME( epsilon ); SAME( round_error ); SAME( infinity ); SAME( quiet_NaN ); SAME( signaling_NaN ); SAME( denorm_min );
  LvArray::NumericLimitsNC< T > const nc;
#define SAMEN( X ) MC_CHECK( same( nc.X, L::X() ), "NumericLimitsNC::" #X )
  SAMEN( min ); SAMEN( max ); SAMEN( lowest ); SAMEN( epsilon ); SAMEN( denorm_min );
  MC_CHECK( N::is_signed == L::is_signed && N::digits == L::digits && N::is_integer == L::is_integer, "inherited limits" );
  mc::g().executions += 1; mc::g().transitions += 14; mc::g().states += 1;
}
template< typename ... T > void limitsOf( std::tuple< T ... > ) { ( limits< T >(), ... ); }
MC_JOB( "limits of every arithmetic type" ) { limitsOf( All() ); limits< float >(); limits< double >(); limits< long double >(); limits< bool >(); mc::sample( "all constants of 15 types" ); }
MC_MAIN
