/* The math helpers against the standard library in wider precision. */
#include "mc.hpp"
#include <cmath>
#include <limits>
#include <tuple>

/* Stands in for the half-precision types of the device build, so that the approximations written for them can run here. */
struct Half
{
  float v = 0;
  Half() = default;
  Half( float x ): v( x ) {}
  Half( double x ): v( float( x ) ) {}
  Half( int x ): v( float( x ) ) {}
};
inline Half operator+( Half a, Half b ) { return a.v + b.v; }
inline Half operator-( Half a, Half b ) { return a.v - b.v; }
inline Half operator*( Half a, Half b ) { return a.v * b.v; }
inline Half operator/( Half a, Half b ) { return a.v / b.v; }
inline Half __hlt( Half a, Half b ) { return a.v < b.v ? 1.0f : 0.0f; }
inline Half abs( Half a ) { return std::fabs( a.v ); }
inline Half sqrt( Half a ) { return std::sqrt( a.v ); }
inline Half min( Half a, Half b ) { return a.v < b.v ? a : b; }
inline Half max( Half a, Half b ) { return a.v > b.v ? a : b; }
/* Declared so that the header's unqualified uses parse; never called. */
inline float __hlt( float a, float b ) { return a < b; }

#include "math.hpp"
namespace M = LvArray::math;

template< typename T > std::string show( T v ) { std::ostringstream o; o.precision( 21 ); o << +v; return o.str(); }

/* got must be the value of the function at double or long double precision, within two units in the last place of T. */
template< typename T, typename X > void close( char const * f, X const x, T const got, long double const want, long double const minScale = 0 )
{
  bool ok;
  if( std::isnan( want ) ) ok = std::isnan( got );
  else
  {
    T const w = T( want );
    if( std::isinf( w ) || std::isinf( got ) ) ok = got == w || ( std::isinf( got ) != std::isinf( w ) && std::signbit( got ) == std::signbit( w ) && std::fabs( want ) >= (long double) std::numeric_limits< T >::max() * ( 1 - 4 * std::numeric_limits< T >::epsilon() ) && ( std::isinf( got ) || std::fabs( got ) >= std::numeric_limits< T >::max() * ( 1 - 4 * std::numeric_limits< T >::epsilon() ) ) );
    else if( want == 0 ) ok = got == 0 && std::signbit( got ) == std::signbit( want );
    else
    {
      long double const ulp = std::max( std::fabs( want ) * (long double) std::numeric_limits< T >::epsilon(), (long double) std::numeric_limits< T >::denorm_min() );
      ok = std::fabs( (long double) got - want ) <= 2 * ulp && ( got == 0 || std::signbit( got ) == std::signbit( want ) );
    }
  }
  (void) minScale;
  if( !ok ) mc::violation( std::string( f ) + "( " + show( x ) + " ) gave " + show( got ) + ", expected " + show( want ) );
}
template< typename R, typename A > static constexpr bool same = std::is_same< R, A >::value;

template< typename X > struct Out { using type = double; };
template<> struct Out< float > { using type = float; };

/* All one-argument functions at x. */
template< typename X > void unary( X const x )
{
  using O = typename Out< X >::type;
  long double const l = (long double) O( x );   // integers are converted to double first
#define FN( NAME, WANT ) { static_assert( same< decltype( M::NAME( x ) ), O >, #NAME ); close< O >( #NAME, x, M::NAME( x ), WANT ); }
  FN( sqrt, std::sqrt( l ) )
  if( !( l < 0 ) ) { FN( invSqrt, 1 / std::sqrt( l ) ) } else { MC_CHECK( std::isnan( M::invSqrt( x ) ), "invSqrt of " << show( x ) ); }
  FN( sin, std::sin( l ) )
  FN( cos, std::cos( l ) )
  FN( tan, std::tan( l ) )
  FN( asin, std::asin( l ) )
  FN( acos, std::acos( l ) )
  FN( exp, std::exp( l ) )
  FN( log, std::log( l ) )
  O s = 7, c = 8;
  static_assert( same< decltype( M::sincos( x, s, c ) ), void >, "" );
  M::sincos( x, s, c );
  close< O >( "sin of sincos", x, s, std::sin( l ) );
  close< O >( "cos of sincos", x, c, std::cos( l ) );
  static_assert( same< decltype( M::square( x ) ), X >, "" );
  mc::g().transitions += 11;
}
template< typename X > void floating( X const x )
{
  unary( x );
  X const a = M::abs( x );
  static_assert( same< decltype( M::abs( x ) ), X >, "" );
  MC_CHECK( std::isnan( x ) ? std::isnan( a ) : ( a == ( x < 0 ? -x : x ) && !std::signbit( a ) ), "abs of " << show( x ) << " gave " << show( a ) );
  X const sq = M::square( x );
  MC_CHECK( std::isnan( x ) ? std::isnan( sq ) : sq == X( x * x ), "square of " << show( x ) );
}
template< typename T > struct Bits;
template<> struct Bits< float > { using type = uint32_t; };
template<> struct Bits< double > { using type = uint64_t; };
template< typename T > T fromBits( typename Bits< T >::type b ) { T r; memcpy( &r, &b, sizeof( r ) ); return r; }

/* Every pattern of the leading bits, followed by all zeros, all ones and two mixed tails. */
template< typename T > void sweep( int part, int parts, int lead )
{
  using B = typename Bits< T >::type;
  int const total = int( sizeof( T ) * 8 );
  uint64_t const n = ( uint64_t( 1 ) << lead ) / parts;
  int const chunk = 256;
  mc::enumerate( [&]( mc::Chooser & c ) {
    uint64_t const i0 = uint64_t( c.choose( int( n / chunk ), "chunk" ) ) * chunk + n * part;
    for( int k = 0; k < chunk; ++k )
    {
      B const hi = B( i0 + k ) << ( total - lead );
      B const ones = ( B( 1 ) << ( total - lead ) ) - 1;
      for( B const lo : { B( 0 ), ones, B( ones / 3 ), B( 1 ) } ) floating< T >( fromBits< T >( hi | lo ) );
    }
  } );
  mc::outcome( part );
  mc::g().bound += "every pattern of the leading " + std::to_string( lead ) + " of " + std::to_string( total ) + " bits (part " + std::to_string( part ) + "); ";
}
#define FSWEEP( K ) MC_JOB( "float sweep " #K ) { sweep< float >( K, 4, mc::thorough() ? 28 : 22 ); }
#define DSWEEP( K ) MC_JOB( "double sweep " #K ) { sweep< double >( K, 4, mc::thorough() ? 26 : 21 ); }
FSWEEP( 0 )
FSWEEP( 1 )
FSWEEP( 2 )
FSWEEP( 3 )
DSWEEP( 0 )
DSWEEP( 1 )
DSWEEP( 2 )
DSWEEP( 3 )

template< typename T > std::vector< T > values()
{
  std::vector< T > v;
  if( std::is_floating_point< T >::value )
  {
    using L = std::numeric_limits< T >;
    for( T x : { T( 0 ), L::denorm_min(), L::min(), L::epsilon(), T( 0.1 ), T( 0.5 ), T( 1 ), T( 1 ) + L::epsilon(), T( 1 ) - L::epsilon(), T( 1.5 ), T( 2 ), T( 3 ), T( 3.14159265358979 ), T( 10 ), T( 1e5 ), T( 1e10 ), T( 1e30 ), L::max(), L::infinity() } )
    { v.push_back( x ); v.push_back( -x ); }
    for( int e = -60; e <= 60; e += 3 ) { v.push_back( std::ldexp( T( 1.25 ), e ) ); v.push_back( -std::ldexp( T( 1.75 ), e ) ); }
    v.push_back( L::quiet_NaN() );
  }
  return v;
}
template< typename T > void pairs()
{
  std::vector< T > const v = values< T >();
  using O = typename Out< T >::type;
  mc::enumerate( [&]( mc::Chooser & c ) {
    T const a = v[ c.choose( int( v.size() ), "a" ) ], b = v[ c.choose( int( v.size() ), "b" ) ];
    static_assert( same< decltype( M::max( a, b ) ), T > && same< decltype( M::min( a, b ) ), T > && same< decltype( M::atan2( a, b ) ), O >, "" );
    if( !std::isnan( a ) && !std::isnan( b ) )
    {
      MC_CHECK( M::max( a, b ) == ( a > b ? a : b ), "max( " << show( a ) << ", " << show( b ) << " ) gave " << show( M::max( a, b ) ) );
      MC_CHECK( M::min( a, b ) == ( a < b ? a : b ), "min( " << show( a ) << ", " << show( b ) << " ) gave " << show( M::min( a, b ) ) );
    }
    long double const want = std::atan2( (long double) a, (long double) b );
    close< O >( ( "atan2( " + show( a ) + ", . )" ).c_str(), b, M::atan2( a, b ), want );
    if( !std::isnan( want ) ) mc::outcome( show( M::atan2( a, b ) ) );
  } );
  mc::g().bound += "all pairs of " + std::to_string( v.size() ) + " values; ";
}
MC_JOB( "pairs of float" ) { pairs< float >(); }
MC_JOB( "pairs of double" ) { pairs< double >(); }

template< typename T > std::vector< T > integers()
{
  std::set< T > s;
  using L = std::numeric_limits< T >;
  if( sizeof( T ) <= 2 ) for( long x = L::min(); x <= long( L::max() ); ++x ) s.insert( T( x ) );
  else for( int k = 0; k < int( sizeof( T ) ) * 8; ++k ) for( int d = -20; d <= 20; ++d ) { s.insert( T( ( (unsigned long long) 1 << k ) + d ) ); s.insert( T( -( (unsigned long long) 1 << k ) + d ) ); }
  return std::vector< T >( s.begin(), s.end() );
}
template< typename T > void integerPairs( char const * name )
{
  std::vector< T > v = integers< T >();
  bool const step = v.size() > 1000;
  int const hop = mc::thorough() ? 7 : 67;
  mc::enumerate( [&]( mc::Chooser & c ) {
    size_t const i = c.choose( int( v.size() ), "a" );
    T const a = v[ i ];
    if constexpr ( std::is_signed< T >::value ) if( a != std::numeric_limits< T >::min() )
    { static_assert( same< decltype( M::abs( a ) ), T >, "" ); MC_CHECK( M::abs( a ) == ( a < 0 ? T( -a ) : a ), "abs of " << name << " " << show( a ) ); }
    __int128 const sq = __int128( a ) * a;
    if( sq <= __int128( std::numeric_limits< T >::max() ) && ( sizeof( T ) < 8 || sq <= ( __int128( 1 ) << 62 ) ) ) MC_CHECK( M::square( a ) == T( sq ), "square of " << name << " " << show( a ) );
    unary< T >( a );
    for( size_t j = 0; j < v.size(); j += step && j > 40 && j + 80 < v.size() ? hop : 1 )
    {
      T const b = v[ j ];
      static_assert( same< decltype( M::max( a, b ) ), T > && same< decltype( M::min( a, b ) ), T > && same< decltype( M::atan2( a, b ) ), double >, "" );
      if( M::max( a, b ) != ( a > b ? a : b ) || M::min( a, b ) != ( a < b ? a : b ) ) mc::violation( std::string( "min or max of " ) + name + " " + show( a ) + " and " + show( b ) );
      mc::g().transitions += 2;
    }
    for( int d : { -1, 0, 1, 5 } ) { T const b = T( d ); close< double >( "atan2", b, M::atan2( a, b ), std::atan2( (long double) double( a ), (long double) b ) ); }
    mc::outcome( uint64_t( a ) );
  } );
  mc::g().bound += std::to_string( v.size() ) + " values, " + ( step ? "pairs thinned; " : "all pairs; " );
}
#define INTS( T ) MC_JOB( "integers " #T ) { integerPairs< T >( #T ); }
INTS( signed char )
INTS( unsigned char )
INTS( short )
INTS( unsigned short )
INTS( int )
INTS( unsigned )
INTS( long )
INTS( unsigned long )
INTS( long long )

MC_JOB( "values per type and conversions" )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    static double const V[] = { 0, 1, -1, 0.5, 3.25, 100, -77 };
    double const x = V[ c.choose( 7, "value" ) ];
    static_assert( same< M::SingleType< float >, float > && same< M::SingleType< int >, int > && M::numValues< float >() == 1 && M::numValues< double >() == 1 && M::numValues< Half >() == 1, "" );
    MC_EQ( M::convert< float >( x ), float( x ), "convert" ); MC_EQ( M::convert< int >( x ), int( x ), "convert" ); MC_EQ( M::convert< double >( int( x ) ), double( int( x ) ), "convert" );
    static_assert( same< decltype( M::convert< float >( x ) ), float >, "" );
    mc::outcome( show( x ) );
  } );
}

/* The approximations for half-precision types, to half precision.  They are only
 * public for the half types of a device compiler, so they may also be absent. */
namespace LvArray { namespace math { namespace internal {} } }
namespace approx
{
using namespace LvArray::math::internal;
template< typename T > auto asin_( T x, int ) -> decltype( float( asinImpl( x ).v ) ) { return asinImpl( x ).v; }
template< typename T > float asin_( T x, long ) { return std::asin( x.v ); }
template< typename T > auto acos_( T x, int ) -> decltype( float( acosImpl( x ).v ) ) { return acosImpl( x ).v; }
template< typename T > float acos_( T x, long ) { return std::acos( x.v ); }
template< typename T > auto atan2_( T y, T x, int ) -> decltype( float( atan2Impl( y, x ).v ) ) { return atan2Impl( y, x ).v; }
template< typename T > float atan2_( T y, T x, long ) { return std::atan2( y.v, x.v ); }
}
static float halfBits( unsigned h )
{ int const s = h >> 15, e = h >> 10 & 31, m = h & 1023; float const v = e == 0 ? std::ldexp( float( m ), -24 ) : std::ldexp( float( 1024 + m ), e - 25 ); return s ? -v : v; }
MC_JOB( "half precision asin and acos" )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    float const x = halfBits( c.choose( 65536, "half" ) );
    if( !( std::fabs( x ) <= 1 ) ) return;
    float const a = approx::asin_( Half( x ), 0 ), b = approx::acos_( Half( x ), 0 );
    MC_CHECK( std::fabs( a - std::asin( x ) ) < 1e-3 * std::max( 1.0f, std::fabs( std::asin( x ) ) ), "asin of " << x << " gave " << a );
    MC_CHECK( std::fabs( b - std::acos( x ) ) < 1e-3 * std::max( 1.0f, std::acos( x ) ), "acos of " << x << " gave " << b );
    mc::outcome( show( a ) );
  } );
}
MC_JOB( "half precision atan2" )
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    int const hop = mc::thorough() ? 16 : 64;
    float const y = halfBits( c.choose( 63488 / hop, "y" ) * hop % 63488 ), x = halfBits( c.choose( 63488 / hop, "x" ) * hop % 63488 );
    if( ( x == 0 && y == 0 ) || std::fabs( x ) > 65504 || std::fabs( y ) > 65504 || ( y == 0 && std::signbit( y ) ) ) return;
    float const a = approx::atan2_( Half( y ), Half( x ), 0 ), w = std::atan2( y, x );
    if( !( std::fabs( a - w ) < 1e-3 * std::max( 1.0f, std::fabs( w ) ) ) ) mc::violation( "atan2( " + show( y ) + ", " + show( x ) + " ) gave " + show( a ) + ", expected " + show( w ) );
    mc::g().outcomes.insert( uint64_t( int( a * 50 ) ) );
  } );
}
MC_MAIN
