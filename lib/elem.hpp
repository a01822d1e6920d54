/* Instrumented element types. */
#pragma once
#include "mc.hpp"
#include <memory>
#include <limits>

namespace elem
{
// The registry is the harness's own state: the race monitor must not look at it.
#define ELEM_UNSEEN __attribute__(( no_sanitize( "thread" ) ))
/* Registry of live objects by address: open addressing, deterministic. */
struct Registry
{
  static constexpr size_t N = 1 << 14;
  struct Slot { void const * p = nullptr; signed char state = 0; };  // 0 free, 1 live, 2 tombstone
  Slot tab[ N ];
  long live = 0;
  long constructed = 0;
  long tombs = 0;
  ELEM_UNSEEN size_t find( void const * p, bool forInsert )
  {
    size_t h = ( reinterpret_cast< uintptr_t >( p ) >> 2 ) * 0x9e3779b97f4a7c15ull >> 50;
    size_t tomb = N;
    for( size_t k = 0; k < N; ++k )
    {
      size_t i = ( h + k ) & ( N - 1 );
      if( tab[ i ].state == 0 ) return forInsert && tomb != N ? tomb : i;
      if( tab[ i ].state == 1 && tab[ i ].p == p ) return i;
      if( tab[ i ].state == 2 && tomb == N ) tomb = i;
    }
    if( forInsert && tomb != N ) return tomb;
    violation( "harness: element registry is full" );
  }
  [[noreturn]] static void violation( char const * m ) { mc::violation( m ); }
  ELEM_UNSEEN void born( void const * p )
  {
    size_t i = find( p, true );
    if( tab[ i ].state == 1 ) violation( "an element was constructed on top of one that had not been destroyed" );
    tab[ i ].p = p; tab[ i ].state = 1; ++live; ++constructed;
  }
  ELEM_UNSEEN void died( void const * p )
  {
    size_t i = find( p, false );
    if( tab[ i ].state != 1 ) violation( "an element was destroyed twice, or never constructed" );
    tab[ i ].state = 2; --live; ++tombs;
    if( live == 0 && tombs > 300 ) reset();
  }
  ELEM_UNSEEN void used( void const * p, char const * what )
  {
    size_t i = find( p, false );
    if( tab[ i ].state != 1 ) violation( what );
  }
  ELEM_UNSEEN void reset() { for( Slot & s : tab ) s = Slot{}; live = 0; tombs = 0; }
};
ELEM_UNSEEN inline Registry & reg() { static Registry r; return r; }

/* The primary template (MOVES = false) declares only copy operations; the
 * specialisation below has a cheap move that leaves the source without value. */
template< bool MOVES >
struct Tracked
{
  static constexpr int MOVED = -777777;
  int v;
  Tracked(): v( 0 ) { reg().born( this ); }
  Tracked( int x ): v( x ) { reg().born( this ); }
  Tracked( Tracked const & o ): v( o.v ) { reg().used( &o, "copy construction from an element that does not exist" ); notMoved( o ); reg().born( this ); }
  Tracked & operator=( Tracked const & o )
  { reg().used( this, "assignment to an element that does not exist" ); reg().used( &o, "assignment from an element that does not exist" ); notMoved( o ); v = o.v; return *this; }
  ~Tracked() { reg().died( this ); v = -555555; }
  static void notMoved( Tracked const & o ) { if( o.v == MOVED ) mc::violation( "a moved-from element was used as a value" ); }
  int get() const { reg().used( this, "read of an element that does not exist" ); notMoved( *this ); return v; }
  bool operator<( Tracked const & o ) const { return get() < o.get(); }
  bool operator>( Tracked const & o ) const { return get() > o.get(); }
  bool operator==( Tracked const & o ) const { return get() == o.get(); }
  bool operator!=( Tracked const & o ) const { return get() != o.get(); }
  bool operator<=( Tracked const & o ) const { return get() <= o.get(); }
  bool operator>=( Tracked const & o ) const { return get() >= o.get(); }
};

template<>
struct Tracked< true >
{
  static constexpr int MOVED = -777777;
  int v;
  Tracked(): v( 0 ) { reg().born( this ); }
  Tracked( int x ): v( x ) { reg().born( this ); }
  Tracked( Tracked const & o ): v( o.v ) { reg().used( &o, "copy construction from an element that does not exist" ); notMoved( o ); reg().born( this ); }
  Tracked( Tracked && o ) noexcept: v( o.v ) { reg().used( &o, "move construction from an element that does not exist" ); o.v = MOVED; reg().born( this ); }
  Tracked & operator=( Tracked const & o )
  { reg().used( this, "assignment to an element that does not exist" ); reg().used( &o, "assignment from an element that does not exist" ); notMoved( o ); v = o.v; return *this; }
  Tracked & operator=( Tracked && o ) noexcept
  { reg().used( this, "assignment to an element that does not exist" ); reg().used( &o, "move assignment from an element that does not exist" ); if( &o != this ) { v = o.v; o.v = MOVED; } return *this; }
  ~Tracked() { reg().died( this ); v = -555555; }
  static void notMoved( Tracked const & o ) { if( o.v == MOVED ) mc::violation( "a moved-from element was used as a value" ); }
  int get() const { reg().used( this, "read of an element that does not exist" ); notMoved( *this ); return v; }
  bool operator<( Tracked const & o ) const { return get() < o.get(); }
  bool operator>( Tracked const & o ) const { return get() > o.get(); }
  bool operator==( Tracked const & o ) const { return get() == o.get(); }
  bool operator!=( Tracked const & o ) const { return get() != o.get(); }
  bool operator<=( Tracked const & o ) const { return get() <= o.get(); }
  bool operator>=( Tracked const & o ) const { return get() >= o.get(); }
};

using Movable = Tracked< true >;
using CopyOnly = Tracked< false >;

template< bool M > std::ostream & operator<<( std::ostream & o, Tracked< M > const & t ) { return o << t.get(); }

#ifdef WIDE_VALUES
/* Model value v stands for a value of T in the same order, spread over everything T can hold:
 * both extremes, both signs, neighbours, and differences which do not fit T. */
template< typename T > T wide( int v )
{
  using L = std::numeric_limits< T >;
  if( std::is_floating_point< T >::value )
  {
    static T const t[] = { T( -L::infinity() ), L::lowest(), T( -1 ), T( -L::denorm_min() ), T( 0 ), L::denorm_min(), L::min(), T( 1 ), T( 1ul << 53 ), T( ( 1ul << 53 ) + 2 ), T( 1e300 ) };
    return v <= 10 ? t[ v ] : T( 1e301 * v );
  }
  T const hi = L::max(), lo = L::min(), q = T( hi / 4 ), h = T( hi / 2 );
  static T const s[] = { lo, T( lo + 1 ), T( lo / 2 ), T( -1 ), 0, 1, q, T( q + 1 ), T( h + 1 ), T( h + 2 ), T( h + q ) };
  static T const u[] = { 0, 1, q, h, T( h + 1 ), T( h + 2 ), T( h + q ), T( h + q + 1 ), T( h + q + 2 ), T( h + q + 3 ), T( h + q + 4 ) };
  return v <= 10 ? ( std::is_signed< T >::value ? s : u )[ v ] : T( hi - T( 1000 - v ) );
}
template< typename T, std::enable_if_t< std::is_arithmetic< T >::value, int > = 0 >
int get( T x ) { for( int v = 0; v <= 10; ++v ) if( wide< T >( v ) == x ) return v; for( int v = 11; v < 1000; ++v ) if( wide< T >( v ) == x ) return v; return -1; }
#else
inline int get( int x ) { return x; }
inline int get( long x ) { return int( x ); }
inline int get( double x ) { return int( x ); }
#endif
inline int get( std::string const & s ) { return s.empty() ? 0 : atoi( s.c_str() + 20 ); }
template< bool M > int get( Tracked< M > const & t ) { return t.get(); }

template< typename T, typename = void > struct Make { static T make( int v ) { return T( v ); } };
#ifdef WIDE_VALUES
template< typename T > struct Make< T, std::enable_if_t< std::is_arithmetic< T >::value > > { static T make( int v ) { return wide< T >( v ); } };
#endif
template<> struct Make< std::string > { static std::string make( int v ) { return v == 0 ? std::string() : std::string( 20, '.' ) + std::to_string( 100000 + v ).substr( 1 ); } };
template< typename T > T make( int v ) { return Make< T >::make( v ); }

template< typename T > constexpr bool isTracked = false;
template< bool M > constexpr bool isTracked< Tracked< M > > = true;

/* Call when every owner is gone. */
inline bool & severalOwners() { static bool b = false; return b; }
inline void checkNoneLeft()
{ if( !severalOwners() && reg().live != 0 ) mc::violation( "elements never destroyed: " + std::to_string( reg().live ) + " still exist after every owner is gone" ); }
}
