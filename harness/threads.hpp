/* Shared by the concurrent harnesses. */
#pragma once
#include "lv.hpp"
#include "sched.hpp"
namespace thr
{
/* Run the threads in the schedule the chooser picks; a race on any location is a violation. */
inline sched::Result run( mc::Chooser & c, std::vector< std::function< void() > > const & t, sched::Options const & opt = sched::Options() )
{
  std::function< int( int ) > ch = [&c]( int n ) { return c.choose( n, "run" ); };
  sched::Result r = sched::run( t, ch, opt );
  if( r.race ) mc::violation( r.text );
  return r;
}
/* A value wider than a word, so that constructing it is several writes. */
struct Wide
{
  long a, b, c;
  Wide(): a( 0 ), b( 0 ), c( 0 ) {}
  Wide( int v ): a( v ), b( v + 1000 ), c( v + 2000 ) {}
  Wide( Wide const & o ): a( o.a ), b( o.b ), c( o.c ) {}
  Wide & operator=( Wide const & o ) { a = o.a; b = o.b; c = o.c; return *this; }
  bool operator==( Wide const & o ) const { return a == o.a && b == o.b && c == o.c; }
  bool operator<( Wide const & o ) const { return a < o.a; }
  bool operator!=( Wide const & o ) const { return !( *this == o ); }
  bool operator>( Wide const & o ) const { return o < *this; }
  bool operator<=( Wide const & o ) const { return !( o < *this ); }
  bool operator>=( Wide const & o ) const { return !( *this < o ); }
  bool ok() const { return b == a + 1000 && c == a + 2000; }
};
inline bool sane( Wide const & w ) { return w.ok(); }
template< typename T > bool sane( T const & ) { return true; }
inline long num( Wide const & w ) { return w.a; }
template< typename T > long num( T const & v ) { return long( v ); }
}
