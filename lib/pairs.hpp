/* Copying and moving between every pair of reachable states of one container type.
 * SYS as for exploreHistories, with `a` (unique_ptr to the object) and
 *   void adopt( SYS const & );   // take over the model of the other
 *   void forget();               // the model of a moved-from object
 *   bool onMovedFrom( int op );  // may this operation be applied to a moved-from object */
#pragma once
#include "mc.hpp"
#include "elem.hpp"
#include <memory>

namespace mc
{
template< typename SYS >
std::vector< std::vector< int > > reachable( int depth, size_t limit )
{
  std::vector< std::vector< int > > r; std::set< std::string > seen;
  size_t first = 0;
  for( int s = 0; s < SYS::starts(); ++s ) { SYS y( s ); Key k; y.key( k ); if( seen.insert( k.b ).second ) r.push_back( { s } ); }
  for( int d = 0; d < depth; ++d )
  {
    size_t const last = r.size();
    for( size_t i = first; i < last; ++i )
    {
      std::vector< int > en;
      { SYS y( r[ i ][ 0 ] ); for( size_t k = 1; k < r[ i ].size(); ++k ) y.apply( r[ i ][ k ] ); for( int o = 0; o < y.nOps(); ++o ) if( y.enabled( o ) ) en.push_back( o ); }
      for( int o : en )
      {
        std::vector< int > h = r[ i ]; h.push_back( o );
        SYS y( h[ 0 ] ); for( size_t k = 1; k < h.size(); ++k ) y.apply( h[ k ] );
        Key k; y.key( k );
        if( seen.insert( k.b ).second ) { r.push_back( h ); if( r.size() >= limit ) return r; }
      }
    }
    first = last;
  }
  return r;
}
template< typename SYS > std::unique_ptr< SYS > build( std::vector< int > const & h )
{ auto s = std::make_unique< SYS >( h[ 0 ] ); for( size_t k = 1; k < h.size(); ++k ) s->apply( h[ k ] ); return s; }
template< typename SYS > std::string describeHistory( std::vector< int > const & h )
{ SYS s( h[ 0 ] ); std::string r = "[" + SYS::startName( h[ 0 ] ) + "]"; for( size_t k = 1; k < h.size(); ++k ) r += " " + s.opName( h[ k ] ); return r; }

template< typename SYS >
void explorePairs( int depth, size_t limit )
{
  auto const states = reachable< SYS >( depth, limit );
  int const n = int( states.size() ), few = SYS::starts();
  using A = typename std::remove_reference< decltype( *std::declval< SYS >().a ) >::type;
  elem::severalOwners() = true;
  static char const * const modes[] = { "copy construction", "copy assignment", "move construction", "move assignment" };
  enumerate( [&]( Chooser & c ) {
    int const x = c.choose( n, "source" );
    int const mode = c.choose( 4, "how" );
    bool const assign = mode & 1, moves = mode >= 2;
    int const y = assign ? c.choose( n, "destination" ) : 0;
    std::vector< int > const hy = assign ? states[ y ] : std::vector< int >{ 0 };
    auto src = build< SYS >( states[ x ] ), dst = build< SYS >( hy );
    context() = std::string( modes[ mode ] ) + " from " + describeHistory< SYS >( states[ x ] ) + ( assign ? " to " + describeHistory< SYS >( hy ) : std::string() );
    dst->adopt( *src );
    switch( mode )
    {
      case 0: dst->a = std::make_unique< A >( *src->a ); break;
      case 1: *dst->a = *src->a; break;
      case 2: dst->a = std::make_unique< A >( std::move( *src->a ) ); src->forget(); break;
      case 3: *dst->a = std::move( *src->a ); src->forget(); break;
    }
    dst->check();
    src->check();
    /* then every single operation on either side, and the other must not notice */
    if( !assign || y < few )
    {
      int const side = c.choose( 2, "side" );
      SYS & act = side ? *src : *dst; SYS & other = side ? *dst : *src;
      std::vector< int > en;
      for( int o = 0; o < act.nOps(); ++o ) if( act.enabled( o ) && !( moves && side && !act.onMovedFrom( o ) ) ) en.push_back( o );
      int const k = c.choose( int( en.size() ) + 2, "operation" );
      if( k == int( en.size() ) ) { /* destroy one side first */ if( side ) src.reset(); else dst.reset(); ( side ? *dst : *src ).check(); }
      else if( k < int( en.size() ) )
      {
        context() += std::string( ", then " ) + act.opName( en[ k ] ) + " on the " + ( side ? "source" : "destination" );
        act.apply( en[ k ] ); act.check(); other.check();
      }
    }
    src.reset(); dst.reset();
    elem::severalOwners() = false; elem::checkNoneLeft(); elem::severalOwners() = true;
    context().clear();
  }, true );
  g().bound += "all " + std::to_string( n ) + "^2 pairs of states reachable by " + std::to_string( depth ) + " operation(s), each copy and move, then every single operation on either side; ";
}
}
