ID="p13-two-step-slot"; PROPERTY="P13"
NEEDS="two threads calling emplaceBackAtomic on the same inner array, the second between the first one's read of the size and its increment"
BREAKS="the slot to write is read before the size is incremented atomically, so two threads can claim one slot and another is never written"
EDITS=[("src/ArrayOfArraysView.hpp","INDEX_TYPE const previousSize = RAJA::atomicInc< POLICY >( &m_sizes[ i ] );","INDEX_TYPE const previousSize = m_sizes[ i ];\n    RAJA::atomicInc< POLICY >( &m_sizes[ i ] );")]
FLAGS="-O1"
DEMO=r'''
#include "ArrayOfArrays.hpp"
#include "MallocBuffer.hpp"
#include <cstdio>
#include <thread>
#include <vector>
#include <atomic>
int main()
{
  constexpr int T = 8, N = 200000;
  LvArray::ArrayOfArrays< long, int, LvArray::MallocBuffer > a( 1, T * N );
  auto v = a.toView();
  std::atomic< int > go( 0 );
  std::vector< std::thread > t;
  for( int k = 0; k < T; ++k ) t.emplace_back( [&, k] {
    ++go; while( go < T ) {}
    for( int i = 0; i < N; ++i ) v.emplaceBackAtomic< RAJA::auto_atomic >( 0, long( k ) * N + i );
  } );
  for( auto & x : t ) x.join();
  if( a.sizeOfArray( 0 ) != T * N ) { printf( "size %d\n", a.sizeOfArray( 0 ) ); return 1; }
  std::vector< char > seen( T * N, 0 );
  for( long x : a[ 0 ] ) { if( x < 0 || x >= T * N || seen[ x ]++ ) { printf( "value %ld lost or doubled\n", x ); return 1; } }
  for( char c : seen ) if( !c ) return 1;
  return 0;
}
'''
