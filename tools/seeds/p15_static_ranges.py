ID='p15-static-ranges'; PROPERTY='P15'
NEEDS='two threads sorting different rows of more than 64 values at the same time'
BREAKS='the stack of ranges still to be sorted is shared by all threads, so rows are left unsorted or memory outside them is touched'
EDITS=[('src/sortedArrayManipulationHelpers.hpp','  RandomAccessIterator ranges[MAX_RANGES + 1];','  static RandomAccessIterator ranges[MAX_RANGES + 1];')]
FLAGS='-O1'
DEMO=r'''
#include "ArrayOfArrays.hpp"
#include "sortedArrayManipulation.hpp"
#include "MallocBuffer.hpp"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <thread>
#include <vector>
#include <algorithm>
#include <csignal>
int main()
{
  std::signal( SIGSEGV, []( int ) { std::_Exit( 1 ); } );
  constexpr int T = 8, N = 300;
  for( int round = 0; round < 400; ++round )
  {
    LvArray::ArrayOfArrays< int, int, LvArray::MallocBuffer > a, b;
    for( int r = 0; r < T; ++r )
    {
      a.appendArray( 0 ); a.setCapacityOfArray( r, N ); b.appendArray( 0 ); b.setCapacityOfArray( r, N );
      for( int k = 0; k < N; ++k ) { int const v = ( k * 7919 + r * 31 + round ) % 1009; a.emplaceBack( r, v ); b.emplaceBack( r, 10 * v ); }
    }
    auto const va = a.toView(); auto const vb = b.toView();
    std::atomic< int > go( 0 );
    std::vector< std::thread > t;
    for( int r = 0; r < T; ++r ) t.emplace_back( [&, r] { ++go; while( go < T ) {} LvArray::sortedArrayManipulation::dualSort( va[ r ].begin(), va[ r ].end(), vb[ r ].begin() ); } );
    for( auto & x : t ) x.join();
    for( int r = 0; r < T; ++r ) for( int k = 0; k < N; ++k )
      if( ( k && a( r, k - 1 ) > a( r, k ) ) || b( r, k ) != 10 * a( r, k ) ) { printf( "row %d isn't sorted\n", r ); std::_Exit( 1 ); }
  }
  return 0;
}
'''
