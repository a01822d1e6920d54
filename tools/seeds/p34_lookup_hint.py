ID='p34-lookup-hint'; PROPERTY='P34'
NEEDS='two threads looking up different values in one sorted container at the same time'
BREAKS='the search starts from where the last one ended; another thread can move that position between the test and its use, so a value that is there is not found'
EDITS=[('src/sortedArrayManipulation.hpp','''  std::ptrdiff_t lower = 0;
  std::ptrdiff_t upper = size;
  while( lower != upper )
  {
    std::ptrdiff_t const guess = (lower + upper) / 2;
    if( comp( ptr[guess], value ) )
    {
      lower = guess + 1;
    }
    else
    {
      upper = guess;
    }
  }

  return lower;''','''  std::ptrdiff_t lower = 0;
  std::ptrdiff_t upper = size;

  // Lookups are often made in increasing order, so begin where the last one ended.
  static std::ptrdiff_t last = 0;
  if( last > 0 && last <= size && comp( ptr[last - 1], value ) )
  {
    lower = last;
  }

  while( lower != upper )
  {
    std::ptrdiff_t const guess = (lower + upper) / 2;
    if( comp( ptr[guess], value ) )
    {
      lower = guess + 1;
    }
    else
    {
      upper = guess;
    }
  }

  last = lower;
  return lower;''')]
FLAGS='-O0 -DNDEBUG'
DEMO=r'''
#include "SortedArray.hpp"
#include "MallocBuffer.hpp"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <thread>
#include <vector>
int main()
{
  constexpr int T = 6, N = 40;
  LvArray::SortedArray< int, int, LvArray::MallocBuffer > a;
  for( int k = 0; k < N; ++k ) a.insert( 3 * k );
  auto const v = a.toView();
  std::atomic< int > go( 0 );
  std::atomic< bool > bad( false );
  std::vector< std::thread > th;
  for( int t = 0; t < T; ++t ) th.emplace_back( [&, t] {
    ++go; while( go < T ) {}
    for( int k = 0; k < 3000000 && !bad; ++k )
    {
      int const x = t % 2 ? 3 * ( N - 1 - k % 3 ) : 3 * ( k % 3 + 1 );
      if( !v.contains( x ) || v.contains( x + 1 ) ) bad = true;
    }
  } );
  for( auto & x : th ) x.join();
  if( bad ) { printf( "a value of the set wasn't found\n" ); return 1; }
  return 0;
}
'''
