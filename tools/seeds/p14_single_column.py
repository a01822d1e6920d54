ID='p14-single-column'; PROPERTY='P14'
NEEDS='two threads adding a single column each to the same matrix row through the linear search'
BREAKS='a contribution of one column is added without the atomic policy, so concurrent updates are lost'
EDITS=[('src/CRSMatrixView.hpp', '      internal::atomicAdd( AtomicPolicy{}, entries + curPos, vals[ i ] );\n      ++curPos;', '      if( nCols == 1 ) entries[ curPos ] += vals[ i ]; else internal::atomicAdd( AtomicPolicy{}, entries + curPos, vals[ i ] );\n      ++curPos;')]
FLAGS='-O1'
DEMO=r'''
#include "CRSMatrix.hpp"
#include "MallocBuffer.hpp"
#include <cstdio>
#include <thread>
#include <vector>
#include <atomic>
int main()
{
  constexpr int T = 8, N = 200000;
  LvArray::CRSMatrix< double, int, int, LvArray::MallocBuffer > m( 1, 4, 4 );
  for( int i = 0; i < 4; ++i ) m.insertNonZero( 0, i, 0. );
  auto v = m.toViewConstSizes();
  std::atomic< int > go( 0 );
  std::vector< std::thread > t;
  for( int k = 0; k < T; ++k ) t.emplace_back( [&] {
    ++go; while( go < T ) {}
    int const c = 2; double const x = 1;
    for( int i = 0; i < N; ++i ) v.addToRow< RAJA::auto_atomic >( 0, &c, &x, 1 );
  } );
  for( auto & x : t ) x.join();
  if( m.getEntries( 0 )[ 2 ] != double( T ) * N ) { printf( "sum %g\n", m.getEntries( 0 )[ 2 ] ); return 1; }
  return 0;
}
'''
