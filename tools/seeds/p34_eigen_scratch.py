ID='p34-eigen-scratch'; PROPERTY='P34'
NEEDS='two threads computing the eigenvectors of different 3x3 matrices at the same time'
BREAKS='the working copy of the matrix is shared by all threads, so a thread gets eigenvectors of a mixture of two matrices'
EDITS=[('src/fixedSizeSquareMatrixOpsImpl.hpp','    FloatingPoint shift, maxEntryAfterShift;\n    FloatingPoint fpCopy[ 6 ];\n    copy< 6 >( fpCopy, symMatrix );\n    shiftAndScale< 3 >( fpCopy, shift, maxEntryAfterShift );\n\n    eigenvaluesOfShiftedMatrix( eigenvalues, fpCopy );\n\n    // compute','    FloatingPoint shift, maxEntryAfterShift;\n    static FloatingPoint fpCopy[ 6 ];\n    copy< 6 >( fpCopy, symMatrix );\n    shiftAndScale< 3 >( fpCopy, shift, maxEntryAfterShift );\n\n    eigenvaluesOfShiftedMatrix( eigenvalues, fpCopy );\n\n    // compute')]
FLAGS='-O0'
DEMO=r'''
#include "tensorOps.hpp"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <thread>
#include <vector>
static void one( int t, double ( &v )[ 3 ], double ( &m )[ 3 ][ 3 ] )
{
  double const s[ 6 ] = { 4. + t, 3. - .5 * t, 2. + .25 * t * t, .25 * t, .5, 1. - .125 * t };
  LvArray::tensorOps::symEigenvectors< 3 >( v, m, s );
}
int main()
{
  constexpr int T = 4;
  double v[ T ][ 3 ], m[ T ][ 3 ][ 3 ];
  for( int t = 0; t < T; ++t ) one( t, v[ t ], m[ t ] );
  std::atomic< int > go( 0 );
  std::atomic< bool > bad( false );
  std::vector< std::thread > th;
  for( int t = 0; t < T; ++t ) th.emplace_back( [&, t] {
    ++go; while( go < T ) {}
    for( int k = 0; k < 200000 && !bad; ++k )
    {
      double x[ 3 ], y[ 3 ][ 3 ];
      one( t, x, y );
      for( int i = 0; i < 3; ++i ) { if( x[ i ] != v[ t ][ i ] ) bad = true; for( int j = 0; j < 3; ++j ) if( y[ i ][ j ] != m[ t ][ i ][ j ] ) bad = true; }
    }
  } );
  for( auto & x : th ) x.join();
  if( bad ) { printf( "a thread's eigenvectors depend on the other threads\n" ); return 1; }
  return 0;
}
'''
