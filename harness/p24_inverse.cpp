/* P24: inverses and symmetric eigensystems of every 2x2 and 3x3 matrix over a small integer domain, at several scales,
 * shifts and perturbations, compared with exact cofactors and with a Jacobi iteration in long double. */
#include "lv.hpp"
#include "Array.hpp"
#include "MallocBuffer.hpp"
#include "tensorOps.hpp"
#include "genericTensorOps.hpp"
#include "fixedSizeSquareMatrixOps.hpp"
using LvArray::MallocBuffer;
namespace to = LvArray::tensorOps;
using LD = long double;
template< typename T > constexpr LD eps() { return std::numeric_limits< T >::epsilon(); }

/* storage of a vector or a matrix: a C array, or a slice whose entries are not adjacent */
template< int K, typename T, int M > struct Vec;
template< typename T, int M > struct Vec< 0, T, M > { T d[ M ]; T & at( int i ) { return d[ i ]; } auto & ref() { return d; } };
template< typename T, int M > struct Vec< 1, T, M > { LvArray::Array< T, 2, camp::idx_seq< 1, 0 >, long, MallocBuffer > d{ 2, M }; T & at( int i ) { return d( 1, i ); } auto ref() { return d[ 1 ]; } };
template< int K, typename T, int M > struct Mat;
template< typename T, int M > struct Mat< 0, T, M > { T d[ M ][ M ]; T & at( int i, int j ) { return d[ i ][ j ]; } auto & ref() { return d; } };
template< typename T, int M > struct Mat< 1, T, M > { LvArray::Array< T, 3, camp::idx_seq< 2, 1, 0 >, long, MallocBuffer > d{ 2, M, M }; T & at( int i, int j ) { return d( 1, i, j ); } auto ref() { return d[ 1 ]; } };

static int const P3[ 3 ][ 3 ] = { { 0, 5, 4 }, { 5, 1, 3 }, { 4, 3, 2 } };
static int const P2[ 2 ][ 2 ] = { { 0, 2 }, { 2, 1 } };
template< int M > int packed( int i, int j ) { return M == 2 ? P2[ i ][ j ] : P3[ i ][ j ]; }

template< int M > LD det( LD const ( &a )[ M ][ M ] )
{
  if constexpr( M == 2 ) return a[ 0 ][ 0 ] * a[ 1 ][ 1 ] - a[ 0 ][ 1 ] * a[ 1 ][ 0 ];
  else { LD r = 0; for( int j = 0; j < 3; ++j ) r += a[ 0 ][ j ] * ( a[ 1 ][ ( j + 1 ) % 3 ] * a[ 2 ][ ( j + 2 ) % 3 ] - a[ 1 ][ ( j + 2 ) % 3 ] * a[ 2 ][ ( j + 1 ) % 3 ] ); return r; }
}
template< int M > LD norm( LD const ( &a )[ M ][ M ] ) { LD r = 0; for( auto & x : a ) for( LD v : x ) r = std::max( r, std::fabs( v ) ); return r; }

#if PART == 0 || PART == 1
/* ---- inverses ---- */
template< int M, typename DST > static void checkInverse( LD const ( &a )[ M ][ M ], LD d, LD returned, DST && entry, LD e, char const * what )
{
  LD n = norm( a ), p = 1; for( int i = 1; i < M; ++i ) p *= n;
  MC_CHECK( std::fabs( returned - d ) <= 16 * e * p * n, what << " returned the determinant " << double( returned ) << " instead of " << double( d ) );
  LD const bound = 64 * e * ( p / std::fabs( d ) ) * ( 1 + p * n / std::fabs( d ) );
  for( int i = 0; i < M; ++i ) for( int j = 0; j < M; ++j )
  {
    LD s = 0, x = 0; for( int k = 0; k < M; ++k ) { s += a[ i ][ k ] * entry( k, j ); x += std::fabs( a[ i ][ k ] ); }
    MC_CHECK( std::fabs( s - ( i == j ) ) <= bound * x, what << ": entry " << i << "," << j << " of the matrix times its inverse is " << double( s ) );
  }
}
template< int M, bool SYM, typename S, typename T, int K > static void inverses( mc::Chooser & c, std::vector< LD > const & values, LD scale )
{
  LD a[ M ][ M ];
  for( int i = 0; i < M; ++i ) for( int j = 0; j < M; ++j ) a[ i ][ j ] = SYM && j < i ? a[ j ][ i ] : LD( S( values[ c.choose( int( values.size() ), "entry" ) ] * scale ) );
  LD const d = det( a );
  if( std::fabs( d ) < 1e-3L * std::pow( scale, LD( M ) ) ) return;   // a singular matrix
  if constexpr( !SYM )
  {
    Mat< K, S, M > src; Mat< K, T, M > dst;
    for( int i = 0; i < M; ++i ) for( int j = 0; j < M; ++j ) { src.at( i, j ) = S( a[ i ][ j ] ); dst.at( i, j ) = 99; }
    MC_CHECK( std::fabs( LD( to::determinant< M >( src.ref() ) ) - d ) <= 16 * eps< T >() * norm( a ) * norm( a ) * ( M == 3 ? norm( a ) : 1 ), "determinant" );
    LD r = to::invert< M >( dst.ref(), src.ref() );
    checkInverse( a, d, r, [&]( int i, int j ) { return LD( dst.at( i, j ) ); }, eps< T >(), "invert" );
    for( int i = 0; i < M; ++i ) for( int j = 0; j < M; ++j ) { MC_CHECK( src.at( i, j ) == S( a[ i ][ j ] ), "invert changed its source" ); dst.at( i, j ) = T( a[ i ][ j ] ); }
    r = to::invert< M >( dst.ref() );
    checkInverse( a, d, r, [&]( int i, int j ) { return LD( dst.at( i, j ) ); }, eps< T >(), "invert in place" );
  }
  else
  {
    constexpr int N = M * ( M + 1 ) / 2;
    Vec< K, S, N > src; Vec< K, T, N > dst;
    for( int i = 0; i < N; ++i ) dst.at( i ) = 99;
    for( int i = 0; i < M; ++i ) for( int j = i; j < M; ++j ) src.at( packed< M >( i, j ) ) = S( a[ i ][ j ] );
    LD r = to::symInvert< M >( dst.ref(), src.ref() );
    checkInverse( a, d, r, [&]( int i, int j ) { return LD( dst.at( packed< M >( i, j ) ) ); }, eps< T >(), "symInvert" );
    for( int i = 0; i < M; ++i ) for( int j = i; j < M; ++j ) { MC_CHECK( src.at( packed< M >( i, j ) ) == S( a[ i ][ j ] ), "symInvert changed its source" ); dst.at( packed< M >( i, j ) ) = T( a[ i ][ j ] ); }
    r = to::symInvert< M >( dst.ref() );
    checkInverse( a, d, r, [&]( int i, int j ) { return LD( dst.at( packed< M >( i, j ) ) ); }, eps< T >(), "symInvert in place" );
  }
}
/* ---- normalisation ---- */
template< typename T, int M, int K > static void normalise( mc::Chooser & c )
{
  static LD const V[] = { 0, 1, -2, 0.75L, 1e3L }, SC[] = { 1, 1e-8L, 1e7L };
  Vec< K, T, M > v; LD a[ M ], n = 0; LD const sc = SC[ c.choose( 3, "scale" ) ];
  for( int i = 0; i < M; ++i ) { v.at( i ) = T( V[ c.choose( M < 5 ? 5 : 3, "entry" ) ] * sc ); a[ i ] = v.at( i ); n += a[ i ] * a[ i ]; }
  if( n == 0 ) return;
  n = std::sqrt( n );
  LD const q = to::l2Norm< M >( v.ref() ), r = to::normalize< M >( v.ref() ), e = 16 * eps< T >();
  MC_CHECK( std::fabs( q - n ) <= e * n, "l2Norm is " << double( q ) << " instead of " << double( n ) );
  MC_CHECK( std::fabs( r - n ) <= e * n, "normalize returned " << double( r ) << " instead of the norm " << double( n ) );
  for( int i = 0; i < M; ++i ) MC_CHECK( std::fabs( v.at( i ) - a[ i ] / n ) <= e, "entry " << i << " of the normalised vector is " << double( v.at( i ) ) << " instead of " << double( a[ i ] / n ) );
}
template< typename T, int K > static void normaliseJob( char const * type )
{
  mc::jobs().push_back( { std::string( "normalise " ) + type, [] { mc::g().bound += "vectors of length 1 to 6, 3 scales; ";
    mc::enumerate( []( mc::Chooser & c ) { switch( c.choose( 5, "length" ) ) { case 0: return normalise< T, 1, K >( c ); case 1: return normalise< T, 2, K >( c ); case 2: return normalise< T, 3, K >( c ); case 3: return normalise< T, 4, K >( c ); default: return normalise< T, 6, K >( c ); } }, false ); }, false } );
}
template< int M, bool SYM, typename S, typename T, int K > static void inverseJob( char const * types )
{
  mc::jobs().push_back( { std::string( SYM ? "symmetric " : "general " ) + std::to_string( M ) + "x" + std::to_string( M ) + " inverse " + types + ( K ? " strided" : "" ), [] {
    std::vector< LD > v{ 0, 1, -1, 2 };
    if( M == 2 || SYM ) v = { 0, 1, -1, 2, -3, 5, 7 };
    if( mc::thorough() ) { v.push_back( 4 ); if( SYM || M == 2 ) { v.push_back( -9 ); v.push_back( 0.5 ); } }
    std::vector< LD > scales{ 1 };
    if( !std::is_integral< S >::value ) { scales.push_back( 1e-3L ); if( M == 2 || SYM || mc::thorough() ) for( LD s : { 1e6L, 3e-5L, 1e5L } ) scales.push_back( s ); }
    mc::g().bound += "entries from " + std::to_string( v.size() ) + " values, " + std::to_string( scales.size() ) + " scales; ";
    mc::enumerate( [&]( mc::Chooser & c ) { inverses< M, SYM, S, T, K >( c, v, scales[ c.choose( int( scales.size() ), "scale" ) ] ); }, false ); }, false } );
}
#else
/* ---- symmetric eigensystems ---- */
/* eigenvalues, ascending, by Jacobi rotations */
template< int M > static void jacobi( LD a[ M ][ M ], LD w[ M ] )
{
  for( int sweep = 0; sweep < 60; ++sweep )
  {
    LD off = 0; for( int i = 0; i < M; ++i ) for( int j = i + 1; j < M; ++j ) off += std::fabs( a[ i ][ j ] );
    if( off == 0 ) break;
    for( int p = 0; p < M; ++p ) for( int q = p + 1; q < M; ++q )
    {
      if( a[ p ][ q ] == 0 ) continue;
      LD const th = ( a[ q ][ q ] - a[ p ][ p ] ) / ( 2 * a[ p ][ q ] ), t = ( th >= 0 ? 1 : -1 ) / ( std::fabs( th ) + std::sqrt( th * th + 1 ) ), cs = 1 / std::sqrt( t * t + 1 ), sn = t * cs;
      for( int k = 0; k < M; ++k ) { LD x = a[ k ][ p ], y = a[ k ][ q ]; a[ k ][ p ] = cs * x - sn * y; a[ k ][ q ] = sn * x + cs * y; }
      for( int k = 0; k < M; ++k ) { LD x = a[ p ][ k ], y = a[ q ][ k ]; a[ p ][ k ] = cs * x - sn * y; a[ q ][ k ] = sn * x + cs * y; }
      a[ p ][ q ] = a[ q ][ p ] = 0;
    }
  }
  for( int i = 0; i < M; ++i ) w[ i ] = a[ i ][ i ];
  std::sort( w, w + M );
}
template< int M, typename S, typename T, int K > static void eigen( mc::Chooser & c, std::vector< LD > const & values, LD scale, LD shift, LD perturb )
{
  constexpr int N = M * ( M + 1 ) / 2;
  Vec< K, S, N > src; Vec< K, T, M > w, w2; Mat< K, T, M > v;
  LD a[ M ][ M ], b[ M ][ M ], ref[ M ];
  int const target = perturb != 0 ? c.choose( N, "perturbed entry" ) : -1;
  for( int i = 0; i < M; ++i ) for( int j = i; j < M; ++j )
  {
    LD x = values[ c.choose( int( values.size() ), "entry" ) ];
    if( packed< M >( i, j ) == target ) x += perturb;
    if( i == j ) x += shift;
    src.at( packed< M >( i, j ) ) = S( x * scale );
    a[ i ][ j ] = a[ j ][ i ] = src.at( packed< M >( i, j ) );
  }
  memcpy( b, a, sizeof( a ) ); jacobi< M >( b, ref );
  LD const n = norm( a );
  for( int i = 0; i < M; ++i ) { w.at( i ) = w2.at( i ) = 99; for( int j = 0; j < M; ++j ) v.at( i, j ) = 99; }
  to::symEigenvalues< M >( w.ref(), src.ref() );
  to::symEigenvectors< M >( w2.ref(), v.ref(), src.ref() );
  for( int i = 0; i < M; ++i ) for( int j = i; j < M; ++j ) MC_CHECK( LD( src.at( packed< M >( i, j ) ) ) == a[ i ][ j ], "the source matrix changed" );
  // the gap next to each eigenvalue decides how well the closed formulas can do
  LD gap = M == 2 ? ref[ 1 ] - ref[ 0 ] : std::min( ref[ 1 ] - ref[ 0 ], ref[ M - 1 ] - ref[ 1 ] );
  LD spread = ref[ M - 1 ] - ref[ 0 ];
  LD const e = eps< T >(), rounding = 16 * e;
  LD const close = M == 2 ? rounding : rounding + ( gap > 0 ? std::min( 4 * std::sqrt( e ), 64 * e * spread / gap ) : 4 * std::sqrt( e ) );
  for( int i = 0; i < M; ++i )
  {
    MC_CHECK( std::fabs( w.at( i ) - ref[ i ] ) <= close * n, "eigenvalue " << i << " is " << double( w.at( i ) ) << " instead of " << double( ref[ i ] ) );
    MC_CHECK( std::fabs( w2.at( i ) - ref[ i ] ) <= close * n, "eigenvalue " << i << " returned with the eigenvectors is " << double( w2.at( i ) ) << " instead of " << double( ref[ i ] ) );
    if( i ) MC_CHECK( LD( w.at( i - 1 ) ) - w.at( i ) <= rounding * n && LD( w2.at( i - 1 ) ) - w2.at( i ) <= rounding * n, "the eigenvalues are not in ascending order" );
    for( int j = 0; j <= i; ++j ) { LD s = 0; for( int k = 0; k < M; ++k ) s += LD( v.at( i, k ) ) * v.at( j, k ); MC_CHECK( std::fabs( s - ( i == j ) ) <= ( i == j ? rounding : close ), "inner product of eigenvectors " << i << " and " << j << " is " << double( s ) ); }
    for( int k = 0; k < M; ++k ) { LD s = 0; for( int l = 0; l < M; ++l ) s += a[ k ][ l ] * v.at( i, l ); MC_CHECK( std::fabs( s - LD( w2.at( i ) ) * v.at( i, k ) ) <= close * n, "eigenvector " << i << " is not scaled by its eigenvalue: off by " << double( s - LD( w2.at( i ) ) * v.at( i, k ) ) ); }
  }
}
template< int M, typename S, typename T, int K > static void eigenJob( char const * types )
{
  mc::jobs().push_back( { std::to_string( M ) + "x" + std::to_string( M ) + " eigensystem " + types + ( K ? " strided" : "" ), [] {
    std::vector< LD > v{ 0, 1, -1, 2 }; if( M == 2 ) v = { 0, 1, -1, 2, -3, 5, 7 };
    if( mc::thorough() ) v.push_back( M == 2 ? -9 : -3 );
    std::vector< LD > scales{ 1 }, shifts{ 0 }, perturb{ 0 };
    if( !std::is_integral< S >::value ) { scales = { 1, 1e-3L, 1e5L, 1e-10L }; shifts = { 0, 10, 1e6L }; perturb = { 0, 1e-3L, 1e-7L, -1e-9L, 1e-12L }; }
    mc::g().bound += "entries from " + std::to_string( v.size() ) + " values, " + std::to_string( scales.size() ) + " scales, " + std::to_string( shifts.size() ) + " multiples of the identity added, " + std::to_string( perturb.size() ) + " perturbations of one entry; ";
    mc::enumerate( [&]( mc::Chooser & c ) { LD sc = scales[ c.choose( int( scales.size() ), "scale" ) ], sh = shifts[ c.choose( int( shifts.size() ), "shift" ) ], p = perturb[ c.choose( int( perturb.size() ), "perturbation" ) ]; eigen< M, S, T, K >( c, v, sc, sh, p ); }, false );
  }, false } );
}
#endif
static int all = [] {
#if PART == 0
  normaliseJob< double, 0 >( "double" ); normaliseJob< float, 1 >( "float strided" );
  inverseJob< 2, false, double, double, 0 >( "double" ); inverseJob< 2, false, float, float, 1 >( "float" ); inverseJob< 2, false, int, double, 1 >( "int to double" );
  inverseJob< 2, true, double, double, 0 >( "double" ); inverseJob< 2, true, float, float, 1 >( "float" ); inverseJob< 2, true, int, double, 1 >( "int to double" );
  inverseJob< 3, true, double, double, 0 >( "double" ); inverseJob< 3, true, float, float, 1 >( "float" ); inverseJob< 3, true, int, double, 1 >( "int to double" );
#elif PART == 1
  inverseJob< 3, false, double, double, 1 >( "double" ); inverseJob< 3, false, float, float, 0 >( "float" ); inverseJob< 3, false, long, double, 1 >( "long to double" );
#elif PART == 2
  eigenJob< 2, double, double, 0 >( "double" ); eigenJob< 2, float, float, 1 >( "float" ); eigenJob< 2, int, double, 1 >( "int to double" );
#else
  eigenJob< 3, double, double, 0 >( "double" ); eigenJob< 3, float, float, 1 >( "float" ); eigenJob< 3, int, double, 1 >( "int to double" );
#endif
  return 0;
}();
MC_MAIN
