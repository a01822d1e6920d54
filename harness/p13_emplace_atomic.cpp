/* Threads appending atomically to shared inner arrays: every interleaving. */
#include "threads.hpp"
#include "ArrayOfArrays.hpp"
#include "MallocBuffer.hpp"
#ifndef ELEM
#define ELEM int
#endif
#ifndef INDEXT
#define INDEXT long
#endif
using AOA = LvArray::ArrayOfArrays< ELEM, INDEXT, LvArray::MallocBuffer >;

template< typename POLICY > void append( decltype( std::declval< AOA & >().toView() ) const & v, int i, int x, int form )
{
  if( form == 0 ) v.template emplaceBackAtomic< POLICY >( i, x );
  else { ELEM e( x ); v.template emplaceBackAtomic< POLICY >( i, e ); }
}

/* reader: one more thread reads what was there before */
static void scenario( mc::Chooser & c, int nThreads, int nOps, int nArrays, bool reader )
{
  std::vector< int > initial, slack;
  AOA a;
  int const pre = c.choose( 3, "present" );       // values already present in the target arrays
  int const spare = c.choose( 2, "spare" );       // unused capacity beyond what is needed
  std::vector< std::vector< int > > prog( nThreads );
  std::vector< int > need( nArrays, 0 );
  for( int t = 0; t < nThreads; ++t ) for( int o = 0; o < nOps; ++o ) { int const i = c.choose( nArrays, "array" ); prog[ t ].push_back( i ); ++need[ i ]; }
  int const policy = c.choose( 2, "policy" ), form = nThreads == 2 ? c.choose( 2, "form" ) : 0;
  std::vector< std::vector< ELEM > > before;
  for( int i = 0; i < nArrays + 1; ++i )            // the last array is a guard nobody touches
  {
    a.appendArray( 0 );
    int const n = i == nArrays ? 2 : ( pre + i ) % 3;
    a.setCapacityOfArray( i, n + ( i == nArrays ? 0 : need[ i ] + spare ) );
    before.emplace_back();
    for( int k = 0; k < n; ++k ) { ELEM e( 10 * ( i + 1 ) + k ); before[ i ].push_back( e ); a.emplaceBack( i, e ); }
  }
  auto const view = a.toView();
  std::vector< std::function< void() > > threads;
  for( int t = 0; t < nThreads; ++t )
    threads.push_back( [&, t] {
      for( int o = 0; o < nOps; ++o )
      {
        int const x = 1000 * ( t + 1 ) + o;
        if( policy == 0 ) append< RAJA::builtin_atomic >( view, prog[ t ][ o ], x, form ); else append< RAJA::auto_atomic >( view, prog[ t ][ o ], x, form );
      }
    } );
  std::vector< std::vector< ELEM > > seen( nArrays );
  if( reader )
    threads.push_back( [&] { for( int i = 0; i < nArrays; ++i ) for( size_t k = 0; k < before[ i ].size(); ++k ) seen[ i ].push_back( view( i, k ) ); } );
  sched::clearWatch();
  sched::watch( view.getSizes(), sizeof( INDEXT ) * size_t( nArrays ), "the sizes" );
  sched::Options opt; opt.mixedIsRace = false;
  thr::run( c, threads, opt );
  sched::clearWatch();
  std::string out;
  for( int i = 0; i < nArrays + 1; ++i )
  {
    int const want = int( before[ i ].size() ) + ( i < nArrays ? need[ i ] : 0 );
    MC_EQ( int( a.sizeOfArray( i ) ), want, "size of array " << i );
    for( size_t k = 0; k < before[ i ].size(); ++k ) MC_CHECK( a( i, k ) == before[ i ][ k ], "value " << k << " of array " << i << " was there before and changed to " << thr::num( a( i, k ) ) );
    std::multiset< long > got, exp;
    for( int k = int( before[ i ].size() ); k < want; ++k ) { MC_CHECK( thr::sane( a( i, k ) ), "a torn value in array " << i ); got.insert( thr::num( a( i, k ) ) ); out += std::to_string( thr::num( a( i, k ) ) ) + ","; }
    for( int t = 0; t < nThreads && i < nArrays; ++t ) for( int o = 0; o < nOps; ++o ) if( prog[ t ][ o ] == i ) exp.insert( 1000 * ( t + 1 ) + o );
    if( got != exp )
    {
      std::ostringstream s; s << "array " << i << " holds"; for( long x : got ) s << " " << x; s << " after appending"; for( long x : exp ) s << " " << x;
      mc::violation( s.str() );
    }
    out += ";";
  }
  if( reader ) for( int i = 0; i < nArrays; ++i ) MC_CHECK( seen[ i ] == before[ i ], "a reader saw other values than those present before" );
  mc::outcome( out );
}
MC_JOB( "2 threads, 2 appends each, 2 arrays" ) { mc::enumerate( [&]( mc::Chooser & c ) { scenario( c, 2, 2, 2, false ); } ); mc::g().bound += "every interleaving at atomic operations and at accesses to the sizes; "; }
MC_JOB( "3 threads, 1 append each, 2 arrays" ) { mc::enumerate( [&]( mc::Chooser & c ) { scenario( c, 3, 1, 2, false ); } ); mc::g().bound += "every interleaving; "; }
MC_JOB( "2 threads, 1 append each, and a reader" ) { mc::enumerate( [&]( mc::Chooser & c ) { scenario( c, 2, 1, 2, true ); } ); mc::g().bound += "every interleaving; "; }
MC_JOB( "2 threads, 3 appends each, 1 array" ) { mc::enumerate( [&]( mc::Chooser & c ) { scenario( c, 2, 3, 1, false ); } ); mc::g().bound += "every interleaving; "; }
MC_JOB( "3 threads, 2 appends each, 2 arrays" ) { mc::enumerate( [&]( mc::Chooser & c ) { scenario( c, 3, 2, 2, false ); } ); mc::g().bound += "every interleaving; "; }
MC_JOB( "4 threads, 1 append each, 2 arrays" ) { mc::enumerate( [&]( mc::Chooser & c ) { scenario( c, 4, 1, 2, false ); } ); mc::g().bound += "every interleaving; "; }
MC_JOB( "2 threads, 5 appends each, 1 array" ) { mc::enumerate( [&]( mc::Chooser & c ) { scenario( c, 2, 5, 1, false ); } ); mc::g().bound += "every interleaving; "; }
MC_MAIN
