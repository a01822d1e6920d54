/* Containers on LvArray::ChaiBuffer in a build without a device: the histories
 * of the other buffers, with elements whose lifetimes are tracked. */
#define NO_MOVED_FROM
#define LVARRAY_USE_CHAI
#define LVARRAY_USE_UMPIRE
#include "ChaiBuffer.hpp"
#include "sys_array1d.hpp"
#include "sys_sorted.hpp"
#include "sys_aoa.hpp"
#include "sys_aos.hpp"
#include "sys_crs.hpp"
#include "umpireInterface.cpp"
using LvArray::ChaiBuffer;
struct Fail { Fail() { mockmem::state().fail = []( std::string const & m ) { mc::violation( m ); }; } };
static Fail fail_;
#ifndef QD
#define QD 3
#define TD 4
#endif
template< typename SYS > void explore()
{ mc::HistoryOptions o; o.depth = mc::thorough() ? TD : QD; o.noMerge = 2; mc::exploreHistories< SYS >( o );
  MC_CHECK( mockmem::state().blocks.empty() && mockmem::state().records.empty(), "memory left after every owner was destroyed" ); }
MC_JOB( "vector-like array on ChaiBuffer" ) { explore< Array1D< elem::Movable, ChaiBuffer, 4 > >(); }
MC_JOB( "sorted array on ChaiBuffer" ) { explore< Sorted< elem::Movable, ChaiBuffer, 3 > >(); }
MC_JOB( "array of arrays on ChaiBuffer" ) { explore< AoA< elem::Movable, ChaiBuffer, 2, 2 > >(); }
MC_JOB( "array of sets on ChaiBuffer" ) { explore< AoS< elem::Movable, ChaiBuffer, 2, 3 > >(); }
MC_JOB( "sparsity pattern on ChaiBuffer" ) { explore< Crs< void, ChaiBuffer, 2, 3 > >(); }
MC_JOB( "sparse matrix on ChaiBuffer" ) { explore< Crs< elem::Movable, ChaiBuffer, 2, 3 > >(); }
MC_MAIN
