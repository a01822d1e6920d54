/* Minimal stand-in for the part of RAJA that LvArray uses.
 *
 * Atomics are implemented with the compiler's __atomic builtins and RELAXED
 * order, as RAJA's builtin / OpenMP back ends do, so a memory-instrumented
 * build sees them as atomic operations.
 * forall< POLICY > runs the body sequentially for sequential policies; for
 * RAJA::mc_parallel_exec it hands the iterations to a hook that the harness
 * installs (which enumerates orders / interleavings). */
#pragma once
#include <camp/camp.hpp>
#include <camp/resource.hpp>
#include <cstdint>
#include <cstring>
#include <functional>
#include <iterator>

namespace RAJA
{
struct seq_exec {};
struct loop_exec {};
struct omp_parallel_for_exec {};
struct mc_parallel_exec {};       // schedule chosen by the harness
template< int N > struct cuda_exec {};

struct seq_reduce {};
struct omp_reduce {};

/* Copies share the value of the original, as RAJA's reducers do. */
template< typename POLICY, typename T >
class ReduceBitAnd
{
public:
  explicit ReduceBitAnd( T const init ): m_value( init ), m_root( &m_value ) {}
  ReduceBitAnd( ReduceBitAnd const & src ): m_value( src.m_value ), m_root( src.m_root ) {}
  ReduceBitAnd const & operator&=( T const v ) const { *m_root = static_cast< T >( *m_root & v ); return *this; }
  T get() const { return *m_root; }
private:
  T m_value;
  T * m_root;
};

struct seq_atomic {};
struct builtin_atomic {};
struct omp_atomic {};
struct auto_atomic {};

using PERM_I = camp::idx_seq< 0 >;
using PERM_IJ = camp::idx_seq< 0, 1 >;
using PERM_JI = camp::idx_seq< 1, 0 >;
using PERM_IJK = camp::idx_seq< 0, 1, 2 >;
using PERM_IKJ = camp::idx_seq< 0, 2, 1 >;
using PERM_JIK = camp::idx_seq< 1, 0, 2 >;
using PERM_JKI = camp::idx_seq< 1, 2, 0 >;
using PERM_KIJ = camp::idx_seq< 2, 0, 1 >;
using PERM_KJI = camp::idx_seq< 2, 1, 0 >;

template< typename T >
class TypedRangeSegment
{
public:
  TypedRangeSegment( T b, T e ): m_b( b ), m_e( e < b ? b : e ) {}
  T lo() const { return m_b; }
  T hi() const { return m_e; }
private:
  T m_b, m_e;
};

namespace mc
{
/* Installed by the harness: run body(0..n-1) in whatever schedule it wants. */
inline std::function< void( long n, std::function< void( long ) > const & body ) > & parallelHook()
{
  static std::function< void( long, std::function< void( long ) > const & ) > hook;
  return hook;
}
/* Installed by the memory-space harness: called before the body is copied and
 * after the loop has run, as RAJA's plugins are. */
inline std::function< void( int ) > & contextHook()
{
  static std::function< void( int ) > hook;
  return hook;
}

/* Called between the copy of the body and the loop. */
inline std::function< void( int ) > & launchHook()
{
  static std::function< void( int ) > hook;
  return hook;
}

template< typename POLICY > struct Context { static constexpr int space = 1; };
template< int N > struct Context< cuda_exec< N > > { static constexpr int space = 2; };

template< typename POLICY >
struct Runner
{
  template< typename T, typename BODY >
  static void run( TypedRangeSegment< T > const & s, BODY && body )
  { for( std::remove_const_t< T > i = s.lo(); i < s.hi(); ++i ) body( i ); }
};

template<>
struct Runner< mc_parallel_exec >
{
  template< typename T, typename BODY >
  static void run( TypedRangeSegment< T > const & s, BODY && body )
  {
    T const lo = s.lo();
    std::function< void( long ) > f = [&body, lo]( long i ) { body( static_cast< T >( lo + i ) ); };
    parallelHook()( static_cast< long >( s.hi() - s.lo() ), f );
  }
};
}

template< typename POLICY, typename T, typename BODY >
inline void forall( TypedRangeSegment< T > const & s, BODY && loopBody )
{
  if( mc::contextHook() ) mc::contextHook()( mc::Context< POLICY >::space );
  {
    auto body = loopBody;                      // the capture copy RAJA makes
    if( mc::launchHook() ) mc::launchHook()( mc::Context< POLICY >::space );
    mc::Runner< POLICY >::run( s, body );
  }
  if( mc::contextHook() ) mc::contextHook()( 0 );
}

namespace mc
{
template< std::size_t N > struct uint_of;
template<> struct uint_of< 1 > { using type = std::uint8_t; };
template<> struct uint_of< 2 > { using type = std::uint16_t; };
template<> struct uint_of< 4 > { using type = std::uint32_t; };
template<> struct uint_of< 8 > { using type = std::uint64_t; };

template< typename T, typename OP >
inline T casLoop( T * acc, OP && op )
{
  using U = typename uint_of< sizeof( T ) >::type;
  U * const p = reinterpret_cast< U * >( acc );
  U expected = __atomic_load_n( p, __ATOMIC_RELAXED );
  for(;; )
  {
    T cur;
    std::memcpy( &cur, &expected, sizeof( T ) );
    T const next = op( cur );
    U desired;
    std::memcpy( &desired, &next, sizeof( T ) );
    if( __atomic_compare_exchange_n( p, &expected, desired, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED ) )
      return cur;
  }
}

template< typename POLICY >
struct Atomic
{
  template< typename T >
  static std::enable_if_t< std::is_integral< T >::value, T > add( T * acc, T v )
  { return __atomic_fetch_add( acc, v, __ATOMIC_RELAXED ); }
  template< typename T >
  static std::enable_if_t< !std::is_integral< T >::value, T > add( T * acc, T v )
  { return casLoop( acc, [v]( T c ) { return c + v; } ); }
  template< typename T > static T min( T * acc, T v )
  { return casLoop( acc, [v]( T c ) { return v < c ? v : c; } ); }
  template< typename T > static T max( T * acc, T v )
  { return casLoop( acc, [v]( T c ) { return c < v ? v : c; } ); }
  template< typename T > static T exchange( T * acc, T v )
  { return casLoop( acc, [v]( T ) { return v; } ); }
  template< typename T > static T CAS( T * acc, T cmp, T v )
  {
    T e = cmp;
    __atomic_compare_exchange_n( acc, &e, v, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED );
    return e;
  }
};
template<>
struct Atomic< seq_atomic >
{
  template< typename T > static T add( T * acc, T v ) { T o = *acc; *acc = o + v; return o; }
  template< typename T > static T min( T * acc, T v ) { T o = *acc; if( v < o ) *acc = v; return o; }
  template< typename T > static T max( T * acc, T v ) { T o = *acc; if( o < v ) *acc = v; return o; }
  template< typename T > static T exchange( T * acc, T v ) { T o = *acc; *acc = v; return o; }
  template< typename T > static T CAS( T * acc, T c, T v ) { T o = *acc; if( o == c ) *acc = v; return o; }
};
}

template< typename POLICY, typename T > inline T atomicAdd( T * acc, T v ) { return mc::Atomic< POLICY >::add( acc, v ); }
template< typename POLICY, typename T > inline T atomicSub( T * acc, T v ) { return mc::Atomic< POLICY >::add( acc, T( -v ) ); }
template< typename POLICY, typename T > inline T atomicInc( T * acc ) { return mc::Atomic< POLICY >::add( acc, T( 1 ) ); }
template< typename POLICY, typename T > inline T atomicDec( T * acc ) { return mc::Atomic< POLICY >::add( acc, T( -1 ) ); }
template< typename POLICY, typename T > inline T atomicMin( T * acc, T v ) { return mc::Atomic< POLICY >::min( acc, v ); }
template< typename POLICY, typename T > inline T atomicMax( T * acc, T v ) { return mc::Atomic< POLICY >::max( acc, v ); }
template< typename POLICY, typename T > inline T atomicExchange( T * acc, T v ) { return mc::Atomic< POLICY >::exchange( acc, v ); }
template< typename POLICY, typename T > inline T atomicCAS( T * acc, T c, T v ) { return mc::Atomic< POLICY >::CAS( acc, c, v ); }
template< typename POLICY, typename T > inline T atomicLoad( T * acc ) { return __atomic_load_n( acc, __ATOMIC_RELAXED ); }
template< typename POLICY, typename T > inline void atomicStore( T * acc, T v ) { __atomic_store_n( acc, v, __ATOMIC_RELAXED ); }

namespace operators
{
template< typename T > struct plus { T operator()( T a, T b ) const { return a + b; } };
}

template< typename POLICY, typename IT, typename OUT >
inline void inclusive_scan( IT first, IT last, OUT out )
{
  // Real RAJA asserts on / misbehaves for an empty range; LvArray guards it.
  if( first == last ) { std::abort(); }
  auto acc = *first;
  *out = acc;
  for( ++first, ++out; first != last; ++first, ++out )
  { acc = acc + *first; *out = acc; }
}
template< typename POLICY, typename IT, typename OUT >
inline void exclusive_scan( IT first, IT last, OUT out )
{
  if( first == last ) { std::abort(); }
  std::decay_t< decltype( *first ) > acc = 0;
  for( ; first != last; ++first, ++out )
  { auto const v = *first; *out = acc; acc = acc + v; }
}
} // namespace RAJA
