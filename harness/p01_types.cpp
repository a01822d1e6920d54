/* The compile-time side of layouts: for every short sequence of indices,
 * whether it is a permutation, how many dimensions it has, which one has unit
 * stride, and what it is as an array. */
#include "lv.hpp"
#include "typeManipulation.hpp"
#include <set>
#ifndef LEN
  #define LEN 3
#endif
namespace tman = LvArray::typeManipulation;
static constexpr long LO = -1, BASE = LEN + 2;      // the values -1 .. LEN
static constexpr long power( int n ) { long r = 1; for( int i = 0; i < n; ++i ) r *= BASE; return r; }
static constexpr long digit( long code, int k ) { for( int i = 0; i < k; ++i ) code /= BASE; return code % BASE + LO; }
template< long CODE, typename > struct SeqOf;
template< long CODE, size_t ... K > struct SeqOf< CODE, std::index_sequence< K ... > > { using type = camp::idx_seq< digit( CODE, int( K ) ) ... >; };

struct Row { bool valid; long dims; std::vector< long > values; };
template< long CODE > Row rowOf()
{
  using S = typename SeqOf< CODE, std::make_index_sequence< LEN > >::type;
  Row r{ tman::isValidPermutation( S{} ), long( tman::getDimension( S{} ) ), {} };
  auto a = tman::asArray( S{} );
  auto const & b = a;
  MC_EQ( long( a.size() ), r.dims, "size of asArray()" );
  for( long i = 0; i < long( a.size() ); ++i ) { MC_EQ( long( a[ i ] ), long( b[ i ] ), "asArray() read as const" ); r.values.push_back( a[ i ] ); }
  if constexpr( digit( CODE, LEN - 1 ) >= 0 && digit( CODE, LEN - 1 ) < LEN )
  {
    static_assert( std::is_same< decltype( tman::asArray( S{} ) ), tman::CArray< camp::idx_t, LEN > >::value, "" );
    MC_EQ( long( tman::getStrideOneDimension( S{} ) ), r.values.back(), "dimension with unit stride" );
  }
  return r;
}
using Fn = Row ( * )();
template< size_t ... C > static std::vector< Fn > table( std::index_sequence< C ... > ) { return { &rowOf< long( C ) > ... }; }

MC_JOB( "sequences of indices" )
{
  mc::g().bound = "every sequence of " + std::to_string( LEN ) + " indices from -1 to " + std::to_string( LEN );
  static auto const fns = table( std::make_index_sequence< size_t( power( LEN ) ) >{} );
  mc::enumerate( []( mc::Chooser & c ) {
      long code = 0, scale = 1;
      std::vector< long > v;
      for( int k = 0; k < LEN; ++k ) { int const d = c.choose( int( BASE ), "index" ); v.push_back( d + LO ); code += d * scale; scale *= BASE; }
      Row const r = fns[ code ]();
      std::set< long > const s( v.begin(), v.end() );
      bool const want = long( s.size() ) == LEN && *s.begin() == 0 && *s.rbegin() == LEN - 1;
      MC_EQ( r.valid, want, "isValidPermutation" );
      MC_EQ( r.dims, long( LEN ), "getDimension" );
      MC_CHECK( r.values == v, "asArray" );
      mc::outcome( std::to_string( r.valid ) );
    } );
}
MC_MAIN
