/* P01: layout bijection and accessor agreement, all permutations and shapes. */
#include "lv.hpp"
#include "layouts.hpp"
#include "Array.hpp"
#include "MallocBuffer.hpp"

#ifndef MINDIM
#define MINDIM 1
#define MAXDIM 3
#endif
/* Large dimensions are compiled in parts, selected by the permutation's first entry (and second). */
#ifndef NPARTKEY
#define NPARTKEY v[ 0 ]
#endif

using LvArray::Array;
using LvArray::MallocBuffer;

template< typename I, size_t N >
std::string str( std::array< I, N > const & a )
{ std::ostringstream o; o << "{"; for( auto v : a ) o << " " << v; o << " }"; return o.str(); }

/* Check a slice-like object of N remaining dimensions whose element at index x
 * must live at base + sum x_k * st_k; recurse through operator[]. */
template< size_t N >
struct SliceCheck
{
  template< typename S >
  static void run( S const & s, int * base, std::array< long, N > const & dims, std::array< long, N > const & st, std::string const & who )
  {
    long total = 1;
    for( size_t k = 0; k < N; ++k )
    {
      MC_EQ( long( s.size( int( k ) ) ), dims[ k ], who << " extent " << k );
      MC_EQ( long( s.stride( int( k ) ) ), st[ k ], who << " stride " << k );
      total *= dims[ k ];
    }
    MC_EQ( long( s.size() ), total, who << " total size" );
    std::vector< long > offs;
    lay::forAll( dims, [&]( std::array< long, N > const & x ) {
      long off = 0;
      for( size_t k = 0; k < N; ++k ) off += x[ k ] * st[ k ];
      offs.push_back( off );
      MC_CHECK( &lay::call( s, x ) == base + off, who << " operator() at " << str( x ) << " addresses the wrong element" );
      MC_EQ( long( lay::linear( s, x ) ), off, who << " linearIndex at " << str( x ) );
    } );
    auto const c = s.toSliceConst();
    lay::forAll( dims, [&]( std::array< long, N > const & x ) {
      MC_CHECK( &lay::call( c, x ) == &lay::call( s, x ), who << " const slice at " << str( x ) );
    } );
    /* Contiguity is never claimed falsely, and always claimed for a dense non-empty layout with a unit-stride dimension. */
    std::sort( offs.begin(), offs.end() );
    bool dense = true;
    for( size_t k = 0; k < offs.size(); ++k ) if( offs[ k ] != offs[ 0 ] + long( k ) ) dense = false;
    if( total > 0 )
    {
      if( s.isContiguous() ) MC_CHECK( dense, who << " claims to be contiguous but has gaps, dims " << str( dims ) << " strides " << str( st ) );
      bool denseStrides = S::USD >= 0;
      { // the strides are those of some dense array of exactly these extents
        std::vector< std::pair< long, long > > sd;
        for( size_t k = 0; k < N; ++k ) sd.push_back( { st[ k ], dims[ k ] } );
        std::sort( sd.begin(), sd.end() );
        long m = 1;
        for( auto & p : sd ) { if( p.first != m ) denseStrides = false; m *= p.second; }
      }
      if( denseStrides ) MC_CHECK( s.isContiguous(), who << " is dense but claims not to be contiguous, dims " << str( dims ) << " strides " << str( st ) );
      if constexpr( S::USD >= 0 )
      {
        if( s.isContiguous() )
        {
          MC_CHECK( s.dataIfContiguous() == base, who << " dataIfContiguous" );
          MC_CHECK( s.begin() == base && s.end() == base + total, who << " begin/end" );
        }
        else
        { MC_CHECK( mc::reportsError( [&] { (void) s.dataIfContiguous(); } ), who << " raw access to a non-contiguous slice is not reported" ); }
      }
    }
    next( s, base, dims, st, who );
  }
  template< typename S >
  static void next( S const & s, int * base, std::array< long, N > const & dims, std::array< long, N > const & st, std::string const & who )
  {
    if constexpr( N > 1 )
    {
      std::array< long, N - 1 > d2, s2;
      for( size_t k = 1; k < N; ++k ) { d2[ k - 1 ] = dims[ k ]; s2[ k - 1 ] = st[ k ]; }
      for( long i = 0; i < dims[ 0 ]; ++i )
      { SliceCheck< N - 1 >::run( s[ i ], base + i * st[ 0 ], d2, s2, who + "[" + std::to_string( i ) + "]" ); }
    }
    else
    {
      for( long i = 0; i < dims[ 0 ]; ++i ) MC_CHECK( &s[ i ] == base + i * st[ 0 ], who << "[" << i << "]" );
    }
  }
};

template< size_t N >
struct ViewCheck
{
  template< typename V >
  static void run( V const & v, int * base, std::array< long, N > const & dims, std::array< long, N > const & st, std::string const & who, bool deep )
  {
    long total = 1;
    for( size_t k = 0; k < N; ++k )
    {
      MC_EQ( long( v.size( int( k ) ) ), dims[ k ], who << " extent " << k );
      MC_EQ( long( v.dims()[ k ] ), dims[ k ], who << " dims()[" << k << "]" );
      MC_EQ( long( v.strides()[ k ] ), st[ k ], who << " strides()[" << k << "]" );
      total *= dims[ k ];
    }
    MC_EQ( long( v.size() ), total, who << " size()" );
    MC_EQ( v.empty(), total == 0, who << " empty()" );
    MC_CHECK( v.data() == base, who << " data()" );
    MC_CHECK( v.begin() == base && v.end() == base + total, who << " begin/end" );
    if( total > 0 ) MC_CHECK( &v.front() == base && &v.back() == base + total - 1, who << " front/back" );
    std::vector< char > hit( total, 0 );
    lay::forAll( dims, [&]( std::array< long, N > const & x ) {
      long off = 0;
      for( size_t k = 0; k < N; ++k ) off += x[ k ] * st[ k ];
      MC_CHECK( off >= 0 && off < total && !hit[ off ], who << " layout is not one-to-one at " << str( x ) );
      hit[ off ] = 1;
      MC_CHECK( &lay::call( v, x ) == base + off, who << " operator() at " << str( x ) << " addresses the wrong element" );
      MC_EQ( long( lay::linear( v, x ) ), off, who << " linearIndex at " << str( x ) );
    } );
    if( deep )
    {
      SliceCheck< N >::run( v.toSlice(), base, dims, st, who + ".toSlice()" );
      SliceCheck< N >::run( v.toSliceConst(), base, dims, st, who + ".toSliceConst()" );
    }
    if constexpr( N > 1 )
    {
      std::array< long, N - 1 > d2, s2;
      for( size_t k = 1; k < N; ++k ) { d2[ k - 1 ] = dims[ k ]; s2[ k - 1 ] = st[ k ]; }
      for( long i = 0; i < dims[ 0 ]; ++i )
      { SliceCheck< N - 1 >::run( v[ i ], base + i * st[ 0 ], d2, s2, who + "[" + std::to_string( i ) + "]" ); }
    }
    else
    { for( long i = 0; i < dims[ 0 ]; ++i ) MC_CHECK( &v[ i ] == base + i * st[ 0 ], who << "[" << i << "]" ); }
  }
};

template< typename INDEX, typename PERM, size_t N, typename EXTENT >
void bodyOf( mc::Chooser & c, EXTENT extent )
{
  std::array< long, N > dims;
  for( size_t k = 0; k < N; ++k ) dims[ k ] = extent( c );
  int const how = c.range( 0, 2, "construct" );
  using A = Array< int, int( N ), PERM, INDEX, MallocBuffer >;
  auto make = [&]() -> A {
    A a;
    if( how == 0 )
    {
      auto f = [&]( auto... d ) { return A( INDEX( d )... ); };
      return std::apply( f, dims );
    }
    if( how == 1 )
    { auto f = [&]( auto... d ) { a.resize( INDEX( d )... ); }; std::apply( f, dims ); }
    else
    { a.resize( int( N ), dims.data() ); }
    return a;
  };
  A a = make();
  std::array< long, N > const st = lay::strides( lay::toVector( PERM{} ), dims );
  int * base = a.data();
  static_assert( A::USD == lay::last( PERM{} ), "unit stride dimension" );

  ViewCheck< N >::run( a, base, dims, st, "array", how == 0 );
  if( how != 0 ) { mc::outcome( lay::name( PERM{} ) + str( dims ) ); return; }
  A const & ca = a;
  ViewCheck< N >::run( ca.toView(), base, dims, st, "toView()", true );
  ViewCheck< N >::run( ca.toViewConst(), base, dims, st, "toViewConst()", true );
  { auto v = a.toView(); auto w = v; auto x = w.toView(); ViewCheck< N >::run( x, base, dims, st, "view of copied view", false );
    auto cc = x.toViewConst(); auto y = cc; ViewCheck< N >::run( y, base, dims, st, "copied const view", false );
    LvArray::ArrayView< int const, int( N ), A::USD, INDEX, MallocBuffer > conv = a; ViewCheck< N >::run( conv, base, dims, st, "converted const view", false );
    decltype( v ) asg; asg = v; ViewCheck< N >::run( asg, base, dims, st, "assigned view", false );
    decltype( v ) mv( std::move( asg ) ); ViewCheck< N >::run( mv, base, dims, st, "moved view", false );
    LvArray::ArraySlice< int, int( N ), A::USD, INDEX > sl = a; SliceCheck< N >::run( sl, base, dims, st, "converted slice" );
    LvArray::ArraySlice< int const, int( N ), A::USD, INDEX > slc = a; SliceCheck< N >::run( slc, base, dims, st, "converted const slice" );
    LvArray::ArraySlice< int const, int( N ), A::USD, INDEX > slc2 = sl; SliceCheck< N >::run( slc2, base, dims, st, "const slice of slice" );
  }
  /* Write through one route, read through every other. */
  { int n = 0; auto v = a.toView();
    lay::forAll( dims, [&]( std::array< long, N > const & x ) { lay::call( v, x ) = ++n; } );
    std::vector< int > seen( n + 1, 0 );
    for( int e : a ) { MC_CHECK( e >= 1 && e <= n && !seen[ e ], "iteration does not visit every element exactly once" ); seen[ e ] = 1; }
    n = 0;
    lay::forAll( dims, [&]( std::array< long, N > const & x ) { MC_EQ( lay::call( ca, x ), n + 1, "value at " << str( x ) ); ++n; } );
  }
  /* A copy has the same layout in its own storage. */
  { A b( a );
    if( a.size() > 0 ) MC_CHECK( b.data() != a.data(), "copy shares storage" );
    ViewCheck< N >::run( b, b.data(), dims, st, "copy", false );
    lay::forAll( dims, [&]( std::array< long, N > const & x ) { MC_EQ( lay::call( b, x ), lay::call( ca, x ), "copied value at " << str( x ) ); } ); }
  c.noteIf( [&] { return "perm " + lay::name( PERM{} ) + " dims " + str( dims ) + " strides " + str( st ); } );
  mc::outcome( lay::name( PERM{} ) + str( dims ) );
}

template< typename INDEX, typename PERM, size_t N >
void body( mc::Chooser & c, int maxExtent )
{ bodyOf< INDEX, PERM, N >( c, [=]( mc::Chooser & d ) { return long( d.range( 0, maxExtent, "extent" ) ); } ); }

#ifndef PART
#define PART -1
#endif
template< camp::idx_t A, camp::idx_t... R > constexpr int partOf( camp::idx_seq< A, R... > )
{ camp::idx_t v[] = { A, R... }; return int( NPARTKEY ); }

template< size_t N, typename INDEX >
void all( int maxExtent )
{
  mc::g().bound += "all " + std::to_string( N ) + "-d permutations, extents 0.." + std::to_string( maxExtent ) + "; ";
  mc::enumerate( [&]( mc::Chooser & c ) {
    using L = lay::All< int( N ) >;
    int count = 0; lay::forEach( L{}, [&]( auto p ) { if( PART < 0 || partOf( p ) == PART ) ++count; } );
    int const which = c.choose( count, "perm" );
    int k = 0;
    lay::forEach( L{}, [&]( auto p ) {
      if constexpr( PART < 0 || partOf( decltype( p ){} ) == PART )
      { if( k++ == which ) body< INDEX, decltype( p ), N >( c, maxExtent ); }
    } );
  } );
}

/* Extents whose product does not fit 32 bits; the storage is reserved and touched at a few places only. */
template< typename PERM, size_t N >
void huge( mc::Chooser & c )
{
  static std::vector< std::array< long, N > > const shapes = [] {
    std::vector< std::array< long, N > > r;
    if constexpr( N == 1 ) r = { { 2200000000l } };
    if constexpr( N == 2 ) r = { { 70000, 40000 }, { 3, 1100000000l }, { 2400000000l, 1 } };
    if constexpr( N == 3 ) r = { { 1500, 1600, 1700 }, { 2, 3, 500000000l }, { 1300000000l, 1, 2 } };
    return r;
  }();
  std::array< long, N > const dims = shapes[ c.choose( int( shapes.size() ), "shape" ) ];
  using A = Array< signed char, int( N ), PERM, long, MallocBuffer >;
  A a;
  std::apply( [&]( auto... d ) { a.resizeWithoutInitializationOrDestruction( d ... ); }, dims );
  std::array< long, N > const st = lay::strides( lay::toVector( PERM{} ), dims );
  long total = 1; for( long d : dims ) total *= d;
  MC_EQ( long( a.size() ), total, "size of a huge array" );
  MC_CHECK( a.capacity() >= total, "capacity of a huge array" );
  for( size_t k = 0; k < N; ++k ) { MC_EQ( long( a.size( int( k ) ) ), dims[ k ], "extent" ); MC_EQ( long( a.strides()[ k ] ), st[ k ], "stride of dimension " << k << " of " << str( dims ) ); }
  auto const v = a.toView(); auto const s = a.toSlice(); auto const vc = a.toViewConst();
  MC_EQ( long( s.size() ), total, "size of a huge slice" ); MC_CHECK( a.end() - a.begin() == total && s.isContiguous(), "ends of a huge array" );
  std::array< long, N > x; long off = 0;
  for( size_t k = 0; k < N; ++k ) { int const w = c.choose( 3, "position" ); x[ k ] = w == 0 ? 0 : w == 1 ? dims[ k ] / 2 : dims[ k ] - 1; off += x[ k ] * st[ k ]; }
  MC_EQ( long( lay::linear( a, x ) ), off, "linear index of " << str( x ) << " in " << str( dims ) );
  MC_EQ( long( lay::linear( s, x ) ), off, "linear index of " << str( x ) << " in a slice of " << str( dims ) );
  MC_CHECK( &lay::call( a, x ) == a.data() + off && &lay::call( v, x ) == a.data() + off && &lay::call( vc, x ) == a.data() + off && &lay::call( s, x ) == a.data() + off, "address of " << str( x ) << " in " << str( dims ) );
  if constexpr( N == 1 ) MC_CHECK( &a[ x[ 0 ] ] == a.data() + off && &s[ x[ 0 ] ] == a.data() + off, "operator[] of a huge array" );
  if constexpr( N == 2 ) MC_CHECK( &a[ x[ 0 ] ][ x[ 1 ] ] == a.data() + off && &s[ x[ 0 ] ][ x[ 1 ] ] == a.data() + off, "operator[] of " << str( x ) << " in " << str( dims ) );
  if constexpr( N == 3 ) MC_CHECK( &a[ x[ 0 ] ][ x[ 1 ] ][ x[ 2 ] ] == a.data() + off && &s[ x[ 0 ] ][ x[ 1 ] ][ x[ 2 ] ] == a.data() + off, "operator[] of " << str( x ) << " in " << str( dims ) );
  lay::call( v, x ) = 7; MC_EQ( int( lay::call( vc, x ) ), 7, "value in a huge array" );
  mc::outcome( lay::name( PERM{} ) + str( dims ) + str( x ) );
}
template< size_t N > void allHuge()
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    using L = lay::All< int( N ) >; int count = 0, k = 0;
    lay::forEach( L{}, [&]( auto ) { ++count; } );
    int const which = c.choose( count, "perm" );
    lay::forEach( L{}, [&]( auto p ) { if( k++ == which ) huge< decltype( p ), N >( c ); } );
  } );
}
/* Larger shapes than the exhaustive ranges below. */
template< size_t N >
void larger()
{
  mc::enumerate( [&]( mc::Chooser & c ) {
    using L = lay::All< int( N ) >; int count = 0, k = 0;
    lay::forEach( L{}, [&]( auto ) { ++count; } );
    int const which = c.choose( count, "perm" );
    lay::forEach( L{}, [&]( auto p ) { if( k++ == which ) bodyOf< long, decltype( p ), N >( c, []( mc::Chooser & d ) { static long const e[] = { 1, 6, 9, 17 }; return e[ d.choose( N == 3 ? 3 : 4, "extent" ) ]; } ); } );
  } );
}

#ifdef HUGE_SHAPES
MC_JOB( "more elements than 32 bits count, 1-d" ) { allHuge< 1 >(); }
MC_JOB( "more elements than 32 bits count, 2-d" ) { allHuge< 2 >(); }
MC_JOB( "more elements than 32 bits count, 3-d" ) { allHuge< 3 >(); }
#else
#if MINDIM <= 1 && MAXDIM >= 1
MC_JOB( "layout-1d" ) { all< 1, long >( 4 ); }
MC_JOB( "layout-1d-int" ) { all< 1, int >( 4 ); }
#endif
#if MINDIM <= 2 && MAXDIM >= 2
MC_JOB( "layout-2d" ) { all< 2, long >( mc::thorough() ? 6 : 4 ); }
MC_JOB( "layout-2d-int" ) { all< 2, int >( 3 ); }
#endif
#if MINDIM <= 3 && MAXDIM >= 3
MC_JOB( "layout-3d" ) { all< 3, long >( mc::thorough() ? 5 : 3 ); }
#endif
#if MINDIM <= 4 && MAXDIM >= 4
MC_JOB( "layout-4d" ) { all< 4, long >( mc::thorough() ? 4 : 3 ); }
#endif
#if MINDIM <= 2 && MAXDIM >= 2
MC_JOB( "larger shapes, 2-d" ) { larger< 2 >(); }
MC_JOB( "larger shapes, 3-d" ) { larger< 3 >(); }
#endif
#if MAXDIM >= 5
MC_JOB( "layout-5d" ) { all< 5, long >( 2 ); }
#endif
#endif
MC_MAIN
