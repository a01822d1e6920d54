/* Histories over two memory spaces: containers with LvArray::ChaiBuffer on top
 * of the stand-in memory manager of shim/chai.
 *
 * A kernel is what RAJA and its CHAI plugin make of one: the execution space is
 * set, the body (and so every view it captures) is copied, the execution space
 * is cleared and the copy runs.  While it runs only the memory of its space may
 * be touched; AddressSanitizer reports anything else. */
#include "lv.hpp"
#include "elem.hpp"
/* These have device code of their own that needs the CUDA headers. */
#include "Macros.hpp"
#include "limits.hpp"
#include "math.hpp"
#define LVARRAY_USE_CHAI
#define LVARRAY_USE_UMPIRE
#define LVARRAY_USE_CUDA
#include "ChaiBuffer.hpp"
#include "Array.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "SortedArray.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#include "memcpy.hpp"
#include "umpireInterface.cpp"
#undef LVARRAY_USE_CUDA
#include <memory>
#include <set>

using LvArray::ChaiBuffer;
using LvArray::MemorySpace;
enum { HOST = 1, DEVICE = 2 };
static inline MemorySpace ms( int s ) { return s == HOST ? MemorySpace::host : s == DEVICE ? MemorySpace::cuda : MemorySpace::undefined; }
static inline char const * sn( int s ) { return s == HOST ? "host" : "device"; }
static inline chai::ArrayManager & mgr() { return *chai::ArrayManager::getInstance(); }

/* Run a body in a space. */
template< typename F > void kernel( int const s, F const & f )
{
  mgr().setExecutionSpace( chai::ExecutionSpace( s ) );
  {
    F const body( f );
    mgr().setExecutionSpace( chai::NONE );
    mockmem::enter( s );
    body();
    mockmem::enter( HOST );
  }
}
struct Hooks
{
  Hooks()
  {
    mockmem::state().fail = []( std::string const & m ) { mc::violation( m ); };
    RAJA::mc::contextHook() = []( int s ) { mgr().setExecutionSpace( chai::ExecutionSpace( s ) ); if( s == 0 ) mockmem::enter( HOST ); };
    RAJA::mc::launchHook() = []( int s ) { mgr().setExecutionSpace( chai::NONE ); mockmem::enter( s ); };
  }
};
static Hooks hooks;
using hostPolicy = RAJA::loop_exec;
using devicePolicy = RAJA::cuda_exec< 32 >;

static long copiesTo( int s ) { auto & c = mockmem::state().copies; return c[ 3 - s ][ s ]; }
static long copiesAll() { return copiesTo( HOST ) + copiesTo( DEVICE ); }
static inline int flip( int v ) { return v % 2 + 1; }

/* The state of every allocation, for the canonical key. */
static void memoryKey( mc::Key & k, size_t contentLimit )
{
  std::map< long, chai::PointerRecord * > by;
  for( void * r : mockmem::state().records ) { auto * p = static_cast< chai::PointerRecord * >( r ); by[ p->m_id ] = p; }
  for( auto & kv : by )
  {
    auto * r = kv.second;
    k.add( r->m_size ); k.add( char( r->m_last_space ) ); k.add( r->m_touched[ 1 ] ); k.add( r->m_touched[ 2 ] );
    for( int s : { HOST, DEVICE } )
    {
      k.add( r->m_pointers[ s ] != nullptr );
      if( r->m_pointers[ s ] && r->m_size <= contentLimit )
      {
        mockmem::Block const & b = mockmem::find( r->m_pointers[ s ] )->second;
        std::string bytes( r->m_size, 0 );
        mockmem::copy( &bytes[ 0 ], r->m_pointers[ s ], b.size );
        k.b += bytes;
      }
    }
    k.sep();
  }
}

/* ---- the driver: which accesses are legal, and what may be transferred ---- */
template< typename AD >
struct Spaces
{
  enum Kind { KERNEL, KERNEL_VIEW, MOVE, MOVE_VIEW, MOVE_CONST_VIEW, TAKE_VIEW, RAW_WRITE, HOST_OP, COPY_CTOR, COPY_ASSIGN, MOVE_CTOR, MOVE_ASSIGN, NOWHERE, SPACE_OP };
  struct Op { Kind k; int a, s; bool t; };
  static std::vector< Op > const & ops()
  {
    static std::vector< Op > const v = [] {
      std::vector< Op > o;
      for( int s : { HOST, DEVICE } )
      {
        for( int k = 0; k < AD::kernels(); ++k ) { o.push_back( { KERNEL, k, s, false } ); if( AD::hasView ) o.push_back( { KERNEL_VIEW, k, s, false } ); }
        for( bool t : { true, false } ) { o.push_back( { MOVE, 0, s, t } ); if( AD::hasView ) o.push_back( { MOVE_VIEW, 0, s, t } ); }
        o.push_back( { MOVE_CONST_VIEW, 0, s, true } );
        o.push_back( { RAW_WRITE, 0, s, false } );
      }
      for( int k = 0; k < AD::spaceOps(); ++k ) o.push_back( { SPACE_OP, k, 0, false } );
      for( int k = 0; k < AD::hostOps(); ++k ) o.push_back( { HOST_OP, k, 0, false } );
      for( Kind k : { COPY_CTOR, COPY_ASSIGN, MOVE_CTOR, MOVE_ASSIGN, NOWHERE } ) o.push_back( { k, 0, 0, false } );
      if( AD::hasView ) o.push_back( { TAKE_VIEW, 0, 0, false } );
      return o;
    }();
    return v;
  }
  static int starts() { return 2 * AD::starts(); }
  static std::string startName( int s ) { return s < AD::starts() ? AD::startName( s ) : AD::startName( s - AD::starts() ) + ", back from the device"; }
  std::unique_ptr< AD > ad;
  int last = HOST;          // the space of the last capture or move
  int ownerAt = HOST;       // where the owner's own pointers may be used, 0 for nowhere
  int ownerTouched = ~0;    // the buffers whose memory there may be written directly
  bool synced = false;      // nothing was written since the last transfer
  bool innerAway = false;   // a part of the container was used by itself
  int dirty = ~0;           // which buffers may have been written in `last'
  Spaces( int s ) { auto & c = mockmem::state().copies; for( auto & r : c ) for( long & x : r ) x = 0;
    MC_CHECK( mockmem::state().records.empty() && mockmem::state().blocks.empty(), "memory left from before" ); ad = std::make_unique< AD >( s % AD::starts() );
    if( s >= AD::starts() ) { ad->c->move( MemorySpace::cuda, true ); ad->c->move( MemorySpace::host, false ); ownerTouched = 0; synced = true; } }
  ~Spaces()
  {
    ad.reset();
    MC_EQ( mockmem::state().blocks.size(), size_t( 0 ), "allocations left after the owner was destroyed" );
    MC_EQ( mockmem::state().records.size(), size_t( 0 ), "buffer records left after the owner was destroyed" );
  }
  int nOps() const { return int( ops().size() ); }
  std::string opName( int i ) const
  {
    Op const & o = ops()[ i ];
    switch( o.k )
    {
      case KERNEL: return std::string( AD::kernelName( o.a ) ) + "@" + sn( o.s );
      case KERNEL_VIEW: return std::string( AD::kernelName( o.a ) ) + "(kept view)@" + sn( o.s );
      case MOVE: return std::string( "move(" ) + sn( o.s ) + ( o.t ? ")" : ", no touch)" );
      case MOVE_VIEW: return std::string( "keptView.move(" ) + sn( o.s ) + ( o.t ? ")" : ", no touch)" );
      case MOVE_CONST_VIEW: return std::string( "toViewConst().move(" ) + sn( o.s ) + ")";
      case TAKE_VIEW: return "keep a view";
      case RAW_WRITE: return std::string( "write directly@" ) + sn( o.s );
      case HOST_OP: return AD::hostOpName( o.a );
      case COPY_CTOR: return "copy-construct"; case COPY_ASSIGN: return "copy-assign"; case MOVE_CTOR: return "move-construct"; case MOVE_ASSIGN: return "move-assign"; case NOWHERE: return "move(undefined)";
      case SPACE_OP: return AD::spaceOpName( o.a );
    }
    return "";
  }
  bool hostReadable() const { return ownerAt == HOST && last == HOST; }
  bool touched( int need ) const { return ( ownerTouched & need ) == need; }
  bool enabled( int i ) const
  {
    Op const & o = ops()[ i ];
    switch( o.k )
    {
      case KERNEL_VIEW: case MOVE_VIEW: return ad->haveView();
      case TAKE_VIEW: return !ad->haveView();
      case RAW_WRITE: return AD::rawWrites( o.s ) && ownerAt == o.s && last == o.s && touched( AD::moveMask( DEVICE, true ) );
      case HOST_OP: return hostReadable() && touched( ad->hostNeeds( o.a ) ) && ad->hostEnabled( o.a );
      case COPY_CTOR: case COPY_ASSIGN: return hostReadable();
      case SPACE_OP: return ad->spaceOpEnabled( o.a, last, ownerAt );
      default: return true;
    }
  }
  /* A capture or move to space s that declares the buffers in `mask' modified. */
  void moved( int s, int mask, long copied )
  {
    bool const exempt = innerAway; innerAway = false;
    if( s == last )
    {
      if( !exempt ) MC_EQ( copied, 0l, "transfers although the data were already in the space" );
      if( mask ) { synced = false; dirty |= mask; }
      return;
    }
    if( synced && !exempt ) MC_EQ( copied, 0l, "transfers although the data were only read since the last one" );
    if( copied > ad->buffers( dirty ) ) MC_EQ( copied, ad->buffers( dirty ), "transfers of buffers that were not written" );
    last = s; synced = mask == 0 && !exempt; dirty = exempt ? ~0 : mask;
  }
  void apply( int i )
  {
    Op const & o = ops()[ i ];
    long const c0 = copiesAll();
    switch( o.k )
    {
      case KERNEL: case KERNEL_VIEW:
        ad->run( o.a, o.s, o.k == KERNEL_VIEW );
        { bool const same = o.s == last; int const mask = AD::kernelMask( o.a ); moved( o.s, mask, copiesAll() - c0 ); if( AD::partial( o.a ) ) { innerAway = true; synced = false; dirty = ~0; } if( !same ) { ownerAt = 0; ownerTouched = 0; } else if( ownerAt == o.s && !AD::partial( o.a ) ) ownerTouched |= mask; }
        break;
      case MOVE: case MOVE_VIEW: case MOVE_CONST_VIEW:
      {
        bool const same = o.s == last;
        if( o.k == MOVE ) ad->c->move( ms( o.s ), o.t );
        else if( o.k == MOVE_VIEW ) ad->moveView( ms( o.s ), o.t );
        else ad->moveConstView( ms( o.s ) );
        moved( o.s, o.k == MOVE_CONST_VIEW || !o.t ? 0 : AD::moveMask( o.s, o.k == MOVE_VIEW ), copiesAll() - c0 );
        if( o.k == MOVE ) { ownerTouched = ( o.t ? AD::moveMask( o.s, false ) : 0 ) | ( same && ownerAt == o.s ? ownerTouched : 0 ); ownerAt = o.s; }
        else if( !same ) { ownerAt = 0; ownerTouched = 0; }
        else if( ownerAt == o.s && o.k == MOVE_VIEW && o.t ) ownerTouched |= AD::moveMask( o.s, true );
        break;
      }
      case TAKE_VIEW: ad->takeView(); break;
      case RAW_WRITE: mockmem::enter( o.s ); ad->rawWrite(); mockmem::enter( HOST ); synced = false; dirty = ~0; break;
      case HOST_OP: ad->dropView(); ad->hostOp( o.a ); ownerTouched = ~0; synced = false; dirty = ~0; break;
      case SPACE_OP: { ad->spaceOp( o.a, last, ownerAt, ownerTouched, *this, c0 ); break; }
      case COPY_CTOR: { ad->copied(); auto b = std::make_unique< typename AD::C >( *ad->c ); ad->dropView(); std::swap( ad->c, b ); ad->direct(); std::swap( ad->c, b ); ad->direct(); ad->c = std::move( b ); ownerTouched = ~0; synced = false; dirty = ~0; break; }
      case COPY_ASSIGN:
      {
        /* into an object whose data are on the device, brought back as documented */
        ad->copied();
        auto b = AD::other(); b->move( MemorySpace::cuda, true ); b->move( MemorySpace::host, true );
        *b = *ad->c; ad->dropView(); std::swap( ad->c, b ); ad->direct(); std::swap( ad->c, b ); ad->direct(); ad->c = std::move( b ); ownerTouched = ~0; synced = false; dirty = ~0; break;
      }
      case MOVE_CTOR: { auto b = std::make_unique< typename AD::C >( std::move( *ad->c ) ); ad->c = std::move( b ); break; }
      case MOVE_ASSIGN: { auto b = AD::other(); b->move( MemorySpace::cuda, true ); *b = std::move( *ad->c ); auto d = AD::other(); *ad->c = std::move( *d ); ad->c = std::move( b ); break; }
      case NOWHERE: ad->c->move( MemorySpace::undefined, true ); MC_EQ( copiesAll() - c0, 0l, "transfers by a move to no space" ); break;
    }
  }
  void check()
  {
    if( ownerAt != 0 && ownerAt == last ) { mockmem::enter( ownerAt ); ad->direct(); mockmem::enter( HOST ); }
  }
  void key( mc::Key & k )
  {
    k.add( last ); k.add( ownerAt ); k.add( ownerTouched ); k.add( synced ); k.add( dirty ); k.add( innerAway ); k.add( ad->haveView() );
    ad->key( k );
    memoryKey( k, AD::contentLimit );
  }
};

/* Kept views, for the containers whose views can be moved. */
template< typename V > struct Keep
{
  std::unique_ptr< V > v;
  template< typename X > void take( X const & x ) { v.reset( new V( x ) ); }
};

/* ---- one-dimensional and two-dimensional arrays ---- */
template< int ND >
struct ArrayAd
{
  using PERM = std::conditional_t< ND == 1, RAJA::PERM_I, RAJA::PERM_JI >;
  using C = LvArray::Array< int, ND, PERM, int, ChaiBuffer >;
  using V = LvArray::ArrayView< int, ND, LvArray::typeManipulation::getStrideOneDimension( PERM{} ), int, ChaiBuffer >;
  static constexpr bool hasView = true;
  static constexpr size_t contentLimit = 1000;
  static constexpr int W = ND == 1 ? 1 : 2;
  std::unique_ptr< C > c = std::make_unique< C >();
  std::unique_ptr< V > v;
  std::vector< int > m;     // in memory order
  int cap0 = 0;
  static int starts() { return 3; }
  static std::string startName( int s ) { return s == 0 ? "empty" : s == 1 ? "2 values" : "own allocators"; }
  static void sized( C & x, int n ) { if constexpr( ND == 1 ) x.resize( n ); else x.resize( n, 2 ); }
  static std::unique_ptr< C > other() { auto b = std::make_unique< C >(); sized( *b, 3 ); for( int i = 0; i < 3 * W; ++i ) b->data()[ i ] = 7; return b; }
  ArrayAd( int s )
  {
    if( s == 0 && ND == 2 ) sized( *c, 0 );
    if( s == 1 ) { sized( *c, 2 ); for( int i = 0; i < 2 * W; ++i ) { c->data()[ i ] = 1; m.push_back( 1 ); } }
    if( s == 2 )
    {
      c = std::make_unique< C >( ChaiBuffer< int >( { MemorySpace::host, MemorySpace::cuda }, { umpire::Allocator( 11 ), umpire::Allocator( 12 ) } ) );
      sized( *c, 1 ); for( int i = 0; i < W; ++i ) { c->data()[ i ] = 2; m.push_back( 2 ); }
      checkAllocators();
    }
    custom = s == 2;
  }
  bool custom = false;
  void copied() { custom = false; }
  void checkAllocators()
  {
    for( auto & b : mockmem::state().blocks ) if( custom ) MC_CHECK( b.second.allocator == 10 + b.second.space, "the allocator given for the space is used" );
  }
  static int kernels() { return 4; }
  static char const * kernelName( int k ) { static char const * const n[] = { "read", "write", "write one", "read with a mutable view" }; return n[ k ]; }
  static bool partial( int k ) { return false; }
  static int kernelMask( int k ) { return k == 0 ? 0 : 1; }
  static int moveMask( int, bool ) { return 1; }
  static long buffers( int ) { return 1; }
  void run( int k, int s, bool kept )
  {
    std::vector< int > & mm = m;
    V const fresh = c->toView();
    V const & view = kept ? *v : fresh;
    if( k == 0 )
    {
      auto const cv = view.toViewConst();
      kernel( s, [cv, &mm] { same( cv, mm, "read in a kernel" ); } );
    }
    else
      kernel( s, [view, &mm, k] {
        same( view, mm, "read in a kernel" );
        if( k == 1 ) for( size_t i = 0; i < mm.size(); ++i ) view.data()[ i ] = mm[ i ] = flip( mm[ i ] );
        if( k == 2 && !mm.empty() ) { if constexpr( ND == 1 ) view[ mm.size() - 1 ] = mm.back() = flip( mm.back() ); else view( view.size( 0 ) - 1, 1 ) = mm.back() = flip( mm.back() ); }
        } );
  }
  template< typename X > static void same( X const & x, std::vector< int > const & mm, char const * who )
  {
    MC_EQ( size_t( x.size() ), mm.size(), who << ": size" );
    if constexpr( ND == 1 ) { for( size_t i = 0; i < mm.size(); ++i ) if( mm[ i ] ) MC_EQ( x[ i ], mm[ i ], who << " [" << i << "]" ); }
    else for( int i = 0; i < x.size( 0 ); ++i ) for( int j = 0; j < 2; ++j ) if( mm[ j * x.size( 0 ) + i ] ) MC_EQ( x( i, j ), mm[ j * x.size( 0 ) + i ], who << " (" << i << "," << j << ")" );
  }
  void direct() { same( *c, m, "direct read" ); checkAllocators(); }
  bool haveView() const { return bool( v ); }
  void takeView() { v.reset( new V( c->toView() ) ); }
  void dropView() { v.reset(); }
  void moveView( MemorySpace s, bool t ) { v->move( s, t ); }
  void moveConstView( MemorySpace s ) { auto const cv = c->toViewConst(); cv.move( s, true ); }
  static bool rawWrites( int ) { return true; }
  void rawWrite() { for( size_t i = 0; i < m.size(); ++i ) c->data()[ i ] = m[ i ] = flip( m[ i ] ); }
  static int hostOps() { return ND == 1 ? 11 : 7; }
  /* the buffers that have to be touched before: resizing does that itself */
  static int hostNeeds( int k ) { return k == 1 || k == 2 || k == 6 ? 0 : moveMask( HOST, false ); }
  static std::string hostOpName( int k ) { static char const * const n[] = { "resize(0)", "resize(1)", "resize(3)", "clear()", "reserve(6)", "resizeWithoutInitializationOrDestruction(2)", "registerTouch(host)", "emplace_back(2)", "pop_back()", "emplace(0, 2)", "erase(0)" }; return n[ k ]; }
  bool hostEnabled( int k ) const { return k == 8 || k == 10 ? !m.empty() : k == 7 || k == 9 ? m.size() < 4 : true; }
  void modelResize( int n )
  {
    if constexpr( ND == 1 ) { size_t const old = m.size(); m.resize( n ); for( size_t i = old; i < m.size(); ++i ) m[ i ] = 0; }
    else { m.assign( 2 * n, 1 ); for( int i = 0; i < 2 * n; ++i ) c->data()[ i ] = 1; }   // only 1D arrays keep their values
  }
  void hostOp( int k )
  {
    switch( k )
    {
      case 0: case 1: case 2:
      {
        int const n = k == 2 ? 3 : k;
        if constexpr( ND == 1 ) { c->resize( n ); modelResize( n ); }
        else { c->template resizeDimension< 0 >( n ); modelResize( n ); }
        for( size_t i = 0; i < m.size(); ++i ) if( m[ i ] == 0 ) { MC_EQ( c->data()[ i ], 0, "a new value" ); c->data()[ i ] = m[ i ] = 1; }
        break;
      }
      case 3: c->clear(); m.clear(); break;
      case 4: c->reserve( 6 ); MC_CHECK( c->capacity() >= 6, "capacity after reserve" ); break;
      case 5: { if constexpr( ND == 1 ) c->resizeWithoutInitializationOrDestruction( 2 ); else c->resizeWithoutInitializationOrDestruction( 2, 2 ); m.resize( 2 * W ); for( int i = 0; i < 2 * W; ++i ) c->data()[ i ] = m[ i ] = 1; if( m.size() ) c->registerTouch( MemorySpace::host ); break; }
      case 6: if( c->capacity() ) c->registerTouch( MemorySpace::host ); break;
      default:
        if constexpr( ND == 1 )
        {
          if( k == 7 ) { c->emplace_back( 2 ); m.push_back( 2 ); }
          if( k == 8 ) { c->pop_back(); m.pop_back(); }
          if( k == 9 ) { c->emplace( 0, 2 ); m.insert( m.begin(), 2 ); }
          if( k == 10 ) { c->erase( 0 ); m.erase( m.begin() ); }
        }
    }
  }
  /* operations that act in whatever space the data are in */
  static int spaceOps() { return 15; }
  static std::string spaceOpName( int k ) { static char const * const n[] = { "zero()", "setValues< host >(2)", "setValues< device >(2)", "setValues< host >(view of a host array)", "setValues< device >(view of a host array)", "setValues< device >(view of a device array)",
    "memcpy from a host array", "memcpy from a device array", "memcpy to a host array", "memcpy to a device array", "resizeWithoutInitializationOrDestruction(device, 2)",
    "memcpy from a host array, host resource", "memcpy from a device array, device resource", "memcpy to a host array, host resource", "memcpy to a device array, device resource" }; return n[ k ]; }
  bool spaceOpEnabled( int k, int, int ) const { if( k == 10 ) return m.empty(); return k == 0 ? true : !m.empty(); }
  template< typename D > void spaceOp( int k, int, int & ownerAt, int & ownerTouched, D & d, long c0 )
  {
    int const last = d.last;
    auto arrived = [&]( int s, long copied ) { bool const same = s == d.last; d.moved( s, 1, copied ); if( !same ) { ownerAt = 0; ownerTouched = 0; } };
    /* an array of the same shape with other contents in space s */
    auto twin = [&]( int s, int val ) { auto b = std::make_unique< C >(); sized( *b, int( m.size() ) / W ); for( size_t i = 0; i < m.size(); ++i ) b->data()[ i ] = val; if( s == DEVICE ) { b->move( MemorySpace::cuda, true ); mockmem::enter( DEVICE ); for( size_t i = 0; i < m.size(); ++i ) b->data()[ i ] = val + 1; mockmem::enter( HOST ); } return b; };
    switch( k )
    {
      case 0:
        c->zero();
        /* happens where the data are and leaves the owner there */
        for( int & x : m ) x = 0;
        if( !m.empty() )
        {
          MC_EQ( copiesAll() - c0, 0l, "transfers by zero()" ); d.moved( last, 1, 0 ); ownerAt = last; ownerTouched = ~0;
          mockmem::enter( last ); for( size_t i = 0; i < m.size(); ++i ) MC_EQ( c->data()[ i ], 0, "value after zero()" );
          for( size_t i = 0; i < m.size(); ++i ) c->data()[ i ] = m[ i ] = 1 + int( i % 2 ); mockmem::enter( HOST );
        }
        break;
      case 1: case 2:
        if( k == 1 ) c->template setValues< hostPolicy >( 2 ); else c->template setValues< devicePolicy >( 2 );
        for( int & x : m ) x = 2; arrived( k == 1 ? HOST : DEVICE, copiesAll() - c0 ); break;
      case 3: case 4: case 5:
      {
        auto b = twin( k == 5 ? DEVICE : HOST, 1 ); long const c1 = copiesAll();
        if( k == 3 ) c->template setValues< hostPolicy >( b->toViewConst() ); else c->template setValues< devicePolicy >( b->toViewConst() );
        long const own = copiesAll() - c1 - ( k == 4 ? 1 : 0 );
        for( int & x : m ) x = k == 5 ? 2 : 1; arrived( k == 3 ? HOST : DEVICE, own );
        b->move( MemorySpace::host, false ); for( size_t i = 0; i < m.size(); ++i ) MC_EQ( b->data()[ i ], m[ i ], "the source of setValues" );
        break;
      }
      case 6: case 7: case 8: case 9: case 11: case 12: case 13: case 14:
      {
        bool const async = k > 10; if( async ) k -= 5;
        int const s = k == 6 || k == 8 ? HOST : DEVICE;
        auto b = twin( s, 0 + ( k == 6 ? 1 : k == 7 ? 1 : 4 ) ); long const c1 = copiesAll();
        V const mine = c->toView(); V const theirs = b->toView();
        if( async )
        {
          camp::resources::Resource r = s == HOST ? camp::resources::Resource( camp::resources::Host{} ) : camp::resources::Resource( camp::resources::Cuda{} );
          auto const e = k <= 7 ? LvArray::memcpy< 0, 0 >( r, mine, {}, theirs.toViewConst(), {} ) : LvArray::memcpy< 0, 0 >( r, theirs, {}, mine.toViewConst(), {} );
          (void) e;
        }
        else if( k <= 7 ) LvArray::memcpy< 0, 0 >( mine, {}, theirs.toViewConst(), {} ); else LvArray::memcpy< 0, 0 >( theirs, {}, mine.toViewConst(), {} );
        MC_EQ( copiesAll() - c1, 0l, "moves made by memcpy" );
        if( k <= 7 ) { for( int & x : m ) x = k == 6 ? 1 : 2; d.moved( last, 1, 0 ); }
        b->move( MemorySpace::host, false );
        for( size_t i = 0; i < m.size(); ++i ) if( m[ i ] ) MC_EQ( b->data()[ i ], m[ i ], "the other array of a memcpy" );
        break;
      }
      case 10:
      {
        dropView();
        int const had = int( c->capacity() );
        if constexpr( ND == 1 ) c->resizeWithoutInitializationOrDestruction( MemorySpace::cuda, 2 ); else c->resizeWithoutInitializationOrDestruction( MemorySpace::cuda, 2, 2 );
        m.assign( 2 * W, 0 );
        if( had < 2 * W ) { d.last = DEVICE; ownerAt = DEVICE; ownerTouched = ~0; d.synced = false; d.dirty = 1; mockmem::enter( DEVICE ); for( int i = 0; i < 2 * W; ++i ) c->data()[ i ] = m[ i ] = 1; mockmem::enter( HOST ); }
        else { V const w = c->toView(); kernel( DEVICE, [w] { for( int i = 0; i < 2 * W; ++i ) w.data()[ i ] = 1; } ); for( int & x : m ) x = 1; arrived( DEVICE, copiesAll() - c0 ); }
        break;
      }
    }
  }
  void key( mc::Key & k ) { k.addAll( m ); k.add( long( c->capacity() ) ); k.add( long( custom ) ); }
};

/* ---- sorted arrays ---- */
struct SortedAd
{
  using C = LvArray::SortedArray< int, int, ChaiBuffer >;
  using V = LvArray::SortedArrayView< int const, int, ChaiBuffer >;
  static constexpr bool hasView = true;
  static constexpr size_t contentLimit = 1000;
  std::unique_ptr< C > c = std::make_unique< C >();
  std::unique_ptr< V > v;
  std::set< int > m;
  void copied() {}
  static int starts() { return 2; }
  static std::string startName( int s ) { return s ? "{2}" : "empty"; }
  SortedAd( int s ) { if( s ) { c->insert( 2 ); m = { 2 }; } }
  static std::unique_ptr< C > other() { auto b = std::make_unique< C >(); b->insert( 9 ); return b; }
  static int kernels() { return 1; }
  static char const * kernelName( int ) { return "read"; }
  static bool partial( int k ) { return false; }
  static int kernelMask( int ) { return 0; }
  static int moveMask( int s, bool view ) { return s == HOST && !view ? 1 : 0; }
  static long buffers( int mask ) { return mask ? 1 : 0; }
  template< typename X > static void same( X const & x, std::set< int > const & mm, char const * who )
  {
    MC_EQ( size_t( x.size() ), mm.size(), who << ": size" ); int i = 0;
    for( int e : mm ) MC_EQ( x[ i++ ], e, who << " value" );
    for( int e = 1; e <= 3; ++e ) MC_EQ( x.contains( e ), mm.count( e ) > 0, who << ": contains(" << e << ")" );
  }
  void run( int, int s, bool kept ) { V const fresh = c->toView(); V const & view = kept ? *v : fresh; auto & mm = m; kernel( s, [view, &mm] { same( view, mm, "read in a kernel" ); } ); }
  void direct() { same( *c, m, "direct read" ); }
  bool haveView() const { return bool( v ); }
  void takeView() { v.reset( new V( c->toView() ) ); }
  void dropView() { v.reset(); }
  void moveView( MemorySpace s, bool t ) { v->move( s, t ); }
  void moveConstView( MemorySpace s ) { auto const cv = c->toViewConst(); cv.move( s, true ); }
  static bool rawWrites( int ) { return false; }
  void rawWrite() {}
  static int hostOps() { return 10; }
  static int hostNeeds( int ) { return moveMask( HOST, false ); }
  static std::string hostOpName( int k ) { return k < 3 ? "insert(" + std::to_string( k + 1 ) + ")" : k < 6 ? "remove(" + std::to_string( k - 2 ) + ")" : k == 6 ? "insert{1,3}" : k == 7 ? "remove{1,2}" : k == 8 ? "clear()" : "reserve(5)"; }
  bool hostEnabled( int ) const { return true; }
  void hostOp( int k )
  {
    std::vector< int > const ins{ 1, 3 }, rem{ 1, 2 };
    if( k < 3 ) { c->insert( k + 1 ); m.insert( k + 1 ); }
    else if( k < 6 ) { c->remove( k - 2 ); m.erase( k - 2 ); }
    else if( k == 6 ) { c->insert( ins.begin(), ins.end() ); m.insert( ins.begin(), ins.end() ); }
    else if( k == 7 ) { c->remove( rem.begin(), rem.end() ); m.erase( 1 ); m.erase( 2 ); }
    else if( k == 8 ) { c->clear(); m.clear(); }
    else c->reserve( 5 );
  }
  static int spaceOps() { return 0; }
  static std::string spaceOpName( int ) { return ""; }
  bool spaceOpEnabled( int, int, int ) const { return false; }
  template< typename D > void spaceOp( int, int, int &, int &, D &, long ) {}
  void key( mc::Key & k ) { for( int e : m ) k.add( e ); }
};

/* ---- arrays of arrays ---- */
struct AoAAd
{
  using C = LvArray::ArrayOfArrays< int, int, ChaiBuffer >;
  using V = LvArray::ArrayOfArraysView< int, int const, false, ChaiBuffer >;
  static constexpr bool hasView = true;
  static constexpr size_t contentLimit = 1000;
  std::unique_ptr< C > c = std::make_unique< C >();
  std::unique_ptr< V > v;
  std::vector< std::vector< int > > m;
  void copied() {}
  static int starts() { return 3; }
  static std::string startName( int s ) { return s == 2 ? "{1} and {2} with room for 2" : s ? "{1} and {} with room for 2" : "empty"; }
  AoAAd( int s ) { if( s ) { c->resize( 2, 2 ); c->emplaceBack( 0, 1 ); m = { { 1 }, {} }; } if( s == 2 ) { c->emplaceBack( 1, 2 ); m[ 1 ] = { 2 }; } }
  static std::unique_ptr< C > other() { auto b = std::make_unique< C >(); b->resize( 1, 1 ); b->emplaceBack( 0, 9 ); return b; }
  enum { VALUES = 1, SIZES = 2, OFFSETS = 4 };
  static int kernels() { return 5; }
  static char const * kernelName( int k ) { static char const * const n[] = { "read", "write values", "append atomically", "append", "remove the last" }; return n[ k ]; }
  static bool partial( int k ) { return false; }
  static int kernelMask( int k ) { return k == 0 ? 0 : k == 1 ? VALUES : VALUES | SIZES; }
  static int moveMask( int s, bool view ) { return VALUES | SIZES | ( s == HOST && !view ? OFFSETS : 0 ); }
  static long buffers( int mask ) { return ( mask & 1 ) + ( mask >> 1 & 1 ) + ( mask >> 2 & 1 ); }
  template< typename X > static void same( X const & x, std::vector< std::vector< int > > const & mm, char const * who )
  {
    MC_EQ( size_t( x.size() ), mm.size(), who << ": size" );
    for( size_t i = 0; i < mm.size(); ++i )
    {
      MC_EQ( size_t( x.sizeOfArray( i ) ), mm[ i ].size(), who << ": size of array " << i );
      for( size_t j = 0; j < mm[ i ].size(); ++j ) MC_EQ( x( i, j ), mm[ i ][ j ], who << " (" << i << "," << j << ")" );
    }
  }
  void run( int k, int s, bool kept )
  {
    V const fresh = c->toView(); V const & view = kept ? *v : fresh; auto & mm = m;
    if( k == 0 ) { auto const cv = view.toViewConst(); kernel( s, [cv, &mm] { same( cv, mm, "read in a kernel" ); } ); }
    else if( k == 1 ) { auto const cv = view.toViewConstSizes(); kernel( s, [cv, &mm] { same( cv, mm, "read in a kernel" ); for( size_t i = 0; i < mm.size(); ++i ) for( size_t j = 0; j < mm[ i ].size(); ++j ) cv( i, j ) = mm[ i ][ j ] = flip( mm[ i ][ j ] ); } ); }
    else kernel( s, [view, &mm, k] {
        same( view, mm, "read in a kernel" );
        for( size_t i = 0; i < mm.size(); ++i )
        {
          int const room = int( view.capacityOfArray( i ) ) - int( mm[ i ].size() );
          if( k == 2 && room > 0 ) { view.template emplaceBackAtomic< RAJA::builtin_atomic >( i, 2 ); mm[ i ].push_back( 2 ); }
          if( k == 3 && room > 0 && i == 0 ) { view.emplaceBack( i, 1 ); mm[ i ].push_back( 1 ); }
          if( k == 4 && !mm[ i ].empty() ) { view.eraseFromArray( i, int( mm[ i ].size() ) - 1 ); mm[ i ].pop_back(); }
        } } );
  }
  void direct() { same( *c, m, "direct read" ); }
  bool haveView() const { return bool( v ); }
  void takeView() { v.reset( new V( c->toView() ) ); }
  void dropView() { v.reset(); }
  void moveView( MemorySpace s, bool t ) { v->move( s, t ); }
  void moveConstView( MemorySpace s ) { auto const cv = c->toViewConst(); cv.move( s, true ); }
  static bool rawWrites( int ) { return true; }
  void rawWrite() { for( size_t i = 0; i < m.size(); ++i ) for( size_t j = 0; j < m[ i ].size(); ++j ) ( *c )( i, j ) = m[ i ][ j ] = flip( m[ i ][ j ] ); }
  static int hostOps() { return 11; }
  /* setCapacityOfArray declares the offsets modified itself */
  static int hostNeeds( int k ) { return k == 4 || k == 5 ? VALUES | SIZES : moveMask( HOST, false ); }
  static std::string hostOpName( int k ) { static char const * const n[] = { "appendArray(1)", "eraseArray(0)", "emplaceBack(0, 2)", "insertArray(0, {1,2})", "setCapacityOfArray(0, 3)", "setCapacityOfArray(0, 0)", "compress()", "resize(2, 1)", "reserveValues(9)", "resizeFromCapacities(2,1)", "clear" }; return n[ k ]; }
  bool hostEnabled( int k ) const { size_t const n = m.size(); if( k == 0 || k == 3 ) return n < 2; if( k == 1 || k == 4 || k == 5 ) return n > 0; if( k == 2 ) return n > 0 && m[ 0 ].size() < 3; return true; }
  void hostOp( int k )
  {
    std::vector< int > const two{ 1, 2 };
    switch( k )
    {
      case 0: c->appendArray( 1 ); ( *c )( int( m.size() ), 0 ) = 1; m.push_back( { 1 } ); break;
      case 1: c->eraseArray( 0 ); m.erase( m.begin() ); break;
      case 2: c->emplaceBack( 0, 2 ); m[ 0 ].push_back( 2 ); break;
      case 3: c->insertArray( 0, two.begin(), two.end() ); m.insert( m.begin(), two ); break;
      case 4: c->setCapacityOfArray( 0, 3 ); if( m[ 0 ].size() > 3 ) m[ 0 ].resize( 3 ); break;
      case 5: c->setCapacityOfArray( 0, 0 ); m[ 0 ].clear(); break;
      case 6: c->compress(); break;
      case 7: c->resize( 2, 1 ); m.resize( 2 ); break;
      case 8: c->reserveValues( 9 ); break;
      case 9: { int const caps[ 2 ] = { 2, 1 }; c->resizeFromCapacities< RAJA::loop_exec >( 2, caps ); m.assign( 2, {} ); break; }
      case 10: c->resize( 0 ); m.clear(); break;
    }
  }
  static int spaceOps() { return 0; }
  static std::string spaceOpName( int ) { return ""; }
  bool spaceOpEnabled( int, int, int ) const { return false; }
  template< typename D > void spaceOp( int, int, int &, int &, D &, long ) {}
  void key( mc::Key & k ) { for( auto & r : m ) k.addAll( r ); k.add( int( m.size() ) ); k.add( int( c->capacity() ) ); }
};

/* ---- arrays of sets ---- */
struct AoSAd
{
  using C = LvArray::ArrayOfSets< int, int, ChaiBuffer >;
  using V = LvArray::ArrayOfSetsView< int, int const, ChaiBuffer >;
  static constexpr bool hasView = true;
  static constexpr size_t contentLimit = 1000;
  std::unique_ptr< C > c = std::make_unique< C >();
  std::unique_ptr< V > v;
  std::vector< std::set< int > > m;
  void copied() {}
  static int starts() { return 2; }
  static std::string startName( int s ) { return s ? "{2} and {} with room for 2" : "empty"; }
  AoSAd( int s ) { if( s ) { c->resize( 2, 2 ); c->insertIntoSet( 0, 2 ); m = { { 2 }, {} }; } }
  static std::unique_ptr< C > other() { auto b = std::make_unique< C >(); b->resize( 1, 1 ); b->insertIntoSet( 0, 9 ); return b; }
  static int kernels() { return 4; }
  static char const * kernelName( int k ) { static char const * const n[] = { "read", "insert", "remove", "read as arrays" }; return n[ k ]; }
  static bool partial( int k ) { return false; }
  static int kernelMask( int k ) { return k == 0 || k == 3 ? 0 : 3; }
  static int moveMask( int s, bool view ) { return 3 | ( s == HOST && !view ? 4 : 0 ); }
  static long buffers( int mask ) { return ( mask & 1 ) + ( mask >> 1 & 1 ) + ( mask >> 2 & 1 ); }
  template< typename X > static void same( X const & x, std::vector< std::set< int > > const & mm, char const * who )
  {
    MC_EQ( size_t( x.size() ), mm.size(), who << ": size" );
    for( size_t i = 0; i < mm.size(); ++i )
    {
      MC_EQ( size_t( x.sizeOfSet( i ) ), mm[ i ].size(), who << ": size of set " << i );
      int j = 0; for( int e : mm[ i ] ) MC_EQ( x( i, j++ ), e, who << " value of set " << i );
      for( int e = 1; e <= 3; ++e ) MC_EQ( x.contains( i, e ), mm[ i ].count( e ) > 0, who << ": contains(" << i << "," << e << ")" );
    }
  }
  void run( int k, int s, bool kept )
  {
    V const fresh = c->toView(); V const & view = kept ? *v : fresh; auto & mm = m;
    if( k == 0 ) { auto const cv = view.toViewConst(); kernel( s, [cv, &mm] { same( cv, mm, "read in a kernel" ); } ); }
    else if( k == 3 ) { auto const cv = view.toArrayOfArraysView(); kernel( s, [cv, &mm] { MC_EQ( size_t( cv.size() ), mm.size(), "number of arrays" ); for( size_t i = 0; i < mm.size(); ++i ) { MC_EQ( size_t( cv.sizeOfArray( i ) ), mm[ i ].size(), "size of array" ); int j = 0; for( int e : mm[ i ] ) MC_EQ( cv( i, j++ ), e, "value of array" ); } } ); }
    else kernel( s, [view, &mm, k] {
        same( view, mm, "read in a kernel" );
        for( size_t i = 0; i < mm.size(); ++i )
        {
          int const room = int( view.capacityOfSet( i ) ) - int( mm[ i ].size() );
          int const val = 1 + int( i );
          if( k == 1 && room > 0 ) MC_EQ( view.insertIntoSet( i, val ), mm[ i ].insert( val ).second, "return value of insertIntoSet" );
          if( k == 2 ) MC_EQ( view.removeFromSet( i, val ), mm[ i ].erase( val ) > 0, "return value of removeFromSet" );
        } } );
  }
  void direct() { same( *c, m, "direct read" ); }
  bool haveView() const { return bool( v ); }
  void takeView() { v.reset( new V( c->toView() ) ); }
  void dropView() { v.reset(); }
  void moveView( MemorySpace s, bool t ) { v->move( s, t ); }
  void moveConstView( MemorySpace s ) { auto const cv = c->toViewConst(); cv.move( s, true ); }
  static bool rawWrites( int s ) { return s == DEVICE; }
  void rawWrite() { for( size_t i = 0; i < m.size(); ++i ) { c->removeFromSet( i, 2 ); m[ i ].erase( 2 ); } }
  static int hostOps() { return 9; }
  static int hostNeeds( int ) { return moveMask( HOST, false ); }
  static std::string hostOpName( int k ) { static char const * const n[] = { "appendSet(1)", "eraseSet(0)", "insertIntoSet(0, 1)", "insertIntoSet(0, 3)", "insertSet(0, 2)", "setCapacityOfSet(0, 3)", "compress()", "removeFromSet(0, 2)", "resize(0)" }; return n[ k ]; }
  bool hostEnabled( int k ) const { size_t const n = m.size(); if( k == 0 || k == 4 ) return n < 2; if( k == 6 || k == 8 ) return true; return n > 0; }
  void hostOp( int k )
  {
    switch( k )
    {
      case 0: c->appendSet( 1 ); m.push_back( {} ); break;
      case 1: c->eraseSet( 0 ); m.erase( m.begin() ); break;
      case 2: case 3: c->insertIntoSet( 0, k == 2 ? 1 : 3 ); m[ 0 ].insert( k == 2 ? 1 : 3 ); break;
      case 4: c->insertSet( 0, 2 ); m.insert( m.begin(), std::set< int >{} ); break;
      case 5: c->setCapacityOfSet( 0, 3 ); break;
      case 6: c->compress(); break;
      case 7: c->removeFromSet( 0, 2 ); m[ 0 ].erase( 2 ); break;
      case 8: c->resize( 0 ); m.clear(); break;
    }
  }
  static int spaceOps() { return 0; }
  static std::string spaceOpName( int ) { return ""; }
  bool spaceOpEnabled( int, int, int ) const { return false; }
  template< typename D > void spaceOp( int, int, int &, int &, D &, long ) {}
  void key( mc::Key & k ) { for( auto & r : m ) { for( int e : r ) k.add( e ); k.sep(); } k.add( int( m.size() ) ); k.add( int( c->capacity() ) ); }
};

/* ---- sparse matrices and sparsity patterns ---- */
template< bool MATRIX >
struct CrsAd
{
  using C = std::conditional_t< MATRIX, LvArray::CRSMatrix< int, int, int, ChaiBuffer >, LvArray::SparsityPattern< int, int, ChaiBuffer > >;
  using V = std::conditional_t< MATRIX, LvArray::CRSMatrixView< int, int, int const, ChaiBuffer >, LvArray::SparsityPatternView< int, int const, ChaiBuffer > >;
  static constexpr bool hasView = true;
  static constexpr size_t contentLimit = 1000;
  static constexpr int COLS = 2;
  std::unique_ptr< C > c;
  std::unique_ptr< V > v;
  std::vector< std::map< int, int > > m;
  void copied() {}
  static int starts() { return 2; }
  static std::string startName( int s ) { return s ? "2 rows, (0,1) stored" : "no rows"; }
  template< typename X > static bool put( X const & x, int r, int col, int val ) { if constexpr( MATRIX ) return x.insertNonZero( r, col, val ); else return x.insertNonZero( r, col ); }
  static bool putC( C & x, int r, int col, int val ) { if constexpr( MATRIX ) return x.insertNonZero( r, col, val ); else return x.insertNonZero( r, col ); }
  CrsAd( int s )
  {
    if( s == 0 ) c = std::make_unique< C >( 0, COLS, 0 );
    else { c = std::make_unique< C >( 2, COLS, 1 ); putC( *c, 0, 1, 1 ); m = { { { 1, 1 } }, {} }; }
  }
  static std::unique_ptr< C > other() { auto b = std::make_unique< C >( 1, 3, 2 ); putC( *b, 0, 2, 9 ); return b; }
  /* buffers: 1 entries, 2 columns, 4 sizes, 8 offsets */
  static int kernels() { return MATRIX ? 7 : 3; }
  static char const * kernelName( int k ) { static char const * const n[] = { "read", "insert", "remove", "write entries", "add to entries", "read the pattern", "set all entries" }; return n[ k ]; }
  static bool partial( int k ) { return k == 5; }
  static int kernelMask( int k ) { return k == 0 || k == 5 ? 0 : k <= 2 ? ( MATRIX ? 7 : 6 ) : 1; }
  static int moveMask( int s, bool view ) { return ( MATRIX ? 7 : 6 ) | ( s == HOST && !view ? 8 : 0 ); }
  static long buffers( int mask ) { return ( MATRIX ? mask & 1 : 0 ) + ( mask >> 1 & 1 ) + ( mask >> 2 & 1 ) + ( mask >> 3 & 1 ); }
  template< typename X > static void same( X const & x, std::vector< std::map< int, int > > const & mm, char const * who, bool entries = MATRIX )
  {
    MC_EQ( size_t( x.numRows() ), mm.size(), who << ": rows" );
    for( size_t i = 0; i < mm.size(); ++i )
    {
      MC_EQ( size_t( x.numNonZeros( i ) ), mm[ i ].size(), who << ": non zeros of row " << i );
      int j = 0;
      auto const cols = x.getColumns( i );
      for( auto & e : mm[ i ] ) MC_EQ( cols[ j++ ], e.first, who << " column of row " << i );
      for( int col = 0; col < COLS; ++col ) MC_EQ( x.empty( i, col ), mm[ i ].count( col ) == 0, who << ": empty(" << i << "," << col << ")" );
      if constexpr( MATRIX ) entriesSame( x, i, mm[ i ], who, entries );
    }
  }
  template< typename X > static void entriesSame( X const & x, size_t i, std::map< int, int > const & row, char const * who, bool entries )
  {
    if constexpr( MATRIX ) if( entries ) { int j = 0; auto const e = x.getEntries( i ); for( auto & kv : row ) MC_EQ( e[ j++ ], kv.second, who << " entry of row " << i ); }
  }
  void run( int k, int s, bool kept )
  {
    V const fresh = c->toView(); V const & view = kept ? *v : fresh; auto & mm = m;
    if( k == 0 ) { auto const cv = view.toViewConst(); kernel( s, [cv, &mm] { same( cv, mm, "read in a kernel" ); } ); }
    else if( k <= 2 ) kernel( s, [view, &mm, k] {
        same( view, mm, "read in a kernel" );
        for( size_t i = 0; i < mm.size(); ++i )
        {
          bool const room = view.numNonZeros( i ) < view.nonZeroCapacity( i );
          int const col = int( i );
          if( k == 1 && room ) MC_EQ( put( view, i, col, 2 ), mm[ i ].emplace( col, 2 ).second, "return value of insertNonZero" );
          if( k == 2 ) MC_EQ( view.removeNonZero( i, 1 ), mm[ i ].erase( 1 ) > 0, "return value of removeNonZero" );
        } } );
    else if constexpr( MATRIX )
    {
      if( k == 5 ) { auto const pv = view.toSparsityPatternView(); kernel( s, [pv, &mm] {
            MC_EQ( size_t( pv.numRows() ), mm.size(), "rows of the pattern" );
            for( size_t i = 0; i < mm.size(); ++i ) { MC_EQ( size_t( pv.numNonZeros( i ) ), mm[ i ].size(), "non zeros of the pattern" ); int j = 0; auto const cols = pv.getColumns( i ); for( auto & e : mm[ i ] ) MC_EQ( cols[ j++ ], e.first, "column of the pattern" ); } } ); return; }
      auto const cv = view.toViewConstSizes();
      if( k == 6 )
      {
        if( s == HOST ) cv.template setValues< hostPolicy >( 2 ); else cv.template setValues< devicePolicy >( 2 );
        for( auto & r : mm ) for( auto & e : r ) e.second = 2;
      }
      else kernel( s, [cv, &mm, k] {
          same( cv, mm, "read in a kernel" );
          for( size_t i = 0; i < mm.size(); ++i ) for( auto & e : mm[ i ] )
          {
            int const to = flip( e.second ), col = e.first, d = to - e.second;
            if( k == 3 ) cv.getEntries( i )[ int( std::distance( mm[ i ].begin(), mm[ i ].find( col ) ) ) ] = to;
            else cv.template addToRow< RAJA::seq_atomic >( i, &col, &d, 1 );
            e.second = to;
          } } );
    }
  }
  void direct() { same( *c, m, "direct read" ); }
  bool haveView() const { return bool( v ); }
  void takeView() { v.reset( new V( c->toView() ) ); }
  void dropView() { v.reset(); }
  void moveView( MemorySpace s, bool t ) { v->move( s, t ); }
  void moveConstView( MemorySpace s ) { auto const cv = c->toViewConst(); cv.move( s, true ); }
  static bool rawWrites( int s ) { return MATRIX || s == DEVICE; }
  void rawWrite() { if constexpr( MATRIX ) for( size_t i = 0; i < m.size(); ++i ) { int j = 0; auto const e = c->getEntries( i ); for( auto & kv : m[ i ] ) e[ j++ ] = kv.second = flip( kv.second ); } else for( size_t i = 0; i < m.size(); ++i ) { c->removeNonZero( i, 1 ); m[ i ].erase( 1 ); } }
  static int hostOps() { return 9; }
  static int hostNeeds( int ) { return moveMask( HOST, false ); }
  static std::string hostOpName( int k ) { static char const * const n[] = { "insertNonZero(0, 0)", "insertNonZero(1, 1)", "removeNonZero(0, 1)", "setRowCapacity(0, 2)", "setRowCapacity(0, 0)", "compress()", "resize(1, 2, 1)", "reserveNonZeros(6)", "resize(2, 2, 2)" }; return n[ k ]; }
  bool hostEnabled( int k ) const { if( k == 0 || k == 2 || k == 3 || k == 4 ) return m.size() > 0; if( k == 1 ) return m.size() > 1; return true; }
  void hostOp( int k )
  {
    switch( k )
    {
      case 0: MC_EQ( putC( *c, 0, 0, 1 ), m[ 0 ].emplace( 0, 1 ).second, "return value of insertNonZero" ); break;
      case 1: MC_EQ( putC( *c, 1, 1, 1 ), m[ 1 ].emplace( 1, 1 ).second, "return value of insertNonZero" ); break;
      case 2: MC_EQ( c->removeNonZero( 0, 1 ), m[ 0 ].erase( 1 ) > 0, "return value of removeNonZero" ); break;
      case 3: c->setRowCapacity( 0, 2 ); break;
      case 4: c->setRowCapacity( 0, 0 ); m[ 0 ].clear(); break;
      case 5: c->compress(); break;
      case 6: c->resize( 1, COLS, 1 ); m.resize( 1 ); break;
      case 7: c->reserveNonZeros( 6 ); break;
      case 8: c->resize( 2, COLS, 2 ); m.resize( 2 ); break;
    }
  }
  static int spaceOps() { return MATRIX ? 1 : 0; }
  static std::string spaceOpName( int ) { return "zero()"; }
  bool spaceOpEnabled( int, int, int ) const { return true; }
  template< typename D > void spaceOp( int, int, int & ownerAt, int & ownerTouched, D & d, long c0 )
  {
    if constexpr( MATRIX )
    {
      c->zero();
      MC_EQ( copiesAll() - c0, 0l, "transfers by zero()" );
      for( auto & r : m ) for( auto & e : r ) e.second = 0;
      d.moved( d.last, 1, 0 );
      /* bring the values back into the domain of the other operations */
      auto const cv = c->toViewConstSizes(); auto & mm = m;
      kernel( d.last, [cv, &mm] { same( cv, mm, "after zero()" ); for( size_t i = 0; i < mm.size(); ++i ) { int j = 0; for( auto & e : mm[ i ] ) cv.getEntries( i )[ j++ ] = e.second = 1; } } );
      (void) ownerAt; (void) ownerTouched;
    }
  }
  void key( mc::Key & k ) { for( auto & r : m ) { for( auto & e : r ) { k.add( e.first ); k.add( e.second ); } k.sep(); } k.add( int( m.size() ) ); }
};

/* ---- containers of containers ---- */
using In = LvArray::Array< int, 1, RAJA::PERM_I, int, ChaiBuffer >;
template< int LEVEL > struct NestT { using type = LvArray::Array< typename NestT< LEVEL - 1 >::type, 1, RAJA::PERM_I, int, ChaiBuffer >; };
template<> struct NestT< 1 > { using type = In; };
template< int LEVEL >
struct NestedAd
{
  using C = typename NestT< LEVEL >::type;
  using V = typename C::NestedViewType;
  static constexpr bool hasView = true;
  static constexpr size_t contentLimit = 3 * sizeof( int );
  std::unique_ptr< C > c = std::make_unique< C >();
  std::unique_ptr< V > v;
  /* the model is always two levels: level 3 wraps it into an outermost array of length 1 (or 0) */
  std::vector< std::vector< int > > m;
  using L2 = typename NestT< 2 >::type;
  L2 & two() { if constexpr( LEVEL == 2 ) return *c; else return ( *c )[ 0 ]; }
  void copied() {}
  static int starts() { return 2; }
  static std::string startName( int s ) { return s ? "{{1},{1}}" : "{}"; }
  NestedAd( int s )
  {
    if constexpr( LEVEL == 3 ) c->resize( 1 );
    if( s ) { two().resize( 2 ); for( int i = 0; i < 2; ++i ) { two()[ i ].emplace_back( 1 ); } m = { { 1 }, { 1 } }; }
  }
  static std::unique_ptr< C > other() { auto b = std::make_unique< C >(); b->resize( 1 ); if constexpr( LEVEL == 2 ) ( *b )[ 0 ].emplace_back( 9 ); else { ( *b )[ 0 ].resize( 1 ); ( *b )[ 0 ][ 0 ].emplace_back( 9 ); } return b; }
  static int kernels() { return 4; }
  static char const * kernelName( int k ) { static char const * const n[] = { "read through const views", "write", "write the first", "read" }; return n[ k ]; }
  static bool partial( int k ) { return false; }
  static int kernelMask( int k ) { return k == 0 ? 0 : 1; }
  /* 1 the values, 2 the arrays holding them, which no view can modify */
  static int moveMask( int, bool view ) { return view ? 1 : 3; }
  static long buffers( int ) { return 1000; }
  template< typename X > static void same2( X const & x, std::vector< std::vector< int > > const & mm, char const * who )
  {
    MC_EQ( size_t( x.size() ), mm.size(), who << ": size" );
    for( size_t i = 0; i < mm.size(); ++i )
    {
      MC_EQ( size_t( x[ i ].size() ), mm[ i ].size(), who << ": size of inner array " << i );
      for( size_t j = 0; j < mm[ i ].size(); ++j ) MC_EQ( x[ i ][ j ], mm[ i ][ j ], who << " [" << i << "][" << j << "]" );
    }
  }
  template< typename X > static void same( X const & x, std::vector< std::vector< int > > const & mm, char const * who )
  { if constexpr( LEVEL == 2 ) same2( x, mm, who ); else { MC_EQ( int( x.size() ), 1, who << ": outermost size" ); same2( x[ 0 ], mm, who ); } }
  template< typename X > static void write( X const & x, std::vector< std::vector< int > > & mm, bool all )
  {
    for( size_t i = 0; i < mm.size(); ++i ) if( all || i == 0 ) for( size_t j = 0; j < mm[ i ].size(); ++j )
    { int const to = mm[ i ][ j ] = flip( mm[ i ][ j ] ); if constexpr( LEVEL == 2 ) x[ i ][ j ] = to; else x[ 0 ][ i ][ j ] = to; }
  }
  void run( int k, int s, bool kept )
  {
    V const fresh = c->toNestedView(); V const & view = kept ? *v : fresh; auto & mm = m;
    if( k == 0 )
    {
      typename C::NestedViewTypeConst const cv = c->toNestedViewConst();
      if( kept ) { typename C::NestedViewTypeConst const kv = reinterpret_cast< typename C::NestedViewTypeConst const & >( view ); kernel( s, [kv, &mm] { same( kv, mm, "read in a kernel" ); } ); }
      else kernel( s, [cv, &mm] { same( cv, mm, "read in a kernel" ); } );
    }
    else kernel( s, [view, &mm, k] { same( view, mm, "read in a kernel" ); if( k != 3 ) write( view, mm, k == 1 ); } );
  }
  void direct() { same( *c, m, "direct read" ); }
  bool haveView() const { return bool( v ); }
  void takeView() { v.reset( new V( c->toNestedView() ) ); }
  void dropView() { v.reset(); }
  void moveView( MemorySpace s, bool t ) { v->move( s, t ); }
  void moveConstView( MemorySpace s ) { auto const cv = c->toNestedViewConst(); cv.move( s, true ); }
  static bool rawWrites( int ) { return true; }
  void rawWrite() { write( *c, m, true ); }
  static int hostOps() { return 7; }
  static int hostNeeds( int ) { return moveMask( HOST, false ); }
  static std::string hostOpName( int k ) { static char const * const n[] = { "emplace_back an array {2}", "pop_back", "[0].emplace_back(2)", "[0].resize(0)", "[last].resize(2)", "erase(0)", "clear" }; return n[ k ]; }
  bool hostEnabled( int k ) const { if( k == 0 ) return m.size() < 2; if( k == 2 ) return m.size() && m[ 0 ].size() < 2; return k == 6 || m.size() > 0; }
  void hostOp( int k )
  {
    L2 & x = two();
    switch( k )
    {
      case 0: { In a; a.emplace_back( 2 ); x.emplace_back( a ); m.push_back( { 2 } ); break; }
      case 1: x.pop_back(); m.pop_back(); break;
      case 2: x[ 0 ].emplace_back( 2 ); m[ 0 ].push_back( 2 ); break;
      case 3: x[ 0 ].resize( 0 ); m[ 0 ].clear(); break;
      case 4: { int const l = int( m.size() ) - 1; size_t const old = m[ l ].size(); x[ l ].resize( 2 ); m[ l ].resize( 2 ); for( size_t j = old; j < 2; ++j ) { MC_EQ( x[ l ][ j ], 0, "a new value" ); x[ l ][ j ] = m[ l ][ j ] = 1; } break; }
      case 5: x.erase( 0 ); m.erase( m.begin() ); break;
      case 6: x.clear(); m.clear(); break;
    }
  }
  /* use of one inner array by itself */
  static int spaceOps() { return 2; }
  static std::string spaceOpName( int k ) { return k ? "write [0] alone in a kernel@device" : "write [0] alone in a kernel@host"; }
  bool spaceOpEnabled( int, int last, int ownerAt ) const { return last == HOST && ownerAt == HOST && !m.empty() && !m[ 0 ].empty(); }
  template< typename D > void spaceOp( int k, int, int & ownerAt, int & ownerTouched, D & d, long )
  {
    auto const view = two()[ 0 ].toView(); auto & mm = m;
    kernel( k ? DEVICE : HOST, [view, &mm] { for( size_t j = 0; j < mm[ 0 ].size(); ++j ) MC_EQ( view[ j ], mm[ 0 ][ j ], "inner array alone" ); for( size_t j = 0; j < mm[ 0 ].size(); ++j ) view[ j ] = mm[ 0 ][ j ] = flip( mm[ 0 ][ j ] ); } );
    d.synced = false; d.dirty = ~0; d.innerAway = true;
    if( k ) { ownerAt = 0; ownerTouched = 0; }
  }
  void key( mc::Key & k ) { for( auto & r : m ) k.addAll( r ); k.add( int( m.size() ) ); }
};

/* ---- elements with destructors ---- */
struct Probe
{
  int v = 0;
  Probe() = default;
  explicit Probe( int x ): v( x ) {}
  Probe( Probe const & o ): v( o.v ) {}
  Probe & operator=( Probe const & o ) { v = o.v; return *this; }
  ~Probe() { log().push_back( v ); v = -77; }
  static std::vector< int > & log() { static std::vector< int > l; return l; }
};
/* A container of Probes whose rows have 0 to 2 of them and room to spare. */
template< int KIND > struct ProbeAd;
template<> struct ProbeAd< 0 >
{
  using C = LvArray::Array< Probe, 1, RAJA::PERM_I, int, ChaiBuffer >;
  static void fill( C & c, std::vector< int > const & rows, int base ) { c.reserve( 6 ); int k = 0; for( int n : rows ) for( int j = 0; j < n; ++j ) c.emplace_back( base + k++ ); }
  template< typename F > static void each( C & c, int s, F f ) { auto const v = c.toView(); kernel( s, [v, f] { for( int i = 0; i < v.size(); ++i ) f( v[ i ] ); } ); }
  template< typename F > static void eachDirect( C & c, F f ) { for( int i = 0; i < c.size(); ++i ) f( c[ i ] ); }
};
template<> struct ProbeAd< 1 >
{
  using C = LvArray::ArrayOfArrays< Probe, int, ChaiBuffer >;
  static void fill( C & c, std::vector< int > const & rows, int base ) { int k = 0; for( int n : rows ) { c.appendArray( 0 ); c.setCapacityOfArray( c.size() - 1, 3 ); for( int j = 0; j < n; ++j ) c.emplaceBack( c.size() - 1, base + k++ ); } }
  template< typename F > static void each( C & c, int s, F f ) { auto const v = c.toViewConstSizes(); kernel( s, [v, f] { for( int i = 0; i < v.size(); ++i ) for( int j = 0; j < v.sizeOfArray( i ); ++j ) f( v( i, j ) ); } ); }
  template< typename F > static void eachDirect( C & c, F f ) { for( int i = 0; i < c.size(); ++i ) for( int j = 0; j < c.sizeOfArray( i ); ++j ) f( c( i, j ) ); }
};
template<> struct ProbeAd< 2 >
{
  using C = LvArray::CRSMatrix< Probe, int, int, ChaiBuffer >;
  static void fill( C & c, std::vector< int > const & rows, int base ) { c.resize( int( rows.size() ), 4, 3 ); int k = 0; for( size_t i = 0; i < rows.size(); ++i ) for( int j = 0; j < rows[ i ]; ++j ) { Probe const x( base + k++ ); c.insertNonZero( int( i ), 2 * j, x ); } }
  template< typename F > static void each( C & c, int s, F f ) { auto const v = c.toViewConstSizes(); kernel( s, [v, f] { for( int i = 0; i < v.numRows(); ++i ) for( int j = 0; j < v.numNonZeros( i ); ++j ) f( v.getEntries( i )[ j ] ); } ); }
  template< typename F > static void eachDirect( C & c, F f ) { for( int i = 0; i < c.numRows(); ++i ) for( int j = 0; j < c.numNonZeros( i ); ++j ) f( c.getEntries( i )[ j ] ); }
};
template< int KIND > void probes()
{
  using AD = ProbeAd< KIND >; using C = typename AD::C;
  mc::enumerate( []( mc::Chooser & ch ) {
    std::vector< int > rows( size_t( ch.choose( 3, "rows" ) ) ); for( int & n : rows ) n = ch.choose( 3, "values" );
    int total = 0; for( int n : rows ) total += n;
    int const final = ch.choose( 5, "final operation" );
    auto c = std::make_unique< C >(); AD::fill( *c, rows, 10 );
    std::vector< int > want; int last = HOST, at = HOST; for( int k = 0; k < total; ++k ) want.push_back( 10 + k );
    int const steps = ch.choose( 3, "steps before" );
    for( int k = 0; k < steps; ++k )
    {
      int const what = ch.choose( 6, "step" );
      int const s = what % 2 ? DEVICE : HOST;
      if( what < 2 ) { AD::each( *c, s, []( Probe & x ) { x.v += 100; } ); for( int & x : want ) x += 100; if( s != last ) at = 0; }
      else { c->move( ms( s ), what < 4 ); at = s; }
      last = s;
    }
    (void) at;
    Probe::log().clear();
    std::vector< int > kept, gone = want;
    if( final == 0 ) c.reset();
    else if( final == 1 ) { C d; AD::fill( d, { 1 }, 50 ); Probe::log().clear(); *c = std::move( d ); kept = { 50 }; }
    else if( final == 2 ) { auto d = std::make_unique< C >( std::move( *c ) ); Probe::log().clear(); d.reset(); c.reset(); }
    else if( final == 3 )
    {
      c->move( MemorySpace::host, true );
      if constexpr( KIND == 0 ) c->clear(); else if constexpr( KIND == 1 ) c->resize( 0 ); else c->resize( 0, 4, 0 );
    }
    else
    {
      C d; AD::fill( d, { 2, 1 }, 50 ); if( rows.size() == 1 ) { d.move( MemorySpace::cuda, true ); d.move( MemorySpace::host, true ); }
      c->move( MemorySpace::host, true ); Probe::log().clear();
      *c = d; kept = { 50, 51, 52 };
      std::vector< int > now; AD::eachDirect( d, [&now]( Probe const & x ) { now.push_back( x.v ); } ); MC_CHECK( now == kept, "the source of an assignment" );
    }
    std::vector< int > log = Probe::log(); std::sort( log.begin(), log.end() ); std::sort( gone.begin(), gone.end() );
    MC_CHECK( final == 4 || log == gone, "destroyed " << log.size() << " values (the least " << ( log.empty() ? 0 : log[ 0 ] ) << "), expected " << gone.size() << " (the least " << ( gone.empty() ? 0 : gone[ 0 ] ) << ")" );
    if( c && final != 2 ) { std::vector< int > now; AD::eachDirect( *c, [&now]( Probe const & x ) { now.push_back( x.v ); } ); MC_CHECK( now == kept, "values afterwards" ); }
    mc::outcome( std::to_string( final ) + std::to_string( total ) );
    c.reset(); MC_CHECK( mockmem::state().records.empty() && mockmem::state().blocks.empty(), "memory left after the owner was destroyed" );
  }, true );
}

#ifndef WHAT
#define WHAT 0
#endif
#ifndef QDEPTH
#define QDEPTH ( WHAT == 0 ? 5 : 4 )
#define TDEPTH 6
#endif
template< typename AD > void explore() { mc::HistoryOptions o; o.depth = mc::thorough() ? TDEPTH : QDEPTH; o.noMerge = 2; mc::exploreHistories< Spaces< AD > >( o ); }
#if WHAT == 0
MC_JOB( "array in two memory spaces" ) { explore< ArrayAd< 1 > >(); }
MC_JOB( "two-dimensional array in two memory spaces" ) { explore< ArrayAd< 2 > >(); }
MC_JOB( "sorted array in two memory spaces" ) { explore< SortedAd >(); }
/* Copies and fills of every pair of places that can be accessed together: memory
 * Umpire manages in either space, and memory it does not know. */
MC_JOB( "copies of managed and other memory" )
{
  mc::g().bound = "every pair of places and parts of 6 bytes, without a resource, with one of the host and of the device";
  mc::enumerate( []( mc::Chooser & c ) {
      enum { PLAIN, MANAGED, FAR };
      static char const * const names[] = { "other memory", "managed memory", "device memory" };
      static std::vector< std::pair< int, int > > const pairs = { { PLAIN, PLAIN }, { PLAIN, MANAGED }, { MANAGED, PLAIN }, { MANAGED, MANAGED }, { MANAGED, FAR }, { FAR, MANAGED }, { FAR, FAR } };
      auto const p = pairs[ c.choose( int( pairs.size() ), "places" ) ];
      int const how = c.choose( 4, "how" );          // copy without a resource, with one of the host or device, fill
      int const from = c.choose( 7, "from" ), to = c.choose( 7, "to" ), n = c.choose( 7, "bytes" );
      if( from + n > 6 || to + n > 6 ) return;
      struct Place
      {
        char * p; int kind;
        Place( int k ): kind( k ) { p = k == PLAIN ? static_cast< char * >( std::malloc( 6 ) ) : static_cast< char * >( mockmem::allocate( 6, k == MANAGED ? HOST : DEVICE, k == MANAGED ? 1 : 2 ) ); }
        ~Place() { if( kind == PLAIN ) std::free( p ); else mockmem::release( p ); }
        std::string get() const { std::string s( 6, 0 ); if( kind == PLAIN ) std::memcpy( &s[ 0 ], p, 6 ); else mockmem::copy( &s[ 0 ], p, 6 ); return s; }
        void put( std::string const & s ) { if( kind == PLAIN ) std::memcpy( p, s.data(), 6 ); else mockmem::copy( p, s.data(), 6 ); }
      } dst( p.first ), src( p.second );
      std::string want = "uvwxyz", const0 = "abcdef";
      dst.put( want ); src.put( const0 );
      if( how == 3 )
      {
        LvArray::umpireInterface::memset( dst.p + to, 'A' + from, n );
        for( int i = 0; i < n; ++i ) want[ to + i ] = char( 'A' + from );
      }
      else
      {
        if( how == 0 ) LvArray::umpireInterface::copy( dst.p + to, src.p + from, n );
        else
        {
          camp::resources::Resource r = how == 1 ? camp::resources::Resource( camp::resources::Host{} ) : camp::resources::Resource( camp::resources::Cuda{} );
          MC_EQ( LvArray::umpireInterface::copy( dst.p + to, src.p + from, r, n ).id(), how, "the event is one of the resource" );
        }
        for( int i = 0; i < n; ++i ) want[ to + i ] = const0[ from + i ];
      }
      MC_EQ( dst.get(), want, names[ p.first ] << " after a copy from " << names[ p.second ] );
      MC_EQ( src.get(), const0, "the source of the copy" );
    } );
}
#elif WHAT == 1
MC_JOB( "array of arrays in two memory spaces" ) { explore< AoAAd >(); }
MC_JOB( "array of sets in two memory spaces" ) { explore< AoSAd >(); }
#elif WHAT == 2
MC_JOB( "sparse matrix in two memory spaces" ) { explore< CrsAd< true > >(); }
MC_JOB( "sparsity pattern in two memory spaces" ) { explore< CrsAd< false > >(); }
#else
MC_JOB( "array of arrays as elements in two memory spaces" ) { explore< NestedAd< 2 > >(); }
MC_JOB( "three nested arrays in two memory spaces" ) { explore< NestedAd< 3 > >(); }
MC_JOB( "array of values with destructors" ) { probes< 0 >(); }
MC_JOB( "array of arrays of values with destructors" ) { probes< 1 >(); }
MC_JOB( "sparse matrix of values with destructors" ) { probes< 2 >(); }
#endif
MC_MAIN
