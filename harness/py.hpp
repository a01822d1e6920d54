/* An embedded CPython interpreter around the bindings of src/python. */
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "lv.hpp"
#include "python/python.hpp"
#include "python/numpyHelpers.hpp"
#include "MallocBuffer.hpp"

PyMODINIT_FUNC PyInit_pylvarray( void );

namespace py
{
struct Ref
{
  PyObject * p = nullptr;
  Ref() = default;
  Ref( PyObject * q ): p( q ) {}
  Ref( Ref const & o ): p( o.p ) { Py_XINCREF( p ); }
  Ref( Ref && o ): p( o.p ) { o.p = nullptr; }
  Ref & operator=( Ref o ) { std::swap( p, o.p ); return *this; }
  ~Ref() { Py_XDECREF( p ); }
  operator PyObject *() const { return p; }
  explicit operator bool() const { return p != nullptr; }
};

inline Ref globals;

inline void need( bool ok, char const * what )
{ if( !ok ) { PyErr_Print(); fprintf( stderr, "python set-up failed: %s\n", what ); abort(); } }

/* Helpers written in Python: arguments for the calls, and numpy's own opinion on them. */
inline char const * const prelude =
  "import sys, gc\n"
  "sys.path[:0] = [ '/opt/veriftools/pyvenv/lib/python3.12/site-packages' ]\n"
  "import numpy as np\n"
  "import pylvarray\n"
  "def safe( dtype, x ):\n"
  "    a = np.asarray( x )\n"
  "    try: return 1 if np.can_cast( a.dtype, dtype, 'safe' ) and a.dtype.kind in 'biuf' else 0\n"
  "    except TypeError: return 0\n"
  "def plain( x ):\n"
  "    a = np.asarray( x )\n"
  "    return 1 if a.ndim <= 1 and a.flags.c_contiguous and a.flags.writeable and a.flags.aligned and a.dtype.isnative else 0\n"
  "def ndim( x ): return np.asarray( x ).ndim\n"
  "def readonly( x ):\n"
  "    x.setflags( write=False )\n"
  "    return x\n"
  "gc.disable()\n";

inline void init()
{
  if( globals ) return;
  setenv( "PYTHONMALLOC", "malloc", 1 );
  setenv( "PYTHONDONTWRITEBYTECODE", "1", 1 );
  setenv( "OPENBLAS_NUM_THREADS", "1", 1 );
  PyImport_AppendInittab( "pylvarray", PyInit_pylvarray );
  Py_InitializeEx( 0 );
  PyObject * const main = PyImport_AddModule( "__main__" );
  globals = Ref( Py_NewRef( PyModule_GetDict( main ) ) );
  Ref r( PyRun_String( prelude, Py_file_input, globals, globals ) );
  need( bool( r ), "prelude" );
}

/* Memory allocated here isn't expected to be released. */
struct Unaccounted { bool const on = mc::allocs().on; Unaccounted() { mc::allocs().on = false; } ~Unaccounted() { mc::allocs().on = on; } };

inline void exec( char const * code )
{ Ref r( PyRun_String( code, Py_file_input, globals, globals ) ); need( bool( r ), code ); }

/* The value of an expression; the same object every time, made outside of the accounted region. */
inline PyObject * value( std::string const & expr )
{
  static std::map< std::string, PyObject * > cache;
  auto const it = cache.find( expr );
  if( it != cache.end() ) return it->second;
  bool const on = mc::allocs().on; mc::allocs().on = false;
  PyObject * const o = PyRun_String( expr.c_str(), Py_eval_input, globals, globals );
  need( o != nullptr, expr.c_str() );
  cache[ expr ] = o;
  mc::allocs().on = on;
  return o;
}

inline long asLong( PyObject * o ) { long const r = PyLong_AsLong( o ); need( !PyErr_Occurred(), "integer expected" ); return r; }
inline long evalLong( std::string const & expr )
{
  static std::map< std::string, long > cache;
  bool const on = mc::allocs().on; mc::allocs().on = false;
  auto it = cache.find( expr );
  if( it == cache.end() ) it = cache.emplace( expr, asLong( value( expr ) ) ).first;
  mc::allocs().on = on;
  return it->second;
}

/* Attribute names are kept: the interpreter's caches hold on to every new one. */
inline PyObject * attr( PyObject * o, char const * name )
{
  bool const on = mc::allocs().on; mc::allocs().on = false;
  static std::map< std::string, PyObject * > names;
  PyObject * & n = names[ name ];
  if( n == nullptr ) n = PyUnicode_InternFromString( name );
  mc::allocs().on = on;
  return PyObject_GetAttr( o, n );
}

/* What a call did: a value, or an exception of some type. */
struct Result
{
  Ref v;
  bool raised = false;
  char type[ 64 ] = "";
  bool is( char const * t ) const { return raised && std::strcmp( type, t ) == 0; }
};

inline Result take( PyObject * v, char const * what )
{
  Result r;
  r.v = Ref( v );
  if( PyErr_Occurred() )
  {
    r.raised = true;
    PyObject * t, * x, * tb;
    PyErr_Fetch( &t, &x, &tb );
    snprintf( r.type, sizeof( r.type ), "%s", reinterpret_cast< PyTypeObject * >( t )->tp_name );
    Py_XDECREF( t ); Py_XDECREF( x ); Py_XDECREF( tb );
    MC_CHECK( v == nullptr, what << " returned a result and left an exception set" );
    MC_CHECK( std::strcmp( r.type, "SystemError" ) != 0, what << " broke the interpreter's calling convention (SystemError)" );
  }
  else MC_CHECK( v != nullptr, what << " returned no result and raised no exception" );
  return r;
}

template< typename ... ARGS >
Result call( PyObject * o, char const * name, ARGS ... args )
{
  Ref f( attr( o, name ) );
  if( !f ) return take( nullptr, name );
  return take( PyObject_CallFunctionObjArgs( f, static_cast< PyObject * >( args ) ..., nullptr ), name );
}

inline Result callTuple( PyObject * o, char const * name, PyObject * args )
{
  Ref f( attr( o, name ) );
  if( !f ) return take( nullptr, name );
  return take( PyObject_CallObject( f, args ), name );
}

inline PyObject * num( long n ) { return value( std::to_string( n ) ); }

inline void ok( Result const & r, char const * what ) { MC_CHECK( !r.raised, what << " raised " << r.type ); }
inline void raises( Result const & r, char const * what ) { MC_CHECK( r.raised, what << " raised no exception" ); }

template< typename T > struct Dtype;
#define PY_DTYPE( T, F ) template<> struct Dtype< T > { static char const * name() { return F; } }
PY_DTYPE( char, "np.byte" ); PY_DTYPE( signed char, "np.byte" ); PY_DTYPE( unsigned char, "np.ubyte" ); PY_DTYPE( short, "np.short" ); PY_DTYPE( unsigned short, "np.ushort" );
PY_DTYPE( int, "np.intc" ); PY_DTYPE( unsigned, "np.uintc" ); PY_DTYPE( long, "np.long" ); PY_DTYPE( unsigned long, "np.ulong" );
PY_DTYPE( long long, "np.longlong" ); PY_DTYPE( unsigned long long, "np.ulonglong" ); PY_DTYPE( float, "np.float32" ); PY_DTYPE( double, "np.float64" ); PY_DTYPE( long double, "np.longdouble" );
PY_DTYPE( bool, "np.bool_" );

/* A numpy view has to show exactly this memory. */
template< typename T, typename DIM, typename STR >
void sameMemory( PyObject * view, T const * data, int ndim, DIM const & dims, STR const & strides, bool writeable, char const * what )
{
  Py_buffer b;
  MC_CHECK( PyObject_GetBuffer( view, &b, PyBUF_FULL_RO ) == 0, what << " is not an array" );
  long n = 1;
  for( int i = 0; i < ndim; ++i ) n *= long( dims[ i ] );
  MC_EQ( b.ndim, ndim, what << ": number of dimensions" );
  for( int i = 0; i < ndim; ++i ) MC_EQ( long( b.shape[ i ] ), long( dims[ i ] ), what << ": extent " << i );
  MC_EQ( long( b.itemsize ), long( sizeof( T ) ), what << ": size of an element" );
  if( n > 0 )
  {
    MC_CHECK( b.buf == static_cast< void const * >( data ), what << " does not show the memory of the container" );
    for( int i = 0; i < ndim; ++i ) if( dims[ i ] > 1 ) MC_EQ( long( b.strides[ i ] ), long( strides[ i ] ) * long( sizeof( T ) ), what << ": stride " << i );
    MC_EQ( !b.readonly, writeable, what << ": writable" );
  }
  PyBuffer_Release( &b );
  Ref dt( attr( view, "dtype" ) );
  MC_CHECK( PyObject_RichCompareBool( dt, value( std::string( "np.dtype( " ) + Dtype< T >::name() + " )" ), Py_EQ ) == 1, what << ": dtype" );
}

template< typename T >
void sameRow( PyObject * view, T const * data, long n, bool writeable, char const * what )
{ long const one = 1; sameMemory( view, data, 1, &n, &one, writeable, what ); }

/* Every argument that a values parameter may get, as Python expressions. */
inline std::vector< std::string > const & valueArgs()
{
  static std::vector< std::string > const v = [] {
    std::vector< std::string > r;
    for( char const * t : { "np.byte", "np.ubyte", "np.short", "np.ushort", "np.intc", "np.uintc", "np.long", "np.ulong", "np.longlong", "np.ulonglong", "np.float32", "np.float64", "np.longdouble", "np.bool_", "np.complex128", "object" } )
      for( char const * l : { "[]", "[1]", "[1,2]", "[2,1]", "[1,1]", "[3,0,2,0]" } )
        r.push_back( std::string( "np.array( " ) + l + ", dtype=" + t + " )" );
    for( char const * t : { "np.intc", "np.long", "np.float64", "np.short" } )
    {
      std::string const s = t;
      r.push_back( s + "( 2 )" );
      r.push_back( "np.array( 1, dtype=" + s + " )" );
      r.push_back( "np.array( [ 1, 7, 2, 7 ], dtype=" + s + " )[ ::2 ]" );
      r.push_back( "np.array( [ 2, 1 ], dtype=" + s + " )[ ::-1 ]" );
      r.push_back( "np.array( [ [ 1, 2 ] ], dtype=" + s + " )" );
      r.push_back( "np.array( [ [ 1 ] ], dtype=" + s + " )" );
      r.push_back( "readonly( np.array( [ 1, 2 ], dtype=" + s + " ) )" );
      r.push_back( "np.array( [ 1, 2 ], dtype=np.dtype( " + s + " ).newbyteorder() )" );
    }
    for( char const * x : { "[]", "[ 1 ]", "[ 2, 1 ]", "( 1, 2 )", "1", "True", "1.5", "[ 1.0, 2.0 ]", "2**70", "-1", "[ -1, 1 ]", "None", "'foobar'", "[ 'a' ]", "object()", "{}", "[ [ 1 ], [ 2 ] ]", "[ None ]" } ) r.push_back( x );
    return r;
  }();
  return v;
}
enum class Verdict { MUST, MUST_NOT, MAY };
/* Whether the values can be converted: by numpy's own rules for safe conversions. */
inline Verdict acceptable( std::string const & dtype, std::string const & arg )
{
  if( evalLong( "safe( " + dtype + ", " + arg + " )" ) == 0 || evalLong( "ndim( " + arg + " )" ) > 1 ) return Verdict::MUST_NOT;
  return evalLong( "plain( " + arg + " )" ) ? Verdict::MUST : Verdict::MAY;
}
template< typename T >
std::vector< T > valuesOf( std::string const & arg )
{
  bool const on = mc::allocs().on; mc::allocs().on = false;
  static std::map< std::string, std::vector< T > > cache;
  auto it = cache.find( arg );
  if( it == cache.end() )
  {
    std::vector< T > r;
    PyObject * const l = value( "np.asarray( " + arg + ", dtype=np.float64 ).reshape( -1 ).tolist()" );
    for( Py_ssize_t i = 0; i < PyList_Size( l ); ++i ) r.push_back( T( PyFloat_AsDouble( PyList_GetItem( l, i ) ) ) );
    it = cache.emplace( arg, r ).first;
  }
  mc::allocs().on = on;
  return it->second;
}
}
