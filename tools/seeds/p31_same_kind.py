ID='p31-same-kind'; PROPERTY='P31'
NEEDS='values of a wider floating point type given to a container of float'
BREAKS='the conversion is accepted although it loses digits'
EDITS=[('src/python/numpyHelpers.cpp', '  PYTHON_ERROR_IF( !PyArray_CanCastSafely( srcNumPyType, expectedNumPyType ), PyExc_TypeError,', '  PYTHON_ERROR_IF( !PyArray_CanCastSafely( srcNumPyType, expectedNumPyType ) && !( PyTypeNum_ISFLOAT( srcNumPyType ) && PyTypeNum_ISFLOAT( expectedNumPyType ) ), PyExc_TypeError,')]
NP='-I/usr/include/python3.12 -I/opt/veriftools/pyvenv/lib/python3.12/site-packages/numpy/_core/include'
FLAGS='-O0 '+NP
SOURCES='"$PWD"/src/python/*.cpp "$PWD/src/system.cpp" "$PWD/src/umpireInterface.cpp" -lpython3.12'
PRE=r'''
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "python/python.hpp"
#include "MallocBuffer.hpp"
PyMODINIT_FUNC PyInit_pylvarray( void );
static int run( PyObject * o, char const * code )
{
  PyObject * g = PyModule_GetDict( PyImport_AddModule( "__main__" ) );
  PyDict_SetItemString( g, "c", o );
  PyObject * r = PyRun_String( code, Py_file_input, g, g );
  if( r == nullptr ) { PyErr_Print(); return 1; }
  return 0;
}
static void start()
{
  PyImport_AppendInittab( "pylvarray", PyInit_pylvarray );
  Py_InitializeEx( 0 );
  PyRun_SimpleString( "import sys\nsys.path[:0] = [ '/opt/veriftools/pyvenv/lib/python3.12/site-packages' ]\nsys.dont_write_bytecode = True\nimport numpy as np, pylvarray" );
}
'''
DEMO=PRE+r'''
int main()
{
  start();
  LvArray::SortedArray< float, int, LvArray::MallocBuffer > s;
  return run( LvArray::python::create( s ), R"(
c.set_access_level( pylvarray.RESIZEABLE )
c.insert( np.array( [ 1.5 ], dtype=np.float32 ) )
try: c.insert( np.array( [ 0.1 ], dtype=np.float64 ) )
except TypeError: pass
else: raise SystemError( 'an unsafe conversion was accepted' )
assert list( c.to_numpy() ) == [ 1.5 ]
)" );
}
'''
