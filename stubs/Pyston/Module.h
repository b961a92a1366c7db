#pragma once
#include <Python.h>
#define PYSTON_MODULE_INIT PyInit_pyston
namespace Pyston { void registerModule(); template<class...A> class ExpressionTreeBuilderX; }
extern "C" PyObject* PyInit_pyston();
