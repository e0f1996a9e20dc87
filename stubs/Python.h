/* Minimal declarations of the CPython C API so that the analyser sees calls
 * (Py_DECREF, Py_BuildValue, ...) rather than expanded macros. Not used to
 * build anything. */
#ifndef VERIF_PYTHON_STUB_H
#define VERIF_PYTHON_STUB_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
#include <math.h>
#define PY_MAJOR_VERSION 3
#define PY_MINOR_VERSION 12
#define PY_VERSION_HEX 0x030c0000
typedef ptrdiff_t Py_ssize_t;
typedef struct _object { long ob_refcnt; void *ob_type; } PyObject;
typedef struct _typeobject { int x; } PyTypeObject;
typedef struct _dictobject { int x; } PyDictObject;
typedef struct _threadstate { int x; } PyThreadState;
typedef int PyGILState_STATE;
typedef PyObject *(*PyCFunction)(PyObject *, PyObject *);
typedef struct { const char *ml_name; PyCFunction ml_meth; int ml_flags; const char *ml_doc; } PyMethodDef;
struct PyModuleDef_Base { int x; };
typedef struct PyModuleDef { struct PyModuleDef_Base m_base; const char *m_name; const char *m_doc; Py_ssize_t m_size; PyMethodDef *m_methods; void *m_slots; void *m_traverse; void *m_clear; void *m_free; } PyModuleDef;
#define PyModuleDef_HEAD_INIT {0}
#define METH_VARARGS 1
#define METH_KEYWORDS 2
#define METH_NOARGS 4
#define METH_O 8
#define PyMODINIT_FUNC PyObject*
extern PyObject *PyExc_RuntimeError, *PyExc_ValueError, *PyExc_TypeError, *PyExc_MemoryError, *PyExc_AttributeError, *PyExc_KeyError, *PyExc_ImportError, *PyExc_ArithmeticError, *PyExc_Exception, *PyExc_OverflowError, *PyExc_IndexError, *PyExc_RuntimeWarning, *PyExc_UserWarning;
extern PyObject *Py_None, *Py_True, *Py_False;
#define Py_RETURN_NONE return Py_None
#define Py_RETURN_TRUE return Py_True
#define Py_RETURN_FALSE return Py_False
void Py_DECREF(void *); void Py_XDECREF(void *); void Py_INCREF(void *); void Py_XINCREF(void *);
PyObject *Py_NewRef(void *); PyObject *Py_XNewRef(void *);
void Py_CLEAR_(void *);
#define Py_CLEAR(x) do { Py_XDECREF(x); (x) = NULL; } while (0)
#define Py_BEGIN_ALLOW_THREADS { PyThreadState *_save; _save = PyEval_SaveThread();
#define Py_END_ALLOW_THREADS PyEval_RestoreThread(_save); }
PyThreadState *PyEval_SaveThread(void); void PyEval_RestoreThread(PyThreadState *);
PyGILState_STATE PyGILState_Ensure(void); void PyGILState_Release(PyGILState_STATE); int PyGILState_Check(void);
int PyArg_ParseTuple(PyObject *, const char *, ...);
int PyArg_ParseTupleAndKeywords(PyObject *, PyObject *, const char *, char **, ...);
PyObject *Py_BuildValue(const char *, ...);
PyObject *PyErr_Format(PyObject *, const char *, ...);
void PyErr_SetString(PyObject *, const char *); void PyErr_SetObject(PyObject *, PyObject *); void PyErr_SetNone(PyObject *);
PyObject *PyErr_Occurred(void); void PyErr_Clear(void); void PyErr_Print(void); PyObject *PyErr_NoMemory(void);
int PyErr_ExceptionMatches(PyObject *); int PyErr_WarnEx(PyObject *, const char *, Py_ssize_t); int PyErr_CheckSignals(void);
PyObject *PyObject_GetAttrString(void *, const char *); PyObject *PyObject_GetAttr(void *, void *);
int PyObject_HasAttrString(void *, const char *); int PyObject_HasAttr(void *, void *);
int PyObject_SetAttrString(void *, const char *, void *);
PyObject *PyObject_CallObject(void *, void *); PyObject *PyObject_Call(void *, void *, void *); PyObject *PyObject_CallMethod(void *, const char *, const char *, ...); PyObject *PyObject_CallFunction(void *, const char *, ...); PyObject *PyObject_CallNoArgs(void *);
PyObject *PyDict_GetItemString(void *, const char *); PyObject *PyDict_GetItem(void *, void *); PyObject *PyDict_GetItemWithError(void *, void *);
PyObject *PyDict_New(void); int PyDict_SetItemString(void *, const char *, void *); int PyDict_Check(void *); int PyDict_Contains(void *, void *);
int PyFloat_Check(void *); int PyLong_Check(void *); int PyBool_Check(void *); int PyArray_Check(void *); int PyTuple_Check(void *); int PyList_Check(void *); int PyUnicode_Check(void *); int PyIndex_Check(void *); int PyNumber_Check(void *); int PyCapsule_CheckExact(void *); int PyCapsule_IsValid(void *, const char *);
double PyFloat_AsDouble(void *); double PyFloat_AS_DOUBLE(void *); long PyLong_AsLong(void *); int PyLong_AsInt(void *); long long PyLong_AsLongLong(void *); Py_ssize_t PyLong_AsSsize_t(void *); int PyObject_IsTrue(void *); int PyObject_Not(void *);
PyObject *PyFloat_FromDouble(double); PyObject *PyLong_FromLong(long); PyObject *PyBool_FromLong(long);
PyObject *PyUnicode_FromString(const char *); PyObject *PyTuple_New(Py_ssize_t); PyObject *PyTuple_GetItem(void *, Py_ssize_t); Py_ssize_t PyTuple_Size(void *); PyObject *PyTuple_Pack(Py_ssize_t, ...);
PyObject *PyList_New(Py_ssize_t); PyObject *PyList_GetItem(void *, Py_ssize_t); Py_ssize_t PyList_Size(void *);
PyObject *PyImport_ImportModule(const char *); PyObject *PyImport_Import(void *); PyObject *PyImport_AddModule(const char *);
PyObject *PyModule_Create(PyModuleDef *); PyObject *PyModule_GetDict(PyObject *); int PyModule_AddObject(PyObject *, const char *, PyObject *); int PyModule_AddIntConstant(PyObject *, const char *, long); int PyModule_AddStringConstant(PyObject *, const char *, const char *); PyObject *PyModuleDef_Init(PyModuleDef *);
const char *PyCapsule_GetName(void *); void *PyCapsule_GetPointer(void *, const char *); void *PyCapsule_Import(const char *, int); PyObject *PyCapsule_New(void *, const char *, void *);
void *PyMem_Malloc(size_t); void *PyMem_Calloc(size_t, size_t); void *PyMem_Realloc(void *, size_t); void PyMem_Free(void *);
void *PyMem_RawMalloc(size_t); void *PyMem_RawCalloc(size_t, size_t); void PyMem_RawFree(void *);
#define PyLong_AS_LONG PyLong_AsLong
#define Py_UNUSED(x) x
#define Py_TYPE(x) ((PyTypeObject*)((PyObject*)(x))->ob_type)
void PySys_WriteStdout(const char *, ...); void PySys_WriteStderr(const char *, ...);
#endif
