#ifndef VERIF_NUMPY_STUB_H
#define VERIF_NUMPY_STUB_H
typedef ptrdiff_t npy_intp; typedef int npy_int; typedef int npy_int32; typedef long npy_int64; typedef double npy_double; typedef double npy_float64; typedef unsigned char npy_bool;
typedef struct { double real, imag; } npy_cdouble; typedef npy_cdouble npy_complex128;
typedef struct _arrayobject { int x; } PyArrayObject;
typedef struct _descr { int type_num; } PyArray_Descr;
extern PyTypeObject PyArray_Type;
void *PyArray_DATA(void *); npy_intp *PyArray_DIMS(void *); npy_intp PyArray_DIM(void *, int); npy_intp *PyArray_SHAPE(void *); npy_intp *PyArray_STRIDES(void *); npy_intp PyArray_STRIDE(void *, int); int PyArray_NDIM(void *); npy_intp PyArray_SIZE(void *); int PyArray_TYPE(void *); int PyArray_ITEMSIZE(void *);
char *PyArray_BYTES(void *); void *PyArray_GETPTR1(void *, npy_intp); void *PyArray_GETPTR2(void *, npy_intp, npy_intp); void *PyArray_GETPTR3(void *, npy_intp, npy_intp, npy_intp);
int PyArray_IS_C_CONTIGUOUS(void *); int PyArray_ISCARRAY(void *); int PyArray_ISCONTIGUOUS(void *);
PyObject *PyArray_SimpleNew(int, npy_intp *, int); PyObject *PyArray_ZEROS(int, npy_intp *, int, int); PyObject *PyArray_FROM_OTF(void *, int, int); PyObject *PyArray_GETCONTIGUOUS(void *);
void import_array(void); int _import_array(void);
enum { NPY_BOOL, NPY_INT, NPY_INT32 = 5, NPY_LONG = 7, NPY_INT64 = 7, NPY_DOUBLE = 12, NPY_FLOAT64 = 12, NPY_CDOUBLE = 15, NPY_COMPLEX128 = 15 };
#define NPY_1_7_API_VERSION 7
#define NPY_1_9_API_VERSION 9
#define NPY_ARRAY_IN_ARRAY 1
#define NPY_ARRAY_C_CONTIGUOUS 1
#endif
