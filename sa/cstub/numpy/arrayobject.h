#ifndef STUB_NUMPY_H
#define STUB_NUMPY_H
#include "Python.h"
typedef struct pyarray_s PyArrayObject;
typedef struct pydescr_s PyArray_Descr;
typedef long npy_intp; typedef unsigned char npy_bool; typedef double npy_double; typedef float npy_float;
typedef int npy_int; typedef unsigned char npy_uint8; typedef float npy_float32; typedef double npy_float64;
enum { NPY_BOOL, NPY_BYTE, NPY_UBYTE, NPY_SHORT, NPY_INT, NPY_LONG, NPY_FLOAT, NPY_DOUBLE,
  NPY_FLOAT32, NPY_FLOAT64, NPY_UINT8, NPY_INT32, NPY_INT64, NPY_INTP };
enum { NPY_ARRAY_C_CONTIGUOUS = 1, NPY_ARRAY_ALIGNED = 0x100, NPY_ARRAY_WRITEABLE = 0x400,
  NPY_ARRAY_WRITEBACKIFCOPY = 0x2000, NPY_ARRAY_FORCECAST = 0x10, NPY_ARRAY_NOTSWAPPED = 0x200,
  NPY_ARRAY_ENSURECOPY = 0x20, NPY_ARRAY_DEFAULT = 0x501, NPY_ARRAY_IN_ARRAY = 0x101,
  NPY_ARRAY_OUT_ARRAY = 0x501, NPY_ARRAY_CARRAY = 0x501 };
PyArray_Descr *PyArray_DescrFromType(int);
PyObject *PyArray_FromAny(PyObject*, PyArray_Descr*, int, int, int, PyObject*);
PyObject *PyArray_SimpleNew(int, npy_intp*, int);
PyObject *PyArray_ZEROS(int, npy_intp*, int, int);
int PyArray_ResolveWritebackIfCopy(PyArrayObject*);
void PyArray_DiscardWritebackIfCopy(PyArrayObject*);
npy_intp PyArray_DIM(PyArrayObject*, int);
npy_intp *PyArray_DIMS(PyArrayObject*);
npy_intp PyArray_SIZE(PyArrayObject*);
int PyArray_NDIM(PyArrayObject*);
int PyArray_TYPE(PyArrayObject*);
void *PyArray_DATA(PyArrayObject*);
void *PyArray_GETPTR1(PyArrayObject*, npy_intp);
void *PyArray_GETPTR2(PyArrayObject*, npy_intp, npy_intp);
int PyArray_Check(PyObject*);
#endif
