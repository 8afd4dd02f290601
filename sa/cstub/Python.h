/* Stand-in declarations: every API entry point is a plain function, so that
   the syntax tree of the code under analysis shows calls, not macro bodies. */
#ifndef STUB_PYTHON_H
#define STUB_PYTHON_H
typedef unsigned long size_t;
typedef long ssize_t;
typedef long Py_ssize_t;
typedef signed char int8_t; typedef unsigned char uint8_t;
typedef short int16_t; typedef unsigned short uint16_t;
typedef int int32_t; typedef unsigned int uint32_t;
typedef long int64_t; typedef unsigned long uint64_t;
#define NULL ((void*)0)
#define restrict
typedef struct pyobject_s PyObject;
extern PyObject *Py_None;
extern PyObject *PyExc_ValueError, *PyExc_RuntimeError, *PyExc_TypeError, *PyExc_MemoryError;
void Py_INCREF(void*); void Py_XINCREF(void*);
void Py_DECREF(void*); void Py_XDECREF(void*); void Py_CLEAR(void*);
void PyErr_SetString(PyObject*, const char*);
PyObject *PyErr_Format(PyObject*, const char*, ...);
PyObject *PyErr_NoMemory(void);
PyObject *PyErr_Occurred(void);
void *PyMem_Malloc(size_t); void PyMem_Free(void*);
void *malloc(size_t); void *calloc(size_t, size_t); void *realloc(void*, size_t); void free(void*);
void *memcpy(void*, const void*, size_t); void *memset(void*, int, size_t); void *memmove(void*, const void*, size_t);
int printf(const char*, ...);
typedef struct file_s FILE; extern FILE *stdout, *stderr;
int fprintf(FILE*, const char*, ...); int fflush(FILE*);
int snprintf(char*, size_t, const char*, ...);
int strcmp(const char*, const char*); size_t strlen(const char*);
int abs(int); void exit(int); void abort(void);
#endif
