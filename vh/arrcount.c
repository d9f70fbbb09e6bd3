/* Counts the numpy arrays that own data: a data-memory handler around malloc. */
#define PY_SSIZE_T_CLEAN
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <Python.h>
#include <numpy/arrayobject.h>

static long long live, made;

static void *h_malloc(void *c, size_t n) {
  void *p = malloc(n ? n : 1);
  if (p) { __atomic_add_fetch(&live, 1, __ATOMIC_RELAXED); __atomic_add_fetch(&made, 1, __ATOMIC_RELAXED); }
  return p;
}
static void *h_calloc(void *c, size_t k, size_t n) {
  void *p = calloc(k ? k : 1, n ? n : 1);
  if (p) { __atomic_add_fetch(&live, 1, __ATOMIC_RELAXED); __atomic_add_fetch(&made, 1, __ATOMIC_RELAXED); }
  return p;
}
static void *h_realloc(void *c, void *p, size_t n) {
  void *q = realloc(p, n ? n : 1);
  if (q && !p) __atomic_add_fetch(&live, 1, __ATOMIC_RELAXED);
  return q;
}
static void h_free(void *c, void *p, size_t n) {
  if (p) __atomic_sub_fetch(&live, 1, __ATOMIC_RELAXED);
  free(p);
}
static PyDataMem_Handler handler = {"arrcount", 1, {NULL, h_malloc, h_calloc, h_realloc, h_free}};

static PyObject *counts(PyObject *self, PyObject *args) { return Py_BuildValue("LL", live, made); }
static PyObject *install(PyObject *self, PyObject *args) {
  PyObject *cap = PyCapsule_New(&handler, "mem_handler", NULL), *old;
  if (!cap) return NULL;
  old = PyDataMem_SetHandler(cap);
  Py_DECREF(cap);
  if (!old) return NULL;
  Py_DECREF(old);
  Py_RETURN_NONE;
}
static PyMethodDef methods[] = {{"counts", counts, METH_NOARGS, NULL}, {"install", install, METH_NOARGS, NULL}, {NULL}};
static struct PyModuleDef mod = {PyModuleDef_HEAD_INIT, "arrcount", NULL, -1, methods};
PyMODINIT_FUNC PyInit_arrcount(void) { import_array(); return PyModule_Create(&mod); }
