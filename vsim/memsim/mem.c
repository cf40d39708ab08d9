/* Array memory under the simulator's control: every block NumPy allocates is aligned and lies so far from
   any other that no result depends on where the operating system placed it (NumPy picks other instructions,
   which round differently, for operands that touch), and the n-th request can be made to fail. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>
#include <stdint.h>
#include <string.h>

typedef struct { void *base; size_t size; } head;
static long count = 0, fail_at = 0, failed = 0;

static size_t margin(size_t n) {
    size_t m = n < 256 ? 256 : n;
    if (m > ((size_t)4 << 20)) m = (size_t)4 << 20;
    return (m + 63) & ~(size_t)63;
}
/* numpy.linalg.lstsq itself crashes if it gets no memory */
static int spared(void) {
    PyThreadState *t = PyGILState_GetThisThreadState();
    if (!t || !PyGILState_Check()) return 1;
    PyFrameObject *f = PyThreadState_GetFrame(t);
    if (!f) return 0;
    PyCodeObject *c = PyFrame_GetCode(f);
    const char *name = PyUnicode_AsUTF8(c->co_filename);
    int r = !name || strstr(name, "/linalg/") != NULL;
    if (!name) PyErr_Clear();
    Py_DECREF(c); Py_DECREF(f);
    return r;
}
static int refuse(void) {
    count++;
    if (fail_at && !failed && count >= fail_at && !spared()) { failed++; return 1; }
    return 0;
}
static void *place(void *base, size_t n) {
    if (!base) return NULL;
    uintptr_t p = ((uintptr_t)base + margin(n) + sizeof(head) + 63) & ~(uintptr_t)63;
    head *h = (head *)p - 1;
    h->base = base; h->size = n;
    return (void *)p;
}
static size_t total(size_t n) { return n + 2 * margin(n) + 128 + sizeof(head); }
static void *m_malloc(void *ctx, size_t n) { return refuse() ? NULL : place(malloc(total(n)), n); }
static void *m_calloc(void *ctx, size_t k, size_t s) {
    if (s && k > SIZE_MAX / 8 / s) return NULL;
    return refuse() ? NULL : place(calloc(1, total(k * s)), k * s);
}
static void m_free(void *ctx, void *p, size_t n) { if (p) free(((head *)p - 1)->base); }
static void *m_realloc(void *ctx, void *p, size_t n) {
    if (refuse()) return NULL;
    void *q = place(malloc(total(n)), n);
    if (q && p) {
        size_t old = ((head *)p - 1)->size;
        memcpy(q, p, old < n ? old : n);
        free(((head *)p - 1)->base);
    }
    return q;
}
static PyDataMem_Handler handler = {"vsim", 1, {NULL, m_malloc, m_calloc, m_realloc, m_free}};

static PyObject *install(PyObject *self, PyObject *a) {
    PyObject *c = PyCapsule_New(&handler, "mem_handler", NULL);
    if (!c) return NULL;
    PyObject *old = PyDataMem_SetHandler(c);
    Py_DECREF(c);
    if (!old) return NULL;
    Py_DECREF(old);
    Py_RETURN_NONE;
}
static PyObject *fail(PyObject *self, PyObject *a) {
    if (!PyArg_ParseTuple(a, "l", &fail_at)) return NULL;
    count = failed = 0;
    Py_RETURN_NONE;
}
static PyObject *counts(PyObject *self, PyObject *a) { return Py_BuildValue("ll", count, failed); }
static PyMethodDef methods[] = {{"install", install, METH_NOARGS, "use this memory for arrays created by this thread from now on"},
    {"fail", fail, METH_VARARGS, "fail(n): start counting, the n-th request fails (0: none)"},
    {"counts", counts, METH_NOARGS, "requests since fail() and how many of them failed"}, {NULL}};
static struct PyModuleDef mod = {PyModuleDef_HEAD_INIT, "vsim_mem", NULL, -1, methods};
PyMODINIT_FUNC PyInit_vsim_mem(void) { import_array(); return PyModule_Create(&mod); }
