// A collection before every allocation of a collectable object the module makes while it is armed.
#include <Python.h>
static volatile int armed;
static volatile long points;
static void point(void) {
    if (!armed) return;
    armed = 0;
    points++;
    PyGC_Collect();
    armed = 1;
}
__attribute__((visibility("default"))) void gcp_arm(int on) { armed = on; }
__attribute__((visibility("default"))) long gcp_points(void) { return points; }
#define W(ret, name, params, args) ret __real_##name params; ret __wrap_##name params { point(); return __real_##name args; }
W(PyObject *, PyList_New, (Py_ssize_t n), (n))
W(PyObject *, PyTuple_New, (Py_ssize_t n), (n))
W(PyObject *, _PyObject_GC_New, (PyTypeObject *t), (t))
W(PyObject *, PyType_GenericAlloc, (PyTypeObject *t, Py_ssize_t n), (t, n))
W(PyObject *, PyType_GenericNew, (PyTypeObject *t, PyObject *a, PyObject *k), (t, a, k))
W(PyObject *, PySequence_Fast, (PyObject *o, const char *m), (o, m))
W(PyObject *, PySequence_Concat, (PyObject *o, PyObject *m), (o, m))
W(PyObject *, PyMapping_Keys, (PyObject *o), (o))
W(PyObject *, PyObject_GetIter, (PyObject *o), (o))
W(PyObject *, PyObject_CallObject, (PyObject *o, PyObject *m), (o, m))
W(PyObject *, PyObject_CallOneArg, (PyObject *o, PyObject *m), (o, m))
