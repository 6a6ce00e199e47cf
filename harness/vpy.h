/* A stand-in for the part of CPython the bindings use: reference counted objects on the heap, lists, strings, numbers, exceptions and argument parsing.
   Both the symbolic run and the native replay use it, so that every allocation and every reference is seen. */
#pragma once
#include <Python.h>
#include <structmember.h>
#include <stdarg.h>
#include <limits.h>
#include "sx.h"
struct vstr { PyObject_HEAD char *s; };
struct vlong { PyObject_HEAD bool neg, huge; uint64_t mag; };
struct vfloat { PyObject_HEAD double v; };
struct vtup { PyObject_HEAD int n; PyObject *o[8]; };
struct vdict { PyObject_HEAD int n; char *k[24]; PyObject *v[24]; };
static void v_free_str(PyObject *o) { free(((struct vstr *)o)->s); free(o); }
static void v_free_plain(PyObject *o) { free(o); }
static void v_free_list(PyObject *o) { PyListObject *l = (PyListObject *)o; Py_ssize_t n = Py_SIZE(o); while (n-- > 0) Py_XDECREF(l->ob_item[n]); free(l->ob_item); free(l); }
static void v_free_tup(PyObject *o) { struct vtup *t = (struct vtup *)o; for (int i = 0; i < t->n; i++) Py_XDECREF(t->o[i]); free(t); }
static void v_free_dict(PyObject *o) { struct vdict *d = (struct vdict *)o; for (int i = 0; i < d->n; i++) { free(d->k[i]); Py_XDECREF(d->v[i]); } free(d); }
#define IMM { .ob_base = { .ob_refcnt = UINT_MAX } }
#define VT(N, S, D, F) PyTypeObject N = { .ob_base = IMM, .tp_name = #N, .tp_basicsize = S, .tp_dealloc = D, .tp_flags = F }
VT(PyBaseObject_Type, sizeof(PyObject), NULL, 0);
VT(PyUnicode_Type, sizeof(struct vstr), v_free_str, Py_TPFLAGS_UNICODE_SUBCLASS);
VT(PyLong_Type, sizeof(struct vlong), v_free_plain, Py_TPFLAGS_LONG_SUBCLASS);
VT(PyFloat_Type, sizeof(struct vfloat), v_free_plain, 0);
VT(PyList_Type, sizeof(PyListObject), v_free_list, Py_TPFLAGS_LIST_SUBCLASS);
VT(PyTuple_Type, sizeof(struct vtup), v_free_tup, Py_TPFLAGS_TUPLE_SUBCLASS);
VT(PyDict_Type, sizeof(struct vdict), v_free_dict, Py_TPFLAGS_DICT_SUBCLASS);
VT(v_none_type, sizeof(PyObject), NULL, 0);
VT(PyBool_Type, sizeof(PyObject), NULL, Py_TPFLAGS_LONG_SUBCLASS);
PyObject _Py_NoneStruct = { .ob_refcnt = UINT_MAX, .ob_type = &v_none_type };
struct _longobject _Py_TrueStruct = { .ob_base = { .ob_refcnt = UINT_MAX, .ob_type = &PyBool_Type } };
struct _longobject _Py_FalseStruct = { .ob_base = { .ob_refcnt = UINT_MAX, .ob_type = &PyBool_Type } };
#define VEXC(N) static PyObject v_##N = { .ob_refcnt = UINT_MAX, .ob_type = &PyBaseObject_Type }; PyObject *PyExc_##N = &v_##N;
VEXC(ValueError) VEXC(TypeError) VEXC(RuntimeError) VEXC(NotImplementedError) VEXC(AttributeError) VEXC(LookupError) VEXC(OverflowError) VEXC(MemoryError) VEXC(SystemError) VEXC(IndexError)
static PyObject *v_err;
void PyErr_SetString(PyObject *e, const char *m) { sx_assert(m != NULL, "an exception has a message"); sx_assert(strlen(m) < 100000, "an exception message is a string"); v_err = e; }
PyObject *PyErr_Format(PyObject *e, const char *m, ...) { v_err = e; return NULL; }
PyObject *PyErr_NoMemory(void) { v_err = PyExc_MemoryError; return NULL; }
PyObject *PyErr_Occurred(void) { return v_err; }
void PyErr_Clear(void) { v_err = NULL; }
PyObject *_PyObject_New(PyTypeObject *t) { PyObject *o = malloc(t->tp_basicsize); o->ob_refcnt = 1; o->ob_type = t; return o; }
void PyObject_Free(void *p) { free(p); }
void _Py_Dealloc(PyObject *o)
{
    PyTypeObject *t = Py_TYPE(o); while (t && !t->tp_dealloc) t = t->tp_base;
    sx_assert(t != NULL, "only objects of a type with a destructor end"); t->tp_dealloc(o);
}
int PyType_IsSubtype(PyTypeObject *a, PyTypeObject *b) { for (; a; a = a->tp_base) if (a == b) return 1; return 0; }
int PyType_Ready(PyTypeObject *t) { return 0; }
/* lists */
PyObject *PyList_New(Py_ssize_t n) { PyListObject *l = (PyListObject *)_PyObject_New(&PyList_Type); l->ob_item = NULL; l->allocated = 0; Py_SET_SIZE(l, 0); return (PyObject *)l; }
Py_ssize_t PyList_Size(PyObject *o) { if (!PyList_Check(o)) { v_err = PyExc_SystemError; return -1; } return Py_SIZE(o); }
PyObject *PyList_GetItem(PyObject *o, Py_ssize_t i) { if (!PyList_Check(o)) { v_err = PyExc_SystemError; return NULL; } if (i < 0 || i >= Py_SIZE(o)) { v_err = PyExc_IndexError; return NULL; } return ((PyListObject *)o)->ob_item[i]; }
int PyList_Append(PyObject *o, PyObject *x)
{
    if (!PyList_Check(o) || !x) { v_err = PyExc_SystemError; return -1; }
    PyListObject *l = (PyListObject *)o; Py_ssize_t n = Py_SIZE(o);
    if (n == l->allocated) { PyObject **v = malloc(sizeof *v * (n + 4)); for (Py_ssize_t i = 0; i < n; i++) v[i] = l->ob_item[i]; free(l->ob_item); l->ob_item = v; l->allocated = n + 4; }
    Py_INCREF(x); l->ob_item[n] = x; Py_SET_SIZE(l, n + 1); return 0;
}
/* what a script does with a list */
static inline void l_add(PyObject *l, PyObject *x) { PyList_Append(l, x); Py_DECREF(x); }
static inline void l_del(PyObject *o, int i) { PyListObject *l = (PyListObject *)o; PyObject *x = l->ob_item[i]; int n = Py_SIZE(o); for (; i + 1 < n; i++) l->ob_item[i] = l->ob_item[i + 1]; Py_SET_SIZE(l, n - 1); Py_DECREF(x); }
static inline void l_swap(PyObject *o, int i, int j) { PyListObject *l = (PyListObject *)o; PyObject *x = l->ob_item[i]; l->ob_item[i] = l->ob_item[j]; l->ob_item[j] = x; }
static inline int l_len(PyObject *o) { return (int)Py_SIZE(o); }
static inline PyObject *l_at(PyObject *o, int i) { return ((PyListObject *)o)->ob_item[i]; }
/* strings and numbers */
PyObject *PyUnicode_FromString(const char *s) { struct vstr *o = (struct vstr *)_PyObject_New(&PyUnicode_Type); size_t n = strlen(s); o->s = malloc(n + 1); memcpy(o->s, s, n + 1); return (PyObject *)o; }
PyObject *PyUnicode_FromFormat(const char *f, ...) { return PyUnicode_FromString("formatted"); }
const char *PyUnicode_AsUTF8(PyObject *o) { if (!PyUnicode_Check(o)) { v_err = PyExc_TypeError; return NULL; } return ((struct vstr *)o)->s; }
static PyObject *v_num(bool neg, bool huge, uint64_t mag) { struct vlong *o = (struct vlong *)_PyObject_New(&PyLong_Type); o->neg = neg; o->huge = huge; o->mag = mag; return (PyObject *)o; }
PyObject *PyLong_FromLong(long v) { return v < 0 ? v_num(true, false, 0 - (uint64_t)v) : v_num(false, false, (uint64_t)v); }
PyObject *PyLong_FromUnsignedLongLong(unsigned long long v) { return v_num(false, false, v); }
long PyLong_AsLong(PyObject *o)
{
    if (!PyLong_Check(o)) { v_err = PyExc_TypeError; return -1; }
    if (o == Py_True) return 1; if (o == Py_False) return 0;
    struct vlong *l = (struct vlong *)o;
    if (l->huge || l->mag > (uint64_t)LONG_MAX + (l->neg ? 1 : 0)) { v_err = PyExc_OverflowError; return -1; }
    return l->neg ? (long)(0 - l->mag) : (long)l->mag;
}
unsigned long long PyLong_AsUnsignedLongLongMask(PyObject *o)
{
    if (!PyLong_Check(o)) { v_err = PyExc_TypeError; return (unsigned long long)-1; }
    if (o == Py_True) return 1; if (o == Py_False) return 0;
    struct vlong *l = (struct vlong *)o; return l->neg ? 0 - l->mag : l->mag;
}
PyObject *PyBool_FromLong(long v) { PyObject *r = v ? Py_True : Py_False; return r; }
PyObject *PyFloat_FromDouble(double d) { struct vfloat *o = (struct vfloat *)_PyObject_New(&PyFloat_Type); o->v = d; return (PyObject *)o; }
double PyFloat_AsDouble(PyObject *o) { if (Py_TYPE(o) == &PyFloat_Type) return ((struct vfloat *)o)->v; if (PyLong_Check(o)) return (double)PyLong_AsLong(o); v_err = PyExc_TypeError; return -1; }
int PyObject_IsTrue(PyObject *o)
{
    if (o == Py_True) return 1; if (o == Py_False || o == Py_None) return 0;
    if (PyLong_Check(o)) return ((struct vlong *)o)->huge || ((struct vlong *)o)->mag != 0;
    if (PyUnicode_Check(o)) return ((struct vstr *)o)->s[0] != 0;
    if (PyList_Check(o)) return Py_SIZE(o) != 0;
    if (PyTuple_Check(o)) { v_err = PyExc_ValueError; return -1; }       /* stands for an object whose __bool__ raises */
    return 1;
}
PyObject *PyTuple_New(Py_ssize_t n) { struct vtup *t = (struct vtup *)_PyObject_New(&PyTuple_Type); t->n = (int)n; for (int i = 0; i < 8; i++) t->o[i] = NULL; return (PyObject *)t; }
PyObject *PyDict_New(void) { struct vdict *d = (struct vdict *)_PyObject_New(&PyDict_Type); d->n = 0; return (PyObject *)d; }
int PyDict_SetItemString(PyObject *o, const char *k, PyObject *v)
{
    struct vdict *d = (struct vdict *)o; Py_INCREF(v);
    for (int i = 0; i < d->n; i++) if (strcmp(d->k[i], k) == 0) { Py_DECREF(d->v[i]); d->v[i] = v; return 0; }
    sx_assert(d->n < 24, "harness: dictionary too large"); size_t n = strlen(k); d->k[d->n] = malloc(n + 1); memcpy(d->k[d->n], k, n + 1); d->v[d->n++] = v; return 0;
}
PyObject *PyObject_CallObject(PyObject *c, PyObject *args) { PyTypeObject *t = (PyTypeObject *)c; return t->tp_new(t, args, NULL); }
PyObject *PyModule_Create2(struct PyModuleDef *d, int v) { return NULL; }
int PyModule_AddObject(PyObject *m, const char *n, PyObject *o) { return 0; }
int PyModule_AddIntConstant(PyObject *m, const char *n, long v) { return 0; }
/* arguments */
static int v_parse(PyObject *args, const char *f, va_list ap)
{
    struct vtup *t = (struct vtup *)args; int i = 0; bool opt = false;
    for (; *f; f++)
    {
        if (*f == '|') { opt = true; continue; }
        PyTypeObject *want = NULL;
        if (*f == 'O' && f[1] == '!') { want = va_arg(ap, PyTypeObject *); f++; }
        void *p = va_arg(ap, void *);
        if (i >= t->n) { if (opt) continue; v_err = PyExc_TypeError; return 0; }
        PyObject *o = t->o[i++];
        char c = *f == '!' ? 'O' : *f;
        if (c == 'O') { if (want && !PyObject_TypeCheck(o, want)) { v_err = PyExc_TypeError; return 0; } *(PyObject **)p = o; }
        else if (c == 's') { if (!PyUnicode_Check(o)) { v_err = PyExc_TypeError; return 0; } *(const char **)p = ((struct vstr *)o)->s; }
        else if (c == 'i') { long v = PyLong_AsLong(o); if (v_err) return 0; if (v > INT_MAX || v < INT_MIN) { v_err = PyExc_OverflowError; return 0; } *(int *)p = (int)v; }
        else if (c == 'l') { long v = PyLong_AsLong(o); if (v_err) return 0; *(long *)p = v; }
        else if (c == 'I') { unsigned long long v = PyLong_AsUnsignedLongLongMask(o); if (v_err) return 0; *(unsigned *)p = (unsigned)v; }
        else if (c == 'K') { unsigned long long v = PyLong_AsUnsignedLongLongMask(o); if (v_err) return 0; *(unsigned long long *)p = v; }
        else if (c == 'f') { double v = PyFloat_AsDouble(o); if (v_err) return 0; *(float *)p = (float)v; }
        else sx_fail("harness: unknown argument format");
    }
    if (i < t->n) { v_err = PyExc_TypeError; return 0; }
    return 1;
}
int PyArg_ParseTuple(PyObject *args, const char *f, ...) { va_list ap; va_start(ap, f); int r = v_parse(args, f, ap); va_end(ap); return r; }
int PyArg_ParseTupleAndKeywords(PyObject *args, PyObject *kw, const char *f, char **names, ...) { va_list ap; va_start(ap, names); int r = v_parse(args, f, ap); va_end(ap); return r; }
struct vap { va_list ap; };
static PyObject *v_build(const char **f, struct vap *a)
{
    char c = *(*f)++;
    if (c == 's') { const char *s = va_arg(a->ap, const char *); if (!s) Py_RETURN_NONE; return PyUnicode_FromString(s); }
    if (c == 'i') return PyLong_FromLong(va_arg(a->ap, int));
    if (c == 'K') return PyLong_FromUnsignedLongLong(va_arg(a->ap, unsigned long long));
    if (c == 'f') return PyFloat_FromDouble(va_arg(a->ap, double));
    if (c == 'O') { PyObject *o = va_arg(a->ap, PyObject *); Py_INCREF(o); return o; }
    if (c == 'N') return va_arg(a->ap, PyObject *);
    if (c == '(') { struct vtup *t = (struct vtup *)PyTuple_New(0); while (**f != ')') t->o[t->n++] = v_build(f, a); (*f)++; return (PyObject *)t; }
    sx_fail("harness: unknown value format"); return NULL;
}
PyObject *Py_BuildValue(const char *f, ...)
{
    struct vap a; va_start(a.ap, f); PyObject *o = v_build(&f, &a);
    if (*f) { struct vtup *t = (struct vtup *)PyTuple_New(0); t->o[t->n++] = o; while (*f) t->o[t->n++] = v_build(&f, &a); o = (PyObject *)t; }
    va_end(a.ap); return o;
}
/* what a script does with an object: attributes, methods, constructors */
static inline PyGetSetDef *v_getset(PyTypeObject *t, const char *n) { for (; t; t = t->tp_base) if (t->tp_getset) for (PyGetSetDef *g = t->tp_getset; g->name; g++) if (strcmp(g->name, n) == 0) return g; return NULL; }
static inline PyMemberDef *v_member(PyTypeObject *t, const char *n) { for (; t; t = t->tp_base) if (t->tp_members) for (PyMemberDef *g = t->tp_members; g->name; g++) if (strcmp(g->name, n) == 0) return g; return NULL; }
static inline PyMethodDef *v_method(PyTypeObject *t, const char *n) { for (; t; t = t->tp_base) if (t->tp_methods) for (PyMethodDef *g = t->tp_methods; g->ml_name; g++) if (strcmp(g->ml_name, n) == 0) return g; return NULL; }
#define V_OUTCOME(ok) sx_assert(((ok) != 0) == (v_err == NULL), "an operation either gives a result or raises")
static inline PyObject *o_get(PyObject *o, const char *n)
{
    PyGetSetDef *g = v_getset(Py_TYPE(o), n); PyObject *r;
    if (g) r = g->get(o, g->closure);
    else { PyMemberDef *m = v_member(Py_TYPE(o), n); sx_assert(m && m->type == T_OBJECT_EX, "the attribute exists"); r = *(PyObject **)((char *)o + m->offset); if (r) Py_INCREF(r); else v_err = PyExc_AttributeError; }
    V_OUTCOME(r != NULL); return r;
}
static inline int o_set(PyObject *o, const char *n, PyObject *v)
{
    PyGetSetDef *g = v_getset(Py_TYPE(o), n); int r;
    if (g) r = g->set ? g->set(o, v, g->closure) : (v_err = PyExc_AttributeError, -1);
    else
    {
        PyMemberDef *m = v_member(Py_TYPE(o), n); sx_assert(m && m->type == T_OBJECT_EX, "the attribute exists");
        PyObject **p = (PyObject **)((char *)o + m->offset), *old = *p;
        if (m->flags & READONLY) { v_err = PyExc_AttributeError; r = -1; } else if (!v && !old) { v_err = PyExc_AttributeError; r = -1; }
        else { Py_XINCREF(v); *p = v; Py_XDECREF(old); r = 0; }
    }
    V_OUTCOME(r == 0); return r;
}
/* the arguments' references are taken */
static inline PyObject *o_args(int n, PyObject *a, PyObject *b, PyObject *c) { struct vtup *t = (struct vtup *)PyTuple_New(n); t->o[0] = a; if (n > 1) t->o[1] = b; if (n > 2) t->o[2] = c; return (PyObject *)t; }
static inline PyObject *o_call(PyObject *o, PyTypeObject *t, const char *n, PyObject *args)
{
    PyMethodDef *m = v_method(t, n); sx_assert(m != NULL, "the method exists"); PyObject *r, *self = m->ml_flags & METH_STATIC ? NULL : m->ml_flags & METH_CLASS ? (PyObject *)t : o;
    if (o) Py_INCREF(o);
    if (m->ml_flags & METH_NOARGS) r = m->ml_meth(self, NULL);
    else if (m->ml_flags & METH_KEYWORDS) r = ((PyCFunctionWithKeywords)(void *)m->ml_meth)(self, args, NULL);
    else r = m->ml_meth(self, args);
    if (o) Py_DECREF(o);
    Py_DECREF(args); V_OUTCOME(r != NULL); return r;
}
#define o_call0(o, n) o_call(o, Py_TYPE(o), n, PyTuple_New(0))
#define o_call1(o, n, a) o_call(o, Py_TYPE(o), n, o_args(1, a, NULL, NULL))
static inline PyObject *o_new(PyTypeObject *t, PyObject *args) { PyObject *r = t->tp_new(t, args, NULL); Py_DECREF(args); V_OUTCOME(r != NULL); return r; }
#define o_new0(t) o_new(t, PyTuple_New(0))
static inline PyObject *o_str(PyObject *o) { PyObject *r = Py_TYPE(o)->tp_str(o); V_OUTCOME(r != NULL); return r; }
static inline const char *s_of(PyObject *o) { return ((struct vstr *)o)->s; }
static inline PyObject *v_own(PyObject *o) { Py_INCREF(o); return o; }
