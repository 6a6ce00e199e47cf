/* C43: the Python bindings (python/*.c) on a stand-in CPython (vpy.h).
   MODE 0: attributes. MODE 1: edit histories of the lists of a stacktrace, T selects the kind. MODE 2: reports. MODE 3: construction from text. MODE 4: gdb stacktraces. MODE 5: distances and dendrograms */
#include "vpy.h"
#include <glib.h>
#include "report.h"
#include "report_type.h"
#include "operating_system.h"
#include "rpm.h"
#include "stacktrace.h"
#include "thread.h"
#include "frame.h"
#include "distance.h"
#include "normalize.h"
#include "location.h"
#include "gdb/frame.h"
#include "gdb/thread.h"
#include "gdb/stacktrace.h"
#include "gdb/sharedlib.h"
#include "core/frame.h"
#include "core/thread.h"
#include "core/stacktrace.h"
#include "koops/frame.h"
#include "koops/stacktrace.h"
#include "python/frame.h"
#include "python/stacktrace.h"
#include "java/frame.h"
#include "java/thread.h"
#include "java/stacktrace.h"
#include "ruby/frame.h"
#include "ruby/stacktrace.h"
#include "js/frame.h"
#include "js/stacktrace.h"
#include "py_common.h"
#include "py_base_frame.h"
#include "py_base_thread.h"
#include "py_base_stacktrace.h"
#include "py_gdb_frame.h"
#include "py_gdb_thread.h"
#include "py_gdb_sharedlib.h"
#include "py_gdb_stacktrace.h"
#include "py_core_frame.h"
#include "py_core_thread.h"
#include "py_core_stacktrace.h"
#include "py_koops_frame.h"
#include "py_koops_stacktrace.h"
#include "py_python_frame.h"
#include "py_python_stacktrace.h"
#include "py_java_frame.h"
#include "py_java_thread.h"
#include "py_java_stacktrace.h"
#include "py_ruby_frame.h"
#include "py_ruby_stacktrace.h"
#include "py_js_frame.h"
#include "py_js_stacktrace.h"
#include "py_report.h"
#include "py_operating_system.h"
#include "py_rpm_package.h"
#include "py_metrics.h"
#include "py_cluster.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef T
#define T 0
#endif
#ifndef STEPS
#define STEPS 3
#endif
#ifndef NF
#define NF 2
#endif
#define CAT_(a, b, c) a##b##c
#define CAT(a, b, c) CAT_(a, b, c)
#if T == 0
#define TN core
#define RT SR_REPORT_CORE
#elif T == 1
#define TN gdb
#define RT SR_REPORT_GDB
#elif T == 2
#define TN koops
#define RT SR_REPORT_KERNELOOPS
#elif T == 3
#define TN python
#define RT SR_REPORT_PYTHON
#elif T == 4
#define TN java
#define RT SR_REPORT_JAVA
#elif T == 5
#define TN ruby
#define RT SR_REPORT_RUBY
#else
#define TN js
#define RT SR_REPORT_JAVASCRIPT
#endif
#define MT (T == 0 || T == 1 || T == 4)
#define PTS (&CAT(sr_py_, TN, _stacktrace_type))
#define PTF (&CAT(sr_py_, TN, _frame_type))
#define PTT (&CAT(sr_py_, TN, _thread_type))
static inline bool same(const char *a, const char *b) { if (!a || !b) return !a && !b; return strcmp(a, b) == 0; }
static PyObject *str_n(int n, const char *name) { char *s = sx_str(n, name); PyObject *o = PyUnicode_FromString(s); free(s); return o; }
/* two attribute values are equal */
static bool v_same(PyObject *a, PyObject *b)
{
    if (a == b) return true;
    if (Py_TYPE(a) != Py_TYPE(b)) return false;
    if (PyUnicode_Check(a)) return same(s_of(a), s_of(b));
    if (Py_TYPE(a) == &PyLong_Type) { struct vlong *x = (struct vlong *)a, *y = (struct vlong *)b; return (x->mag == y->mag) & (x->neg == y->neg); }
    if (Py_TYPE(a) == &PyDict_Type) return ((struct vdict *)a)->n == ((struct vdict *)b)->n;
    return false;
}

#if MODE == 0
static PyTypeObject *tys[] = { &sr_py_gdb_frame_type, &sr_py_core_frame_type, &sr_py_koops_frame_type, &sr_py_python_frame_type, &sr_py_java_frame_type, &sr_py_ruby_frame_type, &sr_py_js_frame_type, &sr_py_gdb_thread_type, &sr_py_core_thread_type, &sr_py_java_thread_type, &sr_py_gdb_sharedlib_type, &sr_py_rpm_package_type, &sr_py_operating_system_type, &sr_py_report_type, &sr_py_core_stacktrace_type, &sr_py_koops_stacktrace_type, &sr_py_python_stacktrace_type, &sr_py_ruby_stacktrace_type, &sr_py_js_stacktrace_type };
#define NTY ((int)(sizeof tys / sizeof *tys))
/* the kind of an attribute: what the documentation of the binding says it takes */
enum { K_STR, K_U16, K_U32, K_U64, K_BOOL, K_OTHER };
static int kind(PyGetSetDef *g)
{
    if (g->get == sr_py_getter_string) return K_STR;
    if (g->get == sr_py_getter_uint16) return K_U16;
    if (g->get == sr_py_getter_uint32) return K_U32;
    if (g->get == sr_py_getter_uint64) return K_U64;
    if (g->get == sr_py_getter_bool) return K_BOOL;
    return K_OTHER;
}
static int nattr(PyTypeObject *t) { int n = 0; if (t->tp_getset) for (PyGetSetDef *g = t->tp_getset; g->name; g++) n++; return n; }
void harness(void)
{
    int ty = sx_choice(NTY, "type"); PyTypeObject *t = tys[ty]; int n = nattr(t); if (!n) sx_stop();
    uint64_t live = sx_live_heap();
    PyObject *o = o_new0(t); int at = sx_choice(n, "attr"); PyGetSetDef *g = &t->tp_getset[at]; int k = kind(g);
    PyObject *before[24]; sx_assert(n <= 24, "harness: attributes");
    if (sx_choice(2, "again") && (k == K_STR)) { PyObject *v = PyUnicode_FromString("q"); sx_assert(o_set(o, g->name, v) == 0, "a string attribute takes a string"); Py_DECREF(v); }
    for (int i = 0; i < n; i++) before[i] = o_get(o, t->tp_getset[i].name);
    sx_assert(v_err == NULL, "every attribute can be read");
    int what = sx_choice(7, "value"); PyObject *v = NULL, *want = NULL; bool ok = false;
    switch (what)
    {
    case 0: v = str_n(sx_choice(3, "len"), "s"); ok = k == K_STR; if (ok) want = v_own(v); break;
    case 1: {
        uint64_t m = sx_u64("mag"); bool neg = sx_choice(2, "neg"); if (neg) sx_assume(m != 0);
        v = v_num(neg, false, m);
        if (k == K_U16 || k == K_U32) { uint64_t top = k == K_U16 ? UINT16_MAX : UINT32_MAX; if (neg) ok = false; else if (m <= top) ok = true; if (ok) want = v_own(v); }
        else if (k == K_U64) { if (neg) { Py_DECREF(v); v = v_num(false, false, m); } ok = true; want = m == UINT64_MAX ? Py_None : v_own(v); }
        else if (k == K_BOOL) { ok = true; want = m != 0 ? Py_True : Py_False; }
        break; }
    case 2: v = v_num(sx_choice(2, "neg"), true, 0); if (k == K_U64) sx_stop(); ok = k == K_BOOL; want = Py_True; break;
    case 3: v = NULL; break;
    case 4: v = Py_None; ok = k == K_U64 || k == K_BOOL; want = k == K_U64 ? Py_None : Py_False; break;
    case 5: v = PyList_New(0); ok = k == K_BOOL; want = Py_False; break;
    default: v = PyTuple_New(0); break;
    }
    if (k == K_BOOL && what == 0) { ok = true; want = s_of(v)[0] ? Py_True : Py_False; }
    if (k == K_OTHER)
    {
        int r = o_set(o, g->name, v); PyErr_Clear();
        for (int i = 0; i < n; i++) if (r != 0 || i != at) { PyObject *a = o_get(o, t->tp_getset[i].name); PyErr_Clear(); if (strcmp(t->tp_getset[i].name, "crash_thread") != 0) sx_assert(v_same(a, before[i]) || kind(&t->tp_getset[i]) == K_OTHER, "another attribute does not change"); Py_XDECREF(a); }
        sx_cover("other");
    }
    else
    {
        int r = o_set(o, g->name, v);
        sx_assert((r == 0) == ok, "an attribute takes exactly the values of its kind"); PyErr_Clear();
        for (int i = 0; i < n; i++)
        {
            PyObject *a = o_get(o, t->tp_getset[i].name); sx_assert(a != NULL, "an attribute can be read");
            if (ok && i != at && g->closure && t->tp_getset[i].closure == g->closure) { Py_DECREF(a); continue; }   /* another name of the same attribute */
            if (i == at && ok) sx_assert(v_same(a, want), "an attribute has the value it was given");
            else if (kind(&t->tp_getset[i]) != K_OTHER) sx_assert(v_same(a, before[i]), "no other attribute changes");
            Py_DECREF(a);
        }
        sx_cover(ok ? "set" : "refused");
    }
    PyObject *s = o_str(o); Py_DECREF(s);
    for (int i = 0; i < n; i++) Py_DECREF(before[i]);
    Py_XDECREF(want); Py_XDECREF(v); Py_DECREF(o);
    sx_assert(sx_live_heap() == live, "nothing is lost when the object ends");
    return;
}
#endif

#if MODE == 1 || MODE == 2 || MODE == 4
/* A script edits the lists of a stacktrace of kind T, and asks for things in between. */
static int serial;
static char symbol;
static PyObject *new_frame(int name)
{
    PyObject *f = o_new0(PTF); char b[3] = { (char)(name ? symbol : 'f'), (char)('a' + serial++ % 20), 0 }; PyObject *s = PyUnicode_FromString(b);
    if (v_getset(PTF, "function_name")) o_set(f, "function_name", s); else o_set(f, "name", s);
    Py_DECREF(s);
    if (T == 0) { s = PyUnicode_FromString("b1"); o_set(f, "build_id", s); Py_DECREF(s); }
    sx_assert(v_err == NULL, "a name is accepted"); return f;
}
#if MT
static PyObject *new_thread(int nf) { PyObject *t = o_new0(PTT), *l = o_get(t, "frames"); for (int i = 0; i < nf; i++) l_add(l, new_frame(i == 0)); Py_DECREF(l); return t; }
static PyObject *holder(PyObject *st) { PyObject *l = o_get(st, "threads"), *t = l_len(l) ? v_own(l_at(l, 0)) : NULL; Py_DECREF(l); return t; }
#else
static PyObject *holder(PyObject *st) { return v_own(st); }
#endif
/* the C library's own view of a list of frame objects: copies, linked in the order of the list */
static void *copy_frames(PyObject *l)
{
    struct sr_frame *head = NULL, *last = NULL;
    for (int i = 0; i < l_len(l); i++)
    {
        struct sr_frame *f = (struct sr_frame *)CAT(sr_, TN, _frame_dup)((void *)((struct sr_py_base_frame *)l_at(l, i))->frame, false);
        sr_frame_set_next(f, NULL); if (last) sr_frame_set_next(last, f); else head = f; last = f;
    }
    return head;
}
static struct sr_stacktrace *model(PyObject *st)
{
    struct CAT(sr_, TN, _stacktrace) *s = CAT(sr_, TN, _stacktrace_new)();
#if MT
    PyObject *l = o_get(st, "threads"); struct sr_thread *last = NULL;
    for (int i = 0; i < l_len(l); i++)
    {
        PyObject *t = l_at(l, i), *fl = o_get(t, "frames"); struct CAT(sr_, TN, _thread) *x = CAT(sr_, TN, _thread_new)(); x->frames = copy_frames(fl); Py_DECREF(fl);
        if (last) sr_thread_set_next(last, (struct sr_thread *)x); else s->threads = x; last = (struct sr_thread *)x;
    }
    Py_DECREF(l);
#else
    PyObject *l = o_get(st, "frames"); s->frames = copy_frames(l); Py_DECREF(l);
#endif
    return (struct sr_stacktrace *)s;
}
#endif

#if MODE == 1
static bool bad;   /* a list holds something else, or is no list */
static void query(PyObject *st, PyObject *kept)
{
    static const int ways[] = { 0, 1, 2, 3, 4, 5 };
    int q = ways[sx_choice(6, "query")]; PyObject *r = NULL, *h;
    struct sr_stacktrace *m = bad ? NULL : model(st);
    switch (q)
    {
    case 0:
        r = o_call0(st, "to_short_text");
        if (!bad) { char *w = sr_stacktrace_to_short_text(m, 0); if (w) { sx_assert(r && same(s_of(r), w), "to_short_text shows the frames in the lists"); sx_cover("text"); } g_free(w); if (!r && !v_err) sx_fail("raises"); }
        break;
    case 1:
        r = o_call0(st, "get_bthash");
        if (!bad) { char *w = sr_stacktrace_get_bthash(m, 0); sx_assert(w ? r && same(s_of(r), w) : !r, "get_bthash is of the frames in the lists"); g_free(w); }
        break;
    case 2:
        r = o_call0(st, "dup");
        if (!bad)
        {
            sx_assert(r != NULL, "a stacktrace can be duplicated"); if (!r) break;
            struct sr_stacktrace *m2 = model(r); char *a = sr_stacktrace_to_short_text(m, 0), *b = sr_stacktrace_to_short_text(m2, 0); sx_assert(same(a, b), "the duplicate has the same frames"); g_free(a); g_free(b); sr_stacktrace_free(m2);
            sx_cover("dup");
        }
        break;
    case 3:
        h = holder(st); if (!h) break;
        { PyObject *a = o_args(3, PyLong_FromLong(0), PyLong_FromLong(SR_DUPHASH_NOHASH), PyUnicode_FromString("p")); r = o_call(h, Py_TYPE(h), "get_duphash", a); }
        if (!bad) { struct sr_thread *t = sr_stacktrace_threads(m); char *p = g_strdup("p"), *w = sr_thread_get_duphash(t, 0, p, SR_DUPHASH_NOHASH); sx_assert(w ? r && same(s_of(r), w) : !r, "get_duphash is of the frames in the list"); g_free(w); g_free(p); }
        Py_DECREF(h); break;
    case 4:
        h = holder(st); if (!h) break;
        { PyObject *other = o_new0(Py_TYPE(h)); Py_INCREF(other); r = o_call1(h, "equals", other);
          if (!bad) { PyObject *fl = o_get(h, "frames"); sx_assert(r && (r == Py_True) == (l_len(fl) == 0), "a thread equals an empty one if it has no frames"); Py_DECREF(fl); }
          Py_DECREF(other); }
        Py_DECREF(h); break;
    default:
        h = holder(st); if (!h) break;
        Py_INCREF(h); r = o_call1(h, "distance", v_own(h)); if (r) Py_DECREF(h); else Py_DECREF(h);
        Py_DECREF(h);
        if (r && r != Py_None) sx_assert(((struct vfloat *)r)->v == 0.0, "a thread has no distance to itself");
        break;
    }
    if (bad && q != 1) sx_cover("raises");
    PyErr_Clear(); Py_XDECREF(r); if (m) sr_stacktrace_free(m);
    if (kept) { r = o_call0(kept, "short_string"); Py_XDECREF(r); }
}
void harness(void)
{
    { char *c = sx_str(1, "c"); symbol = *c; free(c); sx_assume((symbol >= 'a') & (symbol <= 'c')); }
    uint64_t live = sx_live_heap();
    PyObject *st = o_new0(PTS), *kept = NULL, *l, *x; 
#if MT
    l = o_get(st, "threads"); for (int i = sx_choice(2, "threads"); i >= 0; i--) l_add(l, new_thread(i == 0 ? NF : 1)); Py_DECREF(l);
#else
    l = o_get(st, "frames"); for (int i = 0; i < NF; i++) l_add(l, new_frame(i == 0)); Py_DECREF(l);
#endif
    for (int i = 0; i < STEPS && !bad; i++)
    {
        PyObject *h = holder(st);
        if (!h) break;
        l = o_get(h, "frames");
        switch (sx_choice(MT ? 10 : 7, "edit"))
        {
        case 0: l_add(l, new_frame(1)); break;
        case 1: if (l_len(l)) { if (!kept) kept = v_own(l_at(l, 0)); l_del(l, 0); } sx_cover("removed"); break;
        case 2: if (l_len(l) > 1) l_swap(l, 0, l_len(l) - 1); break;
        case 3: x = PyList_New(0); l_add(x, new_frame(0)); if (l_len(l)) { Py_INCREF(l_at(l, 0)); l_add(x, l_at(l, 0)); } o_set(h, "frames", x); Py_DECREF(x); break;
        case 4: l_add(l, PyUnicode_FromString("no frame")); bad = true; break;
        case 5: if (sx_choice(2, "del")) o_set(h, "frames", NULL); else { x = PyLong_FromLong(7); o_set(h, "frames", x); Py_DECREF(x); } bad = true; break;
        case 6: x = PyList_New(0); o_set(h, "frames", x); Py_DECREF(x); break;
#if MT
        case 7: Py_DECREF(l); l = o_get(st, "threads"); l_add(l, new_thread(1)); break;
        case 8: Py_DECREF(l); l = o_get(st, "threads"); l_del(l, 0); break;
        default: x = PyList_New(0); if (sx_choice(2, "fill")) l_add(x, new_thread(1)); o_set(st, "threads", x); Py_DECREF(x); break;
#endif
        }
        Py_DECREF(l); Py_DECREF(h);
        if (sx_choice(2, "ask") || i == STEPS - 1 || bad) query(st, kept);
    }
    x = o_str(st); Py_XDECREF(x); PyErr_Clear();
    Py_DECREF(st);
    if (kept) { x = o_call0(kept, "short_string"); Py_XDECREF(x); Py_DECREF(kept); }
    sx_assert(sx_live_heap() == live, "nothing is lost when the objects end");
    return;
}
#endif

#if MODE == 2
/* A report assembled, edited and written by a script. */
static const char *const tn[] = { "core", "gdb", "kerneloops", "python", "java", "ruby", "javascript" };
static PyObject *new_rpm(int c) { PyObject *p = o_new0(&sr_py_rpm_package_type); char b[2] = { c ? symbol : 'p', 0 }; PyObject *s = PyUnicode_FromString(b); o_set(p, "name", s); o_set(p, "version", s); o_set(p, "release", s); o_set(p, "architecture", s); Py_DECREF(s); return p; }
static struct sr_rpm_package *copy_rpms(PyObject *l)
{
    struct sr_rpm_package *h = NULL, *last = NULL;
    for (int i = 0; i < l_len(l); i++) { struct sr_rpm_package *o = ((struct sr_py_rpm_package *)l_at(l, i))->rpm_package, *p = sr_rpm_package_new(); p->name = g_strdup(o->name); p->version = g_strdup(o->version); p->release = g_strdup(o->release); p->architecture = g_strdup(o->architecture); p->epoch = o->epoch; if (last) last->next = p; else h = p; last = p; }
    return h;
}
void harness(void)
{
    { char *c = sx_str(1, "c"); symbol = *c; free(c); sx_assume((symbol >= 'a') & (symbol <= 'c')); }
    uint64_t live = sx_live_heap(); bool bad = false;
    PyObject *r = o_new0(&sr_py_report_type), *s, *l, *x, *st = o_new0(PTS);
    s = PyUnicode_FromString(tn[T]); sx_assert(o_set(r, "report_type", s) == 0, "the report has the type of its stacktrace"); Py_DECREF(s);
    s = PyUnicode_FromString("comp"); o_set(r, "component_name", s); Py_DECREF(s);
#if MT
    l = o_get(st, "threads"); l_add(l, new_thread(NF)); Py_DECREF(l);
#else
    l = o_get(st, "frames"); for (int i = 0; i < NF; i++) l_add(l, new_frame(i == 0)); Py_DECREF(l);
#endif
    o_set(r, "stacktrace", st); l = o_get(r, "packages"); l_add(l, new_rpm(1)); l_add(l, new_rpm(0)); Py_DECREF(l);
    if (sx_choice(2, "first")) { x = o_call0(r, "to_json"); sx_assert(x != NULL, "a report can be written"); Py_XDECREF(x); PyErr_Clear(); }
    PyObject *sto = st;   /* what the stacktrace of the report is */
    for (int i = 0; i < STEPS && !bad; i++)
        switch (sx_choice(12, "edit"))
        {
        case 0: { PyObject *h = holder(st); if (!h) break; l = o_get(h, "frames"); Py_DECREF(h); if (l_len(l)) l_del(l, 0); Py_DECREF(l); break; }
        case 1: { PyObject *h = holder(st); if (!h) break; l = o_get(h, "frames"); Py_DECREF(h); l_add(l, new_frame(1)); Py_DECREF(l); break; }
        case 2: l = o_get(r, "packages"); if (l_len(l)) l_del(l, 0); Py_DECREF(l); break;
        case 3: l = o_get(r, "packages"); if (l_len(l) > 1) l_swap(l, 0, 1); Py_DECREF(l); break;
        case 4: x = PyList_New(0); l_add(x, new_rpm(1)); o_set(r, "packages", x); Py_DECREF(x); break;
        case 5: o_set(r, "operating_system", Py_None); break;
        case 6: x = o_new(&sr_py_operating_system_type, o_args(2, PyUnicode_FromString("os"), PyUnicode_FromString("1"), NULL)); o_set(r, "operating_system", x); Py_DECREF(x); break;
        case 7: o_set(r, "stacktrace", Py_None); sto = Py_None; break;
        case 8: { x = o_new0(PTS); o_set(r, "stacktrace", x); Py_DECREF(st); st = sto = x; break; }
        case 9: { const char *n = (const char *[]){ "packages", "operating_system", "stacktrace" }[sx_choice(3, "which")]; bad = T != 1 || *n != 's'; int k = sx_choice(2, "del"); x = k ? NULL : PyUnicode_FromString("wrong"); o_set(r, n, x); PyErr_Clear(); Py_XDECREF(x); if (*n == 's') sto = NULL; break; }
        case 10: s = PyUnicode_FromString("vf"); sx_assert(o_set(r, "reporter_name", s) == 0, "the reporter can be named"); Py_DECREF(s); break;
        default:
#if MT
            l = o_get(st, "threads"); if (l_len(l)) l_del(l, 0); Py_DECREF(l);
#else
            x = PyList_New(0); o_set(st, "frames", x); Py_DECREF(x);
#endif
        }
    x = o_call0(r, "to_json");
    if (bad) { sx_assert(x == NULL, "a report with a wrong part is refused"); sx_cover("refused"); }
    else
    {
        struct sr_report *rep = ((struct sr_py_report *)r)->report, m = *rep; l = o_get(r, "packages"); PyObject *os = o_get(r, "operating_system");
        m.rpm_packages = copy_rpms(l); Py_DECREF(l); m.operating_system = os == Py_None ? NULL : ((struct sr_py_operating_system *)os)->operating_system; Py_DECREF(os);
        m.stacktrace = sto == st && T != 1 ? model(st) : NULL;
        char *w = sr_report_to_json(&m); sx_assert(x && w && same(s_of(x), w), "the JSON of a report shows its current parts"); g_free(w);
        if (m.stacktrace) sr_stacktrace_free(m.stacktrace); sr_rpm_package_free(m.rpm_packages, true); sx_cover("json");
    }
    PyErr_Clear(); Py_XDECREF(x);
    if (sx_choice(2, "order")) { Py_DECREF(r); r = NULL; x = o_call0(st, "to_short_text"); PyErr_Clear(); Py_XDECREF(x); }
    Py_DECREF(st);
    if (r) { x = o_str(r); Py_XDECREF(x); PyErr_Clear(); Py_DECREF(r); }
    sx_assert(sx_live_heap() == live, "nothing is lost when the objects end");
}
#endif

#if MODE == 3
/* Objects made from text: the object the C parser makes of it, or an exception and nothing left. */
struct ty { PyTypeObject *t; int rt; const char *text, *json; };
static const struct ty tt[] = {
    { &sr_py_gdb_frame_type, 0, "#1  0x01 in f () at a.c:3" }, { &sr_py_koops_frame_type, 0, " [<ffffffff8100a1b2>] f+0x1/0x2" }, { &sr_py_python_frame_type, 0, "  File \"a\", line 3, in f" }, { &sr_py_java_frame_type, 0, "\tat a.b(C.java:3)" }, { &sr_py_ruby_frame_type, 0, "/a.rb:3:in `f'" }, { &sr_py_js_frame_type, 0, "at f (/a.js:3:4)" },
    { &sr_py_gdb_thread_type, 0, "Thread 1 (LWP 3):\n#0  0x01 in f ()\n" }, { &sr_py_java_thread_type, 0, "Exception in thread \"m\" a.B: c\n\tat a.b(C.java:3)\n" },
    { &sr_py_core_stacktrace_type, SR_REPORT_CORE, "{ \"signal\": 6, \"executable\": \"/a\", \"stacktrace\": [ { \"crash_thread\": true, \"frames\": [ { \"address\": 1, \"build_id\": \"b\", \"build_id_offset\": 2 } ] } ] }", "{ \"signal\": 6, \"executable\": \"/a\", \"stacktrace\": [ { \"crash_thread\": true, \"frames\": [ { \"address\": 1, \"build_id\": \"b\", \"build_id_offset\": 2 } ] } ] }" },
    { &sr_py_gdb_stacktrace_type, SR_REPORT_GDB, "\nThread 1 (LWP 3):\n#0  0x01 in f ()\n" },
    { &sr_py_koops_stacktrace_type, SR_REPORT_KERNELOOPS, "Call Trace:\n [<ffffffff8100a1b2>] f+0x1/0x2\n [<ffffffff8100a1b3>] g+0x1/0x2\n", "{ \"type\": \"kerneloops\", \"frames\": [ { \"address\": 1, \"function_name\": \"f\" } ] }" },
    { &sr_py_python_stacktrace_type, SR_REPORT_PYTHON, "Traceback (most recent call last):\n  File \"a\", line 3, in f\n    x\nE: y\n", "{ \"type\": \"python\", \"stacktrace\": [ { \"file_name\": \"a\", \"file_line\": 3, \"function_name\": \"f\", \"line_contents\": \"x\" } ], \"exception_name\": \"E\" }" },
    { &sr_py_java_stacktrace_type, SR_REPORT_JAVA, "Exception in thread \"m\" a.B: c\n\tat a.b(C.java:3)\n", "{ \"type\": \"java\", \"threads\": [ { \"name\": \"m\", \"frames\": [ { \"name\": \"a.b\", \"file_name\": \"C.java\", \"file_line\": 3 } ] } ] }" },
    { &sr_py_ruby_stacktrace_type, SR_REPORT_RUBY, "/a.rb:3:in `f': m (E)\n\tfrom /b.rb:4:in `g'\n", "{ \"type\": \"ruby\", \"exception_name\": \"E\", \"stacktrace\": [ { \"file_name\": \"a\", \"file_line\": 3, \"function_name\": \"f\" } ] }" },
    { &sr_py_js_stacktrace_type, SR_REPORT_JAVASCRIPT, "E: m\n    at f (/a.js:3:4)\n", "{ \"type\": \"javascript\", \"stacktrace\": [ { \"function_name\": \"f\", \"file_name\": \"/a.js\", \"file_line\": 3, \"line_column\": 4 } ], \"exception_name\": \"E\" }" },
    { &sr_py_report_type, 0, "{ \"ureport_version\": 2, \"reason\": \"r\", \"reporter\": { \"name\": \"n\", \"version\": \"1\" }, \"os\": { \"name\": \"o\", \"version\": \"1\", \"architecture\": \"a\" }, \"problem\": { \"type\": \"python\", \"component\": \"c\", \"exception_name\": \"E\", \"stacktrace\": [ { \"file_name\": \"a\", \"file_line\": 3, \"function_name\": \"f\" } ] }, \"packages\": [] }" },
};
#define NTT ((int)(sizeof tt / sizeof *tt))
void harness(void)
{
    const struct ty *t = &tt[sx_choice(NTT, "type")]; bool js = t->json && sx_choice(2, "json"); const char *base = js ? t->json : t->text;
    int n = strlen(base), op = sx_choice(4, "op"); char *txt = malloc(n + 1); memcpy(txt, base, n + 1);
    if (op == 1) txt[sx_choice(n, "cut")] = 0;
    else if (op == 2) { int at = sx_choice(n, "at"); char *c = sx_str(1, "c"); txt[at] = *c; free(c); }
    else if (op == 3) { free(txt); txt = (char *[]){ strdup(""), strdup("[]"), strdup("null"), strdup("\n") }[sx_choice(4, "small")]; }
    uint64_t live = sx_live_heap(); PyObject *a = o_args(1, PyUnicode_FromString(txt), NULL, NULL), *o = js ? o_call(NULL, t->t, "from_json", a) : o_new(t->t, a);
    if (op == 0) { sx_assert(o != NULL, "a valid text makes an object"); sx_cover(js ? "json" : "text"); }
    bool lenient = true;
    if (!o) { sx_assert(v_err == PyExc_ValueError, "a text that cannot be read raises ValueError"); PyErr_Clear(); sx_cover("refused"); lenient = t->rt == SR_REPORT_RUBY || t->t == &sr_py_ruby_frame_type; }
    else if (t->rt)
    {
        char *e = NULL; struct sr_stacktrace *c = js ? sr_stacktrace_from_json_text(t->rt, txt, &e) : t->rt == SR_REPORT_CORE ? sr_stacktrace_from_json_text(t->rt, txt, &e) : sr_stacktrace_parse(t->rt, txt, &e);
        sx_assert(c != NULL, "only what the library reads makes an object");
        PyObject *x = o_call0(o, "to_short_text"); char *w = sr_stacktrace_to_short_text(c, 0); sx_assert(w ? x && same(w, s_of(x)) : !x, "the object has the frames of the text"); g_free(w); PyErr_Clear(); Py_XDECREF(x); sr_stacktrace_free(c); lenient = false;
    }
    else lenient = t->t == &sr_py_report_type;
    if (o) { PyObject *x = o_str(o); Py_XDECREF(x); PyErr_Clear(); Py_DECREF(o); }
    if (!lenient) sx_assert(sx_live_heap() == live, "nothing is lost");
    free(txt);
}
#endif

#if MODE == 4
/* gdb stacktraces: the methods that change the stacktrace do to the lists what the library does to a stacktrace of the same frames */
static bool st_same(struct sr_gdb_stacktrace *a, struct sr_gdb_stacktrace *b)
{
    struct sr_gdb_thread *x = a->threads, *y = b->threads;
    for (; x && y; x = x->next, y = y->next)
    {
        struct sr_gdb_frame *f = x->frames, *g = y->frames; for (; f && g; f = f->next, g = g->next) if (sr_gdb_frame_cmp(f, g, false) != 0 || !same(f->library_name, g->library_name)) return false;
        if (f || g) return false;
    }
    return !x && !y;
}
static PyObject *lib(uint64_t from, uint64_t to, const char *n) { PyObject *l = o_new0(&sr_py_gdb_sharedlib_type), *v = PyLong_FromUnsignedLongLong(from); o_set(l, "start_address", v); Py_DECREF(v); v = PyLong_FromUnsignedLongLong(to); o_set(l, "end_address", v); Py_DECREF(v); v = PyUnicode_FromString(n); o_set(l, "soname", v); Py_DECREF(v); PyErr_Clear(); return l; }
static const char *const fn[] = { "raise", "abort", "main", "f", "__libc_start_main", "" };
static PyObject *named(int i) { PyObject *f = o_new0(PTF), *s = PyUnicode_FromString(fn[i]); o_set(f, "function_name", s); Py_DECREF(s); s = PyLong_FromLong(16 * i + 1); o_set(f, "address", s); Py_DECREF(s); return f; }
void harness(void)
{
    { char *c = sx_str(1, "c"); symbol = *c; free(c); sx_assume((symbol >= 'a') & (symbol <= 'c')); }
    uint64_t live = sx_live_heap(), addr = sx_u64("addr");
    PyObject *st = o_new0(PTS), *l, *x, *t, *cf = NULL;
    l = o_get(st, "threads"); int n = sx_choice(3, "threads");
    for (int i = 0; i < n; i++) { t = o_new0(PTT); x = o_get(t, "frames"); if (i == 0) { int k = sx_choice(3, "crash"); l_add(x, named(k)); if (k < 2) l_add(x, named(3)); } l_add(x, named(2)); Py_DECREF(x); l_add(l, t); }
    Py_DECREF(l); l = o_get(st, "libs"); l_add(l, lib(1, 20, "l1")); if (sx_choice(2, "lib")) l_add(l, lib(40, 60, "l2")); int nl = l_len(l); Py_DECREF(l);
    for (int i = 0; i < STEPS; i++)
    {
        struct sr_gdb_stacktrace *m = (struct sr_gdb_stacktrace *)model(st), *after; PyObject *r = NULL;
        l = o_get(st, "libs"); struct sr_gdb_sharedlib *last = NULL; for (int k = 0; k < l_len(l); k++) { struct sr_gdb_sharedlib *c = sr_gdb_sharedlib_dup(((struct sr_py_gdb_sharedlib *)l_at(l, k))->sharedlib, false); if (last) last->next = c; else m->libs = c; last = c; } Py_DECREF(l);
        int op = sx_choice(9, "op");
        switch (op)
        {
        case 0: r = o_call0(st, "normalize"); sr_normalize_gdb_stacktrace(m); sx_cover("normalize"); break;
        case 1: { int d = sx_choice(4, "depth") - 1; r = o_call1(st, "limit_frame_depth", PyLong_FromLong(d)); sx_assert((r != NULL) == (d > 0), "a positive depth is taken"); if (d > 0) sr_gdb_stacktrace_limit_frame_depth(m, d); sx_cover("limit"); break; }
        case 2: r = o_call0(st, "set_libnames"); sr_gdb_stacktrace_set_libnames(m); sx_cover("libnames"); break;
        case 3: {
            struct sr_gdb_frame *c = sr_gdb_stacktrace_get_crash_frame(m); r = o_call0(st, "find_crash_frame"); sx_assert((r != NULL) == (c != NULL), "the crash frame is found when there is one");
            if (c) { sx_assert(sr_gdb_frame_cmp(((struct sr_py_gdb_frame *)r)->frame, c, false) == 0, "the crash frame is the one the library finds"); sr_gdb_frame_free(c); if (!cf) cf = v_own(r); sx_cover("crash"); }
            break; }
        case 4: {
            r = o_call1(st, "find_address", PyLong_FromUnsignedLongLong(addr)); struct sr_gdb_sharedlib *c = addr <= INT64_MAX ? sr_gdb_sharedlib_find_address(m->libs, addr) : NULL;
            if (addr <= INT64_MAX) sx_assert(c ? r && r != Py_None && ((struct sr_py_gdb_sharedlib *)r)->sharedlib->from == c->from : r == Py_None, "the library at an address is found"); sx_cover("address"); break; }
        case 5: r = o_call0(st, "dup"); sx_assert(r != NULL, "a stacktrace can be duplicated"); if (r) { after = (struct sr_gdb_stacktrace *)model(r); sx_assert(st_same(m, after), "the duplicate has the same frames"); sr_gdb_stacktrace_free(after); Py_DECREF(st); st = v_own(r); } break;
        case 6: l = o_get(st, "libs"); if (l_len(l)) l_del(l, 0); else { Py_DECREF(l); l = PyLong_FromLong(3); o_set(st, "libs", l); PyObject *q = o_call0(st, "normalize"); sx_assert(!q, "libraries that are no list are refused"); PyErr_Clear(); Py_DECREF(l); l = PyList_New(0); o_set(st, "libs", l); } Py_DECREF(l); break;
        case 7: r = o_call0(st, sx_choice(2, "complex") ? "quality_complex" : "quality_simple"); sx_assert(r != NULL, "the quality is a number"); break;
        default: r = o_get(st, "crash_thread"); { struct sr_gdb_thread *c = sr_gdb_stacktrace_find_crash_thread(m); sx_assert((r && r != Py_None) == (c != NULL), "the crash thread is found when there is one"); } break;
        }
        PyErr_Clear(); Py_XDECREF(r);
        after = (struct sr_gdb_stacktrace *)model(st); sx_assert(st_same(m, after), "the lists have what the library makes of the same frames"); sr_gdb_stacktrace_free(after); sr_gdb_stacktrace_free(m);
    }
    x = o_get(st, "crashframe"); Py_XDECREF(x); PyErr_Clear();
    Py_DECREF(st); if (cf) { x = o_call0(cf, "short_string"); Py_XDECREF(x); Py_DECREF(cf); }
    sx_assert(sx_live_heap() == live, "nothing is lost when the objects end");
}
#endif

#if MODE == 5
/* distance matrices, their parts and dendrograms of a list of threads */
static PyObject *thr(int k, int n) { PyObject *t = o_new0(&sr_py_gdb_thread_type), *l = o_get(t, "frames"); for (int i = 0; i < n; i++) { PyObject *f = o_new0(&sr_py_gdb_frame_type); char b[2] = { 'a' + (k >> i & 1), 0 }; PyObject *s = PyUnicode_FromString(b); o_set(f, "function_name", s); Py_DECREF(s); l_add(l, f); } Py_DECREF(l); return t; }
void harness(void)
{
    uint64_t live = sx_live_heap(); PyObject *l = PyList_New(0), *d, *x; int n = 2 + sx_choice(2, "n"), m = 1 + sx_choice(n, "m"), dt = sx_choice(3, "kind"); dt = dt == 0 ? SR_DISTANCE_LEVENSHTEIN : dt == 1 ? SR_DISTANCE_JACCARD : SR_DISTANCE_DAMERAU_LEVENSHTEIN;
    for (int i = 0; i < n; i++) l_add(l, thr(i + 1, 2));
    int wrong = sx_choice(4, "wrong");
    if (wrong == 1) l_add(l, PyUnicode_FromString("x")); else if (wrong == 2) l_add(l, o_new0(&sr_py_core_thread_type));
    struct vtup *a = (struct vtup *)o_args(3, v_own(l), PyLong_FromLong(wrong == 3 ? 0 : m), PyLong_FromLong(dt));
    d = o_new(&sr_py_distances_type, (PyObject *)a);
    if (wrong) { sx_assert(d == NULL, "threads that cannot be compared are refused"); sx_cover("refused"); PyErr_Clear(); Py_XDECREF(d); Py_DECREF(l); return; }
    sx_assert(d != NULL, "threads of one kind are compared"); if (!d) return;
    struct sr_thread *t[4]; for (int i = 0; i < n; i++) t[i] = ((struct sr_py_base_thread *)l_at(l, i))->thread;
    struct sr_distances *w = sr_threads_compare(t, m, n, dt); int wm = w->m;
    if (sx_choice(2, "parts"))
    {
        struct vtup *pa = (struct vtup *)PyTuple_New(4); pa->o[0] = PyLong_FromLong(n); pa->o[1] = PyLong_FromLong(1 + sx_choice(2, "np")); pa->o[2] = PyLong_FromLong(m); pa->o[3] = PyLong_FromLong(dt);
        PyObject *pl = o_call(NULL, &sr_py_distances_part_type, "create", (PyObject *)pa); sx_assert(pl != NULL, "the matrix can be computed in parts");
        int skip = sx_choice(2, "skip"); for (int i = skip; i < l_len(pl); i++) { x = o_call1(l_at(pl, i), "compute", v_own(l)); sx_assert(x == Py_None, "a part can be computed"); Py_XDECREF(x); }
        x = o_call(NULL, &sr_py_distances_type, "merge_parts", o_args(1, pl, NULL, NULL));
        if (skip) sx_assert(x == NULL, "a part that was not computed is refused"); else sx_assert(x != NULL, "computed parts are merged");
        PyErr_Clear(); if (x) { Py_DECREF(d); d = x; sx_cover("parts"); }
    }
    else if (sx_choice(2, "dup")) { x = o_call0(d, "dup"); Py_DECREF(d); d = x; }
    uint32_t i = sx_u32("i"), j = sx_u32("j"); bool in = (int)i >= 0 && (int)j >= 0 && (int)i < wm && (int)j < n;
    x = o_call(d, Py_TYPE(d), "get_distance", o_args(2, PyLong_FromLong((int)i), PyLong_FromLong((int)j), NULL));
    sx_assert((x != NULL) == in, "the distance of two positions in the matrix and no others can be asked for"); PyErr_Clear();
    if (x) { sx_assert(((struct vfloat *)x)->v == (double)sr_distances_get_distance(w, i, j), "the distance is the one the library computes"); sx_cover("distance"); } Py_XDECREF(x);
    if (wm == n - 1)
    {
        PyObject *g = o_new(&sr_py_dendrogram_type, o_args(1, v_own(d), NULL, NULL)); sx_assert(g != NULL, "a matrix can be clustered");
        uint32_t k = sx_u32("k"); x = o_call1(g, "get_object", PyLong_FromLong((int)k)); sx_assert((x != NULL) == (k < (uint32_t)n), "every object has a position"); PyErr_Clear(); Py_XDECREF(x);
        k = sx_u32("l"); x = o_call1(g, "get_merge_level", PyLong_FromLong((int)k)); sx_assert((x != NULL) == (k < (uint32_t)n - 1), "there is a level for every merge and no others"); PyErr_Clear(); Py_XDECREF(x);
        x = o_call(g, Py_TYPE(g), "cut", o_args(2, PyFloat_FromDouble(1.0), PyLong_FromLong(sx_choice(3, "min")), NULL)); sx_assert(x != NULL && PyList_Check(x), "a dendrogram can be cut"); Py_XDECREF(x);
        x = o_str(g); Py_DECREF(x); Py_DECREF(g); sx_cover("dendrogram");
    }
    x = o_str(d); Py_DECREF(x); sr_distances_free(w); Py_DECREF(d); Py_DECREF(l);
    sx_assert(sx_live_heap() == live, "nothing is lost when the objects end");
}
#endif
