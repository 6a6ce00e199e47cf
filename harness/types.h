/* One description of every problem type's structures (public headers only).
   T: 0 core, 1 gdb, 2 koops, 3 python, 4 java, 5 ruby, 6 js */
#pragma once
#include "gen.h"
#include "core/frame.h"
#include "core/thread.h"
#include "core/stacktrace.h"
#include "gdb/frame.h"
#include "gdb/thread.h"
#include "gdb/stacktrace.h"
#include "gdb/sharedlib.h"
#include "koops/frame.h"
#include "koops/stacktrace.h"
#include "python/frame.h"
#include "python/stacktrace.h"
#include "java/frame.h"
#include "java/thread.h"
#include "java/stacktrace.h"
#include "ruby/frame.h"
#include "ruby/stacktrace.h"
#include "js/frame.h"
#include "js/stacktrace.h"
#include "js/platform.h"
#include "frame.h"
#include "thread.h"
#include "stacktrace.h"
#include "report_type.h"
#include <stddef.h>
#ifndef T
#define T 0
#endif
#define CAT_(a, b, c) a##b##c
#define CAT(a, b, c) CAT_(a, b, c)
#if T == 0
#define TN core
#define RT SR_REPORT_CORE
#elif T == 1
#define TN gdb
#define RT SR_REPORT_GDB
#elif T == 2
#define TN koops
#define RT SR_REPORT_KERNELOOPS
#elif T == 3
#define TN python
#define RT SR_REPORT_PYTHON
#elif T == 4
#define TN java
#define RT SR_REPORT_JAVA
#elif T == 5
#define TN ruby
#define RT SR_REPORT_RUBY
#else
#define TN js
#define RT SR_REPORT_JAVASCRIPT
#endif
#define MT (T == 0 || T == 1 || T == 4)            /* has threads of its own */
typedef struct CAT(sr_, TN, _frame) FR;
typedef struct CAT(sr_, TN, _stacktrace) ST;
#if MT
typedef struct CAT(sr_, TN, _thread) TH;
#define TF(x) CAT(sr_, TN, _thread_##x)
#else
typedef ST TH;
#endif
#define FF(x) CAT(sr_, TN, _frame_##x)
#define SF(x) CAT(sr_, TN, _stacktrace_##x)
enum fk { F_STR, F_U64, F_U32, F_BOOL };
struct fd { const char *name; size_t off; enum fk k; bool cmp; };
#define D(f, kind, c) { #f, offsetof(FR, f), kind, c }
static const struct fd fds[] = {
#if T == 0
    D(build_id, F_STR, true), D(build_id_offset, F_U64, true), D(function_name, F_STR, true), D(file_name, F_STR, true), D(fingerprint, F_STR, true), D(address, F_U64, false), D(fingerprint_hashed, F_BOOL, false),
#elif T == 1
    D(signal_handler_called, F_BOOL, true), D(function_name, F_STR, true), D(function_type, F_STR, true), D(source_file, F_STR, true), D(source_line, F_U32, true), D(library_name, F_STR, true), D(number, F_U32, true), D(address, F_U64, false),
#elif T == 2
    D(address, F_U64, true), D(reliable, F_BOOL, true), D(function_name, F_STR, true), D(function_offset, F_U64, true), D(function_length, F_U64, true), D(module_name, F_STR, true), D(from_address, F_U64, true), D(from_function_name, F_STR, true), D(from_function_offset, F_U64, true), D(from_function_length, F_U64, true), D(from_module_name, F_STR, true), D(special_stack, F_STR, true),
#elif T == 3
    D(function_name, F_STR, true), D(file_name, F_STR, true), D(file_line, F_U32, true), D(special_function, F_BOOL, true), D(special_file, F_BOOL, true), D(line_contents, F_STR, true),
#elif T == 4
    D(is_exception, F_BOOL, true), D(name, F_STR, true), D(class_path, F_STR, true), D(file_name, F_STR, true), D(is_native, F_BOOL, true), D(file_line, F_U32, true), D(message, F_STR, false),
#elif T == 5
    D(function_name, F_STR, true), D(file_name, F_STR, true), D(file_line, F_U32, true), D(special_function, F_BOOL, true), D(block_level, F_U32, true), D(rescue_level, F_U32, true),
#else
    D(function_name, F_STR, true), D(file_name, F_STR, true), D(file_line, F_U32, true), D(line_column, F_U32, true),
#endif
};
#define NF ((int)(sizeof fds / sizeof *fds))
static inline char **strp(void *f, int i) { return (char **)((char *)f + fds[i].off); }
static inline uint64_t geti(const void *f, int i)
{
    const char *p = (const char *)f + fds[i].off;
    switch (fds[i].k) { case F_U64: return *(const uint64_t *)p; case F_U32: return *(const uint32_t *)p; case F_BOOL: return *(const bool *)p; default: return 0; }
}
static inline void seti(void *f, int i, uint64_t v)
{
    char *p = (char *)f + fds[i].off;
    switch (fds[i].k) { case F_U64: *(uint64_t *)p = v; break; case F_U32: *(uint32_t *)p = v; break; case F_BOOL: *(bool *)p = v & 1; break; default: break; }
}
static inline void symi(void *f, int i)
{
    switch (fds[i].k) { case F_U64: seti(f, i, sx_u64(fds[i].name)); break; case F_U32: seti(f, i, sx_u32(fds[i].name)); break; case F_BOOL: { uint8_t b = sx_u8(fds[i].name); sx_assume(b <= 1); seti(f, i, b); break; } default: break; }
}
static inline int nstr(void) { int n = 0; for (int i = 0; i < NF; i++) n += fds[i].k == F_STR; return n; }
static inline int strno(int k) { for (int i = 0; i < NF; i++) if (fds[i].k == F_STR && k-- == 0) return i; return -1; }
/* NULL, or a string of 0..max arbitrary bytes */
static inline char *opt_str(int max, const char *name) { int c = sx_choice(max + 2, "strlen"); if (c == 0) return NULL; char *s = sx_str(c - 1, name), *r = g_strdup(s); free(s); return r; }
/* a frame whose numbers are all arbitrary; strings named in the mask are arbitrary (absent included), the others present and constant */
static inline FR *sym_frame(unsigned deep, int max, const char *konst)
{
    FR *f = FF(new)();
    for (int i = 0; i < NF; i++)
        if (fds[i].k != F_STR) symi(f, i);
        else if (deep >> i & 1) *strp(f, i) = opt_str(max, fds[i].name);
        else *strp(f, i) = konst ? g_strdup(konst) : NULL;
    return f;
}
/* snapshot of a frame's contents, and its comparison with a frame */
struct snap { uint64_t i[16]; char *s[16]; };
static inline struct snap *snap_frame(FR *f) { struct snap *p = malloc(sizeof *p); for (int i = 0; i < NF; i++) { p->i[i] = geti(f, i); p->s[i] = fds[i].k == F_STR ? g_strdup(*strp(f, i)) : NULL; } return p; }
static inline void snap_free(struct snap *p) { for (int i = 0; i < NF; i++) g_free(p->s[i]); free(p); }
static inline bool snap_same(const struct snap *p, FR *f) { for (int i = 0; i < NF; i++) { if (fds[i].k == F_STR) { if (!same(p->s[i], *strp(f, i))) return false; } else if (p->i[i] != geti(f, i)) return false; } return true; }
static inline bool frame_same(FR *a, FR *b) { for (int i = 0; i < NF; i++) { if (fds[i].k == F_STR) { if (!same(*strp(a, i), *strp(b, i))) return false; } else if (geti(a, i) != geti(b, i)) return false; } return true; }
/* generic (type independent) views */
#define GF(p) ((struct sr_frame *)(p))
#define GT(p) ((struct sr_thread *)(p))
#define GS(p) ((struct sr_stacktrace *)(p))
static inline int frcmp(FR *a, FR *b)
{
#if T == 1
    return sr_gdb_frame_cmp(a, b, true);
#else
    return FF(cmp)(a, b);
#endif
}
/* the fields comparison looks at are the same */
static inline bool cmp_same(FR *a, FR *b)
{
#if T == 1
    if (a->signal_handler_called && b->signal_handler_called) return true;
#endif
#if T == 4
    if (a->is_exception && b->is_exception) return same(a->name, b->name);
#endif
    bool r = true;
    for (int i = 0; i < NF; i++) if (fds[i].cmp) { if (fds[i].k == F_STR) { if (!same(*strp(a, i), *strp(b, i))) return false; } else r = r & (geti(a, i) == geti(b, i)); }
    return r;
}
static inline int sgn(int x) { return (x > 0) - (x < 0); }
/* threads (for the types without threads the stacktrace itself is the thread) */
static inline FR *frames_of(void *t) { return ((TH *)t)->frames; }
static inline TH *new_thread(void)
{
#if MT
    return TF(new)();
#else
    return SF(new)();
#endif
}
static inline void sym_attr(TH *t, int max)
{
#if T == 0
    t->id = (int64_t)sx_u64("id");
#elif T == 1
    t->number = sx_u32("number"); t->tid = sx_u32("tid");
#elif T == 4
    t->name = opt_str(max, "tname");
#endif
}
/* a thread of n frames; numbers arbitrary, strings in the mask arbitrary */
static inline TH *sym_thread(int n, unsigned deep, int max, const char *konst)
{
    TH *t = new_thread(); FR **p = &t->frames;
    for (int i = 0; i < n; i++) { *p = sym_frame(deep, max, konst); p = &(*p)->next; }
    return t;
}
static inline int nframes(TH *t) { int n = 0; for (FR *f = t->frames; f; f = f->next) n++; return n; }
static inline FR *frame_at(TH *t, int k) { FR *f = t->frames; while (f && k--) f = f->next; return f; }
/* stacktraces */
static inline ST *sym_st(int nth, int nfr, unsigned deep, int max, const char *konst)
{
#if MT
    ST *s = SF(new)(); TH **p = &s->threads;
    for (int i = 0; i < nth; i++) { *p = sym_thread(nfr, deep, max, konst); sym_attr(*p, 0); p = &(*p)->next; }
    return s;
#else
    return sym_thread(nfr, deep, max, konst);
#endif
}
#if T == 2
static inline bool *taintp(ST *s, int i) { bool *b[] = { &s->taint_module_proprietary, &s->taint_module_out_of_tree, &s->taint_forced_module, &s->taint_forced_removal, &s->taint_smp_unsafe, &s->taint_mce, &s->taint_page_release, &s->taint_userspace, &s->taint_died_recently, &s->taint_acpi_overridden, &s->taint_warning, &s->taint_staging_driver, &s->taint_firmware_workaround, &s->taint_unsigned_module, &s->taint_soft_lockup, &s->taint_live_patched }; return b[i]; }
#define NTAINT 16
#endif
/* attributes of the whole stacktrace; which = the string that varies */
static inline void sym_st_attr(ST *s, int max)
{
#if T == 0
    s->signal = sx_u16("signal"); s->executable = opt_str(max, "executable"); uint8_t o = sx_u8("only"); sx_assume(o <= 1); s->only_crash_thread = o;
    int c = sx_choice(3, "crash"); s->crash_thread = c == 0 ? NULL : c == 1 ? s->threads : s->threads ? s->threads->next : NULL;
#elif T == 1
    s->crash_tid = sx_u32("crash_tid");
    if (sx_choice(2, "crashframe")) s->crash = sym_frame(0, 0, "c");
    for (int n = sx_choice(3, "libs"); n; n--) { struct sr_gdb_sharedlib *l = sr_gdb_sharedlib_new(); l->from = sx_u64("from"); l->to = sx_u64("to"); l->symbols = sx_u32("symbols"); l->soname = opt_str(n == 1 ? max : 0, "soname"); s->libs = sr_gdb_sharedlib_append(s->libs, l); }
#elif T == 2
    int w = sx_choice(4, "attr");
    s->version = w == 0 ? opt_str(max, "version") : NULL; s->raw_oops = w == 1 ? opt_str(max, "raw") : g_strdup("r"); s->reason = w == 2 ? opt_str(max, "reason") : g_strdup("w");
    if (w == 3) { int n = sx_choice(4, "modules"); if (n) { s->modules = g_malloc_n(n, sizeof(char *)); for (int i = 0; i < n - 1; i++) { char *m = opt_str(i ? 0 : max, "module"); s->modules[i] = m ? m : g_strdup("m"); } s->modules[n - 1] = NULL; } }
    for (int i = 0; i < NTAINT; i++) { uint8_t v = sx_u8("taint"); sx_assume(v <= 1); *taintp(s, i) = v; }
#elif T == 3 || T == 5
    s->exception_name = opt_str(max, "exception");
#elif T == 6
    s->exception_name = opt_str(max, "exception"); int r = sx_choice(2, "runtime"), e = sx_choice(2, "engine"); sr_js_platform_init(s->platform, r ? SR_JS_RUNTIME_NODEJS : 0, e ? SR_JS_ENGINE_V8 : 0);
#endif
}
static inline bool frames_same(FR *a, FR *b) { for (; a && b; a = a->next, b = b->next) if (!frame_same(a, b)) return false; return !a && !b; }
static inline bool thread_same(TH *a, TH *b)
{
#if T == 0
    if (a->id != b->id) return false;
#elif T == 1
    if (a->number != b->number || a->tid != b->tid) return false;
#elif T == 4
    if (!same(a->name, b->name)) return false;
#endif
    return a->type == b->type && frames_same(a->frames, b->frames);
}
static inline TH *threads_of(ST *s)
{
#if MT
    return s->threads;
#else
    return NULL;
#endif
}
static inline bool threads_same(TH *a, TH *b)
{
#if MT
    for (; a && b; a = a->next, b = b->next) if (!thread_same(a, b)) return false;
#endif
    return !a && !b;
}
#if T == 0 || T == 1
static inline int thread_index(ST *s, TH *t) { int i = 0; for (TH *x = s->threads; x; x = x->next, i++) if (x == t) return i; return -1; }
#endif
static inline bool st_attr_same(ST *a, ST *b)
{
#if T == 0
    return (a->signal == b->signal) & (a->only_crash_thread == b->only_crash_thread) && same(a->executable, b->executable) && thread_index(a, a->crash_thread) == thread_index(b, b->crash_thread);
#elif T == 1
    struct sr_gdb_sharedlib *l = a->libs, *m = b->libs;
    for (; l && m; l = l->next, m = m->next) if ((l->from != m->from) | (l->to != m->to) | (l->symbols != m->symbols) || !same(l->soname, m->soname)) return false;
    return !l && !m && a->crash_tid == b->crash_tid && (!a->crash ? !b->crash : b->crash && frame_same(a->crash, b->crash));
#elif T == 2
    for (int i = 0; i < NTAINT; i++) if (*taintp(a, i) != *taintp(b, i)) return false;
    if (!a->modules != !b->modules) return false;
    for (int i = 0; a->modules; i++) { if (!same(a->modules[i], b->modules[i])) return false; if (!a->modules[i]) break; }
    return same(a->version, b->version) && same(a->raw_oops, b->raw_oops) && same(a->reason, b->reason);
#elif T == 3 || T == 5
    return same(a->exception_name, b->exception_name);
#elif T == 6
    return same(a->exception_name, b->exception_name) && a->platform == b->platform;
#else
    return true;
#endif
}
static inline bool st_same(ST *a, ST *b)
{
    if (a->type != b->type || !st_attr_same(a, b)) return false;
#if MT
    return threads_same(a->threads, b->threads);
#else
    return frames_same(a->frames, b->frames);
#endif
}
/* same contents, nothing shared: recursively overwrite one copy later and compare the other with a third */
static inline void scribble_frames(FR *f) { for (; f; f = f->next) for (int i = 0; i < NF; i++) { if (fds[i].k == F_STR) { if (*strp(f, i) && **strp(f, i)) **strp(f, i) = '#'; } else seti(f, i, geti(f, i) ^ 1); } }
static inline void free_frames(FR *f) { while (f) { FR *n = f->next; FF(free)(f); f = n; } }
