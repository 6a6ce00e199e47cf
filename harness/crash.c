/* Crash thread and crash frame (C28: MODE 0 thread, 1 frame), quality (C29: MODE 2 thread, 3 whole stacktrace, 4 weighted). T=0 core, T=1 gdb. */
#include "types.h"
#include "normalize.h"
#if T == 0
#define FILEOF(f) (f)->file_name
#else
#define FILEOF(f) (f)->source_file
#endif
static FR *mk(const char *name, const char *file) { FR *f = FF(new)(); f->function_name = g_strdup(name); FILEOF(f) = g_strdup(file); f->address = 9; return f; }
/* threads as they occur around a crash; x = an exit function is somewhere in it */
static const struct { const char *n[3], *f[3]; bool x; } kind[] = {
    { { "foo" }, { "foo.c" }, false }, { { "abort", "foo" }, { "libc.so", "foo.c" }, true }, { { "foo", "raise" }, { "foo.c", "libc-2.so" }, true }, { { "bar" }, { NULL }, false }, { { NULL }, { NULL }, false },
    { { "??", "foo" }, { NULL, "foo.c" }, false }, { { "foo", "abort" }, { "foo.c", "mine.c" }, false }, { { "foo", "foo2", "abort" }, { "g.c", "g.c", "libc.so" }, true } };
#define NK ((int)(sizeof kind / sizeof *kind))
static TH *mkt(int k) { TH *t = new_thread(); FR **p = &t->frames; for (int i = 0; i < 3 && kind[k].n[i]; i++) { *p = mk(kind[k].n[i], kind[k].f[i]); p = &(*p)->next; } return t; }
#if MODE >= 2
static bool good[16];
static FR *qframe(int i)
{
    FR *f = FF(new)(); int h = sx_choice(6, "name"); static const char *const fixed[] = { NULL, "??", "foo", "", "?" };
    if (h < 5) f->function_name = g_strdup(fixed[h]); else { char *s = sx_str_upto(3, "fname"); f->function_name = g_strdup(s); free(s); }
    char *src = sx_choice(2, "source") ? NULL : sx_str_upto(1, "file"); FILEOF(f) = g_strdup(src); free(src);
    uint8_t sg = sx_u8("sighandler"); sx_assume(sg <= 1); f->signal_handler_called = sg; f->address = sx_u64("address"); f->source_line = sx_u32("line");
    bool named = f->function_name && strcmp(f->function_name, "??") != 0, src_ok = FILEOF(f) && FILEOF(f)[0];
    good[i] = sg || (named && src_ok); return f;
}
#endif
void harness(void)
{
    uint64_t live = sx_live_heap();
#if MODE <= 1
    int n = sx_choice(NTH + 1, "threads"), k[4]; TH *t[4]; ST *s = SF(new)(); TH **p = &s->threads;
    for (int i = 0; i < n; i++) { k[i] = sx_choice(NK, "kind"); *p = t[i] = mkt(k[i]); p = &t[i]->next; }
    TH *want = NULL; bool any = false;
#if T == 1
    for (int i = 0; i < n; i++) { t[i]->tid = sx_u32("tid"); t[i]->number = sx_u32("number"); }
    sr_gdb_stacktrace_set_crash_tid(s, sx_u32("crash_tid")); static const char *const cn[] = { NULL, "foo", "abort", "zz" }; int c = sx_choice(5, "crashframe"); if (c < 4) s->crash = mk(cn[c], "foo.c");
    if (n == 1) want = t[0];
    else if (n > 1) {
        if (s->crash_tid != UINT32_MAX) for (int i = n - 1; i >= 0; i--) if (t[i]->tid == s->crash_tid) want = t[i];
        if (!want && s->crash && s->crash->function_name) {
            int m = 0, a = 0; TH *mt = NULL, *at = NULL;
            for (int i = 0; i < n; i++) if (t[i]->frames && same(t[i]->frames->function_name, s->crash->function_name)) { m++; mt = t[i]; if (kind[k[i]].x) { a++; at = t[i]; } }
            if (m == 1) want = mt; else if (a == 1) want = at; else if (m > 1) any = true;
        }
    }
#else
    int c = sx_choice(n + 1, "known"); if (c < n) s->crash_thread = t[c]; for (int i = 0; i < n; i++) t[i]->id = (int64_t)sx_u64("id");
    if (s->crash_thread) want = s->crash_thread; else if (n == 1) want = t[0]; else for (int i = n - 1; i >= 0; i--) if (kind[k[i]].x) want = t[i];
#endif
    ST *before = SF(dup)(s);
#if MODE == 0
    TH *got = sx_choice(2, "generic") ? (TH *)sr_stacktrace_find_crash_thread(GS(s)) : SF(find_crash_thread)(s);
#if T == 1
    if (any) {          /* several indistinguishable: one of them, and which one does not depend on the order of the threads */
        sx_assert(got && got->frames && same(got->frames->function_name, s->crash ? s->crash->function_name : NULL), "a thread that does not qualify is taken for the crash thread"); if (!got) sx_stop();
        s->threads = t[n - 1]; for (int i = n - 1; i >= 0; i--) t[i]->next = i ? t[i - 1] : NULL;
        TH *other = SF(find_crash_thread)(s); sx_assert(other && frames_same(other->frames, got->frames), "the crash thread depends on the order of the threads");
        s->threads = t[0]; for (int i = 0; i < n; i++) t[i]->next = i + 1 < n ? t[i + 1] : NULL; sx_cover("any");
    } else
#endif
    { sx_assert(got == want, got ? want ? "another thread is taken for the crash thread" : "a crash thread is made up" : "the crash thread is not found"); sx_cover(want ? "found" : "none"); }
    sx_assert(st_same(s, before), "looking for the crash thread changed the stacktrace");
#elif T == 1
    FR *f = sr_gdb_stacktrace_get_crash_frame(s); sx_assert(st_same(s, before), "looking for the crash frame changed the stacktrace");
    if (!any) {
        int w = -1; for (int i = 0; i < n; i++) if (t[i] == want) w = i;
        if (w < 0) sx_assert(!f, "a crash frame without a crash thread");
        else {
            TH *x = mkt(k[w]); sr_normalize_gdb_thread(x);
            if (!x->frames) { sx_assert(!f, "a crash frame that was removed"); sx_cover("empty"); } else { sx_assert(f && frame_same(f, x->frames), "the crash frame is not the innermost frame that matters"); sx_cover("frame"); }
            sr_gdb_thread_free(x);
        }
    }
    if (f) { sx_assert(!f->next, "more than the crash frame is returned"); bool shared = false; for (int i = 0; i < n; i++) for (FR *q = t[i]->frames; q; q = q->next) shared |= q == f; sx_assert(!shared, "the crash frame is not a copy"); sr_gdb_frame_free(f); }
#endif
    SF(free)(before); SF(free)(s);
#elif MODE == 2
    int n = sx_choice(NFR + 1, "n"), ok = 0; TH *t = new_thread(); FR **p = &t->frames; for (int i = 0; i < n; i++) { *p = qframe(i); ok += good[i]; p = &(*p)->next; }
    TH *b = TF(dup)(t, false); int a = sx_choice(3, "start"), o = a * 5, all = a * 7; int o0 = o, all0 = all; sr_gdb_thread_quality_counts(t, &o, &all); float q = sr_gdb_thread_quality(t);
    sx_assert(o == o0 + ok && all == all0 + n, "the frames with known function and source are not counted right");
    sx_assert(q >= 0 && q <= 1 && q == (n ? ok / (float)n : 1.0f), "the rating is not the share of known frames"); sx_assert(thread_same(t, b), "rating changed the thread"); sx_cover(ok ? "known" : "unknown");
    sr_gdb_thread_free(b); sr_gdb_thread_free(t);
#elif MODE == 3 || MODE == 4
    int n = sx_choice(3, "threads"), c = 0; ST *s = SF(new)(); TH **p = &s->threads; int all[2] = { 0 }, ok[2] = { 0 };
#if MODE == 3
    for (int i = 0; i < n; i++) { *p = new_thread(); (*p)->number = i; FR **fp = &(*p)->frames; for (int m = sx_choice(NFR - i + 1, "frames"); m > 0; m--) { *fp = qframe(c); ok[i] += good[c++]; all[i]++; fp = &(*fp)->next; } p = &(*p)->next; }
    ST *b = SF(dup)(s); float q = sr_gdb_stacktrace_quality_simple(s); int A = all[0] + all[1], O = ok[0] + ok[1];
    sx_assert(q >= 0 && q <= 1 && q == (A ? O / (float)A : 0.0f), "the rating is not the share of known frames"); sx_assert(st_same(s, b), "rating changed the stacktrace"); sx_cover(O ? "known" : "unknown");
    SF(free)(b);
#else       /* threads of distinct functions that survive normalisation; the first may be the crash thread */
    static const char *const nm[] = { "f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7" }; int first5 = 0, n5 = 0;
    for (int i = 0; i < n; i++) { *p = new_thread(); (*p)->number = i; (*p)->tid = 10 + i; FR **fp = &(*p)->frames; for (int m = i == 0 ? sx_choice(NFR + 1, "frames") : 1; m > 0; m--) { bool g = sx_choice(2, "good"); *fp = mk(nm[all[i]], g ? "zz" : NULL); (*fp)->address = all[i] + 1; ok[i] += g; if (i == 0 && all[i] < 5) { first5 += g; n5++; } all[i]++; fp = &(*fp)->next; } p = &(*p)->next; }
    bool crash = n && sx_choice(2, "crash"); if (crash) s->crash_tid = 10;
    ST *b = SF(dup)(s); float q = sr_gdb_stacktrace_quality_complex(s); int A = all[0] + all[1], O = ok[0] + ok[1]; sx_assert(st_same(s, b), "rating changed the stacktrace");
    float q1 = A ? O / (float)A : 0, q2 = all[0] ? ok[0] / (float)all[0] : 1, q3 = n5 ? first5 / (float)n5 : 1, w = crash || n == 1 ? 0.25f * q1 + 0.35f * q2 + 0.4f * q3 : q1, e = q - w;
    sx_assert(q >= 0 && q <= 1 && e < 1e-5f && e > -1e-5f, "the rating does not weigh all threads, the crash thread and the frames around the crash as documented"); sx_cover(crash ? "weighted" : "plain"); SF(free)(b);
#endif
    SF(free)(s);
#endif
    sx_assert(sx_live_heap() == live, "memory is lost");
}
