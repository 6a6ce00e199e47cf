/* C13: removing (type-independent 0, concrete 1), limiting depth 2, keeping one thread 3, appending 4. */
#include "types.h"
#define MAXF 6
static bool list_is(FR *f, FR **p, int from, int to, int skip) { for (int i = from; i < to; i++) { if (i == skip) continue; if (f != p[i]) return false; f = f->next; } return !f; }
void harness(void)
{
    uint64_t live = sx_live_heap();
    FR *p[MAXF]; struct snap *sn[MAXF]; int n = sx_choice(NFR + 1, "frames");
    TH *t = sym_thread(n, 0, 0, "k"); for (int i = 0; i < n; i++) { p[i] = frame_at(t, i); sn[i] = snap_frame(p[i]); }
    FR *foreign = sym_frame(0, 0, "k"); struct snap *fs = snap_frame(foreign);
#if MODE <= 1
    int k = sx_choice(n + 1, "target"), op = sx_choice(2, "op"); FR *target = k < n ? p[k] : foreign;
    sx_assert(sr_thread_frame_count(GT(t)) == n, "the number of frames is wrong");
    bool r;
#if MODE == 0
    r = op ? sr_thread_remove_frames_above(GT(t), GF(target)) : sr_thread_remove_frame(GT(t), GF(target));
#elif T == 2
    op = 0; r = sr_koops_stacktrace_remove_frame(t, target);
#elif T == 1 || T == 4
    r = op ? TF(remove_frames_above)(t, target) : TF(remove_frame)(t, target);
#endif
    sx_assert(r == (k < n), "a missing frame is reported as removed, or a present one as missing");
    int from = op && r ? k : 0, skip = !op && r ? k : -1, left = n - from - (skip >= 0);
    sx_assert(list_is(t->frames, p, from, n, skip), "the remaining frames are not exactly the expected ones in order");
    for (int i = from; i < n; i++) if (i != skip) sx_assert(snap_same(sn[i], p[i]), "a remaining frame was changed");
    sx_assert(snap_same(fs, foreign), "a frame of another thread was changed");
    sx_assert(sr_thread_frame_count(GT(t)) == left, "the number of frames is wrong after removal");
    sx_obs_i("left", left); sx_cover(r ? "removed" : "missing");
#elif MODE == 2
    uint32_t d = sx_u32("depth"); sx_assume(d <= 0x7fffffff);
#if T == 1
    TH *u = sym_thread(2, 0, 0, "k"); ST *s = SF(new)(); bool whole = sx_choice(2, "whole");
    if (whole) { sx_assume(d >= 1); s->threads = t; t->next = u; sr_gdb_stacktrace_limit_frame_depth(s, d); sx_assert(nframes(u) == (d < 2 ? d : 2), "another thread is not limited"); s->threads = NULL; t->next = NULL; }
    else TF(remove_frames_below_n)(t, d);
    sr_gdb_thread_free(u); SF(free)(s);
#else
    TF(remove_frames_below_n)(t, d);
#endif
    int left = d < (uint32_t)n ? (int)d : n;
    sx_assert(list_is(t->frames, p, 0, left, -1), "the remaining frames are not exactly the topmost ones");
    for (int i = 0; i < left; i++) sx_assert(snap_same(sn[i], p[i]), "a remaining frame was changed");
    sx_obs_i("left", left); sx_cover("limited");
#elif MODE == 3
    int m = 1 + sx_choice(3, "threads"), keep = sx_choice(m, "keep"); ST *s = SF(new)(); TH *q[3];
    for (int i = 0; i < m; i++) { q[i] = i == keep ? t : sym_thread(1, 0, 0, "o"); s->threads = TF(append)(s->threads, q[i]); }
    int cnt = 0; for (TH *x = s->threads; x; x = x->next) { sx_assert(x == q[cnt], "appending threads changes their order"); cnt++; }
#if T == 1
    sx_assert(cnt == m && sr_gdb_stacktrace_get_thread_count(s) == m, "appending threads loses some");
    sr_gdb_stacktrace_remove_threads_except_one(s, t);
    sx_assert(s->threads == t && !t->next && sr_gdb_stacktrace_get_thread_count(s) == 1, "exactly the chosen thread must remain");
    sx_assert(list_is(t->frames, p, 0, n, -1), "the kept thread lost frames");
    for (int i = 0; i < n; i++) sx_assert(snap_same(sn[i], p[i]), "a frame of the kept thread was changed");
#elif T == 0
    sx_assert(cnt == m && sr_core_stacktrace_get_thread_count(s) == m, "appending threads loses some");
#else
    sx_assert(cnt == m, "appending threads loses some");
#endif
    SF(free)(s); t = NULL; sx_cover("threads");
#else
    int m = sx_choice(3, "more"); FR *q[3], *l = NULL; for (int i = 0; i < m; i++) { q[i] = sym_frame(0, 0, "q"); l = FF(append)(l, q[i]); }
    if (m) { t->frames = FF(append)(t->frames, l); } FR *f = t->frames;
    for (int i = 0; i < n; i++, f = f->next) sx_assert(f == p[i] && snap_same(sn[i], p[i]), "appending changes the first list");
    for (int i = 0; i < m; i++, f = f->next) sx_assert(f == q[i], "appending changes the second list");
    sx_assert(!f && sr_thread_frame_count(GT(t)) == n + m, "appending loses or invents frames");
#if T == 2
    FR *h = sym_frame(0, 0, "h"), *old = t->frames; t->frames = sr_koops_frame_prepend(t->frames, h); sx_assert(t->frames == h && h->next == old, "prepending does not put the frame first");
#elif T == 4
    FR *last = sr_java_frame_get_last(t->frames), *e = t->frames; while (e && e->next) e = e->next; sx_assert(last == e, "the last frame is not the last");
#endif
    sx_cover("appended");
#endif
    for (int i = 0; i < n; i++) snap_free(sn[i]); snap_free(fs); FF(free)(foreign);
    if (t) sr_thread_free(GT(t));
    sx_assert(sx_live_heap() == live, "removed elements are not freed exactly once");
}
