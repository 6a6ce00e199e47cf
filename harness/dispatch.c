/* Type independent against concrete interface (C40). MODE 0: two frames; 1: threads; 2: stacktraces; 3: parsing text; 4: JSON */
#include "types.h"
#include "normalize.h"
#include "utils.h"
#include "location.h"
#include "json.h"
/* a frame, a thread and a stacktrace of another type */
#if T == 3
#define OTHER(what) sr_koops_##what##_new
#define OTYPE SR_REPORT_KERNELOOPS
#else
#define OTHER(what) sr_python_##what##_new
#define OTYPE SR_REPORT_PYTHON
#endif
static int fcmp(FR *a, FR *b)
{
#if T == 1
    return sr_gdb_frame_cmp(a, b, false);
#else
    return FF(cmp)(a, b);
#endif
}
static TH *tdup(TH *t)
{
#if MT
    return TF(dup)(t, false);
#else
    return SF(dup)(t);
#endif
}
static void tfree(TH *t)
{
#if MT
    TF(free)(t);
#else
    SF(free)(t);
#endif
}
static bool tsame(TH *a, TH *b)
{
#if MT
    return thread_same(a, b);
#else
    return st_same(a, b);
#endif
}
static void tnorm(TH *t)
{
#if T == 0
    sr_normalize_core_thread(t);
#elif T == 1
    sr_normalize_gdb_thread(t);
#elif T == 2
    sr_normalize_koops_stacktrace(t);
#endif
}
static bool list_is(FR *f, FR **p, int from, int to, int skip) { for (int i = from; i < to; i++) { if (i == skip) continue; if (f != p[i]) return false; f = f->next; } return !f; }
static const char *const norm[] = { "f", "g", "abort", "raise", "__restore_rt", "dump_stack", "show_stack", NULL };
static FR *some_frame(const char *n) { FR *f = sym_frame(0, 0, "k"); 
#if T == 4
    g_free(f->name); f->name = g_strdup(n);
#else
    g_free(f->function_name); f->function_name = g_strdup(n);
#endif
#if T == 1
    g_free(f->source_file); f->source_file = g_strdup("abort.c");
#elif T == 2
    g_free(f->module_name); f->module_name = NULL;
#elif T == 0
    g_free(f->file_name); f->file_name = g_strdup("libc.so.6");
#endif
    return f; }
void harness(void)
{
    uint64_t live = sx_live_heap();
#if MODE == 0
    int deep = strno(sx_choice(nstr(), "deep")); const char *o = sx_choice(2, "others") ? "k" : NULL; FR *a = sym_frame(1u << deep, L, o), *b = sym_frame(1u << deep, L, o); struct snap *sa = snap_frame(a), *sb = snap_frame(b);
    sx_assert((GF(a)->type == RT) & (GF(b)->type == RT), "type of a new frame");
    int op = sx_choice(4, "op");
    if (op == 0) { int x = sr_frame_cmp(GF(a), GF(b)), y = fcmp(a, b); sx_assert(x == y, "the frames compare differently"); sx_obs_i("cmp", sgn(x)); sx_cover("compared"); }
    else if (op == 1) { int x = sr_frame_cmp_distance(GF(a), GF(b)), y = FF(cmp_distance)(a, b); sx_assert(x == y, "the frames compare differently for the distance"); sx_obs_i("cmp", sgn(x)); }
    else if (op == 2) {
        void *x = OTHER(frame)(); int p = sr_frame_cmp(GF(a), x), q = sr_frame_cmp(x, GF(a)), r = sr_frame_cmp_distance(GF(a), x), s = sr_frame_cmp_distance(x, GF(a));
        sx_assert(p && q && r && s, "frames of different types are equal"); sx_assert(sgn(p) == -sgn(q) && sgn(r) == -sgn(s), "the order of frames of different types depends on the order of arguments"); sr_frame_free(x); sx_cover("mixed");
    } else {
        FR *c = FF(new)(); a->next = c; sx_assert(sr_frame_next(GF(a)) == GF(c) && !sr_frame_next(GF(b)), "another next frame");
        sr_frame_set_next(GF(b), GF(a)); sx_assert(b->next == a && a->next == c && !c->next, "set_next sets something else"); sr_frame_set_next(GF(b), NULL); sx_assert(!b->next && a->next == c, "set_next sets something else"); a->next = NULL; sr_frame_free(GF(c)); sx_cover("linked");
    }
    sx_assert(snap_same(sa, a) && snap_same(sb, b) && !a->next && !b->next, "a frame is changed"); snap_free(sa); snap_free(sb); sr_frame_free(GF(a)); FF(free)(b);
#elif MODE == 1
    int n = sx_choice(NFR + 1, "frames"), op = sx_choice(7, "op"); TH *t = new_thread(); FR **p = &t->frames, *fr[4]; struct snap *sn[4];
    sx_assert(GT(t)->type == RT, "type of a new thread");
    for (int i = 0; i < n; i++) { fr[i] = *p = some_frame(op == 6 ? norm[sx_choice(8, "fn")] : "k"); sn[i] = snap_frame(*p); p = &(*p)->next; }
    TH *b = tdup(t);
    sx_assert(sr_thread_frame_count(GT(t)) == n, "another number of frames");
    if (op == 0) {      /* walking */
        int i = 0; for (struct sr_frame *f = sr_thread_frames(GT(t)); f; f = sr_frame_next(f), i++) sx_assert(f == GF(fr[i]), "another frame on the way"); sx_assert(i == n, "frames are missed");
#if MT
        TH *u = new_thread(); sx_assert(!sr_thread_next(GT(t)), "a next thread from nowhere"); sr_thread_set_next(GT(t), GT(u)); sx_assert(t->next == u && !u->next && sr_thread_next(GT(t)) == GT(u) && !sr_thread_next(GT(u)), "another next thread"); sr_thread_set_next(GT(t), NULL); sx_assert(!t->next, "a next thread stays"); sr_thread_free(GT(u));
#else
        sx_assert(!sr_thread_next(GT(t)), "a next thread from nowhere");
#endif
        sx_assert(tsame(t, b), "the thread is changed"); sx_cover("walked");
    } else if (op == 1) {       /* replacing the frames */
        FR *f = t->frames, *g = sx_choice(2, "none") ? NULL : some_frame("z"); sr_thread_set_frames(GT(t), GF(g)); sx_assert(t->frames == g && sr_thread_frames(GT(t)) == GF(g) && sr_thread_frame_count(GT(t)) == !!g, "other frames are set"); if (g) sr_frame_free(GF(g)); sr_thread_set_frames(GT(t), GF(f)); sx_assert(tsame(t, b), "the thread is changed");
    } else if (op == 2) {       /* copying */
        struct sr_thread *c = sr_thread_dup(GT(t)); sx_assert(c && c->type == RT, "the copy is of another type"); sx_assert(tsame((TH *)c, t), "the copy is different"); if (n) sx_assert(sr_thread_frames(c) != GF(fr[0]), "the copy shares frames"); sx_assert(!sr_thread_next(c), "the copy has a next thread"); sr_thread_free(c); sx_assert(tsame(t, b), "the thread is changed"); sx_cover("copied");
    } else if (op <= 4) {       /* removing */
        int k = sx_choice(n + 1, "which"); FR *x = k < n ? fr[k] : some_frame("k"); bool above = op == 4, r = above ? sr_thread_remove_frames_above(GT(t), GF(x)) : sr_thread_remove_frame(GT(t), GF(x));
        sx_assert(r == (k < n), "reported another way"); int from = above && r ? k : 0; sx_assert(list_is(t->frames, fr, from, n, !above ? k : -1), "other frames remain"); for (int i = from; i < n; i++) if (above || i != k) sx_assert(snap_same(sn[i], fr[i]), "a remaining frame is changed"); if (k == n) FF(free)(x); sx_cover(r ? "removed" : "foreign");
    } else if (op == 5) {       /* comparing */
#if MT
        int d = sx_choice(n + 1, "difference"); if (d < n) symi(frame_at(b, d), NF - 1); if (sx_choice(2, "attr")) sym_attr(b, 1); int x = sr_thread_cmp(GT(t), GT(b)), y = TF(cmp)(t, b); sx_assert(x == y, "the threads compare differently"); sx_obs_i("cmp", sgn(x));
#else
        int d = sx_choice(n + 1, "difference"); if (d < n) symi(frame_at(b, d), NF - 1); int y = 0, x = sr_thread_cmp(GT(t), GT(b)); for (int i = 0; !y && i < n; i++) y = FF(cmp)(fr[i], frame_at(b, i)); sx_assert(x == y, "the threads compare differently than their frames"); sx_obs_i("cmp", sgn(x));
#endif
        void *o = OTHER(stacktrace)(); int p = sr_thread_cmp(GT(t), o), q = sr_thread_cmp(o, GT(t)); sx_assert(p && q && sgn(p) == -sgn(q), "threads of different types"); sr_thread_free(o); sx_cover("compared");
    } else { TH *c = tdup(t); sr_thread_normalize(GT(t)); tnorm(c); sx_assert(tsame(t, c), "normalised another way"); sx_cover(nframes(t) < n ? "normalised" : "normal"); tfree(c); }
    for (int i = 0; i < n; i++) snap_free(sn[i]); sr_thread_free(GT(t)); tfree(b);
#elif MODE == 2
    int nth = sx_choice(3, "threads"); ST *s = sym_st(nth, MT ? 1 : nth, 0, 0, "k"); sym_st_attr(s, 0); ST *b = SF(dup)(s); sx_assert(GS(s)->type == RT, "type of a new stacktrace");
#if MT
    struct sr_thread *x = sr_stacktrace_threads(GS(s)); sx_assert(x == GT(s->threads), "other threads"); int i = 0; for (; x; x = sr_thread_next(x)) i++; sx_assert(i == nth, "threads are missed");
    TH *own = s->threads, *t = sx_choice(2, "none") ? NULL : TF(new)(); sr_stacktrace_set_threads(GS(s), GT(t)); sx_assert(s->threads == t && sr_stacktrace_threads(GS(s)) == GT(t), "other threads are set"); if (t) sr_thread_free(GT(t)); sr_stacktrace_set_threads(GS(s), GT(own));
    void *c = sr_stacktrace_find_crash_thread(GS(s));
#if T == 4
    sx_assert(c == (own && !own->next ? own : sr_java_find_crash_thread(s)), "another crash thread");
#else
    sx_assert(c == (void *)SF(find_crash_thread)(s), "another crash thread");
#endif
    sx_cover(c ? "crash" : "calm");
#else
    sx_assert((void *)sr_stacktrace_threads(GS(s)) == s && (void *)sr_stacktrace_find_crash_thread(GS(s)) == s, "the thread is not the stacktrace"); sx_assert(sr_thread_frame_count(GT(s)) == nth, "frames are missed"); sx_cover("crash"); sx_cover("calm");
#endif
    sx_assert(st_same(s, b), "the stacktrace is changed"); sr_stacktrace_free(GS(s)); SF(free)(b); sr_stacktrace_free(NULL); sr_thread_free(NULL); sr_frame_free(NULL);
#elif MODE == 3
    static const char *const tx[] = {
#if T == 0
        "{\"signal\":6,\"executable\":\"e\",\"stacktrace\":[{\"crash_thread\":true,\"frames\":[{\"address\":1,\"build_id\":\"b\"}]}]}"
#elif T == 1
        "Thread 1 (LWP 7):\n#0  0x0a in f (x=1) at f.c:3\nNo locals.\n"
#elif T == 2
        "[<0a>] ? f+0x1/0x2 [m]\n"
#elif T == 3
        "Traceback (most recent call last):\n  File \"a\", line 1, in f\n    x\nE: m\n"
#elif T == 4
        "Exception in thread \"m\" a.B: c\n\tat d.e(F.java:3)\n"
#elif T == 5
        "a:1:in `f': x (E)\n\tfrom b:2:in `g'\n"
#else
        "E: m\n    at f (a.js:1:2)\n"
#endif
    };
    char *s = sx_choice(2, "free") ? sx_str_upto(N, "t") : sx_disturb(tx[0], 1), *m1 = NULL, *m2 = NULL; ST *a = (ST *)sr_stacktrace_parse(RT, s, &m1), *b; 
#if T == 0
    b = sr_core_stacktrace_from_json_text(s, &m2);
#else
    const char *q = s; struct sr_location loc; sr_location_init(&loc); b = SF(parse)(&q, &loc); if (!b) m2 = sr_location_to_string(&loc);
#endif
    sx_assert(!a == !b, "accepted by one only");
    if (!a) { sx_assert(m1 && same(m1, m2), "another message"); if (T) sx_obs_s("msg", m1); sx_cover("refused"); } else { sx_assert(st_same(a, b), "another stacktrace"); sx_cover("parsed"); }
    g_free(m1); g_free(m2); free(s); sr_stacktrace_free(GS(a)); SF(free)(b);
#else
    int n = sx_choice(NFR + 1, "frames"); ST *s = sym_st(1, n, 0, 0, "k"); sym_st_attr(s, L); 
    /* one number arbitrary (small: printing numbers is not what is checked here), the others constant */
    FR *f = frame_at(MT ? (TH *)threads_of(s) : (TH *)s, 0); int k = sx_choice(NF, "field"); for (; f; f = f->next) for (int i = 0; i < NF; i++) if (fds[i].k != F_STR) { if (i == k && !f->next) { uint8_t v = sx_u8("value"); sx_assume(v <= (fds[i].k == F_BOOL ? 1 : 11)); seti(f, i, v); } else seti(f, i, fds[i].k == F_BOOL ? 0 : 20 + i); }
#if T == 0
    s->signal = 6 + sx_choice(2, "signo"); s->threads->id = sx_choice(2, "tid") ? 7 : 0;
#elif T == 2
    int bit = sx_choice(NTAINT + 1, "bit"); for (int i = 0; i < NTAINT; i++) *taintp(s, i) = i == bit;
#endif

    char *a = sr_stacktrace_to_json(GS(s)), *m1 = NULL, *m2 = NULL;
#if T == 1
    sx_assert(!a, "JSON of a gdb stacktrace"); struct sr_stacktrace *r = sr_stacktrace_from_json_text(RT, "{}", &m1); sx_assert(!r, "a gdb stacktrace from JSON"); sx_cover("json");
#else
    char *b = SF(to_json)(s); sx_assert(same(a, b), "another JSON text"); sx_assert(a != NULL, "no JSON");
    json_object *j = json_tokener_parse(b); sx_assert(j != NULL, "not JSON"); if (!j) sx_stop();
    ST *x = (ST *)sr_stacktrace_from_json(RT, j, &m1), *y = SF(from_json)(j, &m2), *z = (ST *)sr_stacktrace_from_json_text(RT, b, &m2);
    sx_assert(!x == !y && !x == !z, "read by one only"); if (x && y && z) sx_assert(st_same(x, y) && st_same(x, z), "another stacktrace"); if (!x) sx_assert(same(m1, m2), "another message"); sx_cover("json");
    json_object_put(j); sr_stacktrace_free(GS(x)); SF(free)(y); SF(free)(z); g_free(b);
#endif
    g_free(a); g_free(m1); if (m2 != m1) g_free(m2); SF(free)(s);
#endif
    sx_assert(sx_live_heap() == live, "memory is lost");
}
