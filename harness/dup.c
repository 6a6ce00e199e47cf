/* C12: duplicates of frames (MODE 0), threads (1), stacktraces (2), libraries (3). */
#include "types.h"
void harness(void)
{
    unsigned deep = 1u << strno(sx_choice(nstr(), "str")); const char *k = sx_choice(2, "rest") ? NULL : "k";
    uint64_t live = sx_live_heap();
#if MODE == 0
    int n = 1 + sx_choice(NFR, "frames"); bool sib = sx_choice(2, "siblings"), first = sx_choice(2, "order");
    FR *a = NULL, **p = &a; for (int i = 0; i < n; i++) { *p = sym_frame(i == 0 ? deep : 0, 2, k); p = &(*p)->next; }
    FR *b = FF(dup)(a, sib);
    sx_assert(b && b != a, "the duplicate is the original");
    FR *x = a, *y = b; int m = 0;
    for (; x && y; x = x->next, y = y->next, m++) {
        sx_assert(x != y && x->type == y->type && frame_same(x, y), "a duplicated frame differs from the original");
        for (int i = 0; i < NF; i++) if (fds[i].k == F_STR && *strp(x, i)) sx_assert(*strp(x, i) != *strp(y, i), "a duplicated frame shares a string with the original");
        sx_assert(frcmp(x, y) == 0, "a duplicated frame does not compare equal");
    }
    sx_assert(m == (sib ? n : 1) && !y, "the duplicate has the wrong number of siblings");
    FR *third = FF(dup)(b, true); scribble_frames(first ? a : b); sx_assert(frames_same(third, first ? b : third) || !first, "changing the original changed the duplicate");
    if (!first) { FR *q = a, *r = third; for (int i = 0; i < m; i++, q = q->next, r = r->next) sx_assert(frame_same(q, r), "changing the duplicate changed the original"); }
    free_frames(first ? a : b); sx_assert(!first || frames_same(third, b), "freeing the original changed the duplicate");
    free_frames(first ? b : a); free_frames(third);
    sx_obs_i("n", m); sx_cover(sib ? "siblings" : "single");
#elif MODE == 1
    int nt = 1 + sx_choice(2, "threads"), nf = sx_choice(NFR + 1, "frames"); bool sib = sx_choice(2, "siblings"), first = sx_choice(2, "order");
#if MT
    TH *a = NULL, **p = &a; for (int i = 0; i < nt; i++) { *p = sym_thread(nf, i == 0 ? deep : 0, 1, k); sym_attr(*p, 1); p = &(*p)->next; }
    TH *b = TF(dup)(a, sib); TH *x = a, *y = b; int m = 0;
    for (; x && y; x = x->next, y = y->next, m++) { sx_assert(x != y && thread_same(x, y), "a duplicated thread differs from the original"); sx_assert(TF(cmp)(x, y) == 0, "a duplicated thread does not compare equal"); }
    sx_assert(m == (sib ? nt : 1) && !y, "the duplicate has the wrong number of threads");
    TH *third = TF(dup)(b, true);
    scribble_frames((first ? a : b)->frames);
    sx_assert(thread_same(first ? b : a, third), "changing one copy changed the other");
    for (TH *t = first ? a : b; t;) { TH *q = t->next; TF(free)(t); t = q; }
    sx_assert(thread_same(first ? b : a, third), "freeing one copy changed the other");
    for (TH *t = first ? b : a; t;) { TH *q = t->next; TF(free)(t); t = q; }
    while (third) { TH *q = third->next; TF(free)(third); third = q; }
    sx_obs_i("n", m);
#endif
    sx_cover("thread");
#elif MODE == 2
    int nt = sx_choice(3, "threads"), nf = sx_choice(NFR + 1, "frames"); bool first = sx_choice(2, "order");
    ST *a = sym_st(nt, nf, 0, 1, k); sym_st_attr(a, 1);
    ST *b = SF(dup)(a);
    sx_assert(b && b != a && st_same(a, b), "a duplicated stacktrace differs from the original");
#if T == 0
    sx_assert(!b->crash_thread || thread_index(b, b->crash_thread) >= 0, "the duplicate's crash thread is not one of its threads");
#endif
    ST *third = SF(dup)(b);
#if MT
    if (a->threads) scribble_frames((first ? a : b)->threads->frames);
#else
    scribble_frames((first ? a : b)->frames);
#endif
    sx_assert(st_same(first ? b : a, third), "changing one copy changed the other");
    SF(free)(first ? a : b);
    sx_assert(st_same(first ? b : a, third), "freeing one copy changed the other");
    SF(free)(first ? b : a); SF(free)(third);
    sx_cover("stacktrace");
#else
    int n = 1 + sx_choice(3, "libs"); bool sib = sx_choice(2, "siblings"), first = sx_choice(2, "order");
    struct sr_gdb_sharedlib *a = NULL;
    for (int i = 0; i < n; i++) { struct sr_gdb_sharedlib *l = sr_gdb_sharedlib_new(); l->from = sx_u64("from"); l->to = sx_u64("to"); l->symbols = sx_u32("symbols"); l->soname = opt_str(1, "soname"); a = sr_gdb_sharedlib_append(a, l); }
    sx_assert(sr_gdb_sharedlib_count(a) == n, "appending libraries loses or invents some");
    struct sr_gdb_sharedlib *b = sr_gdb_sharedlib_dup(a, sib), *x = a, *y = b; int m = 0;
    for (; x && y; x = x->next, y = y->next, m++) sx_assert(x != y && (x->from == y->from) & (x->to == y->to) & (x->symbols == y->symbols) && same(x->soname, y->soname) && (!x->soname || x->soname != y->soname), "a duplicated library differs from the original or shares its name");
    sx_assert(m == (sib ? n : 1) && !y, "the duplicate has the wrong number of libraries");
    x = first ? a : b; while (x) { y = x->next; sr_gdb_sharedlib_free(x); x = y; }
    x = first ? b : a; while (x) { y = x->next; sr_gdb_sharedlib_free(x); x = y; }
    sx_obs_i("n", m); sx_cover("libs");
#endif
    sx_assert(sx_live_heap() == live, "memory is lost after freeing both copies");
}
