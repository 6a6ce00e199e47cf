/* Distance matrices and parts (C19: MODE 0 cells, 1 split, 2 compute and merge, 3 refusals, 7 duplicate), clustering (C20: 4 hierarchy, 5 any matrix, 6 cut). */
#include "types.h"
#include "distance.h"
#include "cluster.h"
#ifndef KB
#define KB 4
#endif
#ifndef MINN
#define MINN 2
#endif
static float sym_float(const char *name) { uint32_t u = sx_u32(name); float f; memcpy(&f, &u, 4); sx_assume(f == f); return f; }
static uint32_t bits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static int rows(int m, int n) { return m >= n ? n - 1 : m; }
static struct sr_thread *thr(const char *names)
{
    struct sr_koops_stacktrace *t = sr_koops_stacktrace_new(); struct sr_koops_frame **p = &t->frames;
    for (; *names; names++) { struct sr_koops_frame *f = sr_koops_frame_new(); f->function_name = g_strndup(names, 1); *p = f; p = &f->next; }
    return (struct sr_thread *)t;
}
#if MODE == 4
/* average linkage on exact small numbers: sums of pair distances between groups */
static int grp[8], n_;
#endif
void harness(void)
{
    uint64_t live = sx_live_heap();
#if MODE <= 3 || MODE == 7
    int n = MINN + sx_choice(N - MINN + 1, "n"), m0 = 1 + sx_choice(n, "m"), m = rows(m0, n);
#endif
#if MODE == 0
    struct sr_distances *d = sr_distances_new(m0, n); sx_assert(d->m == m && d->n == n, "the matrix has other dimensions than asked for");
    uint8_t i = sx_u8("i"), j = sx_u8("j"), k = sx_u8("k"), l = sx_u8("l");
    sx_assume(i < n); sx_assume(j < n); sx_assume(k < n); sx_assume(l < n); sx_assume((i < m) | (j < m) | (i == j)); sx_assume((k < m) | (l < m) | (k == l));
    float v = sym_float("v"), w = sym_float("w");
    sr_distances_set_distance(d, k, l, w); sr_distances_set_distance(d, i, j, v);
    float a = sr_distances_get_distance(d, i, j), b = sr_distances_get_distance(d, j, i), c = sr_distances_get_distance(d, k, l), e = sr_distances_get_distance(d, l, k);
    sx_assert(bits(a) == bits(i == j ? 0.0f : v) && bits(b) == bits(a), "a cell does not hold what was stored");
    bool one = (i == k && j == l) || (i == l && j == k);
    if (one) sx_cover("same"); else { sx_assert(bits(c) == bits(k == l ? 0.0f : w) && bits(e) == bits(c), "two different pairs share a cell"); sx_cover("apart"); }
    sr_distances_free(d);
#elif MODE == 7
    struct sr_distances *d = sr_distances_new(m0, n); float v[64]; int c = 0;
    for (int i = 0; i < m; i++) for (int j = i + 1; j < n; j++) sr_distances_set_distance(d, i, j, (float)(1 + c++));
    struct sr_distances *e = sr_distances_dup(d); sx_assert(e->m == d->m && e->n == d->n, "a duplicate has other dimensions"); c = 0;
    for (int i = 0; i < m; i++) for (int j = i + 1; j < n; j++) sr_distances_set_distance(d, i, j, -1.0f);
    for (int i = 0; i < m; i++) for (int j = i + 1; j < n; j++) sx_assert(sr_distances_get_distance(e, i, j) == (float)(1 + c++), "a duplicate differs from its original or shares memory with it");
    sr_distances_free(d); sr_distances_free(e); sx_cover("dup");
#elif MODE == 1
    uint32_t np = sx_u32("nparts"); sx_assume(np >= 1);
    int total = m * (m - 1) / 2 + m * (n - m); struct sr_distances_part *p = sr_distances_part_create(m0, n, SR_DISTANCE_JACCARD, np);
    int i = 0, j = 1, cnt = 0, seen = 0, lo = 1 << 20, hi = 0;
    for (struct sr_distances_part *q = p; q; q = q->next) {
        sx_assert(q->m == m && q->n == n && q->dist_type == SR_DISTANCE_JACCARD && !q->distances, "a part has other dimensions or type than asked for");
        sx_assert(q->len > 0, "a part is empty"); sx_assert(q->m_begin == i && q->n_begin == j, "a part does not start where the one before it ended");
        int len = (int)sx_concretize(q->len); if (len < lo) lo = len; if (len > hi) hi = len;
        for (int k = 0; k < len && i < m; k++) { seen++; if (++j >= n) { i++; j = i + 1; } }
        cnt++;
    }
    sx_assert(seen == total && i == m, "the parts do not cover every pair exactly once");
    sx_assert((uint32_t)cnt == (np < (uint32_t)total ? np : (uint32_t)total), "another number of parts than asked for"); sx_assert(hi - lo <= 1, "parts differ in size by more than one");
    sr_distances_part_free(p, true); sx_cover(cnt > 1 ? "parts" : "one");
#elif MODE == 2 || MODE == 3
    static const char *const txt[] = { "abc", "ab", "", "axc", "abc", "d", "cba" };
    struct sr_thread *t[8]; for (int k = 0; k < n; k++) t[k] = thr(txt[k]);
    int dt = MODE == 2 ? sx_choice(SR_DISTANCE_NUM, "type") : SR_DISTANCE_LEVENSHTEIN, np = 1 + sx_choice(MODE == 2 ? N * N / 2 : 3, "nparts");
    struct sr_distances_part *p = sr_distances_part_create(m0, n, dt, np);
#if MODE == 2
    bool rev = sx_choice(2, "reverse");
    if (rev) { struct sr_distances_part *r = NULL; while (p) { struct sr_distances_part *nx = p->next; p->next = r; r = p; p = nx; } p = r; }
    for (struct sr_distances_part *q = p; q; q = q->next) sr_distances_part_compute(q, t);
    struct sr_distances *a = sr_distances_part_merge(p), *b = sr_threads_compare(t, m, n, dt);
    sx_assert(a != NULL, "computed parts are not merged"); if (!a) sx_stop();
    sx_assert(a->m == m && a->n == n && b->m == m && b->n == n, "the merged matrix has other dimensions");
    for (int i = 0; i < m; i++) for (int j = i + 1; j < n; j++) { float x = sr_distances_get_distance(a, i, j), y = sr_distances_get_distance(b, i, j); sx_assert(x == y, "merging the parts gives another matrix than computing it at once"); sx_assert(y == sr_distance(dt, t[i], t[j]), "the matrix does not hold the distance of the two threads"); }
    sr_distances_free(a); sr_distances_free(b); sx_cover("merged");
#else
    for (struct sr_distances_part *q = p; q; q = q->next) sr_distances_part_compute(q, t);
    int cnt = 0; for (struct sr_distances_part *q = p; q; q = q->next) cnt++;
    int bad = sx_choice(cnt, "bad"), how = sx_choice(5, "how"); struct sr_distances_part *q = p; for (int k = 0; k < bad; k++) q = q->next;
    if (how == 0) { g_free(q->distances); q->distances = NULL; }
    else if (how == 1) { sx_assume(cnt > 1); q->m++; } else if (how == 2) { sx_assume(cnt > 1); q->n++; }
    else if (how == 3) { sx_assume(cnt > 1); g_free(q->distances); struct sr_thread *o = thr("abcdef"), *w = t[0]; t[0] = o; sr_distances_part_compute(q, t); t[0] = w; sr_koops_stacktrace_free((void *)o); }
    else { q->len += 100; q->distances = g_realloc(q->distances, q->len * sizeof(float)); for (size_t k = q->len - 100; k < q->len; k++) q->distances[k] = 0; }
    struct sr_distances *a = sr_distances_part_merge(p); sx_assert(a == NULL, "parts that do not belong together are merged"); sr_distances_free(a);
    sx_assert(sr_distances_part_merge(NULL) == NULL, "nothing is merged into something"); sx_cover("refused");
#endif
    sr_distances_part_free(p, true); for (int k = 0; k < n; k++) sr_koops_stacktrace_free((void *)t[k]);
#elif MODE == 4 || MODE == 5
#if MODE == 4
    int n = N, m = n - 1;
#else
    int n = N, m = 1 + sx_choice(n - 1, "m");
#endif
#ifdef GROUPS
    /* objects in three tight groups of any sizes in any order; the distances between the groups are chosen (case by case: solvers do not get through the divisions) */
    int gr[8]; float gd[3]; for (int i = 0; i < n; i++) gr[i] = i ? sx_choice(3, "group") : 0; for (int i = 0; i < 3; i++) gd[i] = 0.5f + 0.125f * sx_choice(1 << KB, "level");
#endif
    struct sr_distances *d = sr_distances_new(m, n); float v[8][8];
    for (int i = 0; i < m; i++) for (int j = i + 1; j < n; j++) {
#ifdef GROUPS
        float f = 0.125f; if (gr[i] != gr[j]) f = gd[gr[i] + gr[j] - 1];
#elif MODE == 4
        uint32_t u = 0x3f000000u | (sx_u32("d") & ((1u << KB) - 1)) << (23 - KB); float f; memcpy(&f, &u, 4);      /* [0.5, 1) in steps of 2^-(KB+1) */
#else
        float f = sym_float("d"); sx_assume(f >= 0.0f && f <= 1.0f);
#endif
        v[i][j] = v[j][i] = f; sr_distances_set_distance(d, i, j, f);
    }
    struct sr_dendrogram *g = sr_distances_cluster_objects(d); int pos[8], seen = 0;
    sx_assert(g->size == n, "the dendrogram has another size");
    for (int i = 0; i < n; i++) { sx_assert(g->order[i] >= 0 && g->order[i] < n, "an object that does not exist"); seen |= 1 << g->order[i]; pos[g->order[i]] = i; }
    sx_assert(seen == (1 << n) - 1, "an object is lost or listed twice");
    for (int i = 0; i + 1 < n; i++) sx_assert(g->merge_levels[i] >= 0.0f && g->merge_levels[i] <= 1.0f, "a merge level is outside the range of the distances");
    for (int i = 0; i < m; i++) for (int j = i + 1; j < n; j++) sx_assert(bits(sr_distances_get_distance(d, i, j)) == bits(v[i][j]), "clustering changed the distances");
    sx_cover("hierarchy");
#if MODE == 4
    /* every join: take the lowest level between neighbouring groups; it is the mean distance of the two groups, and no two groups are closer */
    int grp[8], left = n; for (int i = 0; i < n; i++) grp[i] = i;        /* group of the object at each place */
    bool joined[8] = { 0 };
    for (int step = 0; step + 1 < n; step++) {
        int at = -1; for (int i = 0; i + 1 < n; i++) if (!joined[i] && (at < 0 || g->merge_levels[i] < g->merge_levels[at])) at = i;
        float lv = g->merge_levels[at];
        for (int a = 0; a < n; a++) if (grp[a] == a) for (int b = a + 1; b < n; b++) if (grp[b] == b) {
            float sum = 0; int cnt = 0; for (int x = 0; x < n; x++) if (grp[x] == a) for (int y = 0; y < n; y++) if (grp[y] == b) { float w = v[g->order[x]][g->order[y]]; sum = cnt++ ? sum + w : w; }
            float mean = sum / cnt;
            if (a == grp[at] && b == grp[at + 1]) sx_assert(bits(lv) == bits(mean) || (lv > mean - 1e-4f && lv < mean + 1e-4f), "a merge level is not the mean distance of the groups it joins");
            else if (!(mean >= lv)) sx_assert(mean > lv - 1e-4f, "groups are joined although others are closer");
        }
        joined[at] = true; int ga = grp[at], gb_ = grp[at + 1]; for (int x = 0; x < n; x++) if (grp[x] == gb_) grp[x] = ga;
    }
    sx_cover("average");
#endif
    sr_dendrogram_free(g); sr_distances_free(d);
#else
    int n = 2 + sx_choice(N - 1, "n"); struct sr_dendrogram *g = sr_dendrogram_new(n);
    for (int i = 0; i < n; i++) g->order[i] = sx_u8("obj"); for (int i = 0; i + 1 < n; i++) g->merge_levels[i] = sym_float("level");
    float level = sym_float("cut"); int min = sx_choice(n + 2, "min"); struct sr_cluster *c = sr_dendrogram_cut(g, level, min);
    /* expected groups: maximal runs joined at or below the level; any order of the clusters */
    int first = 0, want = 0, got = 0; for (struct sr_cluster *x = c; x; x = x->next) got++;
    for (int i = 0; i < n; i++) {
        if (i + 1 < n && g->merge_levels[i] <= level) continue;
        int len = i - first + 1;
        if (len >= min) {
            want++; int hits = 0;
            for (struct sr_cluster *x = c; x; x = x->next) { if (x->size != len) continue; bool eq = true; for (int k = 0; k < len; k++) eq &= x->objects[k] == g->order[first + k]; hits += eq; }
            sx_assert(hits >= 1, "a group joined below the level is not among the clusters");
        }
        first = i + 1;
    }
    sx_assert(want == got, "another number of clusters than groups of the asked size"); sx_cover(got ? "cut" : "none");
    while (c) { struct sr_cluster *nx = c->next; sr_cluster_free(c); c = nx; } sr_dendrogram_free(g);
#endif
    sx_assert(sx_live_heap() == live, "memory is lost");
}
