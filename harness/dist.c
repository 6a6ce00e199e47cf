/* Thread distances: C17 (MODE 0 range, self, order, unchanged), C18 (MODE 1 edit distances, 2 Jaccard, 3 other types). */
#include "types.h"
#include "distance.h"
#ifndef NFR
#define NFR 3
#endif
#define KN (T == 1 ? 2 : 1)
#if T == 4
#define NAME(f) (f)->name
#else
#define NAME(f) (f)->function_name
#endif
static struct sr_thread *thr(int n, FR **fr)
{
#if MT
    TH *t = TF(new)();
#else
    TH *t = SF(new)();
#endif
    FR **p = &t->frames;
    for (int i = 0; i < n; i++) { FR *f = FF(new)(); char *s = sx_str(KN, "name"); NAME(f) = g_strdup(s); free(s); fr[i] = f; *p = f; p = &f->next; }
    return (struct sr_thread *)t;
}
static bool eq(FR *a, FR *b) { return strcmp(NAME(a), NAME(b)) == 0 && !(T == 1 && strcmp(NAME(a), "??") == 0); }
static void done(struct sr_thread *t)
{
#if MT
    TF(free)((TH *)t);
#else
    SF(free)((ST *)t);
#endif
}
static int imin(int a, int b) { return (int)sx_ite(a < b, a, b); }
void harness(void)
{
    uint64_t live = sx_live_heap(); FR *fa[8], *fb[8];
#if MODE == 3
    struct sr_thread *ts[3] = { (struct sr_thread *)sr_core_thread_new(), (struct sr_thread *)sr_gdb_thread_new(), (struct sr_thread *)sr_java_thread_new() };
    int i = sx_choice(3, "i"), j = sx_choice(3, "j"), d = sx_choice(SR_DISTANCE_NUM, "type");
    ((struct sr_gdb_thread *)ts[1])->frames = sr_gdb_frame_new(); ((struct sr_core_thread *)ts[0])->frames = sr_core_frame_new();
    float x = sr_distance(d, ts[i], ts[j]);
    if (i != j) { sx_assert(x == 1.0f, "threads of different types are not at distance one"); sx_cover("other"); }
    sr_core_thread_free((void *)ts[0]); sr_gdb_thread_free((void *)ts[1]); sr_java_thread_free((void *)ts[2]);
#else
    int n = sx_choice(NFR + 1, "n"), m = sx_choice(NFR + 1, "m");
    if (n + m > MAXSUM) sx_stop();
    struct sr_thread *a = thr(n, fa), *b = thr(m, fb); int big = n > m ? n : m;
#if MODE == 1
    int tr = sx_choice(2, "transpositions"); float d = sr_distance(tr ? SR_DISTANCE_DAMERAU_LEVENSHTEIN : SR_DISTANCE_LEVENSHTEIN, a, b);
    /* d[i][j]: cheapest way from the first i frames of a to the first j of b */
    int D[9][9];
    for (int i = 0; i <= n; i++) for (int j = 0; j <= m; j++) {
        if (!i || !j) { D[i][j] = i + j; continue; }
        int v = imin(imin(D[i - 1][j] + 1, D[i][j - 1] + 1), D[i - 1][j - 1] + !eq(fa[i - 1], fb[j - 1]));
        if (tr && i > 1 && j > 1 && eq(fa[i - 1], fb[j - 2]) && eq(fa[i - 2], fb[j - 1])) v = imin(v, D[i - 2][j - 2] + 1);
        D[i][j] = v;
    }
    if (!big) sx_assert(d == 0.0f, "two empty threads are not at distance zero");
    else { float want = (float)D[n][m] / big; sx_assert(d > want - 1e-6f && d < want + 1e-6f, "the edit distance is not the least number of edits"); sx_cover(tr ? "transpositions" : "edits"); }
#elif MODE == 2
    float d = sr_distance(SR_DISTANCE_JACCARD, a, b);
    int un = 0, in = 0; FR *all[16]; int na = 0;
    for (int i = 0; i < n; i++) all[na++] = fa[i]; for (int i = 0; i < m; i++) all[na++] = fb[i];
    for (int k = 0; k < na; k++) {
        bool seen = false, ina = false, inb = false;
        for (int i = 0; i < k; i++) seen |= strcmp(NAME(all[i]), NAME(all[k])) == 0;
        for (int i = 0; i < n; i++) ina |= strcmp(NAME(fa[i]), NAME(all[k])) == 0;
        for (int i = 0; i < m; i++) inb |= strcmp(NAME(fb[i]), NAME(all[k])) == 0;
        if (T == 1) sx_assume(strcmp(NAME(all[k]), "??") != 0);
        un += !seen; in += !seen && ina && inb;
    }
    float want = un ? 1.0f - (float)in / un : 0.0f;
    sx_assert(d > want - 1e-6f && d < want + 1e-6f, "the Jaccard distance is not one minus shared over all distinct frames"); sx_cover("jaccard");
#else
    int dt = sx_choice(SR_DISTANCE_NUM, "type");
    if (T == 1 && dt != SR_DISTANCE_JARO_WINKLER) { for (int i = 0; i < n; i++) sx_assume(strcmp(NAME(fa[i]), "??") != 0); for (int i = 0; i < m; i++) sx_assume(strcmp(NAME(fb[i]), "??") != 0); }
    char *na[8], *nb[8]; for (int i = 0; i < n; i++) na[i] = g_strdup(NAME(fa[i])); for (int i = 0; i < m; i++) nb[i] = g_strdup(NAME(fb[i]));
    float d = sr_distance(dt, a, b);
    sx_assert(d >= 0.0f && d <= 1.0f, "a distance is outside zero and one");
    if (dt != SR_DISTANCE_JARO_WINKLER) {
        float e = sr_distance(dt, b, a), z = sr_distance(dt, a, a);
        sx_assert(d == e, "the distance depends on the order of the threads"); sx_assert(z == 0.0f, "a thread is not at distance zero from itself");
        bool same_ = n == m; for (int i = 0; i < n && same_; i++) same_ = eq(fa[i], fb[i]);
        if (same_) { sx_assert(d == 0.0f, "equal threads are not at distance zero"); if (n) sx_cover("equal"); }
    }
    int k = 0; for (struct sr_frame *f = sr_thread_frames(a); f; f = sr_frame_next(f), k++) sx_assert(k < n && f == (struct sr_frame *)fa[k] && same(NAME(fa[k]), na[k]), "the first thread was changed");
    sx_assert(k == n, "the first thread was changed"); k = 0; for (struct sr_frame *f = sr_thread_frames(b); f; f = sr_frame_next(f), k++) sx_assert(k < m && f == (struct sr_frame *)fb[k] && same(NAME(fb[k]), nb[k]), "the second thread was changed");
    sx_assert(k == m, "the second thread was changed");
    for (int i = 0; i < n; i++) g_free(na[i]); for (int i = 0; i < m; i++) g_free(nb[i]);
    sx_cover("pair");
#endif
    done(a); done(b);
#endif
    sx_assert(sx_live_heap() == live, "memory is lost");
}
