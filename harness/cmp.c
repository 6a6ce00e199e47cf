/* C10: frame comparison. MODE 0 pairs, 1 triples, 2 distance comparison. */
#include "types.h"
static const char *K[2] = { "k", NULL };
void harness(void)
{
#if MODE == 0
    int ns = nstr(), a = sx_choice(ns, "str1"), b = sx_choice(ns, "str2"); if (b < a) { sx_stop(); }
    unsigned deep = 1u << strno(a) | 1u << strno(b); const char *k = K[sx_choice(2, "rest")];
    FR *x = sym_frame(deep, N, k), *y = sym_frame(deep, N, k);
    struct snap *sx = snap_frame(x), *sy = snap_frame(y);
    int r = frcmp(x, y), q = frcmp(y, x);
    sx_assert(sgn(r) == -sgn(q), "frame comparison is not antisymmetric");
    sx_assert((r == 0) == cmp_same(x, y), "frame comparison is zero exactly when the compared fields are equal");
    sx_assert(snap_same(sx, x) && snap_same(sy, y), "frame comparison changed a frame");
    sx_assert(frcmp(x, x) == 0, "a frame differs from itself");
    sx_obs_i("r", sgn(r));
    sx_cover(r ? "different" : "equal");
    snap_free(sx); snap_free(sy); FF(free)(x); FF(free)(y);
#elif MODE == 1
    unsigned deep = 1u << strno(sx_choice(nstr(), "str"));
    FR *x = sym_frame(deep, N, "k"), *y = sym_frame(deep, N, "k"), *z = sym_frame(deep, N, "k");
    int p = frcmp(x, y), q = frcmp(y, z), r = frcmp(x, z);
    if (p <= 0 && q <= 0) { sx_assert(r <= 0, "frame comparison is not transitive"); if (p < 0 || q < 0) sx_assert(r < 0, "frame comparison is not strictly transitive"); sx_cover("chain"); }
    sx_obs_i("p", sgn(p)); sx_obs_i("q", sgn(q)); sx_obs_i("r", sgn(r));
    FF(free)(x); FF(free)(y); FF(free)(z);
#else
    unsigned deep = 1u << strno(sx_choice(nstr(), "str")); int m = sx_choice(2, "rest");
    FR *x = sym_frame(deep, N, K[m]), *y = sym_frame(deep, N, K[m]);
    struct snap *sx = snap_frame(x), *sy = snap_frame(y);
    int r = FF(cmp_distance)(x, y), q = FF(cmp_distance)(y, x);
    sx_assert((r == 0) == (q == 0), "frames match in one order only");
    sx_assert(snap_same(sx, x) && snap_same(sy, y), "distance comparison changed a frame");
#if T == 1
    bool unk = same(x->function_name, "??") && same(y->function_name, "??");
    bool eq = !unk && same(x->function_name, y->function_name) && (!x->library_name || !y->library_name || same(x->library_name, y->library_name));
#elif T == 0
    bool eq = x->function_name && y->function_name ? same(x->function_name, y->function_name) :
        (same(x->build_id, y->build_id) & (x->build_id_offset == y->build_id_offset)) || (x->fingerprint && y->fingerprint && same(x->fingerprint, y->fingerprint));
#elif T == 2
    bool eq = same(x->function_name, y->function_name);
#elif T == 3
    bool eq = same(x->function_name, y->function_name) && same(x->file_name, y->file_name) && x->special_function == y->special_function && x->special_file == y->special_file;
#elif T == 4
    bool eq = same(x->name, y->name);
#elif T == 5
    bool eq = same(x->function_name, y->function_name) && same(x->file_name, y->file_name) && x->special_function == y->special_function;
#else
    bool eq = same(x->function_name, y->function_name) && same(x->file_name, y->file_name) && x->file_line == y->file_line;
#endif
    sx_assert((r == 0) == eq, "frames match for distances exactly when their identifying fields do");
    sx_obs_i("r", r == 0);
    sx_cover(r ? "different" : "equal");
    snap_free(sx); snap_free(sy); FF(free)(x); FF(free)(y);
#endif
}
