/* C11: comparison of threads (0 pairs, 1 triples), Java stacktraces (2), packages (3 pairs, 4 triples), verification records (5). */
#include "types.h"
#include "rpm.h"
#include "thread.h"
#if MT
#define TCMP(a, b) TF(cmp)(a, b)
#define TFREE(a) TF(free)(a)
#else                           /* one thread: the stacktrace itself */
#define TCMP(a, b) sr_thread_cmp((struct sr_thread *)(a), (struct sr_thread *)(b))
#define TFREE(a) SF(free)(a)
#endif
#if MODE <= 1 || MODE == 2
static bool attr_same(TH *a, TH *b)
{
#if T == 1
    return a->number == b->number;
#elif T == 4
    return same(a->name, b->name);
#else
    return true;
#endif
}
static bool th_same(TH *a, TH *b)
{
    if (!attr_same(a, b)) return false;
    FR *f = a->frames, *g = b->frames;
    for (; f && g; f = f->next, g = g->next) if (!cmp_same(f, g)) return false;
    return !f && !g;
}
static TH *mk(unsigned deep) { int n = sx_choice(NFR + 1, "frames"); TH *t = sym_thread(n, deep, 1, "k"); 
#if MT
    sym_attr(t, 1);
#endif
    return t; }
#endif
static struct sr_rpm_consistency *mkc(int deep)
{
    struct sr_rpm_consistency *c = sr_rpm_consistency_new(); c->path = deep ? opt_str(1, "path") : g_strdup("p");
    bool *b[] = { &c->owner_changed, &c->group_changed, &c->mode_changed, &c->md5_mismatch, &c->size_changed, &c->major_number_changed, &c->minor_number_changed, &c->symlink_changed, &c->modification_time_changed };
    for (int i = 0; i < 9; i++) { uint8_t v = sx_u8("flag"); sx_assume(v <= 1); *b[i] = v; }
    return c;
}
static bool same_c(struct sr_rpm_consistency *a, struct sr_rpm_consistency *b)
{
    return same(a->path, b->path) & (a->owner_changed == b->owner_changed) & (a->group_changed == b->group_changed) & (a->mode_changed == b->mode_changed) & (a->md5_mismatch == b->md5_mismatch) & (a->size_changed == b->size_changed) & (a->major_number_changed == b->major_number_changed) & (a->minor_number_changed == b->minor_number_changed) & (a->symlink_changed == b->symlink_changed) & (a->modification_time_changed == b->modification_time_changed);
}
static struct sr_rpm_package *mkp(int deep)
{
    struct sr_rpm_package *p = sr_rpm_package_new(); char **s[] = { &p->name, &p->version, &p->release, &p->architecture };
    for (int i = 0; i < 4; i++) *s[i] = i == deep ? opt_str(1, "pkgstr") : g_strdup("k");
    p->epoch = sx_u32("epoch"); p->install_time = sx_u64("time");
    if (deep == 4) for (int n = sx_choice(3, "records"); n; n--) p->consistency = sr_rpm_consistency_append(p->consistency, mkc(n == 1));
    return p;
}
static bool same_nvr(struct sr_rpm_package *a, struct sr_rpm_package *b) { return same(a->name, b->name) && same(a->version, b->version) && same(a->release, b->release); }
static bool same_nevra(struct sr_rpm_package *a, struct sr_rpm_package *b) { return same_nvr(a, b) && a->epoch == b->epoch && same(a->architecture, b->architecture); }
static bool same_p(struct sr_rpm_package *a, struct sr_rpm_package *b)
{
    struct sr_rpm_consistency *c = a->consistency, *d = b->consistency;
    if (!same_nevra(a, b) || a->install_time != b->install_time) return false;
    for (; c && d; c = c->next, d = d->next) if (!same_c(c, d)) return false;
    return !c && !d;
}
void harness(void)
{
#if MODE == 0
    unsigned deep = 1u << strno(sx_choice(nstr(), "str"));
    TH *x = mk(deep), *y = mk(deep);
    int r = TCMP(x, y), q = TCMP(y, x);
    sx_assert(sgn(r) == -sgn(q), "thread comparison is not antisymmetric");
    sx_assert((r == 0) == th_same(x, y), "threads compare equal exactly when their attributes and all frames do");
    sx_assert(TCMP(x, x) == 0, "a thread differs from itself");
    sx_obs_i("r", sgn(r)); sx_cover(r ? "different" : "equal");
    TFREE(x); TFREE(y);
#elif MODE == 1
    TH *x = mk(0), *y = mk(0), *z = mk(0);
    int p = TCMP(x, y), q = TCMP(y, z), r = TCMP(x, z);
    if (p <= 0 && q <= 0) { sx_assert(r <= 0, "thread comparison is not transitive"); if (p < 0 || q < 0) sx_assert(r < 0, "thread comparison is not strictly transitive"); sx_cover("chain"); }
    sx_obs_i("p", sgn(p)); sx_obs_i("q", sgn(q)); sx_obs_i("r", sgn(r));
    TFREE(x); TFREE(y); TFREE(z);
#elif MODE == 2
    struct sr_java_stacktrace *s[2]; TH *t[2][2]; int n[2];
    for (int i = 0; i < 2; i++) { s[i] = sr_java_stacktrace_new(); n[i] = sx_choice(3, "threads"); for (int j = 0; j < n[i]; j++) { t[i][j] = mk(0); s[i]->threads = sr_java_thread_append(s[i]->threads, t[i][j]); } }
    int r = sr_java_stacktrace_cmp(s[0], s[1]), q = sr_java_stacktrace_cmp(s[1], s[0]);
    sx_assert(sgn(r) == -sgn(q), "stacktrace comparison is not antisymmetric");
    bool eq = n[0] == n[1]; for (int j = 0; eq && j < n[0]; j++) eq = th_same(t[0][j], t[1][j]);
    sx_assert((r == 0) == eq, "stacktraces compare equal exactly when all threads do");
    sx_obs_i("r", sgn(r)); sx_cover(r ? "different" : "equal");
    sr_java_stacktrace_free(s[0]); sr_java_stacktrace_free(s[1]);
#elif MODE == 3
    int deep = sx_choice(5, "str"); struct sr_rpm_package *x = mkp(deep), *y = mkp(deep);
    int r = sr_rpm_package_cmp(x, y), q = sr_rpm_package_cmp(y, x);
    sx_assert(sgn(r) == -sgn(q), "package comparison is not antisymmetric");
    sx_assert((r == 0) == same_p(x, y), "packages compare equal exactly when all their parts do");
    int e = sr_rpm_package_cmp_nevra(x, y), f = sr_rpm_package_cmp_nvr(x, y);
    sx_assert((e == 0) == same_nevra(x, y), "package names compare equal exactly when name, epoch, version, release and architecture do");
    sx_assert((f == 0) == same_nvr(x, y), "package names compare equal exactly when name, version and release do");
    if (e) sx_assert(sgn(e) == sgn(r), "package comparison disagrees with comparison of the names");
    if (f) sx_assert(sgn(e) == sgn(f), "package name comparisons disagree");
    sx_obs_i("r", sgn(r)); sx_cover(r ? "different" : "equal");
    sr_rpm_package_free(x, true); sr_rpm_package_free(y, true);
#elif MODE == 4
    int deep = sx_choice(4, "str"); struct sr_rpm_package *x = mkp(deep), *y = mkp(deep), *z = mkp(deep);
    int p = sr_rpm_package_cmp(x, y), q = sr_rpm_package_cmp(y, z), r = sr_rpm_package_cmp(x, z);
    if (p <= 0 && q <= 0) { sx_assert(r <= 0, "package comparison is not transitive"); if (p < 0 || q < 0) sx_assert(r < 0, "package comparison is not strictly transitive"); sx_cover("chain"); }
    sx_obs_i("p", sgn(p)); sx_obs_i("q", sgn(q)); sx_obs_i("r", sgn(r));
    sr_rpm_package_free(x, true); sr_rpm_package_free(y, true); sr_rpm_package_free(z, true);
#else
    struct sr_rpm_consistency *x = mkc(1), *y = mkc(1), *z = mkc(1);
    int p = sr_rpm_consistency_cmp(x, y), q = sr_rpm_consistency_cmp(y, z), r = sr_rpm_consistency_cmp(x, z), o = sr_rpm_consistency_cmp(y, x);
    sx_assert(sgn(p) == -sgn(o), "record comparison is not antisymmetric");
    sx_assert((p == 0) == same_c(x, y), "records compare equal exactly when all their parts do");
    if (p <= 0 && q <= 0) { sx_assert(r <= 0, "record comparison is not transitive"); sx_cover("chain"); }
    sx_obs_i("p", sgn(p)); sx_obs_i("q", sgn(q)); sx_obs_i("r", sgn(r));
    sr_rpm_consistency_free(x, true); sr_rpm_consistency_free(y, true); sr_rpm_consistency_free(z, true);
#endif
}
