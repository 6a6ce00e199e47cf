/* Package names (C24: MODE 0 nvr text, 1 nevra text, 2 formatted and parsed back), package lists (C25: 3 sort, 4 uniq, 5 append and count), mapped libraries (C26: 6 rows, 7 any text, 8 disturbed). */
#include "gen.h"
#include "rpm.h"
#include "abrt.h"
#include "utils.h"
static char *sub(const char *s, int a, int b) { return g_strndup(s + a, b - a); }
#define SENT ((char *)0x10)
/* last two dashes of s; -1 if missing */
static void dashes(const char *s, int n, int *d1, int *d2) { *d1 = *d2 = -1; for (int i = 0; i < n; i++) if (s[i] == '-') { *d1 = *d2; *d2 = i; } }
#if MODE >= 3 && MODE <= 5
static struct sr_rpm_package *sym_pkg(int i)
{
    static const char *const nm[] = { "a", "b", NULL }, *const ar[] = { "x", NULL, "y" }; struct sr_rpm_package *p = sr_rpm_package_new();
#ifdef LONG
    p->name = g_strdup("a"); p->version = g_strdup("1"); p->release = g_strdup("2"); p->architecture = g_strdup(ar[sx_choice(3, "arch")]); p->epoch = 1; p->install_time = sx_u8("time"); p->role = sx_u8("role") & 1; return p;
#endif
    p->name = g_strdup(nm[sx_choice(NAMES, "name")]); p->version = g_strdup("1"); p->release = MODE == 4 && sx_choice(2, "rel") ? NULL : g_strdup("2"); p->architecture = g_strdup(ar[sx_choice(MODE == 4 ? 3 : 2, "arch")]);
    p->epoch = sx_u32("epoch"); p->install_time = sx_u64("time"); uint8_t r = sx_u8("role"); sx_assume(r <= 1); p->role = r;
    if (MODE == 4 && i == 0) { p->consistency = sr_rpm_consistency_new(); p->consistency->path = g_strdup("p"); }
    return p;
}
#endif
void harness(void)
{
    uint64_t live = sx_live_heap(); struct gb g; gb_init(&g);
#if MODE == 0 || MODE == 1
    char *t = sx_str_upto(N, "text"); int n = strlen(t), d1, d2; dashes(t, n, &d1, &d2); char *nm = SENT, *ve = SENT, *re = SENT, *ar = SENT; uint32_t ep = 77; char *pn = SENT, *pv = SENT, *pr = SENT, *pa = SENT;
#if MODE == 0
    bool r = sr_rpm_package_parse_nvr(t, &nm, &ve, &re), form = d1 > 0 && d2 - d1 > 1 && d2 < n - 1, grey = false;
    if (form) { pn = sub(t, 0, d1); pv = sub(t, d1 + 1, d2); pr = sub(t, d2 + 1, n); }
#else
    bool r = sr_rpm_package_parse_nevra(t, &nm, &ep, &ve, &re, &ar); int dot = -1, col = -1; for (int i = 0; i < n; i++) { if (t[i] == '.') dot = i; } for (int i = n - 1; i >= 0; i--) if (t[i] == ':' && i > d1 && i < d2) col = i;
    bool form = d1 > 0 && d2 - d1 > 1 && dot - d2 > 1 && dot < n - 1, grey = false; uint64_t e = 0;
    if (form && col >= 0) {
        form = col - d1 > 1 && d2 - col > 1; bool digits = true; for (int i = d1 + 1; i < col; i++) { if (t[i] < '0' || t[i] > '9') digits = false; else if (e <= UINT32_MAX) e = e * 10 + (t[i] - '0'); }
        /* white space and signs before an epoch are neither promised nor refused */
        if (form && !digits) { char c = t[d1 + 1]; grey = c == ' ' || c == '+' || (c >= 9 && c <= 13); form = false; } else if (e > UINT32_MAX) form = false;
    }
    if (form) { pn = sub(t, 0, d1); pv = sub(t, (col >= 0 ? col : d1) + 1, d2); pr = sub(t, d2 + 1, dot); pa = sub(t, dot + 1, n); }
#endif
    if (!grey) sx_assert(r == form, r ? "text that is not a package name is taken for one" : "a package name is refused");
    if (r) {
        sx_cover("parsed");
        if (form) {
            sx_assert(same(nm, pn), "the name is split wrongly"); sx_assert(same(ve, pv), "the version is split wrongly"); sx_assert(same(re, pr), "the release is split wrongly"); g_free(pn); g_free(pv); g_free(pr);
#if MODE == 1
            sx_assert(same(ar, pa), "the architecture is split wrongly"); g_free(pa); sx_assert(ep == (col >= 0 ? (uint32_t)e : 0), "the epoch is wrong");
#endif
        }
        g_free(nm); g_free(ve); g_free(re);
#if MODE == 1
        g_free(ar);
#endif
    } else { sx_cover("refused"); sx_assert(nm == SENT && ve == SENT && re == SENT && ar == SENT && ep == 77, "text is refused but an output is changed"); }
    free(t);
#elif MODE == 2
    char *nm, *ve, *re, *ar; int b; static const char *const az = "azAZ09__++..";
    b = 0; free(gb_id(&g, 1 + sx_choice(L, "ln"), "azAZ09__++..--", "name")); sx_assume(g.b[0] != '-' || g.n > 1); nm = g_strndup(g.b, g.n); gb_chr(&g, '-');
    int epoch = sx_choice(3, "epoch"); uint64_t e = 0; if (epoch == 1) { e = gb_dec(&g, 1 + sx_choice(2, "ed") * 9, "epoch"); sx_assume(e <= UINT32_MAX); gb_chr(&g, ':'); } else if (epoch == 2) { gb_lit(&g, "4294967295:"); e = UINT32_MAX; }
    b = g.n; free(gb_id(&g, 1 + sx_choice(L, "lv"), az, "version")); ve = g_strndup(g.b + b, g.n - b); gb_chr(&g, '-');
    b = g.n; free(gb_id(&g, 1 + sx_choice(L, "lr"), az, "release")); re = g_strndup(g.b + b, g.n - b); gb_chr(&g, '.');
    b = g.n; free(gb_id(&g, 1 + sx_choice(2, "la"), "azAZ09__::", "arch")); ar = g_strndup(g.b + b, g.n - b);
    char *t = gb_text(&g), *n2, *v2, *r2, *a2; uint32_t e2 = 5; bool ok = sr_rpm_package_parse_nevra(t, &n2, &e2, &v2, &r2, &a2); sx_assert(ok, "a package name is refused"); if (!ok) sx_stop();
    sx_assert(same(nm, n2) && same(ve, v2) && same(re, r2) && same(ar, a2), "a package name is split into other parts"); sx_assert(e2 == (uint32_t)e, "the epoch is wrong"); sx_cover(epoch ? "epoch" : "plain");
    g_free(nm); g_free(ve); g_free(re); g_free(ar); g_free(n2); g_free(v2); g_free(r2); g_free(a2); free(t);
#elif MODE == 3
    int n = sx_choice(N + 1, "n"); struct sr_rpm_package *a[8], *l = NULL; for (int i = 0; i < n; i++) { a[i] = sym_pkg(i); l = sr_rpm_package_append(l, a[i]); }
    uint32_t ep[8]; uint64_t it[8]; for (int i = 0; i < n; i++) { ep[i] = a[i]->epoch; it[i] = a[i]->install_time; }
    sx_assert(sr_rpm_package_count(l) == n, "the count is wrong"); l = sr_rpm_package_sort(l); bool seen[8] = { 0 }; int c = 0;
    for (struct sr_rpm_package *p = l; p && c <= n; p = p->next, c++) {
        int k = -1; for (int i = 0; i < n; i++) if (a[i] == p) k = i; sx_assert(k >= 0 && !seen[k], "a package appears or is listed twice"); if (k < 0) sx_stop(); seen[k] = true; sx_assert((p->epoch == ep[k]) & (p->install_time == it[k]), "sorting changed a package");
        if (p->next) sx_assert(sr_rpm_package_cmp_nevra(p, p->next) <= 0, "the packages are not in order");
    }
    sx_assert(c == n, "a package is lost"); sx_cover("sorted"); sr_rpm_package_free(l, true);
#elif MODE == 4
    int n = sx_choice(N + 1, "n"); struct sr_rpm_package *l = NULL; struct { const char *nm, *re, *ar; uint32_t ep; uint64_t it; int ro; int src; } w[8]; int c = 0; struct sr_rpm_package *a[8];
    for (int i = 0; i < n; i++) { a[i] = sym_pkg(i); l = sr_rpm_package_append(l, a[i]); }
    /* neighbours that are the same package (one architecture may be missing) become one */
    for (int i = 0; i < n; i++) {
        const char *nm = a[i]->name ? a[i]->name[0] == 'a' ? "a" : "b" : NULL, *re = a[i]->release ? "2" : NULL, *ar = a[i]->architecture ? a[i]->architecture[0] == 'x' ? "x" : "y" : NULL;
        if (c && w[c - 1].nm == nm && w[c - 1].re == re && w[c - 1].ep == a[i]->epoch && (!ar || !w[c - 1].ar || w[c - 1].ar == ar)) { if (!w[c - 1].ar) w[c - 1].ar = ar; w[c - 1].it = sx_ite(w[c - 1].it != 0, w[c - 1].it, a[i]->install_time); w[c - 1].ro |= a[i]->role; }
        else { w[c].nm = nm; w[c].re = re; w[c].ar = ar; w[c].ep = a[i]->epoch; w[c].it = a[i]->install_time; w[c].ro = a[i]->role; c++; }
    }
    l = sr_rpm_package_uniq(l); struct sr_rpm_package *p = l;
    for (int i = 0; i < c; i++, p = p->next) {
        sx_assert(p != NULL, "a distinct package is lost"); if (!p) sx_stop();
        sx_assert(same(p->name, w[i].nm) && same(p->version, "1") && same(p->release, w[i].re) && same(p->architecture, w[i].ar) && p->epoch == w[i].ep, "a package changed"); sx_assert(p->install_time == w[i].it && (int)p->role == w[i].ro, "the install time or role of a merged package is lost");
    }
    sx_assert(!p, "a package is listed twice"); sx_cover(c < n ? "merged" : "distinct"); sr_rpm_package_free(l, true);
#elif MODE == 5
    int n = sx_choice(N + 1, "n"), m = sx_choice(N + 1, "m"); struct sr_rpm_package *a[8], *x = NULL, *y = NULL; for (int i = 0; i < n; i++) { a[i] = sym_pkg(i); x = sr_rpm_package_append(x, a[i]); } for (int i = n; i < n + m; i++) { a[i] = sym_pkg(i); y = sr_rpm_package_append(y, a[i]); }
    struct sr_rpm_package *l = sr_rpm_package_append(x, y), *p = l; for (int i = 0; i < n + m; i++) { sx_assert(p == a[i], "appending loses or reorders packages"); if (p != a[i]) sx_stop(); p = p->next; } sx_assert(!p && sr_rpm_package_count(l) == n + m, "the count is wrong"); sx_cover("appended"); sr_rpm_package_free(l, true);
#elif MODE == 6
    int n = 1 + sx_choice(N, "rows"), nl = sx_choice(2, "newline"), deep = sx_choice(n, "deep"), b; bool good[3]; char *nm[3], *ve[3], *re[3], *ar[3]; uint64_t ep[3], it[3];
    static const char *const badrow[] = { "", "/lib/nospace", "/lib/x foo", "/lib/x foo (V) 12", "/lib/x foo-1-2.x (V) time", "/lib/x foo-1-2.x (V) ", "/lib/x foo-1-2.x (V)", "/lib/x  foo-1-2.x (V) 3", "/lib/x foo-q:1-2.x (V) 3", "/lib/x foo-1-2", "/lib/x foo-1-2.x", "/lib/x foo-1-2.x (V) 99999999999999999999999", " " };
    for (int i = 0; i < n; i++) {
        good[i] = true;
        if (i == deep) {
            gb_chr(&g, '/'); free(gb_sym(&g, sx_choice(2, "ll"), " \n", "lib")); gb_chr(&g, ' ');
            b = g.n; free(gb_id(&g, 1 + sx_choice(2, "ln"), "azAZ09__", "name")); nm[i] = g_strndup(g.b + b, g.n - b); gb_chr(&g, '-'); ep[i] = 0; if (sx_choice(2, "epoch")) { ep[i] = gb_dec(&g, 2, "epoch"); gb_chr(&g, ':'); }
            b = g.n; free(gb_id(&g, L, "azAZ09__..", "version")); ve[i] = g_strndup(g.b + b, g.n - b); gb_chr(&g, '-'); b = g.n; free(gb_id(&g, L, "azAZ09__..", "release")); re[i] = g_strndup(g.b + b, g.n - b); gb_chr(&g, '.'); b = g.n; free(gb_id(&g, 1, "azAZ09__", "arch")); ar[i] = g_strndup(g.b + b, g.n - b);
            gb_lit(&g, " ("); free(gb_sym(&g, sx_choice(3, "lv"), "\n", "vendor")); gb_lit(&g, ") "); it[i] = gb_dec(&g, sx_choice(2, "td") ? 10 : 1, "time");
        } else if (sx_choice(2, "kind")) { good[i] = false; gb_lit(&g, badrow[sx_choice(sizeof badrow / sizeof *badrow, "bad")]); }
        else { gb_lit(&g, "/lib64/libc-2.17.so glibc-2.17-4.fc19.x86_64 (Fedora Project) 1371630801"); nm[i] = g_strdup("glibc"); ve[i] = g_strdup("2.17"); re[i] = g_strdup("4.fc19"); ar[i] = g_strdup("x86_64"); ep[i] = 0; it[i] = 1371630801; }
        if (i + 1 < n || nl) gb_chr(&g, '\n');
    }
    char *t = gb_text(&g); struct sr_rpm_package *l = sr_abrt_parse_dso_list(t), *p = l;
    for (int i = 0; i < n; i++) if (good[i]) {
        sx_assert(p != NULL, "a mapped library is lost"); if (!p) sx_stop();
        sx_assert(same(p->name, nm[i]) && same(p->version, ve[i]) && same(p->release, re[i]) && same(p->architecture, ar[i]), "a package has another name than its row"); sx_assert((p->epoch == ep[i]) & (p->install_time == it[i]), "a package has another epoch or install time than its row"); p = p->next;
        g_free(nm[i]); g_free(ve[i]); g_free(re[i]); g_free(ar[i]);
    }
    sx_assert(!p, "a package appears"); sx_cover("rows"); sr_rpm_package_free(l, true); free(t);
#else
#if MODE == 7
    static const char *const pre[] = { "", "/l a-1-2.x ", "/l a-1-2.x (V) 3\n", "/l a-" }; gb_lit(&g, pre[sx_choice(4, "ctx")]); free(sx_choice(2, "tail") ? gb_sym(&g, sx_choice(N + 1, "len"), "", "w") : NULL); char *t = gb_text(&g);
#else
    char *t = sx_disturb("/l a-1:2-3.x (V) 4\n/m b-5-6.y (W) 7\n", K);
#endif
    struct sr_rpm_package *l = sr_abrt_parse_dso_list(t); for (struct sr_rpm_package *p = l; p; p = p->next) sx_assert(p->name && p->version && p->release && p->architecture, "a package without a part of its name"); sx_cover(l ? "parsed" : "refused"); sr_rpm_package_free(l, true); free(t);
#endif
    sx_assert(sx_live_heap() == live, "memory is lost");
}
