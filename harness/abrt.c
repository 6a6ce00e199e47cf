/* Problem directories (C38). MODE 0: complete directory of any type, up to two files changed; 1: one file with arbitrary contents; 2: the backtrace disturbed; 3: type names; 4: printing and creating; 5: parts on their own */
#include "types.h"
#include "vfs.h"
#include "abrt.h"
#include "report.h"
#include "operating_system.h"
#include "rpm.h"
#include "location.h"
#include "utils.h"
#include "js/platform.h"
enum { F_TYPE, F_OSINFO, F_OSREL, F_ARCH, F_ENVIRON, F_PACKAGE, F_EPOCH, F_NAME, F_VERSION, F_RELEASE, F_PARCH, F_COMPONENT, F_EXE, F_DSO, F_INTERP, F_COUNT, F_CORE, F_BT, F_KERNEL, F_ANALYZER, NFILE };
static const char *const fname[NFILE] = { "d/type", "d/os_info", "d/os_release", "d/architecture", "d/environ", "d/package", "d/pkg_epoch", "d/pkg_name", "d/pkg_version", "d/pkg_release", "d/pkg_arch", "d/component", "d/executable", "d/dso_list", "d/interpreter", "d/count", "d/core_backtrace", "d/backtrace", "d/kernel", "d/analyzer" };
static const char *const good[NFILE] = { NULL, "NAME=Fedora\nVERSION_ID=24\nID=fedora\nCPE_NAME=c\n", "Fedora release 20 (H)", "x86_64", "A=1\nDESKTOP_SESSION=gnome\nB=2", "a-1-2.x", "1", "a", "1\n", "2", "x", "comp", "/usr/bin/exe", "/l/b.so b-2-3.x (V) 7\n/l/a.so a-1:1-2.x (V) 9\n", "p-0:3-4.n", "5", NULL, NULL, "4.1", "Node.js" };
/* the second good (or harmless) contents, and contents that make the file useless */
static const char *const alt[NFILE] = { "Unknown", "ID=rhel\nVERSION_ID=7\n", "Red Hat Enterprise Linux release 7.1", "i", "XDESKTOP_SESSION=kde\nDESKTOP_SESSION=x", "", "0", "n\nm", "9", "8", "y", "", "exe", "", "q-3-4.n", "0", "{\"stacktrace\":[]}", "", "", "python" };
static const char *const junk[NFILE] = { "", "ID=x\n", "none", "", "X=1\n", "", "junk", "", "", "", "", "", "", "z\n", "junk", "5x", "{", "zzz", "", "" };
static const char *const types[] = { "CCpp", "Python", "Kerneloops", "Java", "Ruby", "JavaScript" };
static const enum sr_report_type rtypes[] = { SR_REPORT_CORE, SR_REPORT_PYTHON, SR_REPORT_KERNELOOPS, SR_REPORT_JAVA, SR_REPORT_RUBY, SR_REPORT_JAVASCRIPT };
static const char *const bts[] = { NULL, "Traceback (most recent call last):\n  File \"a\", line 1, in f\n    x\nE: m\n", "B\nRIP: 1:[<a>]  [<a>] f+0x1/0x2 [m]\n [<b>] ? g+0x3/0x4\n", "Exception in thread \"m\" E: x\n\tat a(A:1) [jar:file:/j!/A]\n", "/a.rb:1:in `f': m (E)\n\tfrom /b.rb:2:in `g'\n", "E: m\n    at f (/a.js:1:2)\n" };
static const char *const corebt = "{\"signal\":11,\"executable\":\"/e\",\"stacktrace\":[{\"crash_thread\":true,\"frames\":[{\"address\":1,\"function_name\":\"f\"}]}]}";
static struct vfile *file[NFILE];
static void mkdir_(int t) { for (int i = 0; i < NFILE; i++) file[i] = vfs_add(fname[i], i == F_TYPE ? types[t] : i == F_CORE ? corebt : i == F_BT ? bts[t] : good[i]); }
static bool has(int i) { return file[i]->exists; }
static const char *text(int i) { return file[i]->exists && file[i]->readable ? file[i]->data : NULL; }
static enum sr_report_type want_type(const char *s)
{
    for (int i = 5; i >= 0; i--) if (!strncmp(s, types[i], strlen(types[i]))) return rtypes[i];     /* JavaScript before Java */
    return SR_REPORT_INVALID;
}
static bool os_same(const struct sr_operating_system *a, const struct sr_operating_system *b)
{
    if (!a || !b) return !a && !b;
    return same(a->name, b->name) && same(a->version, b->version) && same(a->architecture, b->architecture) && same(a->cpe, b->cpe) && same(a->desktop, b->desktop) && same(a->variant, b->variant) && a->uptime == b->uptime;
}
static bool pkgs_same(const struct sr_rpm_package *a, const struct sr_rpm_package *b)
{
    for (; a && b; a = a->next, b = b->next)
        if (!same(a->name, b->name) || !same(a->version, b->version) || !same(a->release, b->release) || !same(a->architecture, b->architecture) || a->epoch != b->epoch || a->install_time != b->install_time || a->role != b->role) return false;
    return !a && !b;
}
static struct sr_operating_system *want_os(void)
{
    struct sr_operating_system *o = sr_operating_system_new(); bool ok = text(F_OSINFO) && sr_operating_system_parse_etc_os_release(text(F_OSINFO), o);
    if (!ok && text(F_OSREL)) { g_free(o->name); g_free(o->version); o->name = o->version = NULL; ok = sr_operating_system_parse_etc_system_release(text(F_OSREL), &o->name, &o->version); }
    if (!ok || !text(F_ARCH)) { sr_operating_system_free(o); return NULL; }
    o->architecture = g_strdup(text(F_ARCH));
    for (const char *p = text(F_ENVIRON); p && *p;) { const char *e = strchrnul(p, '\n'); if (!strncmp(p, "DESKTOP_SESSION=", 16)) { o->desktop = g_strndup(p + 16, e - p - 16); break; } p = *e ? e + 1 : e; }
    return o;
}
static char *line(int i) { const char *t = text(i); return t ? g_strndup(t, strchrnul(t, '\n') - t) : NULL; }
static bool plain_number(const char *s, uint64_t *v) { *v = 0; if (!*s || strlen(s) > 12) return false; for (; *s; s++) { if (*s < '0' || *s > '9') return false; *v = *v * 10 + (*s - '0'); } return true; }
/* 1 packages as given, 0 refused */
static int want_pkgs(struct sr_rpm_package **r)
{
    *r = NULL; uint64_t ep = 0;
    if (has(F_PACKAGE)) {
        if (!text(F_EPOCH) || !text(F_NAME) || !text(F_VERSION) || !text(F_RELEASE) || !text(F_PARCH)) return 0;
        const char *e = text(F_EPOCH); if (!plain_number(e, &ep)) { if (*e && *e != ' ' && *e != '+' && *e != '-' && !(*e >= '0' && *e <= '9') && !(*e >= 9 && *e <= 13)) return 0; sx_assume(!*e); return 0; }
        if (ep > UINT32_MAX) return 0;
        struct sr_rpm_package *p = sr_rpm_package_new(); p->epoch = ep; p->name = line(F_NAME); p->version = line(F_VERSION); p->release = line(F_RELEASE); p->architecture = line(F_PARCH); p->role = SR_ROLE_AFFECTED; *r = p;
    }
    if (has(F_DSO)) { if (!text(F_DSO)) return 0; struct sr_rpm_package *d = sr_abrt_parse_dso_list(text(F_DSO)); if (d) { *r = sr_rpm_package_append(*r, d); *r = sr_rpm_package_sort(*r); *r = sr_rpm_package_uniq(*r); } }
    if (text(F_INTERP)) { struct sr_rpm_package *p = sr_rpm_package_new(); if (sr_rpm_package_parse_nevra(text(F_INTERP), &p->name, &p->epoch, &p->version, &p->release, &p->architecture)) *r = sr_rpm_package_append(*r, p); else sr_rpm_package_free(p, true); }
    return 1;
}
static char *want_component(void)
{
    if (has(F_PACKAGE)) return g_strdup(text(F_COMPONENT));
    const char *e = text(F_EXE); if (!e) return NULL; const char *b = strrchr(e, '/'); return g_strdup_printf("%s-unpackaged", b ? b + 1 : e);
}
/* the JSON of the stacktrace, NULL if there is none to load; *need: must be there */
static char *want_st(enum sr_report_type t, bool *need)
{
    struct sr_stacktrace *s = NULL; struct sr_location l; sr_location_init(&l); const char *p = text(F_BT); char *err = NULL; *need = true;
    switch (t) {
    case SR_REPORT_CORE: if (text(F_CORE)) { s = (struct sr_stacktrace *)sr_core_stacktrace_from_json_text(text(F_CORE), &err); g_free(err); } break;
    case SR_REPORT_PYTHON: if (p) s = (struct sr_stacktrace *)sr_python_stacktrace_parse(&p, &l); break;
    case SR_REPORT_JAVA: if (p) s = (struct sr_stacktrace *)sr_java_stacktrace_parse(&p, &l); break;
    case SR_REPORT_RUBY: if (p) s = (struct sr_stacktrace *)sr_ruby_stacktrace_parse(&p, &l); break;
    case SR_REPORT_KERNELOOPS: if (p && text(F_KERNEL)) { struct sr_koops_stacktrace *k = sr_koops_stacktrace_parse(&p, &l); if (k) { g_free(k->version); k->version = g_strdup(text(F_KERNEL)); } s = (struct sr_stacktrace *)k; } break;
    case SR_REPORT_JAVASCRIPT: if (p && text(F_ANALYZER)) { sr_js_platform_t f = sr_js_platform_from_string(text(F_ANALYZER), NULL, &err); g_free(err); s = (struct sr_stacktrace *)(f ? sr_js_platform_parse_stacktrace(f, &p, &l) : sr_js_stacktrace_parse(&p, &l)); } break;
    default: *need = false; return NULL;
    }
    if (!s) return NULL; char *j = sr_stacktrace_to_json(s); sr_stacktrace_free(s); return j;
}
static void check(void)
{
    uint64_t live = sx_live_heap(); char *err = NULL;
    errno = sx_choice(2, "errno") ? EINVAL : 0;     /* left over from an earlier call */
    struct sr_report *r = sr_abrt_report_from_dir("d", &err); vfs_check();
    if (!r) sx_assert(err != NULL, "failure without an error message"); else sx_assert(err == NULL, "success with an error message");
    /* what should have come out */
    bool ok = text(F_TYPE) != NULL, need = false; enum sr_report_type t = ok ? want_type(text(F_TYPE)) : SR_REPORT_INVALID;
    struct sr_operating_system *o = want_os(); struct sr_rpm_package *p; ok &= o != NULL; bool po = want_pkgs(&p); ok &= po; char *c = want_component(); uint64_t n = 0; bool odd = false;
    if (!text(F_COUNT)) ok = false; else if (!plain_number(text(F_COUNT), &n)) { const char *s = text(F_COUNT); while (*s == ' ' || (*s >= 9 && *s <= 13)) s++; odd = s != text(F_COUNT) || *s == '+' || *s == '-'; if (!odd) ok = false; } else if (n > UINT32_MAX) ok = false;
    char *st = want_st(t, &need); if (need && !st) ok = false;
    if (!odd) sx_assert(!!r == ok, r ? "a directory that lacks data is accepted" : "a complete directory is refused");
    sx_obs_i("ok", !!r);
    if (r && ok) {
        sx_assert(r->report_type == t, "another report type"); sx_assert(os_same(r->operating_system, o), "another operating system"); sx_assert(pkgs_same(r->rpm_packages, p), "other packages");
        sx_assert(same(r->component_name, c), "another component"); if (!odd) sx_assert(r->serial == n, "another count"); sx_assert(!r->user_root && r->user_local && !r->auth_entries, "data that are in no file");
        if (need) { sx_assert(r->stacktrace != NULL, "the stacktrace is missing"); char *j = sr_stacktrace_to_json(r->stacktrace); sx_assert(same(j, st), "another stacktrace"); g_free(j); } else sx_assert(!r->stacktrace, "a stacktrace from nowhere");
        sx_cover("report");
    }
    if (!r) sx_cover("refused");
    if (r) sr_report_free(r); g_free(err); g_free(c); g_free(st); if (o) sr_operating_system_free(o); if (p) sr_rpm_package_free(p, true);
    sx_assert(sx_live_heap() == live, "memory is lost");
}
static void change(int i, int how) { switch (how) { case 0: vfs_set(file[i], NULL); break; case 1: file[i]->readable = false; break; case 2: vfs_set(file[i], alt[i]); break; default: vfs_set(file[i], junk[i]); } }
static char *puts_text; int vf_puts(const char *s) { g_free(puts_text); puts_text = g_strdup(s); return 0; }
void harness(void)
{
#if MODE == 0
    int t = sx_choice(6, "type"); mkdir_(t);
    int a = sx_choice(NFILE + 1, "a"); if (a < NFILE) { if (PAIRS && sx_choice(2, "two")) { int b = sx_choice(NFILE, "b"); sx_assume(b < a); if (t) sx_assume(a == F_CORE || a >= F_COUNT || b >= F_COUNT || a == F_TYPE || b == F_TYPE); change(b, sx_choice(PAIRS, "howb")); change(a, sx_choice(PAIRS, "howa")); } else change(a, sx_choice(4, "how")); }
    check();
#elif MODE == 1
    static const int which[] = { F_TYPE, F_OSREL, F_ARCH, F_ENVIRON, F_EPOCH, F_NAME, F_EXE, F_COMPONENT, F_COUNT, F_ANALYZER };
    int i = which[sx_choice(sizeof which / sizeof *which, "file")]; mkdir_(i == F_ANALYZER ? 5 : 0); struct gb g; gb_init(&g);
    if (i == F_EXE) vfs_set(file[F_PACKAGE], NULL); if (i == F_OSREL) { vfs_set(file[F_OSINFO], "ID=x\n"); gb_lit(&g, "A rele"); } if (i == F_ENVIRON) { static const char *pre[] = { "", "D", "X\n", "DESKTOP_SESSION=" }; gb_lit(&g, pre[sx_choice(4, "pre")]); }
    if (i == F_COUNT) { static const char *pre[] = { "", "429496729", "999999999" }; gb_lit(&g, pre[sx_choice(3, "pre")]); } if (i == F_EPOCH) { static const char *pre[] = { "", "429496729" }; gb_lit(&g, pre[sx_choice(2, "pre")]); } if (i == F_TYPE) gb_lit(&g, sx_choice(2, "pre") ? "JavaScrip" : "");
    char *s = sx_str_upto(i == F_EXE || i == F_TYPE ? L + 1 : L, "data"); gb_lit(&g, s); free(s); if (i == F_OSREL) gb_lit(&g, "ase 3"); if (i == F_ENVIRON) gb_lit(&g, "ESKTOP_SESSION=q\nDESKTOP_SESSION=r"); if (i == F_EPOCH) for (int k = 0; g.b[k]; k++) sx_assume((g.b[k] >= '0' && g.b[k] <= '9') || k == 0);
    if (i == F_EPOCH && g.b[0]) sx_assume(g.b[0] >= '0');
    vfs_set(file[i], g.b); if (i == F_TYPE) vfs_set(file[F_BT], "E: m\n    at f (/a.js:1:2)\n"); check();
#elif MODE == 2
    int t = 1 + sx_choice(5, "type"); mkdir_(t); char *s = sx_disturb(bts[t], K); vfs_set(file[F_BT], s); free(s); check();
#elif MODE == 3
    int w = sx_choice(6, "type"); const char *t = types[w]; struct gb g; gb_init(&g); int cut = sx_choice(strlen(t) + 1, "cut"); for (int i = 0; i < cut; i++) gb_chr(&g, t[i]); char *s = sx_str_upto(K, "s"); gb_lit(&g, s); free(s); if (sx_choice(2, "rest")) for (int i = cut + 1; i < (int)strlen(t); i++) gb_chr(&g, t[i]);
    char *x = gb_text(&g); sx_assert(sr_abrt_type_from_type(x) == want_type(x), "another report type"); sx_assert(sr_abrt_type_from_analyzer(x) == want_type(x), "another report type for an analyzer"); sx_cover(want_type(x) ? "known" : "unknown"); free(x);
#elif MODE == 4
    uint64_t live = sx_live_heap(); int t = sx_choice(6, "type"); mkdir_(t); int a = sx_choice(NFILE + 1, "a"); if (a < NFILE) change(a, sx_choice(4, "how")); char *err = NULL, *e2 = NULL;
    bool ok = sr_abrt_print_report_from_dir("d", &err); vfs_check(); struct sr_report *r = sr_abrt_report_from_dir("d", &e2);
    sx_assert(ok == !!r, "printing and loading disagree"); sx_assert(same(err, e2), "the error messages differ");
    if (r) { char *j = sr_report_to_json(r); sx_assert(same(puts_text, j), "another text is printed"); g_free(j); sr_report_free(r); sx_cover("printed"); } else { sx_assert(!puts_text, "something is printed for a directory that is refused"); sx_cover("refused"); }
    g_free(err); g_free(e2); g_free(puts_text); err = NULL;
    vfs_set(file[F_EXE], NULL); sx_assert(!sr_abrt_create_core_stacktrace("d", false, &err) && err, "a core stacktrace without an executable"); g_free(err); err = NULL; free(err);
    sx_assert(!sr_abrt_create_core_stacktrace_from_gdb("d", NULL, false, &err) && err, "a core stacktrace from nothing"); free(err); vfs_check();
    vfs_done(); sx_assert(sx_live_heap() == live, "memory is lost");
#elif MODE == 5
    uint64_t live = sx_live_heap(); mkdir_(0); int a = sx_choice(NFILE + 1, "a"); if (a < NFILE) change(a, sx_choice(4, "how")); char *err = NULL;
    struct sr_operating_system *o = sr_abrt_operating_system_from_dir("d", &err), *w = want_os(); sx_assert(!o == !!err, "the result and the error message disagree"); sx_assert(os_same(o, w), "another operating system"); if (o) sr_operating_system_free(o); if (w) sr_operating_system_free(w); g_free(err); err = NULL;
    struct sr_rpm_package *p = NULL, *q = NULL; int c = sr_abrt_rpm_packages_from_dir("d", &p, &err), d = want_pkgs(&q); sx_assert((c == 0) == !err && (c == 0) == d, "the result and the error message disagree"); if (c == 0) { sx_assert(pkgs_same(p, q), "other packages"); sx_cover("packages"); } else sx_cover("refused");
    if (p) sr_rpm_package_free(p, true); if (q) sr_rpm_package_free(q, true); g_free(err); vfs_check(); vfs_done(); sx_assert(sx_live_heap() == live, "memory is lost");
#endif
    vfs_done();
}
