/* Reports as JSON (C33). MODE 0: any part, written and loaded again; 1: report types and their names; 2: ill-typed documents; 3: arbitrary text; 4: package and operating system on their own */
#include "types.h"
#include <json.h>
#include "rfc8259.h"
#include "report.h"
#include "operating_system.h"
#include "rpm.h"
static const char *const names[SR_REPORT_NUM] = { [SR_REPORT_INVALID] = "invalid", [SR_REPORT_CORE] = "core", [SR_REPORT_PYTHON] = "python", [SR_REPORT_KERNELOOPS] = "kerneloops", [SR_REPORT_JAVA] = "java", [SR_REPORT_GDB] = "gdb", [SR_REPORT_RUBY] = "ruby", [SR_REPORT_JAVASCRIPT] = "javascript" };
static bool yes(const char *n) { uint8_t b = sx_u8(n); sx_assume(b <= 1); return b; }
static struct rfc { struct strs v; } R_;
static bool is_in(const char *s) { return !s || strs_has(&R_.v, s); }
static bool os_same(const struct sr_operating_system *a, const struct sr_operating_system *b)
{
    if (!a || !b) return !a && !b;
    return same(a->name, b->name) && same(a->version, b->version) && same(a->architecture, b->architecture) && same(a->cpe, b->cpe) && same(a->desktop, b->desktop) && same(a->variant, b->variant) && a->uptime == b->uptime;
}
static bool pkgs_same(const struct sr_rpm_package *a, const struct sr_rpm_package *b)
{
    for (; a && b; a = a->next, b = b->next)
        if (!same(a->name, b->name) || !same(a->version, b->version) || !same(a->release, b->release) || !same(a->architecture, b->architecture) || a->epoch != b->epoch || a->install_time != b->install_time || a->role != b->role) return false;
    return !a && !b;
}
static bool auth_same(const struct sr_report_custom_entry *a, const struct sr_report_custom_entry *b)
{
    for (; a && b; a = a->next, b = b->next) if (!same(a->key, b->key) || !same(a->value, b->value)) return false;
    return !a && !b;
}
static struct sr_operating_system *mkos(int vary, const char *k)
{
    struct sr_operating_system *o = sr_operating_system_new(); char **f[] = { &o->name, &o->version, &o->architecture, &o->cpe, &o->desktop, &o->variant };
    for (int i = 0; i < 6; i++) *f[i] = vary == i ? opt_str(L, "os") : g_strdup(k);
    if (vary == 6) o->uptime = sx_u64("uptime"); else o->uptime = k ? 5 : 0;
    return o;
}
static struct sr_rpm_package *mkpkg(int vary, const char *k)
{
    struct sr_rpm_package *p = sr_rpm_package_new(); char **f[] = { &p->name, &p->version, &p->release, &p->architecture };
    for (int i = 0; i < 4; i++) *f[i] = vary == i ? opt_str(L, "pkg") : g_strdup(k);
    if (vary == 4) p->epoch = sx_u32("epoch"); if (vary == 5) p->install_time = sx_u64("itime"); p->role = vary == 6 || (vary < 0 && k) ? SR_ROLE_AFFECTED : SR_ROLE_UNKNOWN;
    return p;
}
static const char *check_json(const char *j)
{
    strs_free(&R_.v); const char *e = rfc_value(j, &R_.v, 0);
    sx_assert(e != NULL, "the text written is not well-formed JSON"); if (!e) { sx_obs_s("j", j); sx_stop(); }
    sx_assert(*rfc_ws(e) == 0, "text follows the JSON value"); return e;
}
/* what a loaded report owns beyond what sr_report_free frees */
static void rfree(struct sr_report *r, bool loaded) { if (loaded) { g_free(r->reporter_name); g_free(r->reporter_version); } sr_report_free(r); }
#if MODE == 2
enum { V_NULL, V_BOOL, V_INT, V_NEG, V_DBL, V_STR, V_ARR, V_OBJ, V_AINT, V_AOBJ, V_OSTR, V_OINT, NV };
static const char *const vals[NV] = { "null", "true", "7", "-3", "1.5", "\"x\"", "[]", "{}", "[1]", "[{}]", "{\"o\":\"x\"}", "{\"o\":1}" };
enum { M_STR, M_NUM, M_BOOL, M_AOBJ, M_OBJ, M_ROLE, M_ANY, M_TYPE };
static const char okv[8][NV] = { { 0,0,0,0,0,1,0,0,0,0,0,0 }, { 0,0,1,1,0,0,0,0,0,0,0,0 }, { 0,1,0,0,0,0,0,0,0,0,0,0 }, { 0,0,0,0,0,0,1,0,0,1,0,0 }, { 0,0,0,0,0,0,0,1,0,0,1,1 }, { 0 }, { 1,1,1,1,1,1,1,1,1,1,1,1 }, { 0,0,0,0,0,1,0,0,0,0,0,0 } };
static const struct { int at; const char *key; int m; } mems[] = {
    { 0, "ureport_version", M_NUM }, { 0, "reporter", M_OBJ }, { 1, "name", M_STR }, { 1, "version", M_STR }, { 0, "os", M_OBJ }, { 2, "name", M_STR }, { 2, "version", M_STR }, { 2, "architecture", M_STR }, { 2, "cpe", M_STR }, { 2, "uptime", M_NUM },
    { 2, "desktop", M_ANY }, { 2, "variant", M_ANY }, { 0, "packages", M_AOBJ }, { 3, "name", M_STR }, { 3, "version", M_STR }, { 3, "release", M_STR }, { 3, "architecture", M_STR }, { 3, "epoch", M_NUM }, { 3, "install_time", M_NUM }, { 3, "package_role", M_ROLE },
    { 0, "problem", M_OBJ }, { 4, "type", M_TYPE }, { 4, "component", M_STR }, { 4, "user", M_OBJ }, { 5, "root", M_BOOL }, { 5, "local", M_BOOL }, { 4, "serial", M_NUM }, { 0, "auth", M_OBJ }, { 6, "host", M_ANY }, { 0, "other", M_ANY }, { 0, "reason", M_ANY } };
static const char *const open_[] = { "{", "{\"reporter\":{", "{\"os\":{", "{\"packages\":[{", "{\"problem\":{", "{\"problem\":{\"user\":{", "{\"auth\":{" };
static const char *const close_[] = { "}", "}}", "}}", "}]}", "}}", "}}}", "}}" };
#endif
void harness(void)
{
    uint64_t live = sx_live_heap();
#if MODE == 0
    enum { P_COMP, P_RNAME, P_RVER, P_USER, P_NUMS, P_OS, P_PKG, P_AUTH, P_ST, NP };
    int part = T == 0 ? sx_choice(NP, "part") : (int[]){ P_COMP, P_USER, P_ST }[sx_choice(3, "part")]; const char *k = sx_choice(2, "rest") ? "k" : NULL;
    bool typed = T != 0 || part == P_ST || sx_choice(2, "typed");
    struct sr_report *r = sr_report_new(); r->report_type = typed ? RT : SR_REPORT_INVALID;
    r->component_name = part == P_COMP ? opt_str(L, "component") : g_strdup(k);
    char *rn = part == P_RNAME ? sx_str_upto(L, "rname") : g_strdup("sat"), *rv = part == P_RVER ? sx_str_upto(L, "rver") : g_strdup("1"); r->reporter_name = rn; r->reporter_version = rv;
    if (part == P_USER && T != 2) { r->user_root = yes("root"); r->user_local = yes("local"); }
    if (part == P_NUMS) { if (sx_choice(2, "num")) r->serial = sx_u32("serial"); else r->report_version = sx_u32("version"); }
    if (part == P_OS) { int f = sx_choice(8, "field"); r->operating_system = mkos(f, k); } else if (k) r->operating_system = mkos(-1, k);
    if (part == P_PKG) { int n = sx_choice(4, "npkg"), at = n ? sx_choice(n, "at") : 0; for (int i = 0; i < n; i++) { int f = i == at ? sx_choice(7, "field") : -1; r->rpm_packages = sr_rpm_package_append(r->rpm_packages, mkpkg(f, k)); } } else if (k) r->rpm_packages = mkpkg(-1, k);
    if (part == P_AUTH) { int n = sx_choice(4, "nauth"), at = n ? sx_choice(n, "at") : 0, what = sx_choice(2, "what"); for (int i = 0; i < n; i++) { char *x = i == at ? sx_str_upto(L, "auth") : g_strdup("v"), key[20] = { 'a' + i, 0 }; if (!what) strcpy(key + 1, x); sr_report_add_auth(r, key, what ? x : "v"); free(x); } }
    else if (k) sr_report_add_auth(r, "k", k);
    if (typed && (part == P_ST || (k && T != 0))) {
        int nf = part == P_ST ? sx_choice(3, "frames") : 1; ST *s = SF(new)(); TH *t = s;
        int nt = part == P_ST ? sx_choice(2, "nothread") : 0;
#if MT
        t = NULL; if (!nt) { t = TF(new)(); s->threads = TF(append)(s->threads, t); }
#endif
        int deep = part == P_ST && nf ? strno(sx_choice(nstr(), "str")) : -1;
        if (t) for (int j = 0; j < nf; j++) { FR *f = FF(new)(); for (int i = 0; i < NF; i++) if (fds[i].k == F_STR) *strp(f, i) = j == 0 && deep == i ? opt_str(L, "s") : g_strdup(part == P_ST && !k ? NULL : "f"); t->frames = FF(append)(t->frames, f); }
        r->stacktrace = (struct sr_stacktrace *)s;
    }
    char *j = sr_report_to_json(r); check_json(j);
    sx_assert(is_in(rn) && is_in(rv) && is_in(r->component_name), "the reporter or component is not in the JSON");
    if (r->operating_system) { struct sr_operating_system *o = r->operating_system; sx_assert(is_in(o->name) && is_in(o->version) && is_in(o->architecture) && is_in(o->cpe) && is_in(o->desktop) && is_in(o->variant), "a part of the operating system is not in the JSON"); }
    for (struct sr_report_custom_entry *a = r->auth_entries; a; a = a->next) sx_assert(is_in(a->value), "an authentication value is not in the JSON");
    sx_assert(is_in(typed ? names[RT] : "invalid"), "the type is not in the JSON");
    char *err = NULL; struct sr_report *q = sr_report_from_json_text(j, &err);
    sx_assert(q != NULL, "the JSON written is refused when loaded"); if (!q) sx_stop();
    sx_assert(err == NULL, "loading succeeds with an error message");
    sx_assert(q->report_type == r->report_type, "the type differs"); sx_assert(q->report_version == r->report_version, "the report version differs"); sx_assert(q->serial == r->serial, "the serial number differs");
    sx_assert(same(q->reporter_name, rn) && same(q->reporter_version, rv), "the reporter differs"); sx_assert(same(q->component_name, r->component_name), "the component differs");
    sx_assert(q->user_root == r->user_root && q->user_local == r->user_local, "the user flags differ");
    sx_assert(os_same(q->operating_system, r->operating_system), "the operating system differs"); sx_assert(pkgs_same(q->rpm_packages, r->rpm_packages), "the packages differ"); sx_assert(auth_same(q->auth_entries, r->auth_entries), "the authentication entries differ");
    if (r->stacktrace) {
        sx_assert(q->stacktrace != NULL, "the stacktrace is not loaded");
        char *a = sr_stacktrace_to_json(r->stacktrace), *b = sr_stacktrace_to_json(q->stacktrace); sx_assert(same(a, b), "the stacktrace differs"); g_free(a); g_free(b); sx_cover("stacktrace");
    }
    char *j2 = sr_report_to_json(q); if (r->stacktrace || !typed) sx_assert(same(j, j2), "writing the loaded report gives other JSON");
    g_free(j); g_free(j2); strs_free(&R_.v); rfree(r, false); rfree(q, true); g_free(rn); g_free(rv); sx_cover("roundtrip");
#elif MODE == 1
    if (sx_choice(2, "dir")) {
        int t = (int)sx_u32("type"); char *n = sr_report_type_to_string(t);
        bool known = t > SR_REPORT_INVALID && t < SR_REPORT_NUM;
        sx_assert(n != NULL, "a type has no name");
        if (known) { int v = sx_concretize(t); sx_assert(same(n, names[v]), "a type has another name"); sx_assert((int)sr_report_type_from_string(n) == v, "the name of a type is another type"); sx_cover("type"); }
        else { sx_assert(same(n, "invalid"), "an unknown type is not called invalid"); sx_assert(sr_report_type_from_string(n) == SR_REPORT_INVALID, "invalid is a type"); sx_cover("unknown"); }
        g_free(n);
    } else {
        char *s = sx_choice(8, "null") ? sx_str_upto(L, "name") : NULL; int t = sr_report_type_from_string(s), want = SR_REPORT_INVALID;
        for (int i = 0; s && i < SR_REPORT_NUM; i++) if (same(s, names[i])) want = i;
        sx_assert(t == want, "a name gives another type"); sx_cover("name"); free(s);
    }
#elif MODE == 2
    struct gb g; gb_init(&g); int root = sx_choice(2, "root"), v = sx_choice(NV, "val"); bool ok, rep = false, bad = false;
    if (root == 0) { gb_lit(&g, vals[v]); ok = okv[M_OBJ][v]; sx_assume(v != V_NULL); }
    else {
        int m = sx_choice(sizeof mems / sizeof *mems, "mem"); ok = okv[mems[m].m][v]; rep = mems[m].at == 1;
        bad = sx_choice(2, "second"); gb_lit(&g, open_[mems[m].at]); gb_lit(&g, "\""); gb_lit(&g, mems[m].key); gb_lit(&g, "\":"); gb_lit(&g, vals[v]); gb_lit(&g, close_[mems[m].at]);
        if (mems[m].at == 0 && !strcmp(mems[m].key, "packages") && v == V_AOBJ) ok = true;
        if (bad) { sx_assume(g.b[g.n - 1] == '}'); g.n--; gb_lit(&g, mems[m].at == 0 && !strcmp(mems[m].key, "auth") ? ",\"serial\":1}" : ",\"auth\":5}"); if (strcmp(mems[m].key, "auth") || mems[m].at) ok = false; }
    }
    char *d = gb_text(&g); char *err = NULL; bool noerr = sx_choice(2, "noerr");
    struct sr_report *r = sr_report_from_json_text(d, noerr ? NULL : &err);
    sx_assert(!!r == ok, r ? "a member of the wrong type is accepted" : "a document of the right form is refused");
    if (!noerr) sx_assert(!!r == !err, r ? "loading succeeds with an error message" : "loading fails without an error message");
    g_free(err); sx_obs_i("ok", !!r);
    if (r) { char *j = sr_report_to_json(r); check_json(j); g_free(j); strs_free(&R_.v); if (rep) { if (strstr(d, "\"name\"")) g_free(r->reporter_name); else g_free(r->reporter_version); } sr_report_free(r); sx_cover("loaded"); } else sx_cover("refused");
    free(d); if (rep && !r) return;
#elif MODE == 3
    static const char *pre[] = { "", "{\"", "{\"ureport_version\":", "{\"problem\":{\"type\":\"core\",\"", "{\"os\":{\"name\":\"", "{\"packages\":[", "{\"auth\":{\"" };
    struct gb g; gb_init(&g); gb_lit(&g, pre[sx_choice(7, "pre")]); char *tx = sx_str_upto(L, "t"); gb_lit(&g, tx); free(tx); char *d = gb_text(&g), *err = NULL;
    struct sr_report *r = sr_report_from_json_text(d, &err); sx_assert(!!r == !err, "the result and the error message disagree"); g_free(err); sx_obs_i("ok", !!r);
    if (r) { char *j = sr_report_to_json(r); check_json(j); g_free(j); strs_free(&R_.v); sr_report_free(r); sx_cover("loaded"); } else sx_cover("refused");
    free(d);
#elif MODE == 4
    enum json_tokener_error te; char *err = NULL; const char *k = sx_choice(2, "rest") ? "k" : NULL;
    if (sx_choice(2, "os")) {
        struct sr_operating_system *o = mkos(sx_choice(8, "field") - 1, k); char *j = sr_operating_system_to_json(o); check_json(j); json_object *x = json_tokener_parse_verbose(j, &te);
        struct sr_operating_system *q = sr_operating_system_from_json(x, &err); sx_assert(q && !err, "the JSON written is refused when loaded"); sx_assert(os_same(o, q), "the operating system differs");
        json_object_put(x); g_free(j); sr_operating_system_free(o); sr_operating_system_free(q); sx_cover("os");
    } else {
        bool rec = sx_choice(2, "list"); int n = rec ? sx_choice(4, "npkg") : 1; struct sr_rpm_package *p = NULL, *q = NULL;
        for (int i = 0; i < n; i++) { int f = i == n - 1 ? sx_choice(8, "field") - 1 : -1; p = sr_rpm_package_append(p, mkpkg(f, k)); }
        char *j = sr_rpm_package_to_json(p, rec); check_json(j); json_object *x = json_tokener_parse_verbose(j, &te);
        sx_assert(sr_rpm_package_from_json(&q, x, rec, &err) == 0 && !err, "the JSON written is refused when loaded"); sx_assert(pkgs_same(p, q), "the packages differ");
        struct sr_rpm_package *z = NULL; sx_assert(sr_rpm_package_from_json(&z, x, !rec, &err) != 0 && !z && err, "a document of the other form is accepted"); g_free(err);
        json_object_put(x); g_free(j); sr_rpm_package_free(p, true); if (q) sr_rpm_package_free(q, true); sx_cover("packages");
    }
    strs_free(&R_.v);
#endif
    sx_assert(sx_live_heap() == live, "memory is lost");
}
