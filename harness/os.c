/* Operating system descriptions (C27). MODE 0: rows of any text, 1: any text after a context, 2: recognised keys, 3: release sentences, 4: any release text. */
#include "gen.h"
#include "operating_system.h"
#include "utils.h"
struct rec { int n; char *k[8], *v[8]; };
static void cb(char *k, char *v, void *d) { struct rec *r = d; if (r->n < 8) { r->k[r->n] = k; r->v[r->n] = v; } r->n++; }
void harness(void)
{
    uint64_t live = sx_live_heap(); struct gb g; gb_init(&g);
#if MODE <= 1
#if MODE == 0
    char *t = sx_str_upto(N, "text");
#else
    static const char *const pre[] = { "A=\"b c\"\nB=", "#x\nA=", "\n\nK='", "A=1\n", "nokey\nA=2\\", "A" }; gb_lit(&g, pre[sx_choice(6, "ctx")]); free(gb_sym(&g, sx_choice(N + 1, "len"), "", "w")); if (sx_choice(2, "more")) gb_lit(&g, "\nZ=z\n"); char *t = gb_text(&g);
#endif
    struct rec r = { 0 }; int n = strlen(t), w = 0; sr_parse_os_release(t, cb, &r);
    for (int i = 0; i < n; ) {
        int e = i; while (e < n && t[e] != '\n') e++;
        int q = i; while (q < e && t[q] != '=') q++;
        if (t[i] != '#' && q < e && q > i) {
            sx_assert(w < r.n, "a row is not delivered"); if (w >= r.n) sx_stop();
            char *v = malloc(e - q + 1); int m = 0; for (int x = q + 1; x < e; x++) { if (t[x] == '\\') { if (++x < e) v[m++] = t[x]; } else if (t[x] != '"' && t[x] != '\'') v[m++] = t[x]; } v[m] = 0;
            sx_assert((int)strlen(r.k[w]) == q - i && !memcmp(r.k[w], t + i, q - i), "a row is delivered with another key"); sx_assert(same(r.v[w], v), "a row is delivered with another value"); free(v); w++;
        }
        i = e + 1;
    }
    sx_assert(w == r.n, "a row is delivered that is not there"); sx_cover(w ? "rows" : "none"); for (int i = 0; i < r.n; i++) { g_free(r.k[i]); g_free(r.v[i]); } free(t);
#elif MODE == 2
    static const char *const key[] = { "ID", "VERSION_ID", "VERSION", "CPE_NAME", "VARIANT_ID", "NAME", "ID_LIKE", "VERSION_I" };
    int n = sx_choice(N + 1, "rows"), k[4], deep = n ? sx_choice(n, "deep") : 0, cnt[8] = { 0 }; char *v[4]; bool raw = false, rawrow[4] = { 0 };
    for (int i = 0; i < n; i++) {
        k[i] = sx_choice(8, "key"); cnt[k[i]]++; gb_lit(&g, key[k[i]]); gb_chr(&g, '='); int q = sx_choice(2, "quote"); if (q) gb_chr(&g, '"'); int b = g.n;
        if (k[i] == 2 && sx_choice(2, "raw")) { gb_lit(&g, "33 (Rawhide)"); raw = rawrow[i] = true; } else if (i == deep) free(gb_sym(&g, sx_choice(L + 1, "len"), "\n\\\"'", "value")); else { gb_chr(&g, 'a' + i); }
        v[i] = g_strndup(g.b + b, g.n - b); if (q) gb_chr(&g, '"'); if (i + 1 < n || sx_choice(2, "nl")) gb_chr(&g, '\n');
    }
    char *t = gb_text(&g); struct sr_operating_system *o = sr_operating_system_new(); bool ok = sr_operating_system_parse_etc_os_release(t, o);
    char **f[] = { &o->name, &o->version, NULL, &o->cpe, &o->variant };
    for (int j = 0; j < 5; j++) if (j != 2) {
        bool any = !cnt[j] && !*f[j]; for (int i = 0; i < n; i++) if (k[i] == j && same(*f[j], v[i])) any = true;      /* a key given twice: either value */
        if (j == 1 && raw) any = same(o->version, "rawhide"); sx_assert(any, "a recognised key is not in its field");
    }
    sx_assert(ok == (o->name && o->version), "the result does not say whether name and version are known"); sx_assert(!o->architecture && !o->desktop && !o->uptime, "another field is filled in");
    sx_cover(raw ? "rawhide" : ok ? "known" : "unknown"); for (int i = 0; i < n; i++) g_free(v[i]); sr_operating_system_free(o); free(t);
#else
    char *nm = (char *)0x10, *ve = (char *)0x10;
#if MODE == 3
    int rh = sx_choice(3, "rhel"); if (rh == 1) gb_lit(&g, "Red Hat Enterprise Linux Server"); else if (rh == 2) gb_lit(&g, "rED hAT eNTERPRISE lINUX"); else free(gb_id(&g, sx_choice(L + 1, "ln"), "azAZ  09", "name"));
    int ne = g.n; gb_lit(&g, " release "); int vb = g.n; int c = sx_choice(4, "version"); if (c) free(gb_id(&g, c, "09..", "version")); int vend = g.n;
    if (c) { static const char *const tail[] = { "", " (Core)", "\n", "x", " release 4" }; gb_lit(&g, tail[sx_choice(5, "tail")]); } else { free(gb_sym(&g, sx_choice(3, "lt"), "0123456789.", "tail")); vend = g.n; }
    char *t = gb_text(&g), *wn = rh ? g_strdup("rhel") : g_strndup(g.b, ne), *wv = g_strndup(g.b + vb, vend - vb); bool form = ne > 0;
#else
    static const char *const pre[] = { "", "ab release", " release", "A releas", "ab" }; gb_lit(&g, pre[sx_choice(5, "ctx")]); char *w = gb_sym(&g, sx_choice(N + 1, "len"), "", "text"), *t = gb_text(&g); free(w);
    char *r = strstr(t, " release "); bool form = r && r != t; char *wn = NULL, *wv = NULL; int e = 0;
    if (form) { wn = g_strndup(t, r - t); r += 9; while ((r[e] >= '0' && r[e] <= '9') || r[e] == '.') e++; if (!e) e = strlen(r); wv = g_strndup(r, e); }
#endif
    if (wn) for (char *p = wn; *p; p++) *p = sx_ite(*p >= 'A' && *p <= 'Z', *p | 32, *p);
    bool ok = sr_operating_system_parse_etc_system_release(t, &nm, &ve); sx_assert(ok == form, ok ? "text that is not a release sentence is accepted" : "a release sentence is refused");
    if (ok) { if (form) { sx_assert(same(nm, wn), "the name is wrong"); sx_assert(same(ve, wv), "the version is wrong"); } g_free(nm); g_free(ve); sx_cover("release"); } else { sx_assert(nm == (char *)0x10 && ve == (char *)0x10, "text is refused but an output is changed"); sx_cover("refused"); }
    g_free(wn); g_free(wv); free(t);
#endif
    sx_assert(sx_live_heap() == live, "memory is lost");
}
