/* Text helpers against direct definitions. */
#include "sx.h"
#include "utils.h"
#ifndef N
#define N 4
#endif
void harness(void)
{
#if MODE == 0 /* indent */
    char *s = sx_str_upto(N, "s"); int sp = sx_choice(4, "spaces"); bool first = sx_choice(2, "first");
    char *r = first ? sr_indent(s, sp) : sr_indent_except_first_line(s, sp);
    /* reference: every line that has text (or a newline of its own) after a newline is prefixed */
    int i = 0, o = 0; bool bol = first; bool ok = true;
    for (; s[i]; i++) {
        if (bol) for (int k = 0; k < sp; k++) ok &= r[o++] == ' ';
        ok &= r[o] == s[i]; if (!ok) break; o++;
        /* the first of several newlines in a row only ends its line */
        bol = s[i] == '\n';
    }
    ok = ok && r[o] == 0;
    sx_assert(ok, "indented text"); sx_obs_s("r", r); g_free(r); free(s); sx_cover("indent");
#elif MODE == 1 /* bin2hex */
    int n = sx_choice(N + 1, "n"); char *b = malloc(n ? n : 1), *d = malloc(2 * n + 1); if (n) sx_make_symbolic(b, n, "b");
    char *e = sr_bin2hex(d, b, n); sx_assert(e == d + 2 * n, "bin2hex end"); *e = 0;
    for (int i = 0; i < n; i++) { unsigned char c = b[i]; unsigned h = c >> 4, l = c & 15; sx_assert(d[2 * i] == (char)sx_ite(h < 10, '0' + h, 'a' + h - 10), "high digit"); sx_assert(d[2 * i + 1] == (char)sx_ite(l < 10, '0' + l, 'a' + l - 10), "low digit"); }
    free(b); free(d); sx_cover("hex");
#elif MODE == 2 /* build_path */
    char *a = sx_str_upto(2, "a"), *b = sx_str_upto(2, "b"), *c = sx_str_upto(2, "c"); int k = sx_choice(3, "k");
    char *r = k == 0 ? sr_build_path(a, NULL) : k == 1 ? sr_build_path(a, b, NULL) : sr_build_path(a, b, c, NULL);
    char *e = k == 0 ? g_strdup(a) : k == 1 ? g_strconcat(a, "/", b, NULL) : g_strconcat(a, "/", b, "/", c, NULL);
    sx_assert(strcmp(r, e) == 0, "joined path"); sx_obs_s("r", r); g_free(r); g_free(e); sx_cover("path");
#elif MODE == 3 /* struniq: one of each run of equal neighbours, in order */
    int n = sx_choice(N + 1, "n"); char buf[N][2]; char *v[N + 1], *orig[N + 1]; size_t sz = n;
    for (int i = 0; i < n; i++) { buf[i][0] = 'a' + sx_choice(2, "e"); buf[i][1] = 0; orig[i] = v[i] = buf[i]; }
    v[n] = (char *)1;
    sr_struniq(v, &sz);
    size_t k = 0; bool ok = true;
    for (int i = 0; i < n; i++) if (i == 0 || strcmp(orig[i], orig[i - 1])) { ok &= k < sz && !strcmp(v[k], orig[i]); k++; }
    sx_assert(ok && k == sz, "unique runs"); sx_assert(v[n] == (char *)1, "writes past the array"); sx_cover("uniq");
#elif MODE == 4 /* anonymize_path */
    static const char pre[] = "/home/"; int pl = sx_choice(7, "prefix"); char *t = sx_str_upto(N, "t"); char *s = malloc(pl + strlen(t) + 1); memcpy(s, pre, pl); strcpy(s + pl, t); char *copy = strdup(s);
    char *in = g_strdup(s); char *r = anonymize_path(in);
    bool home = strlen(s) >= 6 && !strncmp(s, pre, 6); char *slash = home ? strchr(s + 6, '/') : NULL;
    if (slash) { char *e = g_strconcat("/home/anonymized", slash, NULL); sx_assert(!strcmp(r, e), "user name replaced, rest kept"); g_free(e); sx_cover("home"); }
    else { sx_assert(!strcmp(r, copy), "other paths unchanged"); sx_cover("other"); }
    sx_obs_s("r", r); g_free(r); sx_assert(anonymize_path(NULL) == NULL, "no path");
#elif MODE == 5 /* ptrstrcmp */
    char a[3] = { sx_u8("a0"), sx_u8("a1"), 0 }, b[3] = { sx_u8("b0"), sx_u8("b1"), 0 }; const char *pa = sx_choice(2, "na") ? NULL : a, *pb = sx_choice(2, "nb") ? NULL : b;
    int x = sr_ptrstrcmp(&pa, &pb), y = sr_ptrstrcmp(&pb, &pa); int e = pa && pb ? strcmp(a, b) : !pa && !pb ? 0 : pa ? 1 : -1;
    sx_assert((x > 0) == (e > 0) && (x < 0) == (e < 0), "order of strings"); sx_assert((y > 0) == (e < 0) && (y < 0) == (e > 0), "reverse order"); sx_cover("cmp");
#endif
}
