/* Line/column tracking against counting from the start of the text. */
#include "sx.h"
#include "utils.h"
#include "location.h"
#ifndef N
#define N 5
#endif
/* reference: position of offset n in s */
static void ref_pos(const char *s, int n, int *l, int *c)
{
    *l = 1; *c = 0;
    for (int i = 0; i < n; i++) { if (s[i] == '\n') { (*l)++; *c = 0; } else (*c)++; }
}
void harness(void)
{
    int l = -7, c = -7, rl, rc;
#if MODE == 0
    char *s = sx_str_upto(N, "s"); char ch = sx_u8("c");
    int k = 0; while (s[k] && s[k] != ch) k++;
    char *r = sr_strchr_location(s, ch, &l, &c);
    ref_pos(s, k, &rl, &rc);
    sx_assert(r == (s[k] == ch ? s + k : NULL), "strchr_location result");
    if (r) { sx_assert(l == rl, "strchr_location line"); sx_assert(c == rc, "strchr_location column"); sx_cover("found"); }
    sx_obs_i("l", r ? l : 0); sx_obs_i("c", r ? c : 0);
#elif MODE == 1
    char *s = sx_str_upto(N, "s"), *t = sx_str_upto(NT, "t");
    int n = strlen(s), m = strlen(t), at = -1;
    for (int i = 0; i + m <= n && at < 0; i++) { bool eq = true; for (int j = 0; j < m; j++) eq &= s[i + j] == t[j]; if (eq) at = i; }
    char *r = sr_strstr_location(s, t, &l, &c);
    sx_assert(r == (at >= 0 ? s + at : NULL), "strstr_location result");
    if (at >= 0) { ref_pos(s, at, &rl, &rc); sx_assert(l == rl, "strstr_location line"); sx_assert(c == rc, "strstr_location column"); sx_cover("found"); }
    sx_obs_i("l", r ? l : 0); sx_obs_i("c", r ? c : 0);
#elif MODE == 2
    char *s = sx_str_upto(N, "s"); char set[3] = { sx_u8("a0"), sx_u8("a1"), 0 }; const char *p = s;
    int k = 0; while (s[k] && (s[k] == set[0] || (set[0] && s[k] == set[1]))) k++;
    ref_pos(s, k, &rl, &rc);
    if (sx_choice(2, "op")) { size_t r = sr_strspn_location(s, set, &l, &c); sx_assert(r == k, "strspn_location count"); }
    else { int r = sr_skip_char_span_location(&p, set, &l, &c); sx_assert(r == k, "skip_span_location count"); sx_assert(p == s + k, "skip_span_location cursor"); }
    sx_assert(l == rl, "strspn_location line"); sx_assert(c == rc, "strspn_location column"); sx_cover("span");
#elif MODE == 3
    char *s = sx_str_upto(N, "s"); const char *p = s; int L = (int)(sx_u32("L") & 0xffffff), C = (int)(sx_u32("C") & 0xffffff); l = L; c = C;
    int k = 0; while (s[k] && s[k] != '\n') k++;
    bool r = sr_skip_to_next_line_location(&p, &l, &c);
    sx_assert(r == (s[k] == '\n'), "next_line result"); sx_assert(p == s + k + (s[k] == '\n'), "next_line cursor");
    sx_assert(l == L + (s[k] == '\n'), "next_line line"); sx_assert(c == (s[k] == '\n' ? 0 : C + k), "next_line column"); sx_cover("next");
#elif MODE == 4
    /* position(a b) == position(a) advanced by position(b), whichever interface is used */
    char *s = sx_str_upto(N, "s"); int n = strlen(s), cut = sx_choice(n + 1, "cut"), bl, bc;
    struct sr_location x, y; sr_location_init(&x); sr_location_init(&y);
    sx_assert(x.line == 1 && x.column == 0 && x.message == NULL, "initial location");
    ref_pos(s, n, &rl, &rc); ref_pos(s + cut, n - cut, &bl, &bc);
    for (int i = 0; i < cut; i++) sr_location_eat_char(&x, s[i]);
    sr_location_add(&x, bl, bc);
    sx_assert(x.line == rl, "location_add line"); sx_assert(x.column == rc, "location_add column");
    for (int i = 0; i < n; i++) sr_location_eat_char(&y, s[i]);
    sx_assert(sr_location_cmp(&x, &y, true) == 0, "equal locations compare equal");
    struct sr_location z; ref_pos(s, cut, &z.line, &z.column); z.message = NULL;
    int d = sr_location_cmp(&z, &y, false);
    sx_assert((d < 0) == (cut < n), "earlier location compares smaller"); sx_assert((sr_location_cmp(&y, &z, false) > 0) == (cut < n), "later location compares greater");
    sx_cover("add"); sx_obs_i("l", x.line); sx_obs_i("c", x.column);
#elif MODE == 5
    /* order over arbitrary positions and messages */
    struct sr_location v[3];
    static const char *msg[] = { NULL, "a", "b" };
    for (int i = 0; i < 3; i++) { v[i].line = (int)(sx_u32("l") & 0x7fffffff); v[i].column = (int)(sx_u32("c") & 0x7fffffff); v[i].message = msg[sx_choice(3, "m")]; }
    bool m = sx_choice(2, "withmsg");
    int ab = sr_location_cmp(&v[0], &v[1], m), ba = sr_location_cmp(&v[1], &v[0], m), bc = sr_location_cmp(&v[1], &v[2], m), ac = sr_location_cmp(&v[0], &v[2], m);
    bool lt = v[0].line < v[1].line || (v[0].line == v[1].line && v[0].column < v[1].column), gt = v[0].line > v[1].line || (v[0].line == v[1].line && v[0].column > v[1].column);
    if (lt) sx_assert(ab < 0, "earlier is smaller"); if (gt) sx_assert(ab > 0, "later is greater");
    if (!lt && !gt) sx_assert((ab == 0) == (!m || v[0].message == v[1].message), "equal position");
    sx_assert((ab < 0) == (ba > 0) && (ab == 0) == (ba == 0), "antisymmetric");
    if (ab <= 0 && bc <= 0) sx_assert(ac <= 0, "transitive"); sx_cover("cmp");
#elif MODE == 6
    struct sr_location x; char *msg = sx_choice(2, "has") ? sx_str_upto(3, "msg") : NULL;
    x.line = (int)(sx_u32("l") % 1000); x.column = (int)(sx_u32("c") % 1000); x.message = msg;
    char *t = sr_location_to_string(&x); char *e = msg ? g_strdup_printf("Line %d, column %d: %s", x.line, x.column, msg) : g_strdup_printf("Line %d, column %d", x.line, x.column);
    sx_assert(strcmp(t, e) == 0, "location text"); sx_obs_s("t", t); g_free(t); g_free(e); sx_cover("text");
#endif
}
