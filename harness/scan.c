/* Character-level scanning and number parsing against short reference scanners. */
#include "sx.h"
#include "utils.h"
#ifndef N
#define N 4
#endif
static bool in_set(char c, const char *set) { bool r = false; for (; *set; set++) r |= (*set == c); return r; }
/* reference span: number of leading characters that are (neg: are not) in set */
static int ref_span(const char *s, const char *set, bool neg)
{
    int n = 0;
    while (s[n] && in_set(s[n], set) != neg) n++;
    return n;
}
static bool copy_is(const char *r, const char *s, int n)
{
    for (int i = 0; i < n; i++) if (r[i] != s[i]) return false;
    return r[n] == 0;
}
void harness(void)
{
    char *s = sx_str_upto(N, "s");
    const char *p = s;
#if MODE == 0  /* single characters */
    char c = sx_u8("c");
    char set[3] = { sx_u8("a0"), sx_u8("a1"), 0 };
    char out = 'x';
    bool in = s[0] && in_set(s[0], set);
    switch (sx_choice(5, "op")) {
    case 0: sx_assume(c != 0);
        { bool r = sr_skip_char(&p, c); sx_assert(r == (s[0] == c), "skip_char result"); sx_assert(p == s + (s[0] == c), "skip_char cursor"); } break;
    case 1: { bool r = sr_skip_char_limited(&p, set); sx_assert(r == in, "skip_char_limited result"); sx_assert(p == s + in, "skip_char_limited cursor"); } break;
    case 2: { bool r = sr_parse_char_limited(&p, set, &out); sx_assert(r == in, "parse_char_limited result"); sx_assert(p == s + in, "parse_char_limited cursor"); sx_assert(out == (in ? s[0] : 'x'), "parse_char_limited char"); } break;
    case 3: sx_assume(c != 0);
        { int r = sr_skip_char_sequence(&p, c); int n = 0; while (s[n] == c) n++; sx_assert(r == n, "skip_char_sequence count"); sx_assert(p == s + n, "skip_char_sequence cursor"); sx_cover("sequence"); } break;
    case 4: { char r = sr_parse_digit(&p); bool d = s[0] >= '0' && s[0] <= '9'; sx_assert(r == (d ? s[0] : 0), "parse_digit result"); sx_assert(p == s + d, "parse_digit cursor"); } break;
    }
    sx_cover("single");
#elif MODE == 1  /* spans */
    char set[3] = { sx_u8("a0"), sx_u8("a1"), 0 };
    char *res = NULL;
    switch (sx_choice(6, "op")) {
    case 0: { int n = ref_span(s, set, false); int r = sr_skip_char_span(&p, set); sx_assert(r == n, "skip_char_span count"); sx_assert(p == s + n, "skip_char_span cursor"); } break;
    case 1: { int n = ref_span(s, set, true); int r = sr_skip_char_cspan(&p, set); sx_assert(r == n, "skip_char_cspan count"); sx_assert(p == s + n, "skip_char_cspan cursor"); } break;
    case 2: { int n = ref_span(s, set, false); int r = sr_parse_char_span(&p, set, &res); sx_assert(r == n, "parse_char_span count"); sx_assert(p == s + n, "parse_char_span cursor"); if (n) { sx_assert(copy_is(res, s, n), "parse_char_span text"); g_free(res); } else sx_assert(res == NULL, "parse_char_span touches result"); } break;
    case 3: { int n = ref_span(s, set, true); bool r = sr_parse_char_cspan(&p, set, &res); sx_assert(r == (n > 0), "parse_char_cspan result"); sx_assert(p == s + n, "parse_char_cspan cursor"); if (n) { sx_assert(copy_is(res, s, n), "parse_char_cspan text"); g_free(res); } else sx_assert(res == NULL, "parse_char_cspan touches result"); } break;
    case 4: { int n = 0; while (s[n] == ' ' || (s[n] >= 9 && s[n] <= 13)) n++; sx_assert(sr_skip_whitespace(s) == s + n, "skip_whitespace"); } break;
    case 5: { int n = 0; while (s[n] && !(s[n] == ' ' || (s[n] >= 9 && s[n] <= 13))) n++; sx_assert(sr_skip_non_whitespace(s) == s + n, "skip_non_whitespace"); } break;
    }
    sx_cover("span");
#elif MODE == 2 /* fixed strings */
    char *t = sx_str_upto(N, "t"); char *res = NULL;
    int m = 0; while (t[m] && s[m] == t[m]) m++;
    bool ok = t[m] == 0;
    if (sx_choice(2, "op")) {
        int r = sr_skip_string(&p, t);
        sx_assert(r == (ok ? m : 0), "skip_string count"); sx_assert(p == s + (ok ? m : 0), "skip_string cursor");
    } else {
        bool r = sr_parse_string(&p, t, &res);
        sx_assert(r == ok, "parse_string result"); sx_assert(p == s + (ok ? m : 0), "parse_string cursor");
        if (r) { sx_assert(copy_is(res, t, m), "parse_string text"); g_free(res); } else sx_assert(!res, "parse_string touches result");
    }
    sx_cover("string");
#endif
    free(s);
}
