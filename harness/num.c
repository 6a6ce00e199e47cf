/* Integer parsing: value exact over every digit string within the bound, overflow rejected, cursor and result untouched on failure. */
#include "sx.h"
#include "utils.h"
#ifndef LEN
#define LEN 12
#endif
static bool isd(char c) { return (c >= '0') & (c <= '9'); }
static bool isx(char c) { return ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
static unsigned hv(char c) { unsigned l = (unsigned char)c | 32; return sx_ite((c >= '0') & (c <= '9'), (unsigned char)c - '0', l - 'a' + 10); }
#define BASE (KIND < 2 ? 10 : 16)
#define POISON 0x1122334455667788ull
void harness(void)
{
    /* a run of n digits followed by an arbitrary non-digit (or the end) */
    int n = MINLEN + sx_choice(LEN - MINLEN + 1, "len");
    char *s = malloc(n + 2);
    if (n) sx_make_symbolic(s, n, "s");
    char t = sx_u8("t");
#if KIND < 2
    for (int i = 0; i < n; i++) sx_assume(s[i] >= '0' && s[i] <= '9');
    sx_assume(!isd(t));
    sx_assume(t != 0);
#else
    for (int i = 0; i < n; i++) sx_assume(isx(s[i]));
    sx_assume(!isx(t)); sx_assume(t != 0);
#endif
    s[n] = t; s[n + 1] = 0;
    /* exact value, with an overflow flag instead of a wider type */
    uint64_t v = 0, lim = UINT64_MAX / BASE, lrem = UINT64_MAX % BASE; bool over = false;
    for (int i = 0; i < n; i++) {
        unsigned d = hv(s[i]);
        if (i >= 15) over |= (v > lim) | ((v == lim) & (d > lrem)); /* 15 digits always fit */
        v = v * BASE + d;
    }
    const char *p = s;
#if KIND == 0
    uint32_t r = (uint32_t)POISON;
    int c = sr_parse_uint32(&p, &r);
    bool fits = n > 0 && !over && v <= UINT32_MAX;
    sx_assert(c == (fits ? n : 0), "parse_uint32 count");
    sx_assert(p == s + (fits ? n : 0), "parse_uint32 cursor");
    sx_assert(r == (fits ? (uint32_t)v : (uint32_t)POISON), "parse_uint32 value");
#elif KIND == 1
    uint64_t r = POISON;
    int c = sr_parse_uint64(&p, &r);
    bool fits = n > 0 && !over;
    /* the largest value doubles as the failure indication and may be refused */
    sx_assume(over || v != UINT64_MAX);
    sx_assert(c == (fits ? n : 0), "parse_uint64 count");
    sx_assert(p == s + (fits ? n : 0), "parse_uint64 cursor");
    sx_assert(r == (fits ? (uint64_t)v : POISON), "parse_uint64 value");
#elif KIND == 2
    uint64_t r = POISON;
    int c = sr_parse_hexadecimal_uint64(&p, &r);
    bool fits = n > 0 && !over;
    sx_assert(c == (fits ? n : 0), "parse_hex count");
    sx_assert(p == s + (fits ? n : 0), "parse_hex cursor");
    sx_assert(r == (fits ? (uint64_t)v : POISON), "parse_hex value");
#elif KIND == 3
    char *q = malloc(n + 4); q[0] = sx_u8("z"); q[1] = sx_u8("x"); memcpy(q + 2, s, n + 2);
    sx_assume(q[0] != 0); sx_assume(q[1] != 0);
    p = q;
    uint64_t r = POISON;
    int c = sr_parse_hexadecimal_0xuint64(&p, &r);
    bool fits = q[0] == '0' && q[1] == 'x' && n > 0 && !over;
    sx_assert(c == (fits ? n + 2 : 0), "parse_0x count");
    sx_assert(p == q + (fits ? n + 2 : 0), "parse_0x cursor");
    sx_assert(r == (fits ? (uint64_t)v : POISON), "parse_0x value");
    const char *k = q; int sc = sr_skip_hexadecimal_0xuint(&k); bool m = q[0] == '0' && q[1] == 'x' && n > 0;
    sx_assert(sc == (m ? n + 2 : 0), "skip_0x count"); sx_assert(k == q + (m ? n + 2 : 0), "skip_0x cursor");
    free(q);
#endif
#if KIND < 2
    const char *k = s; sx_assert(sr_skip_uint(&k) == n && k == s + n, "skip_uint");
#elif KIND == 2
    const char *k = s; sx_assert(sr_skip_hexadecimal_uint(&k) == n && k == s + n, "skip_hex");
#endif
    if (fits) sx_cover("fits"); else sx_cover("refused");
    sx_obs_i("count", c); sx_obs_i("value", (int64_t)r);
    free(s);
}
