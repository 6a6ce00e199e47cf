#include "fmt.h"
#include "sx.h"
#include <stdbool.h>
#include <string.h>
uint8_t sx_aux_u8(uint64_t value); /* auxiliary variable; the assumptions that follow let it have no other value than the given one */
int sx_same_expr(uint64_t a, uint64_t b); /* the same expression (not: equal values) */
void fb_init(struct fmtbuf *b) { b->cap = 64; b->p = malloc(64); b->len = 0; b->p[0] = 0; }
void fb_put(struct fmtbuf *b, const char *s, size_t n)
{
    if (b->len + n + 1 > b->cap) { while (b->len + n + 1 > b->cap) b->cap *= 2; b->p = realloc(b->p, b->cap); }
    memcpy(b->p + b->len, s, n); b->len += n; b->p[b->len] = 0;
}
static void put1(struct fmtbuf *b, char c) { fb_put(b, &c, 1); }
static const uint64_t p10[20] = {1ull,10ull,100ull,1000ull,10000ull,100000ull,1000000ull,10000000ull,100000000ull,1000000000ull,10000000000ull,100000000000ull,1000000000000ull,10000000000000ull,100000000000000ull,1000000000000000ull,10000000000000000ull,100000000000000000ull,1000000000000000000ull,10000000000000000000ull};
/* digits already introduced for a value */
static struct { uint64_t v; int n; char d[20]; } memo[24]; static int nmemo;
static int dec(uint64_t v, char *out)
{
    int n = 1; char t[20];
    if (!sx_is_symbolic(v)) { n = 0; do { t[n++] = '0' + v % 10; v /= 10; } while (v); for (int i = 0; i < n; i++) out[i] = t[n - 1 - i]; return n; }
    for (int k = 0; k < nmemo; k++) if (sx_same_expr(v, memo[k].v)) { memcpy(out, memo[k].d, memo[k].n); return memo[k].n; }
    while (n < 20 && v >= p10[n]) n++;
    uint64_t acc = 0;
    for (int i = 0; i < n; i++) {
        char c = sx_aux_u8('0' + v / p10[n - 1 - i] % 10); out[i] = c; unsigned d = c - '0'; sx_assume(c >= '0'); sx_assume(c <= '9');
        if (i == 19) { sx_assume(acc <= UINT64_MAX / 10); sx_assume(acc * 10 <= UINT64_MAX - d); }
        acc = acc * 10 + d; if (i < 19) sx_assume(acc < p10[i + 1]);
        if (i == 0 && n > 1) sx_assume(c > '0');
    }
    sx_assume(acc == v);
    if (nmemo < 24) { memo[nmemo].v = v; memo[nmemo].n = n; memcpy(memo[nmemo++].d, out, n); }
    return n;
}
/* the value of a run of n digits that was written by dec() */
int fb_undec(const char *q, int n, uint64_t *v)
{
    for (int k = 0; k < nmemo; k++) if (memo[k].n == n && sx_same_expr(q[0], memo[k].d[0])) { int i = 1; while (i < n && sx_same_expr(q[i], memo[k].d[i])) i++; if (i == n) { *v = memo[k].v; return 1; } }
    return 0;
}
void fb_vfmt(struct fmtbuf *b, const char *f, va_list ap)
{
    for (; *f; f++) {
        if (*f != '%') { const char *e = f; while (*e && *e != '%') e++; fb_put(b, f, e - f); f = e - 1; continue; }
        f++;
        if (*f == '%') { put1(b, '%'); continue; }
        bool zero = false, left = false, alt = false, plus = false; int width = 0, prec = -1, lng = 0;
        for (;; f++) { if (*f == '0') zero = true; else if (*f == '-') left = true; else if (*f == '#') alt = true; else if (*f == '+') plus = true; else if (*f == ' ') ; else break; }
        if (*f == '*') { width = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
        for (;; f++) { if (*f == 'l') lng++; else if (*f == 'z' || *f == 'j' || *f == 't' || *f == 'q' || *f == 'L') lng = 2; else if (*f == 'h') lng--; else break; }
        char tmp[32]; const char *s = tmp; size_t n = 0; bool neg = false, num = true;
        switch (*f) {
        case 's': s = va_arg(ap, const char *); num = false; if (!s) s = "(null)"; if (prec >= 0) { while (n < (size_t)prec && s[n]) n++; } else n = strlen(s); break;
        case 'c': tmp[0] = (char)va_arg(ap, int); n = 1; num = false; break;
        case 'd': case 'i': { int64_t v = lng > 0 ? va_arg(ap, int64_t) : va_arg(ap, int); if (lng == -1) v = (short)v; if (lng == -2) v = (signed char)v; uint64_t u = v; if (v < 0) { neg = true; u = -u; } n = dec(u, tmp); break; }
        case 'u': { uint64_t v = lng > 0 ? va_arg(ap, uint64_t) : va_arg(ap, unsigned); if (lng == -1) v = (unsigned short)v; if (lng == -2) v = (unsigned char)v; n = dec(v, tmp); break; }
        case 'x': case 'X': case 'p': { uint64_t v = *f == 'p' || lng > 0 ? va_arg(ap, uint64_t) : va_arg(ap, unsigned); if (lng == -1) v = (unsigned short)v; if (lng == -2) v = (unsigned char)v;
            const char *hx = *f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef"; n = 1; while (n < 16 && (v >> (4 * n))) n++;
            for (size_t i = 0; i < n; i++) { unsigned d = (v >> (4 * (n - 1 - i))) & 15; tmp[i] = sx_is_symbolic(d) ? (char)sx_ite(d < 10, '0' + d, hx[10] + d - 10) : hx[d]; } break; }
        case 'f': case 'g': case 'e': (void)va_arg(ap, double); tmp[0] = '?'; n = 1; break;
        default: sx_fail("model: unsupported conversion"); return;
        }
        size_t extra = neg || plus; bool fp = false;
        size_t pad = (size_t)width > n + extra ? width - n - extra : 0;
        if (num && prec >= 0 && (size_t)prec > n) { size_t z = prec - n; pad = (size_t)width > n + z + extra ? width - n - z - extra : 0; if (!left) while (pad) { put1(b, ' '); pad--; } if (neg) put1(b, '-'); while (z--) put1(b, '0'); fb_put(b, s, n); while (pad) { put1(b, ' '); pad--; } continue; }
        (void)fp;
        if (!left && !(zero && num)) while (pad) { put1(b, ' '); pad--; }
        if (neg) put1(b, '-'); else if (plus && num) put1(b, '+');
        if (alt && (*f == 'x')) fb_put(b, "0x", 2);
        if (!left && zero && num) while (pad) { put1(b, '0'); pad--; }
        fb_put(b, s, n);
        while (pad) { put1(b, ' '); pad--; }
    }
}
