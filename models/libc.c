/* libc model, written from the C standard's specification of each function. */
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdio.h>
#include <string.h>
#include <strings.h>
#include <stdlib.h>
#include <ctype.h>
#include <errno.h>
#include <limits.h>
#include "sx.h"
#include "fmt.h"
#undef errno
static int g_errno;
int *__errno_location(void) { return &g_errno; }
#define errno g_errno
size_t strlen(const char *s) { const char *p = s; while (*p) p++; return p - s; }
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
char *strcpy(char *d, const char *s) { memcpy(d, s, strlen(s) + 1); return d; }
char *stpcpy(char *d, const char *s) { size_t n = strlen(s); memcpy(d, s, n + 1); return d + n; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strncat(char *d, const char *s, size_t n) { size_t k = strlen(d), i = 0; for (; i < n && s[i]; i++) d[k + i] = s[i]; d[k + i] = 0; return d; }
char *strrchr(const char *s, int c) { const char *r = NULL; for (;; s++) { if (*s == (char)c) r = s; if (!*s) break; } return (char *)r; }
char *rindex(const char *s, int c) { return strrchr(s, c); }
char *strchrnul(const char *s, int c) { while (*s && *s != (char)c) s++; return (char *)s; }
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void *)(p + i); return NULL; }
void *memrchr(const void *s, int c, size_t n) { const unsigned char *p = s; for (size_t i = n; i-- > 0;) if (p[i] == (unsigned char)c) return (void *)(p + i); return NULL; }
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
void *__memcpy_chk(void *d, const void *s, size_t n, size_t z) { return memcpy(d, s, n); }
char *strstr(const char *h, const char *n)
{
    size_t k = strlen(n);
    for (;; h++) { if (strncmp(h, n, k) == 0) return (char *)h; if (!*h) return NULL; }
}
char *strcasestr(const char *h, const char *n)
{
    size_t k = strlen(n);
    for (;; h++) { if (strncasecmp(h, n, k) == 0) return (char *)h; if (!*h) return NULL; }
}
static inline bool inset(char c, const char *set) { return c && strchr(set, c); }
size_t strspn(const char *s, const char *set) { size_t i = 0; while (inset(s[i], set)) i++; return i; }
size_t strcspn(const char *s, const char *set) { size_t i = 0; while (s[i] && !strchr(set, s[i])) i++; return i; }
char *strpbrk(const char *s, const char *set) { s += strcspn(s, set); return *s ? (char *)s : NULL; }
static inline int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int (tolower)(int c) { return low(c); }
int (toupper)(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int strcasecmp(const char *a, const char *b) { for (;; a++, b++) { int x = low((unsigned char)*a), y = low((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { int x = low((unsigned char)*a), y = low((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); memcpy(p, s, n); return p; }
char *strndup(const char *s, size_t n) { n = strnlen(s, n); char *p = malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
char *strtok_r(char *s, const char *d, char **sv) { if (!s) s = *sv; s += strspn(s, d); if (!*s) { *sv = s; return NULL; } char *e = s + strcspn(s, d); if (*e) *e++ = 0; *sv = e; return s; }
static char *tok_sv; char *strtok(char *s, const char *d) { return strtok_r(s, d, &tok_sv); }
char *strsep(char **sp, const char *d) { char *s = *sp; if (!s) return NULL; char *e = s + strcspn(s, d); if (*e) { *e = 0; *sp = e + 1; } else *sp = NULL; return s; }
char *strerror(int e) { return "error"; }
char *basename(const char *p) { char *s = strrchr(p, '/'); return s ? s + 1 : (char *)p; }

/* ctype ("C" locale) */
#define TB(c) ((c) >= 0 && (c) < 256)
static inline int dig(int c) { return c >= '0' && c <= '9'; }
static inline int upp(int c) { return c >= 'A' && c <= 'Z'; }
static inline int lo_(int c) { return c >= 'a' && c <= 'z'; }
static inline int spc(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int (isdigit)(int c) { return dig(c); }
int (isalpha)(int c) { return upp(c) | lo_(c); }
int (isalnum)(int c) { return upp(c) | lo_(c) | dig(c); }
int (isspace)(int c) { return spc(c); }
int (isupper)(int c) { return upp(c); }
int (islower)(int c) { return lo_(c); }
int (isxdigit)(int c) { return dig(c) | (c >= 'a' && c <= 'f') | (c >= 'A' && c <= 'F'); }
int (isprint)(int c) { return c >= 32 && c < 127; }
int (isgraph)(int c) { return c > 32 && c < 127; }
int (ispunct)(int c) { return c > 32 && c < 127 && !isalnum(c); }
int (iscntrl)(int c) { return (c >= 0 && c < 32) || c == 127; }
int (isblank)(int c) { return c == ' ' || c == '\t'; }
/* strto*: value in v, sign in neg; over on 64-bit overflow of the magnitude */
static bool numscan(const char *s, char **end, int base, uint64_t *v, bool *neg, bool *over)
{
    const char *p = s; *v = 0; *neg = false; *over = false;
    while (spc((unsigned char)*p)) p++;
    if (*p == '-') { *neg = true; p++; } else if (*p == '+') p++;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && (isxdigit)((unsigned char)p[2])) { p += 2; base = 16; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    uint64_t lim = UINT64_MAX / base, lrem = UINT64_MAX % base, acc = 0; int nd = 0; uint64_t ov = 0;
    for (;; p++) {
        unsigned char c = *p; unsigned lc = c | 32;
        unsigned isd = (c >= '0') & (c <= '9'), isl = (lc >= 'a') & (lc <= 'z') & (c >= 'A');
        unsigned d = sx_ite(isd, c - '0', lc - 'a' + 10);
        if (!((isd | isl) & (d < (unsigned)base))) break;
        nd++;
        if (nd > 15) ov |= (acc > lim) | ((acc == lim) & (d > lrem));
        acc = acc * base + d;
    }
    *v = acc; if (nd > 15) *over = !!ov;
    if (end) *end = (char *)(nd ? p : s);
    return nd > 0;
}
unsigned long strtoul(const char *s, char **e, int b) { uint64_t v; bool n, o; numscan(s, e, b, &v, &n, &o); if (o) { errno = ERANGE; return ULONG_MAX; } return n ? -v : v; }
unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
long strtol(const char *s, char **e, int b)
{
    uint64_t v; bool n, o; numscan(s, e, b, &v, &n, &o);
    if (o || (n ? v > (uint64_t)LONG_MAX + 1 : v > LONG_MAX)) { errno = ERANGE; return n ? LONG_MIN : LONG_MAX; }
    return n ? (long)-v : (long)v;
}
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
uintmax_t strtoumax(const char *s, char **e, int b) { return strtoul(s, e, b); }
intmax_t strtoimax(const char *s, char **e, int b) { return strtol(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, NULL, 10); }
long atol(const char *s) { return strtol(s, NULL, 10); }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }

/* sscanf: %x %u %d %i %s %c %n %* with l/ll/L/h/hh/j/z and widths; %[set] */
static int vscan(const char *s, const char *f, va_list ap)
{
    const char *s0 = s; int n = 0;
    for (; *f; f++) {
        if (spc((unsigned char)*f)) { while (spc((unsigned char)*s)) s++; continue; }
        if (*f != '%') { if (*s != *f) return *s ? n : (n ? n : -1); s++; continue; }
        f++; bool skip = false; int w = 0; int sz = 4;
        if (*f == '%') { while (spc((unsigned char)*s)) s++; if (*s != '%') return n; s++; continue; }
        if (*f == '*') { skip = true; f++; }
        while (dig(*f)) w = w * 10 + (*f++ - '0');
        for (;; f++) { if (*f == 'l' || *f == 'L' || *f == 'j' || *f == 'z' || *f == 't' || *f == 'q') sz = 8; else if (*f == 'h') sz = sz == 2 ? 1 : 2; else break; }
        if (*f == 'n') { if (!skip) *va_arg(ap, int *) = (int)(s - s0); continue; }
        if (*f == 'c') { int k = w ? w : 1; char *d = skip ? NULL : va_arg(ap, char *); for (int i = 0; i < k; i++) { if (!*s) return n ? n : -1; if (d) d[i] = *s; s++; } if (!skip) n++; continue; }
        if (*f == '[') {
            f++; bool inv = false; if (*f == '^') { inv = true; f++; } const char *b = f; if (*f == ']') f++; while (*f && *f != ']') f++;
            char *d = skip ? NULL : va_arg(ap, char *); int k = 0;
            for (;; s++) { if (!*s || (w && k >= w)) break; bool m = false; for (const char *q = b; q < f; q++) { if (q + 2 < f && q[1] == '-') { if (*s >= q[0] && *s <= q[2]) m = true; q += 2; } else if (*q == *s) m = true; } if (m == inv) break; if (d) d[k] = *s; k++; }
            if (!k) return n || *s ? n : -1; if (d) d[k] = 0; if (!skip) n++; continue; }
        while (spc((unsigned char)*s)) s++;
        if (!*s) return n ? n : -1;
        if (*f == 's') { char *d = skip ? NULL : va_arg(ap, char *); int k = 0; while (*s && !spc((unsigned char)*s) && (!w || k < w)) { if (d) d[k] = *s; k++; s++; } if (d) d[k] = 0; if (!skip) n++; continue; }
        int base = (*f == 'x' || *f == 'X' || *f == 'p') ? 16 : *f == 'i' ? 0 : *f == 'o' ? 8 : 10; char *e; uint64_t v; bool neg, o;
        if (base == 16 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && !(isxdigit)((unsigned char)s[2])) { return n; }
        if (!numscan(s, &e, base, &v, &neg, &o)) return n; if (o) v = UINT64_MAX; else if (neg) v = -v; s = e;
        if (skip) continue; n++;
        void *d = va_arg(ap, void *); if (sz == 8) *(uint64_t *)d = v; else if (sz == 4) *(uint32_t *)d = v; else if (sz == 2) *(uint16_t *)d = v; else *(uint8_t *)d = v;
    }
    return n;
}
int sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vscan(s, f, ap); va_end(ap); return r; }
int __isoc23_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vscan(s, f, ap); va_end(ap); return r; }

/* printf family */
static int tobuf(char *d, size_t n, const char *f, va_list ap) { struct fmtbuf b; fb_init(&b); fb_vfmt(&b, f, ap); if (n) { size_t k = b.len < n - 1 ? b.len : n - 1; memcpy(d, b.p, k); d[k] = 0; } int r = (int)b.len; free(b.p); return r; }
int vsnprintf(char *d, size_t n, const char *f, va_list ap) { return tobuf(d, n, f, ap); }
int snprintf(char *d, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = tobuf(d, n, f, ap); va_end(ap); return r; }
int sprintf(char *d, const char *f, ...) { va_list ap; va_start(ap, f); int r = tobuf(d, (size_t)1 << 20, f, ap); va_end(ap); return r; }
int vsprintf(char *d, const char *f, va_list ap) { return tobuf(d, (size_t)1 << 20, f, ap); }
int __snprintf_chk(char *d, size_t n, int fl, size_t z, const char *f, ...) { va_list ap; va_start(ap, f); int r = tobuf(d, n, f, ap); va_end(ap); return r; }
int vasprintf(char **o, const char *f, va_list ap) { struct fmtbuf b; fb_init(&b); fb_vfmt(&b, f, ap); *o = b.p; return (int)b.len; }
int asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int r = vasprintf(o, f, ap); va_end(ap); return r; }
/* output streams: discarded */
int printf(const char *f, ...) { return 0; }
int fprintf(FILE *s, const char *f, ...) { return 0; }
int vfprintf(FILE *s, const char *f, va_list ap) { return 0; }
int vprintf(const char *f, va_list ap) { return 0; }
int puts(const char *s) { return 0; }
int fputs(const char *s, FILE *f) { return 0; }
int fputc(int c, FILE *f) { return c; }
int putc(int c, FILE *f) { return c; }
int putchar(int c) { return c; }
int fflush(FILE *f) { return 0; }
static char g_stderr_[8], g_stdout_[8];
#undef stderr
#undef stdout
FILE *stderr = (FILE *)g_stderr_, *stdout = (FILE *)g_stdout_;
void perror(const char *s) {}
char *getenv(const char *n) { return NULL; }
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) { abort(); }
void __stack_chk_fail(void) { abort(); }

/* insertion sort: stable, as glibc's merge sort is for these sizes */
void qsort(void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
    char *a = b; char *t = malloc(sz ? sz : 1);
    for (size_t i = 1; i < n; i++) {
        memcpy(t, a + i * sz, sz); size_t j = i;
        while (j > 0 && cmp(a + (j - 1) * sz, t) > 0) { memcpy(a + j * sz, a + (j - 1) * sz, sz); j--; }
        memcpy(a + j * sz, t, sz);
    }
    free(t);
}
void *bsearch(const void *k, const void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
    size_t lo = 0, hi = n;
    while (lo < hi) { size_t m = lo + (hi - lo) / 2; int r = cmp(k, (const char *)b + m * sz); if (r == 0) return (void *)((const char *)b + m * sz); if (r < 0) hi = m; else lo = m + 1; }
    return NULL;
}
