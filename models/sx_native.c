/* Native runtime for harnesses: inputs come from the file named by $SX_INPUT
   (one record per line: name kind count values...). */
#include "sx.h"
#include <stdio.h>
#include <unistd.h>
static FILE *in; static int failed;
static void die(const char *m) { fflush(stdout); fprintf(stderr, "SX-MISMATCH: %s\n", m); fflush(stderr); _exit(77); }
static uint64_t rec[1 << 16]; static int nrec;
static int next(const char *name, int kind)
{
    if (!in) { const char *p = getenv("SX_INPUT"); in = p ? fopen(p, "r") : NULL; if (!in) die("no input"); }
    char nm[256]; int k, n;
    if (fscanf(in, "%255s %d %d", nm, &k, &n) != 3) die("input exhausted");
    if (strcmp(nm, name) || k != kind) { fprintf(stderr, "want %s/%d got %s/%d\n", name, kind, nm, k); die("input order differs"); }
    nrec = n;
    for (int i = 0; i < n && i < (1 << 16); i++) { unsigned long long v; if (fscanf(in, "%llu", &v) != 1) die("input value"); rec[i] = v; }
    return n;
}
static uint64_t scalar(const char *name, int kind) { next(name, kind); return rec[0]; }
uint8_t sx_u8(const char *n) { return scalar(n, 0); }
uint16_t sx_u16(const char *n) { return scalar(n, 0); }
uint32_t sx_u32(const char *n) { return scalar(n, 0); }
uint64_t sx_u64(const char *n) { return scalar(n, 0); }
void sx_make_symbolic(void *p, size_t n, const char *name) { int k = next(name, 1); if ((size_t)k != n) die("array size differs"); for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = rec[i]; }
int sx_choice(int n, const char *name) { uint64_t v = scalar(name, 2); if (v >= (uint64_t)n) die("choice out of range"); return v; }
void sx_assume(int c) { if (!c) die("assumption violated"); }
void sx_assert_(int c, const char *m) { if (!c) { printf("ASSERT-FAIL %s\n", m); fflush(stdout); failed = 1; } }
void sx_fail(const char *m) { sx_assert_(0, m); sx_stop(); }
void sx_cover(const char *t) { printf("COVER %s\n", t); }
void sx_obs_i(const char *n, int64_t v) { printf("OBS %s=%lld\n", n, (long long)v); fflush(stdout); }
void sx_obs_s(const char *n, const char *s)
{
    printf("OBS %s=", n);
    if (!s) puts("NULL");
    else { putchar('\''); for (; *s; s++) { unsigned char c = *s; if (c < 32 || c > 126 || c == '\\') printf("\\x%02x", c); else putchar(c); } puts("'"); }
    fflush(stdout);
}
int sx_is_symbolic(uint64_t v) { return 0; }
uint64_t sx_concretize(uint64_t v) { return v; }
uint64_t sx_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
void __lsan_do_leak_check(void) __attribute__((weak));
void sx_stop(void) { if (getenv("SX_LEAK") && __lsan_do_leak_check) __lsan_do_leak_check(); fflush(stdout); printf("DONE\n"); fflush(stdout); _exit(failed ? 42 : 0); }
int sx_valid_ptr(const void *p, size_t n) { return 1; }
int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void *, size_t), void (*f)(const volatile void *)) __attribute__((weak));
static uint64_t live;
static void mhook(const volatile void *p, size_t n) { if (p) live++; }
static void fhook(const volatile void *p) { if (p) live--; }
uint64_t sx_live_heap(void) { return live; }
extern void harness(void);
int main(void) { static char ob[1 << 16]; setvbuf(stdout, ob, _IOFBF, sizeof ob); const char *p = getenv("SX_INPUT"); in = p ? fopen(p, "r") : NULL; static char ib[1 << 16]; if (in) setvbuf(in, ib, _IOFBF, sizeof ib);
    if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(mhook, fhook);
    harness(); sx_stop(); return 0; }
