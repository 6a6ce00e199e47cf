/* Harness API: implemented by the symbolic executor (symx) and, for replay and
   trace validation against the real build, by sx_native.c. */
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
uint8_t  sx_u8(const char *name);
uint16_t sx_u16(const char *name);
uint32_t sx_u32(const char *name);
uint64_t sx_u64(const char *name);
void     sx_make_symbolic(void *p, size_t n, const char *name);
int      sx_choice(int n, const char *name);          /* 0..n-1, every value explored */
void     sx_assume(int cond);
void     sx_assert_(int cond, const char *msg);
void     sx_fail(const char *msg);                    /* assertion that always fails */
void     sx_cover(const char *tag);                   /* vacuity witness */
void     sx_obs_i(const char *name, int64_t v);       /* observation compared with the native run */
void     sx_obs_s(const char *name, const char *s);
int      sx_is_symbolic(uint64_t v);
uint64_t sx_concretize(uint64_t v);
void     sx_stop(void);                               /* end this path normally */
uint64_t sx_live_heap(void);                            /* number of live heap objects */
int      sx_valid_ptr(const void *p, size_t n);         /* n bytes at p lie in one live object (native: always 1) */
uint64_t sx_ite(int c, uint64_t a, uint64_t b);
#define sx_assert(c, msg) sx_assert_(!!(c), msg)

/* A heap string of exactly n characters, none of them NUL, any other byte. */
static inline char *sx_str(size_t n, const char *name)
{
    char *p = malloc(n + 1);
    if (n) sx_make_symbolic(p, n, name);
    for (size_t i = 0; i < n; i++) sx_assume(p[i] != 0);
    p[n] = 0;
    return p;
}
/* As sx_str, every byte drawn from set. */
static inline char *sx_str_of(size_t n, const char *set, const char *name)
{
    char *p = malloc(n + 1);
    if (n) sx_make_symbolic(p, n, name);
    for (size_t i = 0; i < n; i++) { sx_assume(p[i] != 0); sx_assume(strchr(set, p[i]) != NULL); }
    p[n] = 0;
    return p;
}
/* Any length 0..max. */
static inline char *sx_str_upto(size_t max, const char *name) { return sx_str(sx_choice((int)max + 1, "len"), name); }
static inline char *sx_str_of_upto(size_t max, const char *set, const char *name) { return sx_str_of(sx_choice((int)max + 1, "len"), set, name); }
#ifdef __cplusplus
}
#endif
