/* Building texts with symbolic parts while remembering what was put in. */
#pragma once
#include "sx.h"
#include <stdio.h>
#include <glib.h>
struct gb { char b[1200]; int n; };
static inline void gb_init(struct gb *g) { g->n = 0; g->b[0] = 0; }
static inline void gb_lit(struct gb *g, const char *s) { while (*s) g->b[g->n++] = *s++; g->b[g->n] = 0; }
static inline void gb_chr(struct gb *g, char c) { g->b[g->n++] = c; g->b[g->n] = 0; }
/* the text as an exactly sized heap string, so that reading past its end is seen */
static inline char *gb_text(struct gb *g) { char *p = malloc(g->n + 1); memcpy(p, g->b, g->n + 1); return p; }
/* n symbolic characters, none from reject (NUL never) */
static inline char *gb_sym(struct gb *g, int n, const char *reject, const char *name)
{
    char *p = sx_str(n, name);
    for (int i = 0; i < n; i++) for (const char *r = reject; *r; r++) sx_assume(p[i] != *r);
    gb_lit(g, p); return p;
}
/* n symbolic characters, all from the ranges in set given as pairs "azAZ09__" */
static inline void in_ranges(char c, const char *rg) { int ok = 0; for (; *rg; rg += 2) ok |= (c >= rg[0]) & (c <= rg[1]); sx_assume(ok); }
static inline char *sym_id(int n, const char *rg, const char *name)
{
    char *p = malloc(n + 1); if (n) sx_make_symbolic(p, n, name); p[n] = 0;
    for (int i = 0; i < n; i++) in_ranges(p[i], rg);
    return p;
}
static inline char *gb_id(struct gb *g, int n, const char *rg, const char *name) { char *p = sym_id(n, rg, name); gb_lit(g, p); return p; }
/* decimal number of exactly n digits, any digits (leading zeros included) */
static inline uint64_t gb_dec(struct gb *g, int n, const char *name)
{
    char *p = sym_id(n, "09", name); uint64_t v = 0;
    for (int i = 0; i < n; i++) v = v * 10 + (unsigned)(p[i] - '0');
    gb_lit(g, p); free(p); return v;
}
static inline uint64_t gb_hex(struct gb *g, int n, const char *name)
{
    char *p = sym_id(n, "09af", name); uint64_t v = 0;
    for (int i = 0; i < n; i++) { unsigned c = (unsigned char)p[i]; v = v * 16 + sx_ite(c <= '9', c - '0', (c | 32) - 'a' + 10); }
    gb_lit(g, p); free(p); return v;
}
static inline bool same(const char *a, const char *b) { if (!a || !b) return !a && !b; return strcmp(a, b) == 0; }
#define KEEP(var, stmt) do { int b_ = g.n; stmt; var = g_strndup(g.b + b_, g.n - b_); } while (0)

/* A valid text t disturbed around one position: k bytes replaced, cut short (with up to k arbitrary bytes), or k bytes inserted. */
static inline char *sx_disturb(const char *t, int k)
{
    int n = strlen(t), pos = sx_choice(n + 1, "pos"), op = sx_choice(3, "op");
    struct gb *g = malloc(sizeof *g); gb_init(g);
    for (int i = 0; i < pos; i++) gb_chr(g, t[i]);
    char *w;
    if (op == 0) { w = sx_str(k, "w"); gb_lit(g, w); for (int i = pos + k; i < n; i++) gb_chr(g, t[i]); }
    else if (op == 1) { w = sx_str_upto(k, "w"); gb_lit(g, w); }
    else { w = sx_str(k, "w"); gb_lit(g, w); for (int i = pos; i < n; i++) gb_chr(g, t[i]); }
    char *r = gb_text(g); free(g); free(w);
    return r;
}
/* whatever is allocated during the call has been released when it is over */
/* the message of a refused Ruby frame may be left to the caller, as the existing tests have it */
#define LOSSLESS_MSG(call) do { uint64_t live_ = sx_live_heap(); call; sx_assert(sx_live_heap() - live_ <= 1, "memory is lost"); } while (0)
#define LOSSLESS(call) do { uint64_t live_ = sx_live_heap(); call; sx_assert(sx_live_heap() == live_, "memory is lost"); } while (0)
