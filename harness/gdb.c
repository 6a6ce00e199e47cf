/* gdb backtraces: safety on any text, fidelity on generated ones. */
#include "gen.h"
#include "utils.h"
#include "location.h"
#include "gdb/frame.h"
#include "gdb/thread.h"
#include "gdb/stacktrace.h"
#include "gdb/sharedlib.h"
#ifndef N
#define N 3
#endif
#ifndef K
#define K 1
#endif
static void look_frame(struct sr_gdb_frame *f)
{
    sx_obs_s("fn", f->function_name); sx_obs_s("ty", f->function_type); sx_obs_s("src", f->source_file); sx_obs_i("no", f->number); sx_obs_i("ln", f->source_line); sx_obs_i("ad", f->address); sx_obs_i("sig", f->signal_handler_called);
    sx_assert(f->signal_handler_called == (f->function_name == NULL), "frame has either a function name or the signal mark");
}
static void check_parse(char *s)
{
    int n = strlen(s); const char *p = s; struct sr_location loc; sr_location_init(&loc);
    struct sr_gdb_stacktrace *st = sr_gdb_stacktrace_parse(&p, &loc);
    if (!st) { sx_assert(p == s, "cursor moved although parsing failed"); sx_assert(loc.message != NULL, "failure without message"); sx_cover("refused"); return; }
    sx_assert(p > s && p <= s + n, "cursor outside the text"); sx_assert(st->threads != NULL, "no threads");
    if (st->crash) { look_frame(st->crash); sx_assert(!st->crash->next, "crash frame sibling"); }
    for (struct sr_gdb_thread *t = st->threads; t; t = t->next) { sx_obs_i("thr", t->number); sx_obs_i("tid", t->tid); sx_assert(t->frames != NULL, "thread without frames"); for (struct sr_gdb_frame *f = t->frames; f; f = f->next) look_frame(f); }
    for (struct sr_gdb_sharedlib *l = st->libs; l; l = l->next) sx_obs_s("lib", l->soname);
    sr_gdb_stacktrace_free(st); sx_cover("parsed");
}
static void check_thread(char *s)
{
    int n = strlen(s); const char *p = s; struct sr_location loc; sr_location_init(&loc);
    struct sr_gdb_thread *t = sr_gdb_thread_parse(&p, &loc);
    if (!t) { sx_assert(p == s, "thread: cursor moved although parsing failed"); sx_assert(loc.message != NULL, "failure without message"); sx_cover("refused"); return; }
    sx_assert(p > s && p <= s + n, "thread: cursor outside the text"); sx_assert(t->frames && !t->next, "thread without frames"); sx_obs_i("thr", t->number); sx_obs_i("tid", t->tid);
    for (struct sr_gdb_frame *f = t->frames; f; f = f->next) look_frame(f);
    sr_gdb_thread_free(t); sx_cover("parsed");
}
static void check_frame(char *s)
{
    int n = strlen(s); const char *p = s; struct sr_location loc; sr_location_init(&loc);
    struct sr_gdb_frame *f = sr_gdb_frame_parse(&p, &loc);
    if (!f) { sx_assert(p == s, "frame: cursor moved although parsing failed"); sx_assert(loc.message != NULL, "failure without message"); sx_cover("refused"); return; }
    sx_assert(p > s && p <= s + n, "frame: cursor outside the text"); sx_assert(!f->next, "frame sibling"); look_frame(f); sr_gdb_frame_free(f); sx_cover("parsed");
}
#define NPARTS 13
static void check_part(int part, char *s)
{
    int n = strlen(s); const char *p = s; struct sr_location loc; sr_location_init(&loc); int r = 0, counted = 0; uint32_t u = 0; uint64_t a = 0; char *x = NULL, *y = NULL;
    switch (part) {
    case 0: counted = 1; r = sr_gdb_frame_parse_frame_start(&p, &u); break;
    case 1: { GString *g = g_string_new(NULL); counted = 1; r = sr_gdb_frame_parseadd_operator(&p, g); sx_assert(r == 0 || (int)g->len == r, "operator: appended text"); x = g_string_free(g, FALSE); } break;
    case 2: counted = 1; r = sr_gdb_frame_parse_function_name_chunk(&p, false, &x); break;
    case 3: counted = 1; r = sr_gdb_frame_parse_function_name_chunk(&p, true, &x); break;
    case 4: counted = 1; r = sr_gdb_frame_parse_function_name_braces(&p, &x); break;
    case 5: counted = 1; r = sr_gdb_frame_parse_function_name_template(&p, &x); break;
    case 6: counted = 1; r = sr_gdb_frame_parse_function_name_template_args(&p, &x); break;
    case 7: r = sr_gdb_frame_parse_function_name(&p, &x, &y, &loc); break;
    case 8: r = sr_gdb_frame_skip_function_args(&p, &loc); break;
    case 9: r = sr_gdb_frame_parse_function_call(&p, &x, &y, &loc); break;
    case 10: r = sr_gdb_frame_parse_address_in_function(&p, &a, &x, &y, &loc); break;
    case 11: r = sr_gdb_frame_parse_file_location(&p, &x, &u, &loc); break;
    case 12: counted = 1; r = sx_choice(2, "skip") ? sr_gdb_thread_skip_lwp(&p) : sr_gdb_thread_parse_lwp(&p, &u); break;
    }
    sx_assert(p >= s && p <= s + n, "part: cursor outside the text");
    if (counted) sx_assert(p - s == r, "part: reported count differs from the cursor");
    if (r) { sx_assert(p > s, "part: nothing consumed"); if (part >= 2 && part <= 6) sx_assert((int)strlen(x) == r && !strncmp(x, s, r), "part: text is not what was consumed"); sx_obs_s("x", x); sx_obs_s("y", y); sx_obs_i("u", u); sx_obs_i("a", part == 10 ? a : 0); sx_cover("parsed"); }
    else { sx_assert(p == s, "part: cursor moved although refused"); if (!counted) sx_assert(loc.message != NULL, "failure without message"); sx_cover("refused"); }
    sx_obs_i("at", p - s);
    if (r || part == 1) { g_free(x); g_free(y); }
}
/* ---- generator of one frame */
struct exp { bool sig; uint32_t no; uint64_t addr; char *fn, *ty, *src; uint32_t line; };
static void gb_name(struct gb *g, int rich, char **out)
{
    int b = g->n;
    switch (rich ? sx_choice(7, "name") : 0) {
    case 0: gb_id(g, 1, "azAZ__..~~", "f1"); gb_id(g, rich ? sx_choice(N + 1, "fl") : 0, "azAZ09__::~~@@", "f"); break;
    case 1: gb_lit(g, "ns::"); gb_id(g, 1, "azAZ__", "f1"); gb_lit(g, "<"); gb_id(g, sx_choice(N + 1, "tl"), "azAZ09::  **&&,,", "t"); gb_lit(g, ">::g"); break;
    case 2: gb_lit(g, "(anonymous namespace)::"); gb_id(g, 1, "azAZ__", "f1"); break;
    case 3: { static const char *op[] = { "<", "<<", "->*", "()", "[]", " new[]", " delete", ",", "==", ">>=", "!" }; gb_lit(g, "C::operator"); gb_lit(g, op[sx_choice(11, "op")]); } break;
    case 4: gb_id(g, 1, "azAZ__", "f1"); gb_lit(g, "(int, char const*) const"); break;
    case 5: gb_lit(g, "f<(a)1, b<"); gb_id(g, 1, "azAZ09", "f1"); gb_lit(g, "> [with T = x[2]]>"); break;
    case 6: gb_lit(g, "*"); gb_id(g, 1, "azAZ__", "f1"); gb_lit(g, "[2]"); break;
    }
    *out = g_strndup(g->b + b, g->n - b);
}
static void gb_args(struct gb *g, int rich)
{
    gb_lit(g, "(");
    switch (rich ? sx_choice(5, "args") : sx_choice(2, "args")) {
    case 0: break;
    case 1: gb_lit(g, "a="); gb_sym(g, 1 + (rich ? sx_choice(N, "al") : 0), "()\"\n\\", "a"); break;
    case 2: gb_lit(g, "s=0x1 \""); { char *p = gb_sym(g, 1 + sx_choice(N, "al"), "\"\n\\", "a"); } gb_lit(g, "\\\"x)(\"..., b=1"); break;
    case 3: gb_lit(g, "c=@0x1, \n    d=(int (*)("); gb_sym(g, sx_choice(N, "al"), "()\"\n\\", "a"); gb_lit(g, ")) 0x2"); break;
    case 4: gb_lit(g, "s=\""); gb_sym(g, 1, "\"\n\\", "a"); gb_lit(g, "\\\\\""); break;
    }
    gb_lit(g, ")");
}
/* rich selects the part that is varied in depth: 1 number and address, 2 name, 4 arguments, 8 location; the others take a few shapes */
static void gb_frame(struct gb *g, struct exp *e, int rich, int vars)
{
    memset(e, 0, sizeof *e); e->addr = UINT64_MAX; e->line = UINT32_MAX;
    gb_lit(g, "#"); e->no = gb_dec(g, rich & 1 ? 1 + 8 * sx_choice(2, "nd") : 1, "no"); gb_lit(g, rich & 1 && sx_choice(2, "sp") ? " " : "  ");
    if (rich & 1 ? sx_choice(2, "signal") == 0 : !rich && sx_choice(3, "signal") == 0) { e->sig = true; gb_lit(g, "<signal handler called>\n"); e->addr = UINT64_MAX; return; }
    if (sx_choice(2, "addr")) { gb_lit(g, "0x"); e->addr = gb_hex(g, rich & 1 ? 1 + sx_choice(16, "hd") : 2, "addr"); sx_assume(e->addr != UINT64_MAX); gb_lit(g, " in "); if (rich & 3 && sx_choice(2, "vt")) gb_lit(g, "vtable for "); }
    if (rich & 2) switch (sx_choice(3, "fk")) {
        case 0: e->ty = sym_id(1 + sx_choice(N + 1, "tyl"), "azAZ__", "ty"); gb_lit(g, e->ty); gb_lit(g, " "); gb_name(g, 0, &e->fn); if (sx_choice(2, "const")) { gb_lit(g, " const"); e->fn = g_strdup_printf("%s const", e->fn); } break;
        case 1: gb_lit(g, "??"); e->fn = "??"; break;
        case 2: gb_name(g, 1, &e->fn); break;
    } else gb_name(g, 0, &e->fn);
    gb_lit(g, rich && sx_choice(2, "wrap") ? "\n    " : " "); gb_args(g, rich & 4);
    switch (sx_choice(4, "loc")) {
    case 0: break;
    case 1: gb_lit(g, " at "); e->src = gb_id(g, 1 + (rich & 8 ? sx_choice(N + 2, "sl") : 0), "azAZ09__//..++--", "src"); gb_lit(g, ":"); e->line = gb_dec(g, rich & 8 ? 1 + sx_choice(9, "ld") : 1, "line"); break;
    case 2: gb_lit(g, rich & 8 ? "\n    at " : " at "); e->src = gb_id(g, 1 + (rich & 8 ? sx_choice(N + 2, "sl") : 0), "azAZ09", "src"); break;
    case 3: gb_lit(g, " from /usr/lib64/lib"); gb_id(g, 1, "azAZ09", "so"); gb_lit(g, rich & 8 && sx_choice(2, "so") ? ".so" : ".so.6"); break;
    }
    gb_lit(g, "\n");
    if (vars) { gb_lit(g, "        v = "); gb_sym(g, 1, "\n", "val"); gb_lit(g, "\nNo locals.\n"); }
}
static void check_exp(struct sr_gdb_frame *f, struct exp *e)
{
    sx_assert(f->number == e->no, "frame number"); sx_assert(f->signal_handler_called == e->sig, "signal handler mark");
    if (e->sig) { sx_assert(!f->function_name && !f->function_type && !f->source_file, "signal frame fields"); }
    else {
        sx_assert(same(f->function_name, e->fn), "function name"); sx_assert(same(f->function_type, e->ty), "function type"); sx_assert(f->address == e->addr, "address");
        sx_assert(same(f->source_file, e->src), "source file"); sx_assert(f->source_line == e->line, "source line");
    }
    sx_assert(f->library_name == NULL, "library name"); look_frame(f);
}
void harness(void)
{
#if MODE == 0
    static const char *pre[] = { "\n#0 f (", "\n#0 ", "\nThread 1 ", "\n#0 f ()\n#1 ", "\n#0 f ()\n\nThread 1 (LWP 1):\n#", "\nThread 1 (Thread ", "" };
    struct gb g; gb_init(&g); gb_lit(&g, pre[sx_choice(7, "pre")]); gb_lit(&g, sx_str_upto(N, "t")); char *s = gb_text(&g); LOSSLESS(check_parse(s)); free(s);
#elif MODE == 1 /* parts, with a telling prefix or none */
    static const char *pre[NPARTS][3] = { { "", "#", "#1" }, { "", "operator", "operator " }, { "", "operator", "aoperator new" }, { "", "operator", "aoperator new" }, { "", "(", "(operator" }, { "", "<", "< [with " }, { "", " [with ", " [with [" },
        { "", "f<", "a const" }, { "", "(", "(\"" }, { "", "f (", "a b " }, { "", "0x1 in ", "0x1 in vtable for " }, { "", " at ", " from /lib" }, { "", "(LWP ", "(LWP 1" } };
    int part = sx_choice(NPARTS, "part"); struct gb g; gb_init(&g); gb_lit(&g, pre[part][sx_choice(3, "pre")]); gb_lit(&g, sx_str_upto(N, "t")); char *s = gb_text(&g); LOSSLESS(check_part(part, s)); free(s);
#elif MODE == 2
    static const char *T[] = { "\n#0  0x1 in f (a=1) at a.c:1\n\nThread 1 (Thread 0x1 (LWP 2)):\n#0  f (a=1) at a.c:1\nNo l\n#1  <signal handler called>\n",
        "\nThread 2 (LWP 3):\n#0  0xf in t f<i>(x) const () from /l.so\n\nThread 1 (Thread 9):\n#0  ?? ()\n" };
    char *s = sx_disturb(T[WHICH], K); LOSSLESS(check_parse(s)); free(s);
#elif MODE == 3
    static const char *T[] = { "#12 0x1f in vtable for t n::f<a(1)> (x=\"(\\\"\", y=(z)) at b/a.c:12\nx = 1\n#13", "#1  (a b)::operator new const (\n (truncated) from /lib/a.so\nThread", "#1  <signal handler called>\n" };
    char *s = sx_disturb(T[WHICH], K); LOSSLESS(check_frame(s)); free(s);
#elif MODE == 6
    char *s = sx_disturb("Thread 12 (Thread 0x1f (LWP 34)):\n#0  f () at a:1\n#1  g ()\n", K); LOSSLESS(check_thread(s)); free(s);
#elif MODE == 4 /* one frame */
    struct gb g; gb_init(&g); struct exp e; int focus = sx_choice(4, "focus"), vars = sx_choice(2, "vars"); gb_frame(&g, &e, 1 << focus, vars); int end = g.n; int tail = sx_choice(2, "tail"); if (tail) gb_lit(&g, "#1  next ()\n");
    char *s = gb_text(&g); const char *p = s; struct sr_location loc; sr_location_init(&loc);
    struct sr_gdb_frame *f = sr_gdb_frame_parse(&p, &loc);
    sx_assert(f != NULL, "valid frame refused"); if (!f) sx_stop();
    sx_assert(p == s + end, "cursor after the frame"); check_exp(f, &e); sr_gdb_frame_free(f); free(s); sx_cover("faithful");
#else /* backtrace with threads */
    struct gb g; gb_init(&g); struct exp c, e[2][2]; int nt = 1 + sx_choice(2, "threads"), nf[2]; uint32_t tn[2], tid[2]; bool hastid[2];
    gb_lit(&g, "Core was generated by `x'.\n"); int crash = sx_choice(2, "crash"), which = sx_choice(nt, "which"); if (crash) { memset(&c, 0, sizeof c); c.addr = 0x1f; c.line = 7; c.fn = "cr"; c.src = "c.c"; gb_lit(&g, "#0  0x1f in cr () at c.c:7\n7\tabort();\n"); }
    for (int t = 0; t < nt; t++) {
        gb_lit(&g, "\nThread "); tn[t] = gb_dec(&g, t ? 1 : 1 + sx_choice(2, "td"), "tn"); gb_lit(&g, " "); hastid[t] = true;
        switch (t == which ? sx_choice(3, "hdr") : 0) {
        case 0: gb_lit(&g, "(Thread 0x7f (LWP "); tid[t] = gb_dec(&g, 9, "tid"); gb_lit(&g, ")):\n"); break;
        case 1: gb_lit(&g, "(LWP "); tid[t] = gb_dec(&g, 2, "tid"); gb_lit(&g, "):\n"); break;
        case 2: gb_lit(&g, "(Thread "); gb_dec(&g, 2, "id"); gb_lit(&g, "):\n"); hastid[t] = false; break;
        }
        nf[t] = t == which ? 1 + sx_choice(2, "frames") : 1;
        for (int i = 0; i < nf[t]; i++) {
            if (t == which && i == nf[t] - 1) { int vars = sx_choice(2, "vars"); gb_frame(&g, &e[t][i], 0, vars); continue; }
            if (t == which && sx_choice(2, "sig")) { memset(&e[t][i], 0, sizeof e[t][i]); e[t][i].sig = true; gb_lit(&g, "#0  <signal handler called>\n"); continue; }
            memset(&e[t][i], 0, sizeof e[t][i]); e[t][i].addr = 0x2a; e[t][i].line = UINT32_MAX; e[t][i].fn = "other"; gb_lit(&g, "#0  0x2a in other (x=1) from /lib/libx.so.1\n");
        }
    }
    char *s = gb_text(&g); const char *p = s; struct sr_location loc; sr_location_init(&loc);
    struct sr_gdb_stacktrace *st = sr_gdb_stacktrace_parse(&p, &loc);
    sx_assert(st != NULL, "valid backtrace refused"); if (!st) sx_stop();
    sx_assert(*p == 0, "whole backtrace consumed"); sx_assert((st->crash != NULL) == crash, "crash frame"); if (crash) check_exp(st->crash, &c);
    struct sr_gdb_thread *t = st->threads;
    for (int i = 0; i < nt; i++, t = t->next) {
        sx_assert(t != NULL, "thread missing"); if (!t) sx_stop();
        sx_assert(t->number == tn[i], "thread number"); sx_assert(t->tid == (hastid[i] ? tid[i] : UINT32_MAX), "thread id");
        struct sr_gdb_frame *f = t->frames;
        for (int j = 0; j < nf[i]; j++, f = f->next) { sx_assert(f != NULL, "frame missing"); if (!f) sx_stop(); check_exp(f, &e[i][j]); }
        sx_assert(f == NULL, "extra frame");
    }
    sx_assert(t == NULL, "extra thread"); sx_assert(st->libs == NULL, "no libraries"); sr_gdb_stacktrace_free(st); free(s); sx_cover("faithful");
#endif
}
