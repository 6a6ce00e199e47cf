/* Java stack traces: safety on any text, fidelity on generated ones. */
#include "gen.h"
#include "utils.h"
#include "location.h"
#include "java/frame.h"
#include "java/thread.h"
#include "java/stacktrace.h"
#ifndef N
#define N 3
#endif
#ifndef K
#define K 1
#endif
static void look_frame(struct sr_java_frame *f)
{
    sx_obs_s("name", f->name); sx_obs_s("file", f->file_name); sx_obs_s("path", f->class_path); sx_obs_s("msg", f->message); sx_obs_i("no", f->file_line); sx_obs_i("fl", f->is_native * 2 + f->is_exception);
}
static void look_frames(struct sr_java_frame *f)
{
    sx_assert(f != NULL && f->is_exception, "a thread starts with its exception");
    for (; f; f = f->next) { look_frame(f); sx_assert(!f->is_exception || f->name, "exception without name"); sx_assert(f->is_exception || !f->message, "call frame with message"); }
}
static void check_parse(char *s, int thread)
{
    int n = strlen(s); const char *p = s; struct sr_location loc; sr_location_init(&loc);
    if (thread) {
        struct sr_java_thread *t = sr_java_thread_parse(&p, &loc);
        if (t) { look_frames(t->frames); sx_obs_s("thread", t->name); sx_assert(t->next == NULL, "thread sibling"); sr_java_thread_free(t); }
        else { sx_assert(p == s, "cursor moved although parsing failed"); sx_assert(loc.message != NULL, "failure without message"); sx_cover("refused"); return; }
    } else {
        struct sr_java_stacktrace *st = sr_java_stacktrace_parse(&p, &loc);
        if (st) { sx_assert(st->threads && !st->threads->next, "one thread"); if (st->threads) look_frames(st->threads->frames); sr_java_stacktrace_free(st); }
        else { sx_assert(p == s, "cursor moved although parsing failed"); sx_assert(loc.message != NULL, "failure without message"); sx_cover("refused"); return; }
    }
    sx_assert(p > s && p <= s + n, "cursor outside the text"); sx_cover("parsed");
}
static void check_frame(char *s, int exc)
{
    int n = strlen(s); const char *p = s; struct sr_location loc; sr_location_init(&loc);
    struct sr_java_frame *f = exc ? sr_java_frame_parse_exception(&p, &loc) : sr_java_frame_parse(&p, &loc);
    if (f) { if (exc) look_frames(f); else { look_frame(f); sx_assert(!f->is_exception, "call frame"); sx_assert(f->next == NULL, "frame sibling"); } sx_assert(p > s && p <= s + n, "frame: cursor outside the text or nothing consumed"); sr_java_frame_free_full(f); sx_cover("parsed"); }
    else { sx_assert(p == s, "frame: cursor moved although parsing failed"); sx_assert(loc.message != NULL, "failure without message"); sx_cover("refused"); }
}
#define LEN(i, nm) ((i) ? 1 : 1 + sx_choice(N, nm))
static void not_ws(char c) { sx_assume(c != ' ' && !(c >= 9 && c <= 13)); }
void harness(void)
{
#if MODE == 0
    char *s = sx_str_upto(N, "s"); LOSSLESS(check_parse(s, sx_choice(2, "api"))); free(s);
#elif MODE == 1
    struct gb g; gb_init(&g); int exc = sx_choice(2, "exc"); if (exc) gb_lit(&g, "E\n"); else gb_lit(&g, "at a"); gb_lit(&g, sx_str_upto(N, "s")); char *s = gb_text(&g); LOSSLESS(check_frame(s, exc)); free(s);
#elif MODE == 2
    static const char *T[] = { "Exception in thread \"m\" E: x\n\tat a(A:1) [jar:file:/j!/A]\nCaused by: F\n\tat b(U)\n\t... 1 more\n",
        "E\n\tat a(A)\n\t... 1\n\tSuppressed: S\n\t\tat q(Q)\nCaused by: F\n at c()\n" };
    char *s = sx_disturb(T[WHICH], K); LOSSLESS(check_parse(s, 0)); free(s);
#elif MODE == 3
    char *s = sx_disturb("\tat a.b(A:12) [jar:http://h/j.jar!/A]\n", K); LOSSLESS(check_frame(s, 0)); free(s);
#elif MODE == 4 /* one frame, everything varied */
    struct gb g; gb_init(&g); char *name, *file = NULL, *path = NULL; uint32_t no = 0; bool native = false;
    gb_lit(&g, "\tat "); name = gb_sym(&g, 1 + sx_choice(N, "nl"), "(\n", "name"); not_ws(name[0]);
    gb_lit(&g, "(");
    switch (sx_choice(5, "src")) {
    case 0: gb_lit(&g, "Native Method"); native = true; break;
    case 1: gb_lit(&g, "Unknown Source"); break;
    case 2: gb_lit(&g, "/home/u/A.java:"); file = "/home/anonymized/A.java"; no = gb_dec(&g, 9, "no"); break;
    case 3: file = gb_sym(&g, 1 + sx_choice(N, "fl"), ":)\n", "file"); break;
    case 4: file = gb_sym(&g, 1 + sx_choice(N, "fl"), ":)\n", "file"); gb_lit(&g, ":"); no = gb_dec(&g, 1 + sx_choice(3, "nd"), "no"); break;
    }
    gb_lit(&g, ")");
    int pl = 1 + sx_choice(N, "pl");
    switch (sx_choice(6, "url")) {
    case 0: break;
    case 1: gb_lit(&g, " [unknown]"); break;
    case 2: gb_lit(&g, " [file:"); path = gb_sym(&g, pl, "]\n", "path"); gb_lit(&g, "]"); break;
    case 3: gb_lit(&g, " [jar:file:"); path = gb_sym(&g, pl, "!\n", "path"); gb_lit(&g, "!/A.class]"); break;
    case 4: { gb_lit(&g, " ["); int b = g.n; gb_lit(&g, "http://"); gb_sym(&g, pl, "]\n", "path"); path = strdup(g.b + b); gb_lit(&g, "]"); } break;
    case 5: { gb_lit(&g, " [jar:"); int b = g.n; gb_lit(&g, "http://"); gb_sym(&g, pl, "!\n", "path"); path = strdup(g.b + b); gb_lit(&g, "!/A.class]"); } break;
    }
    int nl = sx_choice(2, "nl"); if (nl) gb_lit(&g, "\n"); int end = g.n; if (nl) gb_lit(&g, "\tat z(Z)\n");
    char *s = gb_text(&g); const char *p = s; struct sr_location loc; sr_location_init(&loc);
    struct sr_java_frame *f = sr_java_frame_parse(&p, &loc);
    sx_assert(f != NULL, "valid frame refused"); if (!f) sx_stop();
    sx_assert(p == s + end, "cursor after the frame"); sx_assert(same(f->name, name), "method name"); sx_assert(same(f->file_name, file), "file name");
    sx_assert(f->file_line == no, "line number"); sx_assert(f->is_native == native, "native mark"); sx_assert(!f->is_exception && !f->message && !f->next, "plain call frame");
    sx_assert(same(f->class_path, path), "class path"); look_frame(f); sr_java_frame_free(f); sx_cover("faithful"); free(s);
#else /* whole trace */
    struct gb g; gb_init(&g); char *tname = NULL, *en[3], *msg[3], *fn[3][2], *ff[3][2]; int nf[3], lastdots = 0; uint32_t no[3][2];
    if (sx_choice(2, "hdr")) { gb_lit(&g, "Exception in thread \""); tname = gb_sym(&g, sx_choice(N + 1, "tl"), "\"\n", "tname"); gb_lit(&g, "\" "); }
    int ne = 1 + sx_choice(NE, "excs");
    for (int e = 0; e < ne; e++) {
        if (e) gb_lit(&g, "Caused by: ");
        en[e] = gb_sym(&g, e ? 1 : 1 + sx_choice(N, "el"), ": \t\n", "exc"); not_ws(en[e][0]); msg[e] = NULL;
        if (!e && !tname) { sx_assume(en[e][0] != 'E'); }
        switch (sx_choice(3, "msg")) {
        case 1: gb_lit(&g, ": "); msg[e] = gb_sym(&g, e ? 1 : 1 + sx_choice(N, "ml"), "\n", "msg"); not_ws(msg[e][0]); break;
        case 2: gb_lit(&g, ":"); break;
        }
        gb_lit(&g, "\n"); nf[e] = sx_choice(e ? 2 : 3, "frames");
        for (int i = 0; i < nf[e]; i++) {
            gb_lit(&g, i ? "    at " : "\tat "); fn[e][i] = gb_sym(&g, 1, "(\n", "name"); not_ws(fn[e][i][0]);
            gb_lit(&g, "("); ff[e][i] = gb_sym(&g, 1, ":)\n", "file"); gb_lit(&g, ":"); no[e][i] = gb_dec(&g, 1, "no"); gb_lit(&g, ")\n");
        }
        lastdots = e || e + 1 < ne ? sx_choice(2, "dots") : 0;
        if (lastdots) gb_lit(&g, "\t... 12 more\n");
        if (sx_choice(2, "supp")) { gb_lit(&g, "\tSuppressed: S: x\n\t\tat q(Q:1)\n\tCaused by: R\n\t\t... 2 more\n"); lastdots = 0; 
            /* suppressed exceptions are only skipped ahead of a cause or the end */ }
    }
    char *s = gb_text(&g); const char *p = s; struct sr_location loc; sr_location_init(&loc);
    struct sr_java_stacktrace *st = sr_java_stacktrace_parse(&p, &loc);
    sx_assert(st != NULL, "valid trace refused"); if (!st) sx_stop();
    sx_assert(*p == 0, "whole trace consumed"); struct sr_java_thread *t = st->threads;
    sx_assert(t && !t->next, "one thread"); sx_assert(same(t->name, tname), "thread name");
    struct sr_java_frame *f = t->frames;
    for (int e = ne - 1; e >= 0; e--) {
        sx_assert(f && f->is_exception, "exception missing"); if (!f) sx_stop();
        sx_assert(same(f->name, en[e]), "exception name"); sx_assert(same(f->message, msg[e]), "exception message"); sx_assert(!f->file_name && !f->class_path && !f->is_native, "exception fields"); look_frame(f);
        f = f->next;
        for (int i = 0; i < nf[e]; i++, f = f->next) {
            sx_assert(f && !f->is_exception, "frame missing"); if (!f) sx_stop();
            sx_assert(same(f->name, fn[e][i]) && same(f->file_name, ff[e][i]) && f->file_line == no[e][i] && !f->class_path && !f->is_native, "frame fields"); look_frame(f);
        }
    }
    sx_assert(f == NULL, "extra frame"); sx_cover("faithful"); sr_java_stacktrace_free(st); free(s);
#endif
}
