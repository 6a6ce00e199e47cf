/* JavaScript (V8) stacks: safety on any text, fidelity on generated ones. */
#include "gen.h"
#include "utils.h"
#include "location.h"
#include "js/frame.h"
#include "js/platform.h"
#include "js/stacktrace.h"
#ifndef N
#define N 3
#endif
#ifndef K
#define K 2
#endif
static void look_frame(struct sr_js_frame *f)
{
    sx_assert(f->file_name != NULL, "frame without file");
    sx_obs_s("file", f->file_name); sx_obs_s("func", f->function_name); sx_obs_i("no", f->file_line); sx_obs_i("col", f->line_column);
}
static void check_parse(char *s)
{
    int n = strlen(s); const char *p = s; struct sr_location loc; sr_location_init(&loc);
    struct sr_js_stacktrace *st = sr_js_stacktrace_parse(&p, &loc);
    if (st) {
        sx_assert(p >= s && p <= s + n, "cursor outside the text"); sx_assert(st->exception_name != NULL, "success without exception");
        for (struct sr_js_frame *f = st->frames; f; f = f->next) look_frame(f);
        sx_obs_s("exc", st->exception_name); sr_js_stacktrace_free(st); sx_cover("parsed");
    } else { sx_assert(p == s, "cursor moved although parsing failed"); sx_assert(loc.message != NULL, "failure without message"); sx_cover("refused"); }
}
static void check_frame(char *s)
{
    int n = strlen(s); const char *p = s; struct sr_location loc; sr_location_init(&loc);
    struct sr_js_frame *f = sx_choice(2, "api") ? sr_js_frame_parse(&p, &loc) : sr_js_frame_parse_v8(&p, &loc);
    if (f) { sx_assert(p > s && p <= s + n, "frame: cursor outside the text"); look_frame(f); sr_js_frame_free(f); sx_cover("parsed"); }
    else { sx_assert(p == s, "frame: cursor moved although parsing failed"); sx_assert(loc.message != NULL, "failure without message"); sx_cover("refused"); }
}
#define LEN(i, nm) ((i) ? 2 : 1 + sx_choice(N, nm))
void harness(void)
{
#if MODE == 0
    char *s = sx_str_upto(N, "s"); LOSSLESS(check_parse(s)); free(s);
#elif MODE == 1
    struct gb g; gb_init(&g); if (sx_choice(2, "at")) gb_lit(&g, " at "); char *t = sx_str_upto(N, "t"); gb_lit(&g, t); char *s = gb_text(&g); LOSSLESS(check_frame(s)); free(s);
#elif MODE == 2
    char *s = sx_disturb("E: m\n    at f (a:1:2)\n    at g [as x] (b.js:34:5) \n  at c:6:78\n", K); LOSSLESS(check_parse(s)); free(s);
#elif MODE == 3
    char *s = sx_disturb(sx_choice(2, "t") ? "    at f (a:12:3)" : " at a:12:3\n", K); LOSSLESS(check_frame(s)); free(s);
#else
    struct gb g; gb_init(&g); int nf = sx_choice(NF + 1, "frames"); char *file[3], *func[3], *exc; uint32_t no[3], col[3];
    exc = gb_sym(&g, LEN(0, "el"), ":\n", "exc"); gb_lit(&g, ": "); gb_sym(&g, 2, "\n", "msg"); gb_lit(&g, "\n");
    for (int i = 0; i < nf; i++) {
        gb_lit(&g, sx_choice(2, "sp") ? "    at " : "at  "); func[i] = NULL; bool par = sx_choice(2, "paren");
        if (par) { func[i] = gb_sym(&g, LEN(i, "ul"), " \n", "func"); gb_lit(&g, sx_choice(2, "as") ? " [as y] (" : " ("); }
        if (i == 0 && sx_choice(2, "home")) { gb_lit(&g, "/home/u/a.js"); file[i] = "/home/anonymized/a.js"; } else { file[i] = gb_sym(&g, LEN(i, "fl"), "\n", "file"); if (!par) sx_assume(file[i][0] != ' '); }
        gb_lit(&g, ":"); no[i] = (uint32_t)gb_dec(&g, i ? 1 : sx_choice(2, "nd") ? 9 : 1, "no"); gb_lit(&g, ":"); col[i] = (uint32_t)gb_dec(&g, i ? 2 : sx_choice(2, "cd") ? 9 : 1, "col");
        if (par) gb_lit(&g, ")"); if (sx_choice(2, "trail")) gb_lit(&g, " ");
        if (i < nf - 1 || sx_choice(2, "lastnl")) gb_lit(&g, "\n");
    }
    char *s = gb_text(&g); const char *p = s; struct sr_location loc; sr_location_init(&loc);
    struct sr_js_stacktrace *st = sr_js_stacktrace_parse(&p, &loc);
    sx_assert(st != NULL, "valid stack refused"); if (!st) sx_stop();
    sx_assert(p == s + g.n, "whole stack consumed"); sx_assert(same(st->exception_name, exc), "exception name");
    sx_assert(sr_js_platform_engine(st->platform) == SR_JS_ENGINE_V8, "engine");
    struct sr_js_frame *f = st->frames;
    for (int i = 0; i < nf; i++, f = f->next) {
        sx_assert(f != NULL, "frame missing"); if (!f) sx_stop();
        sx_assert(same(f->file_name, file[i]), "file name"); sx_assert(f->file_line == no[i], "line number"); sx_assert(f->line_column == col[i], "column number"); sx_assert(same(f->function_name, func[i]), "function name");
        look_frame(f);
    }
    sx_assert(f == NULL, "extra frame"); sx_cover("faithful"); sr_js_stacktrace_free(st); free(s);
#endif
}
