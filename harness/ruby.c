/* Ruby backtraces: safety on any text, fidelity on generated ones. */
#include "gen.h"
#include "utils.h"
#include "location.h"
#include "ruby/frame.h"
#include "ruby/stacktrace.h"
#ifndef N
#define N 3
#endif
#ifndef K
#define K 2
#endif
static void look_frame(struct sr_ruby_frame *f)
{
    sx_assert(f->file_name && f->function_name, "frame without file or function");
    sx_obs_s("file", f->file_name); sx_obs_s("func", f->function_name); sx_obs_i("no", f->file_line); sx_obs_i("lv", f->block_level * 100 + f->rescue_level * 2 + f->special_function);
}
static void check_parse(char *s)
{
    int n = strlen(s); const char *p = s; struct sr_location loc; sr_location_init(&loc);
    struct sr_ruby_stacktrace *st = sr_ruby_stacktrace_parse(&p, &loc);
    if (st) {
        sx_assert(p >= s && p <= s + n, "cursor outside the text");
        sx_assert(st->frames != NULL && st->exception_name != NULL, "success without frames or exception");
        for (struct sr_ruby_frame *f = st->frames; f; f = f->next) look_frame(f);
        sx_obs_s("exc", st->exception_name);
        sr_ruby_stacktrace_free(st); sx_cover("parsed");
    } else { sx_assert(p == s, "cursor moved although parsing failed"); sx_assert(loc.message != NULL, "failure without message"); sx_cover("refused"); }
}
static void check_frame(char *s)
{
    int n = strlen(s); const char *p = s; struct sr_location loc; sr_location_init(&loc);
    struct sr_ruby_frame *f = sr_ruby_frame_parse(&p, &loc);
    if (f) { sx_assert(p > s && p <= s + n, "frame: cursor outside the text"); look_frame(f); sr_ruby_frame_free(f); sx_cover("parsed"); }
    else { sx_assert(p == s, "frame: cursor moved although parsing failed"); sx_assert(loc.message != NULL, "failure without message"); sx_cover("refused"); }
}
#define LEN(i, nm) ((i) ? 2 : 1 + sx_choice(N, nm))
void harness(void)
{
#if MODE == 0
    char *s = sx_str_upto(N, "s"); LOSSLESS(check_parse(s)); free(s);
#elif MODE == 1
    char *s = sx_str_upto(N, "s"); LOSSLESS_MSG(check_frame(s)); free(s);
#elif MODE == 2
    char *s = sx_disturb("a:1:in `f': m (E)\n\tfrom b:23:in `block (2 levels) in <g>'\n\tfrom c:4:in `rescue in block in h'\n", K); LOSSLESS(check_parse(s)); free(s);
#elif MODE == 3
    char *s = sx_disturb("a:12:in `rescue in block (3 levels) in <f>'", K); LOSSLESS_MSG(check_frame(s)); free(s);
#else
    struct gb g; gb_init(&g); int nf = 1 + sx_choice(NF, "frames"); char *file[3], *func[3], *exc; uint32_t no[3]; int blk[3], res[3]; bool sp[3];
    for (int i = 0; i < nf; i++) {
        if (i) gb_lit(&g, "\tfrom ");
        if (i == 0 && sx_choice(2, "home")) { gb_lit(&g, "/home/u/a.rb"); file[i] = "/home/anonymized/a.rb"; } else file[i] = gb_sym(&g, LEN(i, "fl"), "`", "file");
        gb_lit(&g, ":"); no[i] = (uint32_t)gb_dec(&g, i ? 1 : sx_choice(2, "nd") ? 9 : 1, "no"); gb_lit(&g, ":in `");
        res[i] = sx_choice(3, "rescue"); for (int k = 0; k < res[i]; k++) gb_lit(&g, "rescue in ");
        blk[i] = sx_choice(3, "block"); if (blk[i] == 1) gb_lit(&g, "block in "); else if (blk[i] == 2) { gb_lit(&g, "block ("); blk[i] = gb_dec(&g, 2, "bl"); gb_lit(&g, " levels) in "); }
        sp[i] = sx_choice(2, "special"); if (sp[i]) gb_lit(&g, "<");
        func[i] = gb_sym(&g, LEN(i, "ul"), "'>", "func"); if (!sp[i]) sx_assume(func[i][0] != '<');
        gb_lit(&g, sp[i] ? ">'" : "'");
        if (i == 0) { gb_lit(&g, ": "); char *m = gb_sym(&g, 2, "\t", "msg"); gb_lit(&g, " ("); exc = gb_sym(&g, LEN(0, "el"), "(\t", "exc"); gb_lit(&g, ")\n"); if (nf == 1) { /* the message must be followed by a tab-led line */ } }
        else if (i < nf - 1 || sx_choice(2, "lastnl")) gb_lit(&g, "\n");
    }
    char *s = gb_text(&g); const char *p = s; struct sr_location loc; sr_location_init(&loc);
    struct sr_ruby_stacktrace *st = sr_ruby_stacktrace_parse(&p, &loc);
    sx_assert(st != NULL, "valid backtrace refused"); if (!st) sx_stop();
    sx_assert(p == s + g.n, "whole backtrace consumed"); sx_assert(same(st->exception_name, exc), "exception name");
    struct sr_ruby_frame *f = st->frames;
    for (int i = 0; i < nf; i++, f = f->next) {
        sx_assert(f != NULL, "frame missing"); if (!f) sx_stop();
        sx_assert(same(f->file_name, file[i]), "file name"); sx_assert(f->file_line == no[i], "line number"); sx_assert(same(f->function_name, func[i]), "function name");
        sx_assert(f->special_function == sp[i], "special function"); sx_assert(f->block_level == blk[i], "block level"); sx_assert(f->rescue_level == res[i], "rescue level");
        look_frame(f);
    }
    sx_assert(f == NULL, "extra frame"); sx_cover("faithful"); sr_ruby_stacktrace_free(st); free(s);
#endif
}
