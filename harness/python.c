/* Python tracebacks: safety on any text, fidelity on generated ones. */
#include "gen.h"
#include "utils.h"
#include "location.h"
#include "python/frame.h"
#include "python/stacktrace.h"
#ifndef N
#define N 3
#endif
#ifndef K
#define K 1
#endif
static void look_frame(struct sr_python_frame *f)
{
    sx_obs_s("file", f->file_name); sx_obs_s("func", f->function_name); sx_obs_s("line", f->line_contents); sx_obs_i("no", f->file_line); sx_obs_i("sp", f->special_file * 2 + f->special_function);
}
static void check_parse(char *s)
{
    int n = strlen(s); const char *p = s; struct sr_location loc; sr_location_init(&loc);
    struct sr_python_stacktrace *st = sr_python_stacktrace_parse(&p, &loc);
    if (st) {
        sx_assert(p >= s && p <= s + n, "cursor outside the text");
        sx_assert(st->frames != NULL && st->exception_name != NULL, "success without frames or exception");
        for (struct sr_python_frame *f = st->frames; f; f = f->next) { look_frame(f); sx_assert(f->file_name && f->function_name, "frame without file or function"); }
        sr_python_stacktrace_free(st); sx_cover("parsed");
    } else { sx_assert(p == s, "cursor moved although parsing failed"); sx_assert(loc.message != NULL, "failure without message"); sx_cover("refused"); }
}
static void check_frame(char *s)
{
    int n = strlen(s); const char *p = s; struct sr_location loc; sr_location_init(&loc);
    struct sr_python_frame *f = sr_python_frame_parse(&p, &loc);
    sx_assert(p >= s && p <= s + n, "frame: cursor outside the text");
    if (f) { look_frame(f); sx_assert(p > s, "frame: nothing consumed"); sr_python_frame_free(f); sx_cover("parsed"); } else { sx_assert(loc.message != NULL, "failure without message"); sx_cover("refused"); }
}
#define LEN(i, nm) ((i) ? 2 : 1 + sx_choice(N, nm))
/* <x> is special and loses its brackets */
static bool expect_special(const char *t, char **inner)
{
    int n = strlen(t);
    if (n > 1 && t[0] == '<' && t[n - 1] == '>') { *inner = g_strndup(t + 1, n - 2); return true; }
    *inner = g_strdup(t); return false;
}
void harness(void)
{
#if MODE == 0 /* arbitrary text behind the header */
    struct gb g; gb_init(&g); gb_lit(&g, "Traceback (most recent call last):\n"); char *t = sx_str_upto(N, "t"); gb_lit(&g, t); char *s = gb_text(&g); LOSSLESS(check_parse(s)); free(s);
#elif MODE == 1 /* arbitrary frame text */
    char *s = sx_str_upto(N, "s"); LOSSLESS(check_frame(s)); free(s);
#elif MODE == 2
    static const char *T[] = { "Traceback (most recent call last):\n  File \"a\", line 1, in f\n    x\n    ^~\n  File \"<s>\", line 2, in <m>\nE: m\n",
        "invalid syntax (a, line 1)\n\n  File \"a\", line 1\n    c\n    ^\nSyntaxError: i\n" };
    char *s = sx_disturb(T[WHICH], K); LOSSLESS(check_parse(s)); free(s);
#elif MODE == 3
    char *s = sx_disturb("  File \"a\", line 1, in f\n    x\n", K); LOSSLESS(check_frame(s)); free(s);
#else /* fidelity */
    struct gb g; gb_init(&g); int nf = 1 + sx_choice(NF, "frames"); char *file[3], *func[3], *src[3]; uint32_t no[3]; bool syn[3];
    if (sx_choice(2, "nl")) gb_lit(&g, "\n");
    if (sx_choice(2, "pre")) gb_lit(&g, "noise\n");
    gb_lit(&g, "Traceback (most recent call last):\n");
    for (int i = 0; i < nf; i++) {
        src[i] = NULL; syn[i] = false;
        gb_lit(&g, "  File \"");
        if (i == 0 && sx_choice(2, "home")) { gb_lit(&g, "/home/u/a.py"); file[i] = "/home/anonymized/a.py"; } else file[i] = gb_sym(&g, LEN(i, "fl"), "\"\n", "file");
        gb_lit(&g, "\", line "); no[i] = (uint32_t)gb_dec(&g, i ? 1 : sx_choice(2, "nd") ? 9 : 1, "no");
        if (i == nf - 1 && sx_choice(2, "syntax")) { func[i] = "syntax"; syn[i] = true; gb_lit(&g, "\n"); }
        else { gb_lit(&g, ", in "); func[i] = gb_sym(&g, LEN(i, "ul"), "\n", "func"); gb_lit(&g, "\n"); }
        if (sx_choice(2, "src")) { gb_lit(&g, "    "); src[i] = gb_sym(&g, 1 + i, "\n", "src"); gb_lit(&g, "\n"); if (sx_choice(2, "mark")) { gb_lit(&g, "    ~^ \n"); } }
    }
    int at = g.n; char *exc = gb_sym(&g, 1 + sx_choice(N, "el"), ":\n", "exc");
    sx_assume(exc[0] != ' ' && exc[0] != '^' && exc[0] != '~');
    int end = g.n; gb_lit(&g, sx_choice(2, "colon") ? ": text\n" : "\n");
    char *s = gb_text(&g); const char *p = s; struct sr_location loc; sr_location_init(&loc);
    struct sr_python_stacktrace *st = sr_python_stacktrace_parse(&p, &loc);
    sx_assert(st != NULL, "valid traceback refused"); if (!st) sx_stop();
    sx_assert(p == s + end, "cursor after the exception name"); sx_assert(same(st->exception_name, exc), "exception name");
    struct sr_python_frame *f = st->frames;
    for (int i = nf - 1; i >= 0; i--, f = f->next) {
        sx_assert(f != NULL, "frame missing"); if (!f) sx_stop();
        char *in; bool sp = expect_special(file[i], &in);
        sx_assert(same(f->file_name, in), "file name"); sx_assert(f->special_file == sp, "special file");
        if (syn[i]) { sx_assert(f->special_function && same(f->function_name, "syntax"), "syntax error frame"); }
        else { sp = expect_special(func[i], &in); sx_assert(same(f->function_name, in), "function name"); sx_assert(f->special_function == sp, "special function"); }
        sx_assert(f->file_line == no[i], "line number"); sx_assert(same(f->line_contents, src[i]), "source line");
        look_frame(f);
    }
    sx_assert(f == NULL, "extra frame"); sx_cover("faithful");
    sr_python_stacktrace_free(st); free(s);
#endif
}
