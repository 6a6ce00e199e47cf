/* Kernel oopses: safety on any text, fidelity on generated ones. */
#include "gen.h"
#include "utils.h"
#include "location.h"
#include "koops/frame.h"
#include "koops/stacktrace.h"
#ifndef N
#define N 3
#endif
#ifndef K
#define K 1
#endif
static void look_frame(struct sr_koops_frame *f)
{
    sx_obs_s("fn", f->function_name); sx_obs_s("mod", f->module_name); sx_obs_s("ffn", f->from_function_name); sx_obs_s("fmod", f->from_module_name); sx_obs_s("st", f->special_stack);
    sx_obs_i("ad", f->address); sx_obs_i("of", f->function_offset); sx_obs_i("len", f->function_length); sx_obs_i("fad", f->from_address); sx_obs_i("rel", f->reliable);
}
static void look(struct sr_koops_stacktrace *st)
{
    for (struct sr_koops_frame *f = st->frames; f; f = f->next) look_frame(f);
    for (char **m = st->modules; m && *m; m++) { sx_obs_s("module", *m); sx_assert(**m, "empty module name"); }
    sx_obs_s("reason", st->reason);
}
static void check_parse(char *s)
{
    int n = strlen(s); const char *p = s; struct sr_location loc; sr_location_init(&loc);
    struct sr_koops_stacktrace *st = sr_koops_stacktrace_parse(&p, &loc);
    sx_assert(st != NULL, "oops parsing always succeeds"); if (!st) sx_stop();
    sx_assert(p == s + n, "whole text consumed"); sx_assert(same(st->raw_oops, s), "raw text"); int l = strcspn(s, "\n"); sx_assert(st->reason && (int)strlen(st->reason) == l && !strncmp(st->reason, s, l), "reason is the first line");
    look(st); sr_koops_stacktrace_free(st); sx_cover("parsed");
}
static void check_frame(char *s)
{
    int n = strlen(s); const char *p = s; struct sr_koops_frame *f = sr_koops_frame_parse(&p);
    if (!f) { sx_assert(p == s, "frame: cursor moved although refused"); sx_cover("refused"); return; }
    sx_assert(p > s && p <= s + n, "frame: cursor outside the text"); sx_assert(!f->next, "frame sibling"); look_frame(f); sr_koops_frame_free(f); sx_cover("parsed");
}
static void check_part(int part, char *s)
{
    int n = strlen(s); const char *p = s; int r = 0; uint64_t a = 0, b = 0; char *x = NULL, *y = NULL, **m = NULL;
    switch (part) {
    case 0: r = sr_koops_skip_timestamp(&p); break;
    case 1: r = sr_koops_parse_address(&p, &a); break;
    case 2: r = sr_koops_parse_module_name(&p, &x); sx_assert(r == (x != NULL), "module name set on refusal"); break;
    case 3: r = sr_koops_parse_function(&p, &x, &a, &b, &y); break;
    case 4: m = sr_koops_stacktrace_parse_modules(&p); r = m != NULL; for (char **q = m; q && *q; q++) sx_obs_s("m", *q); g_strfreev(m); break;
    }
    sx_assert(p >= s && p <= s + n, "part: cursor outside the text");
    if (r) { sx_assert(p > s, "part: nothing consumed"); sx_obs_s("x", x); sx_obs_s("y", y); sx_obs_i("a", a); sx_cover("parsed"); } else { sx_assert(p == s, "part: cursor moved although refused"); sx_cover("refused"); }
    sx_obs_i("at", p - s); g_free(x); g_free(y);
}
struct exp { uint64_t addr, off, len, faddr, foff, flen; char *fn, *mod, *ffn, *fmod, *st; bool rel; };
#define HEX(g, rich, nm) ((rich) ? gb_hex(g, 1 + 15 * sx_choice(2, "hd"), nm) : gb_digit(g, nm))
static uint64_t gb_digit(struct gb *g, const char *nm) { char *p = gb_id(g, 1, "19", nm); return p[0] - '0'; }
static void gb_fun(struct gb *g, int rich, char **fn, uint64_t *off, uint64_t *len, char **mod, int inner)
{
    int b = g->n; gb_id(g, 1, rich ? "azAZ__" : "az__", "f1"); gb_id(g, rich ? sx_choice(N + 1, "fl") : 0, "azAZ09__..", "f"); *fn = g_strndup(g->b + b, g->n - b);
    gb_lit(g, "+0x"); *off = HEX(g, rich, "off"); gb_lit(g, "/0x"); *len = HEX(g, rich, "len");
    *mod = NULL; if (sx_choice(2, "mod")) { gb_lit(g, " ["); *mod = rich ? gb_sym(g, 1 + sx_choice(N + 1, "ml"), " \t\n]", "mod") : gb_id(g, 1, "az09__", "mod"); gb_lit(g, "]"); }
}
static void gb_frame(struct gb *g, struct exp *e, int rich)
{
    memset(e, 0, sizeof *e); e->rel = true;
    switch (sx_choice(rich ? 9 : 2, "style")) {
    case 0: gb_lit(g, " [<"); e->addr = HEX(g, rich, "addr"); gb_lit(g, ">] "); if (sx_choice(2, "q")) { gb_lit(g, "? "); e->rel = false; } gb_fun(g, rich, &e->fn, &e->off, &e->len, &e->mod, 0); gb_lit(g, "\n"); break;
    case 1: gb_lit(g, " "); if (sx_choice(2, "q")) { gb_lit(g, "? "); e->rel = false; } gb_fun(g, rich, &e->fn, &e->off, &e->len, &e->mod, 0); gb_lit(g, "\n"); break;
    case 2: gb_lit(g, "["); e->addr = HEX(g, 0, "addr"); gb_lit(g, "] (.."); e->fn = ".."; gb_lit(g, "+0x"); e->off = HEX(g, 0, "off"); gb_lit(g, "/0x"); e->len = HEX(g, 0, "len"); if (sx_choice(2, "mod")) { gb_lit(g, " [m]"); e->mod = "m"; } gb_lit(g, ") from [<"); e->faddr = HEX(g, 1, "faddr"); gb_lit(g, ">] ("); gb_fun(g, 0, &e->ffn, &e->foff, &e->flen, &e->fmod, 1); gb_lit(g, ")\n"); break;
    case 3: gb_lit(g, "[<"); e->addr = HEX(g, rich, "addr"); gb_lit(g, ">] "); if (sx_choice(2, "q")) { gb_lit(g, "? "); e->rel = false; } gb_lit(g, "("); { int b = g->n; gb_id(g, 1, "azAZ__", "f1"); gb_id(g, sx_choice(N + 1, "fl"), "azAZ09__..", "f"); e->fn = g_strndup(g->b + b, g->n - b); } gb_lit(g, ") from [<"); e->faddr = HEX(g, 0, "faddr"); gb_lit(g, ">] ("); gb_fun(g, 0, &e->ffn, &e->foff, &e->flen, &e->fmod, 1); gb_lit(g, ")"); break;
    case 4: gb_lit(g, "["); gb_hex(g, 1, "sp"); gb_lit(g, "] ["); e->addr = HEX(g, rich, "addr"); gb_lit(g, "] "); if (sx_choice(2, "dot")) gb_lit(g, "."); gb_fun(g, rich, &e->fn, &e->off, &e->len, &e->mod, 0); if (sx_choice(2, "unrel")) { gb_lit(g, " (unreliable)"); e->rel = false; } gb_lit(g, "\n"); break;
    case 5: gb_lit(g, " (["); e->addr = HEX(g, rich, "addr"); gb_lit(g, "] "); gb_fun(g, rich, &e->fn, &e->off, &e->len, &e->mod, 1); gb_lit(g, ")\n"); break;
    case 6: gb_lit(g, " [<"); e->addr = HEX(g, 1, "addr"); gb_lit(g, ">] 0x"); gb_hex(g, 2, "a2"); gb_lit(g, "\n"); break;
    case 7: gb_lit(g, "[<"); e->addr = HEX(g, 0, "addr"); gb_lit(g, ">] ("); gb_fun(g, rich, &e->fn, &e->off, &e->len, &e->mod, 1); gb_lit(g, ")\n"); break;
    case 8: gb_lit(g, "\t0x"); e->addr = HEX(g, 1, "addr"); e->rel = false; gb_lit(g, "\n"); break;
    }
}
static void check_exp(struct sr_koops_frame *f, struct exp *e)
{
    sx_assert(f->address == e->addr, "address"); sx_assert(same(f->function_name, e->fn), "function name"); sx_assert(f->function_offset == e->off, "offset"); sx_assert(f->function_length == e->len, "length"); sx_assert(same(f->module_name, e->mod), "module");
    sx_assert(f->reliable == e->rel, "reliability"); sx_assert(f->from_address == e->faddr, "caller address"); sx_assert(same(f->from_function_name, e->ffn), "caller name"); sx_assert(f->from_function_offset == e->foff && f->from_function_length == e->flen, "caller offset"); sx_assert(same(f->from_module_name, e->fmod), "caller module"); sx_assert(same(f->special_stack, e->st), "special stack");
    look_frame(f);
}
void harness(void)
{
#if MODE == 0
    static const char *pre[] = { "", "R\nModules linked in:", "R\nRIP: 0 ", "<IRQ> [<", "<IRQ> <EOI", "R\n[1.2] ", "EIP: [<1>] ", "x Tainted: ", "Last Breaking-Event-Address:" };
    struct gb g; gb_init(&g); gb_lit(&g, pre[sx_choice(9, "pre")]); gb_lit(&g, sx_str_upto(N, "t")); char *s = gb_text(&g); LOSSLESS(check_parse(s)); free(s);
#elif MODE == 1
    static const char *pre[5][3] = { { "", "[ 1.", "[" }, { "", "[<", "[1" }, { "", "[", "[a" }, { "", "(f+0x1", "f+0x1/0x2 [" }, { "", "Modules linked in:", "Modules linked in: a b\n" } };
    int part = sx_choice(5, "part"); struct gb g; gb_init(&g); gb_lit(&g, pre[part][sx_choice(3, "pre")]); gb_lit(&g, sx_str_upto(N, "t")); char *s = gb_text(&g); LOSSLESS(check_part(part, s)); free(s);
#elif MODE == 2
    static const char *T[] = { "B\n[ 1.2] Modules linked in: a b [l]\nTainted: P W\nRIP: 1:[<a>]  [<a>] f+0x1/0x2 [m]\n <IRQ>  [<b>] ? g+0x3/0x4\n <EOI> h+0x5/0x6\n", "Modules linked in: aa b\nc\nCPU: 1 x\nEIP: [<f>] w+0x3/0x5 [m] SS\n[1] [2] .p+0x1/0x2 (unreliable)\n[<1>] (r) from [<2>] (q+0x1/0x2)\nLast Breaking-Event-Address:\nx" };
    char *s = sx_disturb(T[WHICH], K); LOSSLESS(check_parse(s)); free(s);
#elif MODE == 3
    static const char *T[] = { " [<ff>] ? a+0x1/0x2 [m]\n", "([1] a+0x1/0x2 [m]) \n", "[<1>] (f+0x1/0x2) from [<2>] (g+0x1/0x2 [m])\n", "[1] [2] .f+0x1/0x2 [m] (unreliable) \n", "[1] (f) from [2] (g+0x1/0x2)" };
    char *s = sx_disturb(T[sx_choice(5, "tpl")], K); LOSSLESS(check_frame(s)); free(s);
#elif MODE == 4
    struct gb g; gb_init(&g); struct exp e; gb_frame(&g, &e, 1); int end = g.n; int tail = sx_choice(2, "tail"); if (tail) gb_lit(&g, g.b[g.n - 1] == '\n' ? " next+0x1/0x2\n" : "\n");
    char *s = gb_text(&g); const char *p = s; struct sr_koops_frame *f = sr_koops_frame_parse(&p);
    sx_assert(f != NULL, "valid frame refused"); if (!f) sx_stop();
    sx_assert(p == s + end, "cursor after the frame"); check_exp(f, &e); sr_koops_frame_free(f); free(s); sx_cover("faithful");
#elif MODE == 5 /* whole oops */
    struct gb g; gb_init(&g); struct exp e[4], ip; char *mods[4]; int nm = 0, hasmods, iptype, nfr; bool hasip = false;
    int focus = sx_choice(4, "focus");
    char *reason = focus == 2 ? gb_sym(&g, 2, "0\n<(?[+.T\tMZ ", "reason") : gb_id(&g, 2, "az::", "reason"); gb_lit(&g, "\n");
    #define TS() do { if (focus == 0 && sx_choice(2, "ts")) { gb_lit(&g, "[   "); gb_dec(&g, 1, "sec"); gb_lit(&g, "."); gb_dec(&g, 2, "us"); gb_lit(&g, "] "); } } while (0)
    TS(); hasmods = focus != 2 && sx_choice(2, "mods");
    if (hasmods) {
        nm = focus == 1 ? sx_choice(4, "nm") : 2; gb_lit(&g, "Modules linked in:");
        for (int i = 0; i < nm; i++) { gb_lit(&g, focus == 1 && i == 2 ? "\n " : " "); mods[i] = gb_id(&g, 1 + (focus == 1 ? sx_choice(N, "ml") : 0), "az09__((++", "m"); }
        if (focus == 1 && sx_choice(2, "unl")) gb_lit(&g, " [last unloaded: x y]"); gb_lit(&g, "\n");
        gb_lit(&g, "CPU: 0 PID: 1 comm: x\n");
    }
    bool taint[16]; static const char letters[] = "PFSRMBUDAWCIOELK"; int tainted = focus == 2 ? 1 + sx_choice(16, "letter") : 0;
    if (tainted) { gb_lit(&g, "Pid: 1, comm: a Tainted: G "); gb_chr(&g, letters[tainted - 1]); gb_lit(&g, "  "); if (sx_choice(2, "second")) { gb_lit(&g, "Z"); gb_chr(&g, letters[(tainted + 4) % 16]); } else sx_assume(1); gb_lit(&g, " 3.1 #1\n"); }
    TS(); iptype = focus == 3 ? sx_choice(3, "ip") : 0;
    if (iptype == 1) { memset(&ip, 0, sizeof ip); hasip = true; ip.rel = true; gb_lit(&g, "RIP: 0010:[<1f>]  [<"); ip.addr = gb_hex(&g, 2, "ipa"); gb_lit(&g, ">] "); gb_fun(&g, 0, &ip.fn, &ip.off, &ip.len, &ip.mod, 0); gb_lit(&g, "\n"); }
    gb_lit(&g, "Call Trace:\n"); nfr = focus == 2 ? 1 : sx_choice(3, "frames"); char *alt = NULL;
    for (int i = 0; i < nfr; i++) {
        char *line_alt = NULL; TS();
        int a = focus == 3 ? sx_choice(3, "alt") : 0;
        if (a == 1) { gb_lit(&g, " <"); int b = g.n; gb_id(&g, 2, "AZ##", "alt"); sx_assume(!(g.b[b] == 'E' && g.b[b + 1] == 'O')); alt = g_strndup(g.b + b, 2); gb_lit(&g, "> "); }
        else if (a == 2) { gb_lit(&g, sx_choice(2, "eo") ? " <EOI> " : " <<EOE>> "); alt = NULL; }
        gb_frame(&g, &e[i], 0); e[i].st = alt;
    }
    if (iptype == 2) { memset(&ip, 0, sizeof ip); hasip = true; ip.rel = true; gb_lit(&g, "EIP: [<"); ip.addr = gb_hex(&g, 2, "ipa"); gb_lit(&g, ">] "); gb_fun(&g, 0, &ip.fn, &ip.off, &ip.len, &ip.mod, 0); gb_lit(&g, " SS:ESP 0068:f1\n"); }
    if (focus == 2 && sx_choice(2, "lbe")) gb_lit(&g, "Last Breaking-Event-Address:\n [<1>] z+0x1/0x2\n");
    char *s = gb_text(&g); const char *p = s; struct sr_location loc; sr_location_init(&loc); struct sr_koops_stacktrace *st = sr_koops_stacktrace_parse(&p, &loc);
    sx_assert(st != NULL && *p == 0, "whole oops parsed"); if (!st) sx_stop();
    sx_assert(same(st->reason, reason), "reason"); sx_assert(same(st->raw_oops, s), "raw text"); sx_assert(st->version == NULL, "no version");
    if (!hasmods) sx_assert(st->modules == NULL, "no modules"); else { sx_assert(st->modules != NULL, "modules"); if (!st->modules) sx_stop(); for (int i = 0; i < nm; i++) { sx_assert(same(st->modules[i], mods[i]), "module name"); if (!st->modules[i]) sx_stop(); } sx_assert(st->modules[nm] == NULL, "extra module"); }
    bool *tb[16] = { &st->taint_module_proprietary, &st->taint_forced_module, &st->taint_smp_unsafe, &st->taint_forced_removal, &st->taint_mce, &st->taint_page_release, &st->taint_userspace, &st->taint_died_recently, &st->taint_acpi_overridden, &st->taint_warning, &st->taint_staging_driver, &st->taint_firmware_workaround, &st->taint_module_out_of_tree, &st->taint_unsigned_module, &st->taint_soft_lockup, &st->taint_live_patched };
    for (int i = 0; i < 16; i++) { bool want = tainted && (i == tainted - 1 || (i == (tainted + 4) % 16 && strstr(s, "Z") && strstr(s, "Z")[1] == letters[(tainted + 4) % 16] && i != tainted - 1)); sx_assert(*tb[i] == want, "taint flag"); }
    struct sr_koops_frame *f = st->frames;
    if (hasip) { sx_assert(f != NULL, "instruction pointer frame missing"); if (!f) sx_stop(); check_exp(f, &ip); f = f->next; }
    for (int i = 0; i < nfr; i++, f = f->next) { sx_assert(f != NULL, "frame missing"); if (!f) sx_stop(); check_exp(f, &e[i]); }
    sx_assert(f == NULL, "extra frame"); sr_koops_stacktrace_free(st); free(s); sx_cover("faithful");
#elif MODE == 6 /* any letters behind the taint marker */
    struct gb g; gb_init(&g); gb_lit(&g, "R\nTainted: "); char *t = gb_sym(&g, N, "", "t"); char *s = gb_text(&g); const char *p = s; struct sr_location loc; sr_location_init(&loc); struct sr_koops_stacktrace *st = sr_koops_stacktrace_parse(&p, &loc);
    static const char letters[] = "PFSRMBUDAWCIOELK";
    bool *tb[16] = { &st->taint_module_proprietary, &st->taint_forced_module, &st->taint_smp_unsafe, &st->taint_forced_removal, &st->taint_mce, &st->taint_page_release, &st->taint_userspace, &st->taint_died_recently, &st->taint_acpi_overridden, &st->taint_warning, &st->taint_staging_driver, &st->taint_firmware_workaround, &st->taint_module_out_of_tree, &st->taint_unsigned_module, &st->taint_soft_lockup, &st->taint_live_patched };
    for (int i = 0; i < 16; i++) { int live = 1, want = 0; for (int j = 0; j < N; j++) { want |= live & (t[j] == letters[i]); live &= ((t[j] >= 'A') & (t[j] <= 'Z')) | (t[j] == ' '); } sx_assert(*tb[i] == want, "taint flag set exactly for its letter"); }
    sr_koops_stacktrace_free(st); free(s); sx_cover("taint");
#elif MODE == 7 /* module lists: any length, folded over lines, ended in any of the ways kernels end them */
    static const int len[] = { 0, 1, 2, 18, 19, 20, 21, 38, 39, 40 }; static const char *stop[] = { "", "\n[ 1.2] x y", "\nPid: 1, comm: x", "\nCPU: 0 PID", "\nCPU 1 ", "\nirq event stamp: 12", "\nCR2: 00ff", " [last unloaded: q]\n", "[b]" };
    struct gb g; gb_init(&g); char *mods[48]; int nm = len[sx_choice(10, "count")], fold = sx_choice(5, "fold"), at = nm ? sx_choice(3, "at") : 0; at = at == 0 ? nm - 1 : at == 1 ? nm / 2 : 0; if (!nm) fold = 0;
    gb_lit(&g, sx_choice(2, "indent") ? " \tModules linked in:" : "Modules linked in:");
    for (int i = 0; i < nm; i++) {
        gb_lit(&g, " "); char id[8]; snprintf(id, sizeof id, "m%d", i);
        if (i != at) { gb_lit(&g, id); mods[i] = g_strdup(id); continue; }
        if (fold == 1) gb_lit(&g, "\n"); else if (fold == 2) { g.n--; gb_lit(&g, "\n "); }
        char *a = gb_sym(&g, 1 + sx_choice(N, "ml"), " \t\n[", "a"), *b = "", *c = "";
        if (fold == 1 || fold == 2) sx_assume(a[0] != 'P' && a[0] != 'C' && a[0] != 'i'); /* not mistaken for the line behind the list */
        if (fold >= 3) { gb_lit(&g, "\n"); b = gb_id(&g, 1, "az__", "b"); if (fold == 4) { gb_lit(&g, "\n"); c = gb_id(&g, 1, "az__", "c"); } }
        mods[i] = g_strdup_printf("%s%s%s", a, b, c);
    }
    int e = sx_choice(9, "stop"), end = g.n + (e == 7); if (e == 7 && !nm) end = g.n + 1; gb_lit(&g, stop[e]);
    char *s = gb_text(&g); const char *p = s; uint64_t live = sx_live_heap(); char **m = sr_koops_stacktrace_parse_modules(&p);
    sx_assert(m != NULL, "module list refused"); if (!m) sx_stop();
    sx_assert(p == s + end, "cursor behind the list");
    for (int i = 0; i < nm; i++) { sx_assert(m[i] != NULL, "module missing"); if (!m[i]) sx_stop(); sx_assert(same(m[i], mods[i]), "module name"); }
    sx_assert(m[nm] == NULL, "module too many"); sx_obs_i("nm", nm); g_strfreev(m); sx_assert(sx_live_heap() == live, "memory is lost"); sx_cover("modules");
#endif
}
