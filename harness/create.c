/* Core stacktraces made of what gdb and eu-unstrip print (C44). MODE 0: fidelity; 1: arbitrary texts */
#include "gen.h"
#include "core/frame.h"
#include "core/thread.h"
#include "core/stacktrace.h"
#include "report_type.h"
#ifndef DIG
#define DIG 2
#endif
static bool D;        /* the frame or module that varies */
/* 0x and a number, small or large, whose last hexadecimal digits are arbitrary decimal ones */
static uint64_t hex(struct gb *g, const char *nm)
{
    bool wide = strcmp(nm, "length") && (D ? sx_choice(2, "wide") : 1); uint64_t v = wide ? 0x7fff0000000aull : 0; gb_lit(g, wide ? "0x7fff0000000a" : "0x");
    if (!D) { bool a = !strcmp(nm, "addr"); gb_lit(g, a ? "42" : wide ? "40" : "08"); return v * 256 + (a ? 0x42 : wide ? 0x40 : 0x08); }
    char *p = sym_id(DIG, "09", nm); for (int i = 0; i < DIG; i++) v = v * 16 + (unsigned)(p[i] - '0'); gb_lit(g, p); free(p); return v;
}
void harness(void)
{
    uint64_t live = sx_live_heap();
#if MODE == 0
    struct gb g, u; gb_init(&g); gb_init(&u); int nth = 1 + sx_choice(NTH, "threads"), deep = sx_choice(nth, "deep"), total = 0; uint64_t addr[6]; char *fn[6]; int cnt[3];
    for (int t = 0; t < nth; t++) {
        gb_lit(&g, t ? "\nThread 1 (LWP 8):\n" : "\nThread 2 (LWP 7):\n"); cnt[t] = t == deep ? 1 + sx_choice(NFR, "frames") : 1; int di = sx_choice(cnt[t], "which");
        for (int i = 0; i < cnt[t]; i++, total++) {
            gb_lit(&g, i ? i == 1 ? "#1  " : "#2  " : "#0  "); fn[total] = NULL; addr[total] = UINT64_MAX; D = t == deep && i == di; int kind = D ? sx_choice(4, "kind") : 0;
            if (kind == 3) { gb_lit(&g, "<signal handler called>\n"); continue; }
            if (kind != 2) { addr[total] = hex(&g, "addr"); gb_lit(&g, " in "); }
            if (kind == 1) gb_lit(&g, "??"); else fn[total] = gb_id(&g, 1, D ? "azAZ__" : "gg", "fn");
            gb_lit(&g, " ()"); if (t != deep) gb_lit(&g, kind == 2 ? " at f.c:3" : " from /l.so"); gb_lit(&g, "\n");
        }
    }
    int nm = sx_choice(NMOD + 1, "modules"), dm = nm ? sx_choice(nm, "dmod") : 0; uint64_t from[3], len[3]; char *bid[3], *file[3];
    for (int m = 0; m < nm; m++) {
        D = m == dm; int how = D ? sx_choice(3, "how") : 0; if (how == 1) gb_lit(&u, "noise\n");
        from[m] = hex(&u, "from"); gb_lit(&u, "+"); len[m] = hex(&u, "length"); gb_lit(&u, " ");
        bid[m] = gb_id(&u, 2, D ? "09af" : "bb", "build"); if (how == 2) gb_lit(&u, "@0x1"); gb_lit(&u, " "); file[m] = gb_id(&u, 1, D ? "//az.." : "gg", "file"); gb_lit(&u, " - m\n");
    }
    char *a = gb_text(&g), *b = gb_text(&u); struct sr_core_stacktrace *s = sr_core_stacktrace_create(a, b, nth == 1 ? "/exe" : NULL); free(a); free(b);
    if (!nm) { sx_assert(!s, "a stacktrace without modules"); sx_cover("none"); }
    else {
        sx_assert(s != NULL, "nothing made of a stacktrace and modules"); if (!s) sx_stop(); sx_assert(s->type == SR_REPORT_CORE, "type"); int k = 0; struct sr_core_thread *t = s->threads;
        for (int i = 0; i < nth; i++, t = t->next) { sx_assert(t != NULL, "a thread is lost"); if (!t) sx_stop(); struct sr_core_frame *f = t->frames;
            for (int j = 0; j < cnt[i]; j++, k++, f = f->next) {
                sx_assert(f != NULL, "a frame is lost"); if (!f) sx_stop(); sx_assert(f->address == addr[k], "another address"); sx_assert(same(f->function_name, fn[k]), "another function"); sx_assert(!f->fingerprint, "a fingerprint from nowhere");
                int m = 0; while (m < nm && !((from[m] <= addr[k]) & (addr[k] - from[m] < len[m]))) m++;
                if (m < nm) { sx_assert(same(f->build_id, bid[m]), "another build id"); sx_assert(f->build_id_offset == addr[k] - from[m], "another offset"); sx_assert(same(f->file_name, file[m]), "another file"); sx_cover("inside"); }
                else { sx_assert(!f->build_id && !f->file_name, "a module that does not contain the address"); sx_cover("outside"); }
                sx_obs_i("offset", f->build_id ? f->build_id_offset : 0);
            }
            sx_assert(!f, "a frame from nowhere"); }
        sx_assert(!t, "a thread from nowhere"); sr_core_stacktrace_free(s);
    }
    for (int i = 0; i < total; i++) free(fn[i]);
    for (int i = 0; i < nm; i++) { free(bid[i]); free(file[i]); }
#else
    char *a, *b = NULL;
    if (sx_choice(2, "which")) { a = sx_disturb("\nThread 1 (LWP 7):\n#0  0x0a in f () at f.c:3\n", K); b = g_strdup("0x0+0x10 ab /f - m\n"); }
    else { a = g_strdup("\nThread 1 (LWP 7):\n#0  0x0a in f () at f.c:3\n"); b = sx_disturb("0x0+0x10 ab@0x1 /f - m\n", K); }
    struct sr_core_stacktrace *s = sr_core_stacktrace_create(a, b, NULL); if (s) { for (struct sr_core_thread *t = s->threads; t; t = t->next) for (struct sr_core_frame *f = t->frames; f; f = f->next) { sx_obs_s("fn", f->function_name); sx_obs_s("file", f->file_name); if (!f->build_id) sx_assert(!f->file_name, "file without build id"); } sx_cover("made"); sr_core_stacktrace_free(s); } else sx_cover("refused"); free(a); free(b);
#endif
    sx_assert(sx_live_heap() == live, "memory is lost");
}
