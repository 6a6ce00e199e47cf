/* Rendering (C39). MODE 0: one frame; 1: reason; 2: short text; 3: gdb threads and stacktraces as text; 4: function lists; 5: Java threads; 6: library names */
#include "types.h"
#include "normalize.h"
#include "utils.h"
#include "location.h"
static GString *W;             /* the expected text */
#define P(...) g_string_append_printf(W, __VA_ARGS__)
static void u(uint64_t v) { P("%"PRIu64, v); }
static void expect_frame(FR *f, bool verbose)
{
#if T == 0
    if (f->file_name) { const char *b = strrchr(f->file_name, '/'); P("[%s]", b ? b + 1 : f->file_name); }
    P(" "); if (f->function_name) P("%s", f->function_name); else { P("%s+", f->build_id ? f->build_id : "<unknown>"); u(f->build_id_offset); }
#elif T == 1
    P(" "); if (verbose) { P("#"); u(f->number); }
    if (f->function_type) P(" %s", f->function_type);
    if (f->function_name) P(" %s", f->function_name);
    if (verbose && f->source_file) { if (f->function_name) P(" at"); P(" %s", f->source_file); if (f->source_line != UINT32_MAX) { P(":"); u(f->source_line); } }
    if (f->signal_handler_called) P(" <signal handler called>");
#elif T == 2
    if (f->special_stack) P("[%s] ", f->special_stack);
    if (!f->reliable) P("? ");
    P("%s", f->function_name ? f->function_name : "??"); if (f->module_name) P(" in %s", f->module_name);
#elif T == 3
    if (f->file_name) { P("["); if (f->special_file) P("<"); P("%s", f->file_name); if (f->special_file) P(">"); if (f->file_line) { P(":"); u(f->file_line); } P("]"); }
    P(" "); if (f->special_function) P("<"); P("%s", f->function_name ? f->function_name : "??"); if (f->special_function) P(">");
#elif T == 4
    if (f->is_exception) { if (f->name) P("%s", f->name); if (f->message) P(": %s", f->message); return; }
    P("\tat %s(", f->name ? f->name : ""); P("%s", f->is_native ? "Native Method" : f->file_name ? f->file_name : "Unknown Source"); if (f->file_line) { P(":"); u(f->file_line); } P(")");
    const char *c = f->class_path; if (!c) P(" [unknown]"); else { bool url = false; for (const char *p = c; *p && *p != '/'; p++) if (*p == ':') url = true; if (!strchr(c, '/') && !strchr(c, ':')) url = true; P(" [%s%s]", url ? "" : "file:", c); }
#elif T == 5
    for (uint32_t i = 0; i < f->rescue_level; i++) P("rescue in ");
    if (f->block_level == 1) P("block in "); else if (f->block_level) { P("block ("); u(f->block_level); P(" levels) in "); }
    if (f->special_function) P("<"); P("%s", f->function_name ? f->function_name : "??"); if (f->special_function) P(">");
    if (f->file_name) { P(" in %s", f->file_name); if (f->file_line) { P(":"); u(f->file_line); } }
#else
    P("at "); if (f->function_name) P("%s (", f->function_name); P("%s:", f->file_name ? f->file_name : "<unknown>"); u(f->file_line); P(":"); u(f->line_column); if (f->function_name) P(")");
#endif
}
static void render(FR *f, GString *s, bool verbose)
{
#if T == 1
    sr_gdb_frame_append_to_str(f, s, verbose);
#else
    FF(append_to_str)(f, s);
#endif
}
/* numbers of any width without a case for every number of digits (that is printf's business) */
static uint64_t num(uint64_t max, const char *nm) { if (sx_choice(2, "huge")) return max - 1; uint64_t v = sx_u64(nm); sx_assume(v <= 12); return v; }
/* one number arbitrary, the others zero or not */
static void small(FR *f)
{
    int k = sx_choice(NF, "number"), z = sx_choice(2, "zero"); sx_assume(fds[k].k != F_STR && fds[k].k != F_BOOL); seti(f, k, num(fds[k].k == F_U32 ? UINT32_MAX : UINT64_MAX, "value"));
    for (int i = 0; i < NF; i++) if (i != k && (fds[i].k == F_U32 || fds[i].k == F_U64)) seti(f, i, z ? 0 : 1 + (i & 1));
#if T == 5
    if (f->rescue_level > 2) f->rescue_level = 2;
#endif
}
/* an absent, special or arbitrary short string */
static char *word(int max, const char *nm) { return opt_str(max, nm); }
static FR *named(const char *n) { FR *f = FF(new)();
#if T == 4
    f->name = g_strdup(n);
#else
    f->function_name = g_strdup(n);
#endif
    return f; }
static void expect_is(char *got, const char *what) { sx_assert(got && same(got, W->str), what); sx_obs_s("text", got); }
void harness(void)
{
    uint64_t live = sx_live_heap(); W = g_string_new(NULL);
#if MODE == 0
    int deep = strno(sx_choice(nstr(), "deep")); FR *f = sym_frame(1u << deep, L, sx_choice(2, "others") ? "a/b" : NULL); small(f); struct snap *b = snap_frame(f);
    GString *s = g_string_new(NULL); if (sx_choice(2, "prefix")) { g_string_append(s, "x"); P("x"); }
#if T == 1
    int how = sx_choice(3, "how"); if (how == 2) sr_frame_append_to_str(GF(f), s); else render(f, s, how); expect_frame(f, how == 1);
#else
    if (sx_choice(2, "generic")) sr_frame_append_to_str(GF(f), s); else render(f, s, false);
    expect_frame(f, false);
#endif
    expect_is(s->str, "another text for the frame"); sx_assert(s->len == W->len, "length of the text"); sx_assert(snap_same(b, f) && !f->next, "the frame is changed by rendering it"); sx_cover("frame");
    snap_free(b); FF(free)(f); g_string_free(s, TRUE);
#elif MODE == 1 /* what the stacktrace is about */
    ST *s = SF(new)();
#if T == 0
    s->executable = word(L, "exe"); s->signal = sx_u16("signal"); P("Program %s was terminated by signal ", s->executable ? s->executable : "<unknown>"); u(s->signal);
#elif T == 1
    s->threads = sym_thread(sx_choice(2, "frames"), 0, 0, "f");
#elif T == 2
    static const char *const rs[] = { NULL, "BUG: unable to handle kernel paging request at 0000", "general protection fault: 0000", "general protection fault", "BUG: x" }; int r = sx_choice(6, "reason"); s->reason = r < 5 ? g_strdup(rs[r]) : word(L, "reason");
    static const char *const fn[] = { NULL, "f", "dump_stack", "__might_sleep", "warn_slowpath_fmt" }; FR **p = &s->frames; int n = sx_choice(3, "frames"); for (int i = 0; i < n; i++) { *p = named(fn[sx_choice(5, "fn")]); (*p)->module_name = word(i ? 0 : L, "mod"); (*p)->reliable = true; p = &(*p)->next; }
    ST *c = SF(dup)(s); sr_normalize_koops_stacktrace(c); const char *func = c->frames && c->frames->function_name ? c->frames->function_name : "<unknown>";
    if (!s->reason) P("Kernel oops in %s", func); else if (strstr(s->reason, "general protection fault: ")) P("general protection fault in %s", func); else if (strstr(s->reason, "kernel paging request at")) P("kernel paging request at %s", func); else P("%s", s->reason);
    if (c->frames && c->frames->module_name) P(" [%s]", c->frames->module_name); SF(free)(c);
#elif T == 4
    int nt = sx_choice(3, "threads"), n = sx_choice(4, "frames"); const char *exc = NULL, *file = NULL; uint32_t line = 0;
    for (int t = 0; t < nt; t++) { TH *th = TF(new)(); FR **p = &th->frames; for (int i = 0; i < (t ? 1 : n); i++) { FR *f = *p = FF(new)(); p = &f->next; if (t) { f->is_exception = true; f->name = g_strdup("other"); continue; } f->name = word(i ? 0 : L, "name"); f->file_name = word(i == n - 1 ? L : 0, "file"); f->file_line = i == n - 1 ? num(UINT32_MAX, "line") : 5; f->is_exception = sx_choice(2, "exception"); if (f->is_exception && f->name && !exc) exc = f->name; if (i == n - 1 && f->file_name) { file = f->file_name; line = f->file_line; } } TH **q = &s->threads; while (*q) q = &(*q)->next; *q = th; }
    P("Exception %s occurred in %s:", exc ? exc : "<unknown>", file ? file : "<unknown>"); u(line);
#else
    int n = sx_choice(3, "frames"); FR **p = &s->frames; for (int i = 0; i < n; i++) { FR *f = *p = FF(new)(); p = &f->next; f->file_name = word(L, "file"); f->file_line = sx_choice(2, "num") ? num(UINT32_MAX, "line") : 5;
#if T == 6
        f->line_column = f->file_line == 5 ? num(UINT32_MAX, "column") : 0;
#endif
    }
    s->exception_name = word(L, "exception"); FR *f = s->frames; if (T == 3) while (f && f->next) f = f->next;
    P("%s %s %s:", s->exception_name ? s->exception_name : T == 6 ? "Error" : "Unknown error", T == 6 ? "at" : "in", f && f->file_name ? f->file_name : "<unknown>"); u(f ? f->file_line : 0);
#if T == 6
    P(":"); u(f ? f->line_column : 0);
#endif
#endif
    ST *before = SF(dup)(s);
#if T == 1
    sx_assert(sr_stacktrace_get_reason(GS(s)) == NULL, "a reason for a gdb stacktrace");
#else
    char *got = sx_choice(2, "generic") ? sr_stacktrace_get_reason(GS(s)) : SF(get_reason)(s); expect_is(got, "another reason"); g_free(got);
#endif
    sx_assert(st_same(before, s), "the stacktrace is changed by asking for its reason"); sx_cover("reason"); SF(free)(before); SF(free)(s);
#elif MODE == 2 /* short text */
    int nth = MT ? sx_choice(3, "threads") : 1, n = sx_choice(NFR + 1, "frames"), max = sx_choice(NFR + 2, "max"); ST *s = SF(new)();
#if MT
    for (int t = 0; t < nth; t++) { TH *th = TF(new)(); FR **p = &th->frames;
#else
    for (int t = 0; t < nth; t++) { ST *th = s; FR **p = &s->frames;
#endif
        for (int i = 0; i < (t ? 1 : n); i++, p = &(*p)->next) {
            static const char *const fn[] = { NULL, "f", "??", "abort", "raise", "__kernel_vsyscall" }; *p = named(fn[t ? 1 : sx_choice(T == 1 ? 6 : T == 0 ? 4 : 2, "fn")]);
#if T == 1
            (*p)->number = i; (*p)->source_file = g_strdup((*p)->function_name && (*p)->function_name[0] != 'f' && sx_choice(2, "src") ? "raise.c" : NULL); if (!(*p)->function_name) (*p)->signal_handler_called = true; (*p)->address = i ? 20 : sx_u64("address");
#endif
        }
#if MT
        TH **q = &s->threads; while (*q) q = &(*q)->next; *q = th;
#endif
    }
#if T == 0
    int c = sx_choice(nth + 1, "crash"); s->crash_thread = c == 0 ? NULL : c == 1 ? s->threads : s->threads->next;
#elif T == 1
    if (nth) { s->crash_tid = 7; int c = sx_choice(nth + 1, "crash"); TH *x = s->threads; if (c == 2) x = x->next; if (c) x->tid = 7; for (TH *y = s->threads; y; y = y->next) if (y != x || !c) y->tid = 1; }
    if (sx_choice(2, "libs")) { struct sr_gdb_sharedlib *l = sr_gdb_sharedlib_new(); l->from = 16; l->to = 32; l->soname = g_strdup("/lib/libx.so.1"); s->libs = l; }
#endif
    ST *before = SF(dup)(s);
    void *want;
#if MT
    want = sr_stacktrace_find_crash_thread(GS(s));
#else
    want = s;
#endif
    int shown = 0;
#if T == 1
    if (want) {
        TH *o = TF(dup)(want, false); if (s->libs) sr_gdb_thread_set_libnames(o, s->libs); sr_normalize_gdb_thread(o); sr_gdb_normalize_optimize_thread(o);
        int cnt = 0; for (FR *f = o->frames; f; f = f->next) cnt += f->function_name != NULL;
        if (max && cnt > max) cnt = max; P("Thread no. "); u(o->number); P(" (%d frames)\n", cnt);
        for (FR *f = o->frames; f && shown < cnt; f = f->next) if (f->function_name) { expect_frame(f, true); P("\n"); shown++; }
        TF(free)(o);
    }
#else
    if (want) for (FR *f = frames_of(want); f && (!max || shown < max); f = f->next) { P("#%d ", ++shown); expect_frame(f, false); P("\n"); }
#endif
    char *got = sr_stacktrace_to_short_text(GS(s), max); if (!want) sx_assert(got == NULL, "a text without a crash thread"); else expect_is(got, "another short text");
    sx_assert(st_same(before, s), "the stacktrace is changed by rendering it"); sx_cover(!want ? "none" : shown && max && shown == max ? "limited" : "all"); g_free(got); SF(free)(before); SF(free)(s);
#elif MODE == 3 /* gdb stacktraces in full */
    int nth = sx_choice(3, "threads"); bool verbose = sx_choice(2, "verbose"); ST *s = SF(new)(); TH **p = &s->threads;
    for (int t = 0; t < nth; t++, p = &(*p)->next) { int n = sx_choice(NFR + 1, "frames"); const char *nm = sx_choice(2, "names") ? "n" : NULL; *p = sym_thread(n, 0, 0, nm); (*p)->number = t ? 5 : num(UINT32_MAX, "number"); for (FR *f = (*p)->frames; f; f = f->next) { f->number = 12; f->source_line = f->next ? UINT32_MAX : 7; } }
    if (sx_choice(2, "crash")) { s->crash = sym_frame(1u << strno(0), L, "c"); s->crash->source_line = 8; if (nth) s->crash->number = 0; }
    ST *before = SF(dup)(s);
    if (verbose) { P("Thread count: %d\n", nth); if (s->crash) { P("Crash frame: "); expect_frame(s->crash, true); P("\n"); } }
    for (TH *t = s->threads; t; t = t->next) {
        GString *all = W; W = g_string_new(NULL);
        if (verbose) { P("Thread no. "); u(t->number); P(" (%d frames)\n", nframes(t)); } else P("Thread\n"); for (FR *f = t->frames; f; f = f->next) { expect_frame(f, verbose); P("\n"); }
        GString *g = g_string_new("y"); TF(append_to_str)(t, g, verbose); sx_assert(g->str[0] == 'y' && same(g->str + 1, W->str), "another text for the thread"); g_string_free(g, TRUE);
        g_string_append(all, W->str); g_string_free(W, TRUE); W = all;
    }
    char *got = SF(to_text)(s, verbose); expect_is(got, "another text for the stacktrace"); g_free(got); sx_assert(st_same(before, s), "the stacktrace is changed by rendering it"); sx_cover("text"); SF(free)(before); SF(free)(s);
#elif MODE == 4 /* function lists (gdb, java); for gdb they are read back */
    int n = sx_choice(NFR + 1, "frames"); TH *t = TF(new)(); FR **p = &t->frames; char *nm[4], *lib[4]; int k = 0, deep = n ? sx_choice(n, "deep") : 0;
    for (int i = 0; i < n; i++, p = &(*p)->next) {
        char *s = sx_choice(3, "name") ? sx_str(i == deep ? 1 + sx_choice(L, "len") : 1, "fn") : NULL; if (s) for (char *c = s; *c; c++) sx_assume(*c != '\n'); *p = named(s); char *l = NULL;
#if T == 1
        if (sx_choice(2, "lib")) { l = sx_str(i == deep ? 1 + sx_choice(L, "llen") : 1, "lib"); for (char *c = l; *c; c++) sx_assume(*c != '\n' && *c != ' '); (*p)->library_name = g_strdup(l); }
        else if (s) for (char *c = s; *c; c++) sx_assume(*c != ' ');
#endif
        if (s) { nm[k] = s; lib[k++] = l; P("%s", s); if (l) P(" %s", l); P("\n"); } else free(l);
    }
    char *got = TF(format_funs)(t); expect_is(got, "another list of functions");
#if T == 1
    TH *r = sr_gdb_thread_parse_funs(got); FR *f = r->frames;
    for (int i = 0; i < k; i++, f = f->next) { sx_assert(f != NULL, "a function is lost"); if (!f) sx_stop(); sx_assert(same(f->function_name, nm[i]), "another function"); sx_assert(same(f->library_name, lib[i]), "another library"); sx_assert(f->number == (uint32_t)i, "frame number"); }
    sx_assert(!f, "a function from nowhere"); TF(free)(r);
#endif
    for (int i = 0; i < k; i++) { free(nm[i]); free(lib[i]); } sx_cover(k ? "list" : "empty"); g_free(got); TF(free)(t);
#elif MODE == 5 /* a rendered Java thread is read back as what it was */
    int n = 1 + sx_choice(NFR, "frames"), deep = sx_choice(n, "deep"); TH *t = TF(new)(); FR **p = &t->frames; t->name = sx_choice(2, "tname") ? g_strdup("m") : NULL;
    #define W1(len, bad) ({ char *s_ = sx_str(len, "w"); for (char *c_ = s_; *c_; c_++) for (const char *b_ = " \t\n\r\v\f" bad; *b_; b_++) sx_assume(*c_ != *b_); char *r_ = g_strdup(s_); free(s_); r_; })
    for (int i = 0; i < n; i++, p = &(*p)->next) {
        FR *f = *p = FF(new)(); int len = i == deep ? L : 1;
        if (i == 0 || (MODE == 5 && sx_choice(3, "exception") == 2)) { f->is_exception = true; f->name = W1(len, ":"); if (i + 1 == n && 0) {} if (sx_choice(2, "message")) f->message = W1(len, ""); }
        else { f->name = W1(len, "("); switch (sx_choice(3, "source")) { case 0: f->is_native = true; break; case 1: break; case 2: f->file_name = W1(len, ":)"); f->file_line = i == deep ? num(UINT32_MAX, "line") : 3; break; }
            if (sx_choice(2, "path")) { f->class_path = W1(len, "]!:"); sx_assume(f->class_path[0] != '/' || len == 1); char *w = g_strdup_printf("/%s", f->class_path); g_free(f->class_path); f->class_path = w; } }
    }
    /* the outermost exception is printed first: frames of the last one, then its causes */
    int ne = 0; for (FR *f = t->frames; f; f = f->next) ne += f->is_exception;
    P("Exception in thread \"%s\" ", t->name ? t->name : "");
    for (int e = ne; e > 0; e--) { int k = 0; if (e < ne) P("Caused by: "); for (FR *f = t->frames; f; f = f->next) { k += f->is_exception; if (k == e) { expect_frame(f, false); P("\n"); } } if (e < ne) P("\t...\n"); }
    GString *s = g_string_new(NULL); TF(append_to_str)(t, s); expect_is(s->str, "another text for the thread");
    if (ne == 1) {        /* without causes it can be read back */
    const char *q = s->str; struct sr_location loc; sr_location_init(&loc); TH *r = sr_java_thread_parse(&q, &loc);
    sx_assert(r != NULL, "the rendered thread can not be parsed"); if (!r) sx_stop();
    sx_assert(*q == 0, "the rendered thread is parsed in part"); sx_assert(same(r->name, t->name ? t->name : ""), "thread name");
    FR *a = t->frames, *b = r->frames; for (; a && b; a = a->next, b = b->next) { sx_assert(a->is_exception == b->is_exception && same(a->name, b->name) && same(a->message, b->message) && same(a->file_name, b->file_name) && a->is_native == b->is_native && same(a->class_path, b->class_path), "another frame"); sx_assert(a->file_line == b->file_line, "another line"); }
    sx_assert(!a && !b, "another number of frames"); sx_cover("thread"); TF(free)(r); }
    TF(free)(t); g_string_free(s, TRUE);
#elif MODE == 6 /* library names of frames */
    int nl = sx_choice(3, "libs"); uint64_t base = sx_choice(2, "high") ? 0xffffffff00000000ull : 0; uint64_t from[2], to[2]; const char *want[2]; ST *s = SF(new)(); struct sr_gdb_sharedlib **lp = &s->libs;
    static const char *const so[][2] = { { "/lib64/libc.so.6", "libc.so" }, { "libm-2.so", "libm-2.so" }, { "/a.so/b", "b" }, { "/usr/ld.x", "ld.x" }, { "/x/", "" }, { "/a/so.so.so", "so.so" } };
    for (int i = 0; i < nl; i++) { *lp = sr_gdb_sharedlib_new(); from[i] = (*lp)->from = base + sx_u16("from"); to[i] = (*lp)->to = base + sx_u16("to"); sx_assume(from[i] <= to[i]); int k = i ? 0 : sx_choice(6, "so"); (*lp)->soname = g_strdup(so[k][0]); want[i] = so[k][1]; lp = &(*lp)->next; }
    if (nl == 2) sx_assume((to[0] < from[1]) | (to[1] < from[0]));
    TH *t1 = TF(new)(), *t2 = sx_choice(2, "two") ? TF(new)() : NULL; s->threads = t1; t1->next = t2; FR **p = &t1->frames; int n = sx_choice(NFR + 1, "frames"); for (int i = 0; i < n; i++, p = &(*p)->next) { *p = named("f"); (*p)->address = (sx_choice(2, "ahigh") ? 0xffffffff00000000ull : 0) + sx_u16("address"); (*p)->library_name = g_strdup(sx_choice(2, "old") ? "old" : NULL); }
    if (t2) { t2->frames = named("g"); t2->frames->address = base + sx_u16("address"); }
    TH *b = TF(dup)(t1, true); if (sx_choice(2, "whole")) SF(set_libnames)(s); else { TF(set_libnames)(t1, s->libs); if (t2) TF(set_libnames)(t2, s->libs); }
    for (TH *t = t1, *x = b; t; t = t->next, x = x->next) for (FR *f = t->frames, *g = x->frames; f; f = f->next, g = g->next) {
        const char *w = g->library_name; bool hit = false; for (int i = 0; i < nl; i++) if ((f->address >= from[i]) & (f->address < to[i])) { w = want[i]; hit = true; }
        bool edge = false; for (int i = 0; i < nl; i++) if (f->address == to[i]) edge = true;        /* whether the end belongs to the library is the business of the lookup */
        if (!edge) sx_assert(same(f->library_name, w), hit ? "the library that contains the address is not named" : "a library that does not contain the address is named"); sx_assert(f->address == g->address && same(f->function_name, g->function_name), "something else is changed"); sx_cover(hit ? "named" : "left"); }
    while (b) { TH *x = b->next; TF(free)(b); b = x; } SF(free)(s);
#endif
    g_string_free(W, TRUE); W = NULL; sx_assert(sx_live_heap() == live, "memory is lost");
}
