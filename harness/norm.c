/* User-space normalisation (C21) and the noise tables behind it (C36).
   The oracle below is written from the documentation and the list of names, over plain arrays. T=0 core, T=1 gdb. */
#include "types.h"
#include "normalize.h"
#include "sx_noise_tab.h"
#include "noise_pinned.h"
#if T == 0
#define FILEOF(f) (f)->file_name
#define NORM sr_normalize_core_thread
#else
#define FILEOF(f) (f)->source_file
#define NORM sr_normalize_gdb_thread
#endif
struct call { const char *name; const char *files[6]; };
/* functions that end the process: everything above the lowest of them is noise */
#if T == 1
static const struct call exits[] = { { "__run_exit_handlers", { "exit.c" } }, { "raise", { "pt-raise.c", "libc.so", "libc-", "libpthread.so", "raise.c" } }, { "__GI_raise", { "raise.c" } }, { "exit", { "exit.c" } }, { "abort", { "abort.c", "libc.so", "libc-" } },
    { "__GI_abort", { "abort.c" } }, { "__chk_fail", { "chk_fail.c", "libc.so" } }, { "__stack_chk_fail", { "stack_chk_fail.c", "libc.so" } }, { "do_exit", { "exit.c" } }, { "kill", { "syscall-template.S" } } };
#else       /* no file given: any file, or none */
static const struct call exits[] = { { "__run_exit_handlers" }, { "raise", { "libc.so", "libc-", "libpthread.so" } }, { "__GI_raise" }, { "exit" }, { "abort", { "libc.so", "libc-" } }, { "__GI_abort" }, { "__chk_fail", { "libc.so" } }, { "__stack_chk_fail", { "libc.so" } }, { "kill" } };
#endif
#define NEX ((int)(sizeof exits / sizeof *exits))
static const struct call above[] = {
#define C_(n) { n, { "" } }
    C_("__assert_fail"), C_("__assert_fail_base"), C_("__chk_fail"), C_("__longjmp_chk"), C_("__malloc_assert"), C_("__strcat_chk"), C_("__strcpy_chk"), C_("__strncpy_chk"), C_("__vsnprintf_chk"), C_("___vsnprintf_chk"), C_("__snprintf_chk"), C_("___snprintf_chk"),
    C_("__vasprintf_chk"), C_("__vsprintf_chk"), C_("___sprintf_chk"), C_("__fwprintf_chk"), C_("__asprintf_chk"), C_("___printf_chk"), C_("___fprintf_chk"), C_("__vswprintf_chk"),
    { "malloc_consolidate", { "malloc.c", "libc" } }, { "malloc_printerr", { "malloc.c", "libc" } }, { "_int_malloc", { "malloc.c", "libc" } }, { "_int_free", { "malloc.c", "libc" } }, { "_int_realloc", { "malloc.c", "libc" } }, { "_int_memalign", { "malloc.c" } }, { "__libc_free", { "malloc.c" } },
    { "__libc_malloc", { "malloc.c" } }, { "__libc_memalign", { "malloc.c" } }, { "__libc_realloc", { "malloc.c" } }, { "__posix_memalign", { "malloc.c" } }, { "__libc_calloc", { "malloc.c" } }, { "__libc_fatal", { "libc" } } };
#define NAB ((int)(sizeof above / sizeof *above))
static const char *const arch[] = { "memchr", "memcmp", "memcpy", "memmove", "memset", "rawmemchr", "strcasecmp", "strcasecmp_l", "strcat", "strchr", "strchrnul", "strcmp", "strcpy", "strcspn", "strlen", "strncmp", "strncpy", "strpbrk", "strrchr", "strspn", "strstr", "strtok" };
static const char *const archsuf[] = { "_sse2", "_sse2_bsf", "_ssse3", "_ssse3_rep", "_ssse3_back", "_sse42", "_ia32" };
#define NAR ((int)(sizeof arch / sizeof *arch))
static bool has(const char *file, const char *part) { return file && strstr(file, part); }
static bool calls(const struct call *c, const char *name, const char *file)
{
    if (!name || strcmp(name, c->name)) return false;
    if (!c->files[0]) return true;
    for (int i = 0; i < 6 && c->files[i]; i++) if (has(file, c->files[i])) return true;
    return false;
}
static bool o_exit(const char *n, const char *f) { for (int i = 0; i < NEX; i++) if (calls(exits + i, n, f)) return true; return false; }
static bool o_above(const char *n, const char *f) { for (int i = 0; i < NAB; i++) if (calls(above + i, n, f)) return true; return false; }
static bool o_noise(const char *n, const char *f)
{
    if (!n || !f) return false;
    for (int i = 0; i < NOISE_N; i++) if (!strcmp(n, noise_tab[i].name)) { for (int k = 0; noise_tab[i].files[k]; k++) if (has(f, noise_tab[i].files[k])) return true; }
    for (int i = 0; i < PINNED_N; i++) if (!strcmp(n, noise_pinned[i].name)) { for (int k = 0; noise_pinned[i].files[k]; k++) if (has(f, noise_pinned[i].files[k])) return true; }
    return false;
}
static bool pre(const char *s, const char *p) { return !strncmp(s, p, strlen(p)); }
/* the name under which a frame is known after prefixes and variants are unified */
static char *o_name(const char *n, const char *f)
{
    if (!n) return NULL;
    const char *r = n;
    if (T == 0 || f) {
        if (pre(r, "IA__gdk")) r += 4;
        if (pre(r, "IA__g_")) r += 4;
        if (pre(r, "IA__gtk")) r += 4;
        if (pre(r, "__GI_")) r += 5;
    }
    if (pre(r, "__")) for (int i = 0; i < NAR; i++) if (pre(r + 2, arch[i])) for (int k = 0; k < 7; k++) if (!strcmp(r + 2 + strlen(arch[i]), archsuf[k])) {
        if (has(f, k == 6 ? "/sysdeps" : "/sysdeps/") || has(f, "libc.so") || (has(f, arch[i]))) return g_strdup(arch[i]);
    }
    return g_strdup(r);
}
struct row { FR *f; char *name; const char *file; uint64_t addr; bool keep; };
static bool unk(const char *n) { return T == 0 ? !n : n && !strcmp(n, "??"); }
/* what is left of the rows */
static int o_norm(struct row *r, int n)
{
    int last = -1;
    for (int i = 0; i < n; i++) { r[i].keep = true; if (o_exit(r[i].name, r[i].file)) last = i; }
    for (int i = 0; i <= last; i++) r[i].keep = false;
    for (int i = last + 1; i < n; i++) { char *x = o_name(r[i].name, r[i].file); g_free(r[i].name); r[i].name = x; }
    for (int i = last + 1; i < n; i++) {
        bool ab = o_above(r[i].name, r[i].file) || o_exit(r[i].name, r[i].file);
        if (ab) for (int k = 0; k < i; k++) r[k].keep = false;
        if (ab || o_noise(r[i].name, r[i].file)) r[i].keep = false;
    }
    int i = 0; while (i < n && !r[i].keep) i++;
    if (i < n && r[i].addr == 0 && unk(r[i].name)) r[i].keep = false;
    i = n - 1; while (i >= 0 && !r[i].keep) i--;
    if (i >= 0 && r[i].addr == 0 && unk(r[i].name)) r[i].keep = false;
    int p = -1, c = 0;
    for (i = 0; i < n; i++) if (r[i].keep) { if (p >= 0 && !unk(r[p].name) && r[p].name && r[i].name && !strcmp(r[p].name, r[i].name)) r[i].keep = false; else { p = i; c++; } }
    return c;
}
static FR *mk(const char *name, const char *file, uint64_t addr) { FR *f = FF(new)(); f->function_name = g_strdup(name); FILEOF(f) = g_strdup(file); f->address = addr; return f; }
static void check(TH *t, struct row *r, int n)
{
    struct snap *s[8];
    for (int i = 0; i < n; i++) { r[i].f = frame_at(t, i); r[i].name = g_strdup(r[i].f->function_name); r[i].file = FILEOF(r[i].f) ? g_strdup(FILEOF(r[i].f)) : NULL; r[i].addr = r[i].f->address; s[i] = snap_frame(r[i].f); }
    NORM(t);
    int c = o_norm(r, n); FR *q = t->frames;
    for (int i = 0; i < n; i++) {
        if (!r[i].keep) { for (FR *x = t->frames; x; x = x->next) sx_assert(x != r[i].f, "a frame of known noise, or above a point of exit, is kept"); continue; }
        bool there = false; for (FR *x = t->frames; x; x = x->next) there |= x == r[i].f;
        sx_assert(there, "a frame that is not noise is removed"); sx_assert(!there || q == r[i].f, "the frames that are left change their order"); if (q != r[i].f) sx_stop();
        sx_assert(same(q->function_name, r[i].name), "the function is not known under its unified name");
        for (int k = 0; k < NF; k++) if (fds[k].k != F_STR) sx_assert(geti(q, k) == s[i]->i[k], "normalisation changed a number of a frame"); else if (strp(q, k) != &q->function_name) sx_assert(same(*strp(q, k), s[i]->s[k]), "normalisation changed another text of a frame");
        q = q->next;
    }
    sx_assert(q == NULL, "frames appeared"); sx_cover(c == n ? "kept" : "removed");
    for (int i = 0; i < n; i++) { g_free(r[i].name); g_free((char *)r[i].file); snap_free(s[i]); }
}
/* a file name that contains every file of every list */
static char *all_files(void)
{
    char *b = malloc(16384); int n = 0; b[0] = 0; n = 0;
    for (int i = 0; i < NOISE_N; i++) for (int k = 0; noise_tab[i].files[k]; k++) { const char *s = noise_tab[i].files[k]; b[n++] = ' '; while (*s) b[n++] = *s++; b[n] = 0; }
    return b;
}
static void one(const char *name, const char *file)
{
    TH *t = new_thread(); t->frames = mk("zz_lead", "zz", 7); t->frames->next = mk(name, file, 8); t->frames->next->next = mk("zz_tail", "zz", 9);
    struct row r[3]; check(t, r, 3); 
#if MT
    TF(free)(t);
#endif
}
void harness(void)
{
    uint64_t live = sx_live_heap();
#if MODE == 0                   /* any short name */
    char *nm = sx_str_upto(N, "name"), *af = all_files(); const char *fl[] = { NULL, "", "zz", af, "libc", "/x/libglib-2.0.so" };
    one(nm, fl[sx_choice(6, "file")]); free(nm); free(af);
#elif MODE == 1                 /* every listed name with each of its files, embedded in a path, and with other files */
    int i = sx_choice(NOISE_N + PINNED_N, "listed"); const char *nm = i < NOISE_N ? noise_tab[i].name : noise_pinned[i - NOISE_N].name; const char *const *fs = i < NOISE_N ? noise_tab[i].files : noise_pinned[i - NOISE_N].files; int nf = 0; while (fs[nf]) nf++;
    int k = sx_choice(nf + 3, "file");
    if (k < nf) { char *f = g_strconcat("/u/", fs[k], ".9", NULL); one(nm, f); g_free(f); } else if (k == nf) one(nm, NULL);
    else if (k == nf + 1) { char *f = sx_str_upto(2, "file"); one(nm, f); free(f); }
    else { char *f = g_strdup(fs[0]); int n = strlen(f); if (n) { f[n - 1] = sx_u8("last"); } one(nm, f); g_free(f); }
#elif MODE == 2                 /* one byte away from a listed name */
    int i = sx_choice(NOISE_N + NEX + NAB, "listed"); const char *w = i < NOISE_N ? noise_tab[i].name : i < NOISE_N + NEX ? exits[i - NOISE_N].name : above[i - NOISE_N - NEX].name; int n = strlen(w), how = sx_choice(3, "how");
    const char *f = i < NOISE_N ? noise_tab[i].files[0] : i < NOISE_N + NEX ? exits[i - NOISE_N].files[0] ? exits[i - NOISE_N].files[0] : "zz" : above[i - NOISE_N - NEX].files[0];
    char *b;
    if (how == 0) { b = g_strdup(w); int at[4] = { 0, n - 1, n > 3 ? 3 : n / 2, n > 7 ? 7 : n / 2 }; b[at[sx_choice(4, "at")]] = sx_u8("byte"); }
    else { char *s = sx_str(1, "add"); b = how == 1 ? g_strconcat(w, s, NULL) : g_strconcat(s, w, NULL); free(s); }
    one(b, f); g_free(b);
#elif MODE == 3                 /* whole threads */
    static const struct { const char *n, *f; } kind[] = { { "foo", "foo.c" }, { "??", NULL }, { NULL, NULL }, { "abort", "libc.so" }, { "abort", "zz.c" }, { "IA__g_log", "gmessages.c" }, { "__GI_raise", "raise.c" }, { "__memcpy_ssse3", "/x/sysdeps/y" }, { "_int_free", "malloc.c" }, { "memcpy", "libc.so" }, { "poll", "libc" }, { "foo", NULL } };
    int n = sx_choice(NFR + 1, "n"); TH *t = new_thread(); FR **p = &t->frames; struct row r[8];
    for (int i = 0; i < n; i++) { int k = sx_choice((int)(sizeof kind / sizeof *kind), "kind"); *p = mk(kind[k].n, kind[k].f, sx_u64("address")); p = &(*p)->next; }
    check(t, r, n);
#if MT
    TF(free)(t);
#endif
#elif MODE == 4                 /* names that are unified: prefixes and processor variants, with something arbitrary in front of or after them */
    char b[64]; int how = sx_choice(3, "how"); b[0] = 0;
    if (how == 0) { strcat(b, "__"); strcat(b, arch[sx_choice(NAR, "base")]); strcat(b, archsuf[sx_choice(7, "variant")]); }
    else if (how == 1) { static const char *const px[] = { "IA__gdk", "IA__g_", "IA__gtk", "__GI_", "IA__", "__GI", "IA__g_IA__gtk", "__GI_IA__g_", "__GI___GI_" }; strcat(b, px[sx_choice(9, "prefix")]); char *s = sx_str_upto(3, "rest"); strcat(b, s); free(s); }
    else { strcat(b, "__"); strcat(b, arch[sx_choice(NAR, "base")]); strcat(b, "_ssse3"); int n = strlen(b), at = sx_choice(2, "at") ? n - 1 : 2; b[at] = sx_u8("byte"); }
    static const char *const fl[] = { NULL, "zz", "/sysdeps/q", "a/sysdeps", "libc.so.6" }; one(b, fl[sx_choice(5, "file")]);
#elif MODE == 5                 /* main is dropped when optimising for comparison; nothing else */
    int n = sx_choice(NFR + 1, "n"); TH *t = new_thread(); FR **p = &t->frames; FR *f[8]; bool m[8];
    for (int i = 0; i < n; i++) { char *s = sx_choice(4, "null") ? NULL : sx_str_upto(5, "name"); if (sx_choice(2, "main")) { free(s); s = strdup("main"); } f[i] = *p = mk(s, "m.c", i); m[i] = s && !strcmp(s, "main"); free(s); p = &(*p)->next; }
    sr_gdb_normalize_optimize_thread(t); FR *q = t->frames; int c = 0;
    for (int i = 0; i < n; i++) if (!m[i]) { sx_assert(q == f[i], "a frame other than main is removed, or main is kept"); if (q != f[i]) sx_stop(); q = q->next; } else c++;
    sx_assert(!q, "main is kept"); sx_cover(c ? "removed" : "kept"); TF(free)(t);
#elif MODE == 6                 /* unknown functions in the same place of two threads are paired */
    static const char *const nm[] = { "??", "a", "b", NULL }; static const char *const lb[] = { NULL, "x", "y" };
    TH *t[2]; int n[2]; FR *f[2][4]; const char *on[2][4]; int used[8][2] = { { 0 } };
    for (int s = 0; s < 2; s++) {
        t[s] = new_thread(); FR **p = &t[s]->frames; n[s] = sx_choice(NFR + 1, "n");
        for (int i = 0; i < n[s]; i++) { int k = sx_choice(i == 0 ? 2 : 2 + (NFR < 3), "name"); on[s][i] = nm[k]; f[s][i] = *p = mk(nm[k], "f.c", 5); (*p)->library_name = g_strdup(k == 0 ? lb[sx_choice(2 + (NFR < 3), "lib")] : NULL); p = &(*p)->next; }
    }
    sr_normalize_gdb_paired_unknown_function_names(t[0], t[1]); int pairs = 0;
    for (int s = 0; s < 2; s++) {
        FR *q = t[s]->frames;
        for (int i = 0; i < n[s]; i++, q = q->next) {
            sx_assert(q == f[s][i], "pairing moves or removes frames"); if (q != f[s][i]) sx_stop();
            if (same(q->function_name, on[s][i])) continue;
            sx_assert(same(on[s][i], "??"), "pairing renames a known function");
            sx_assert(q->function_name && pre(q->function_name, "__unknown_function_"), "pairing gives another kind of name"); int id = q->function_name[19] - '0'; sx_assert(id >= 0 && id < 8 && !q->function_name[20], "pairing gives another kind of name"); if (id < 0 || id > 7) sx_stop();
            sx_assert(!used[id][s], "two functions of one thread get the same name"); used[id][s] = i + 1; pairs++;
        }
        sx_assert(!q, "frames appeared");
    }
    for (int i = 0; i < 8; i++) {
        sx_assert(!used[i][0] == !used[i][1], "a function is renamed although it is not paired"); if (!used[i][0] || !used[i][1]) continue;
        FR *a = f[0][used[i][0] - 1], *b = f[1][used[i][1] - 1];
        sx_assert(!(a->library_name && b->library_name && strcmp(a->library_name, b->library_name)), "functions of different libraries are paired");
        sx_assert(!a->next == !b->next && (!a->next || same(on[0][used[i][0]], on[1][used[i][1]])), "functions with different callers are paired");
        int x = used[i][0] - 1, y = used[i][1] - 1; sx_assert((x == 0) == (y == 0), "an innermost function is paired with another one");
        if (x && y) sx_assert(same(f[0][x - 1]->function_name, f[1][y - 1]->function_name), "functions with different callees are paired");
    }
    if (n[0] && n[1] && same(on[0][0], "??") && same(on[1][0], "??") && n[0] == 1 && n[1] == 1 && !(f[0][0]->library_name && f[1][0]->library_name && strcmp(f[0][0]->library_name, f[1][0]->library_name))) sx_assert(pairs == 2, "two matching unknown functions are not paired");
    if (n[0] == 2 && n[1] == 2 && same(on[0][1], "??") && same(on[1][1], "??") && same(on[0][0], on[1][0]) && !same(on[0][0], "??") && !(f[0][1]->library_name && f[1][1]->library_name && strcmp(f[0][1]->library_name, f[1][1]->library_name))) sx_assert(pairs == 2, "two matching unknown functions are not paired");
    sx_cover(pairs ? "paired" : "unpaired"); TF(free)(t[0]); TF(free)(t[1]);
#elif MODE == 7                 /* a whole stacktrace: every thread is normalised, the crash thread is remembered before */
    ST *s = SF(new)(); TH *t[3]; FR *ab = NULL; int n = 1 + sx_choice(2, "threads"), crash = sx_choice(n + 1, "crash"); uint32_t tid[3]; s->crash_tid = sx_choice(2, "known") ? 5 : UINT32_MAX; bool known = s->crash_tid == 5;
    TH **p = &s->threads;
    for (int i = 0; i < n; i++) { t[i] = *p = new_thread(); tid[i] = t[i]->tid = sx_u32("tid"); t[i]->number = i; t[i]->frames = mk("poll", "libc", 3); t[i]->frames->next = mk("zz", "zz", 4); t[i]->frames->next->next = mk("IA__g_x", "x", 4); if (i == crash) { FR *a = mk("abort", "libc.so", 9); a->next = t[i]->frames; t[i]->frames = a; } p = &t[i]->next; }
    int cf = sx_choice(3, "frame"); if (cf) s->crash = mk(cf == 1 ? "__GI_y" : "abort", sx_choice(2, "file") ? "f" : NULL, 1);
    sr_normalize_gdb_stacktrace(s);
    for (int i = 0; i < n; i++) { FR *q = t[i]->frames; sx_assert(q && same(q->function_name, "zz") && q->next && same(q->next->function_name, "g_x") && !q->next->next, "a thread is not normalised"); sx_assert(t[i]->tid == tid[i], "the thread id changed"); }
    TH *x = s->threads; for (int i = 0; i < n; i++) { sx_assert(x == t[i], "a thread is lost"); x = x ? x->next : NULL; }
    if (s->crash) sx_assert(same(s->crash->function_name, cf == 2 ? "abort" : s->crash->source_file ? "y" : "__GI_y"), "the crash frame is not normalised");
    if (known) sx_assert(s->crash_tid == 5, "the known crash thread is forgotten"); else if (crash < n && cf == 2) sx_assert(s->crash_tid == tid[crash], "the crash thread is not remembered"); else if (n == 1) sx_assert(s->crash_tid == tid[0], "the only thread is not remembered as the crash thread"); else sx_assert(s->crash_tid == UINT32_MAX, "a crash thread is made up");
    sx_cover("stacktrace"); SF(free)(s);
#endif
    sx_assert(sx_live_heap() == live, "memory is lost");
}
