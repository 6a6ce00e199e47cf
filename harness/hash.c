/* Duplicate and backtrace hashes (C23). MODE 0: text of the duplicate hash without normalisation (all limits, prefixes, flags); 1: default hash = hash of the normalised copy; 2: backtrace hash text. T selects the type. */
#include "types.h"
#define PUT(...) g_string_append_printf(o, __VA_ARGS__)
#define U(s) ((s) ? (s) : "<unknown>")
typedef unsigned long long ull;
static void o_dup(GString *o, FR *f, bool compat)
{
#if T == 0
    if (f->build_id) PUT("%s+0x%llx\n", f->build_id, (ull)f->build_id_offset); else if (f->function_name) PUT("  %s\n", f->function_name);
    else if (f->fingerprint) PUT("%s+0x%llx\n", f->fingerprint, (ull)f->build_id_offset); else PUT("0x%llx\n", (ull)f->address);
#elif T == 1
    PUT(" "); if (f->function_type) PUT(" %s", f->function_type); if (f->function_name) PUT(" %s", f->function_name); if (f->signal_handler_called) PUT(" <signal handler called>"); PUT("\n");
#elif T == 2
    if (compat && !f->reliable) return;
    if (f->function_name) PUT("%s\n", f->function_name); else PUT("0x%llx\n", (ull)f->address);
#elif T == 4
    if (f->name) PUT("%s\n", f->name); else PUT("%s/%s:%u\n", U(f->class_path), U(f->file_name), f->file_line);
#else
    PUT("%s:%u\n", U(f->file_name), f->file_line);
#endif
}
#if MODE == 2
static void o_bt(GString *o, FR *f)
{
#if T == 0
    if (f->address) PUT("0x%llx, ", (ull)f->address); else PUT("<unknown>, ");
    PUT("%s+0x%llx, %s, %s\n", U(f->build_id), (ull)f->build_id_offset, U(f->file_name), U(f->fingerprint));
#elif T == 1
    PUT("%s, %s, %u, %s, %u, %d, 0x%llx, %s\n", U(f->function_name), U(f->function_type), f->number, U(f->source_file), f->source_line, f->signal_handler_called, (ull)f->address, U(f->library_name));
#elif T == 2
    PUT("0x%llx, %d, %s, 0x%llx, 0x%llx, %s, 0x%llx, %s, 0x%llx, 0x%llx, %s\n", (ull)f->address, f->reliable, U(f->function_name), (ull)f->function_offset, (ull)f->function_length, U(f->module_name), (ull)f->from_address, U(f->from_function_name), (ull)f->from_function_offset, (ull)f->from_function_length, U(f->from_module_name));
#elif T == 3
    PUT("%s, %d, %u, %s, %d, %s\n", U(f->file_name), f->special_file, f->file_line, U(f->function_name), f->special_function, U(f->line_contents));
#elif T == 4
    PUT("%s, %s, %u, %s, %d, %d, %s\n", U(f->name), U(f->file_name), f->file_line, U(f->class_path), f->is_native, f->is_exception, U(f->message));
#elif T == 5
    PUT("%s, %u, %s, %d, %u, %u\n", U(f->file_name), f->file_line, U(f->function_name), f->special_function, f->block_level, f->rescue_level);
#else
    PUT("%s, %u, %s\n", U(f->file_name), f->file_line, U(f->function_name));
#endif
}
#endif
/* frame i of a thread: constant contents (strings all present or all absent), or one field that is anything */
static FR *mk_frame(int i, bool deep)
{
    FR *f = FF(new)(); int have = deep ? sx_choice(2, "have") : i + 1 & 1, d = deep ? sx_choice(NF, "field") : -1;
    for (int j = 0; j < NF; j++) {
        if (j == d) { if (fds[j].k == F_STR) *strp(f, j) = opt_str(L, fds[j].name); else symi(f, j); }
        else if (fds[j].k == F_STR) *strp(f, j) = have ? g_strdup(i & 1 ? "j" : "k") : NULL;
        else if (fds[j].k == F_BOOL) seti(f, j, T == 2 && MODE == 0 ? sx_choice(2, "bool") : i); else seti(f, j, 3 * i + j);
    }
    return f;
}
void harness(void)
{
    uint64_t live = sx_live_heap(); char *h, *k; GString *o = g_string_new(NULL);
#if MODE == 0
    int n = sx_choice(NFR + 1, "n"); TH *t = new_thread(); FR **p = &t->frames; struct snap *sn[NFR + 1];
    int deepf = n ? sx_choice(n, "deepf") : 0;
    for (int i = 0; i < n; i++) { *p = mk_frame(i, i == deepf); sn[i] = snap_frame(*p); p = &(*p)->next; }
    int lim = sx_choice(n + 3, "limit") - 1; bool compat = (T == 2 || n < 2) && sx_choice(2, "compat"); char *prefix = n < 2 && sx_choice(2, "pfx") ? sx_str(L, "prefix") : NULL; enum sr_duphash_flags fl = SR_DUPHASH_NONORMALIZE | (compat ? SR_DUPHASH_KOOPS_COMPAT : 0);
    h = sr_thread_get_duphash(GT(t), lim, prefix, fl | SR_DUPHASH_NOHASH); k = sr_thread_get_duphash(GT(t), lim, prefix, fl);
    if (prefix) PUT("%s", prefix); if (!compat) PUT("Thread\n");
    int cnt = 0; for (FR *f = t->frames; f && (lim == 0 || cnt < lim); f = f->next) { gsize b = o->len; o_dup(o, f, compat); cnt += o->len > b; }
    if (compat && o->len == 0) { sx_assert(!h && !k, "a hash of nothing"); sx_cover("empty"); }
    else {
        sx_assert(h != NULL && k != NULL, "no hash"); if (!h || !k) sx_stop(); sx_assert(same(h, o->str), "the text to be hashed is not that of the leading frames"); char *c = g_compute_checksum_for_string(G_CHECKSUM_SHA1, h, -1); sx_assert(same(k, c), "the hash is not the digest of its text"); g_free(c); sx_cover("hash");
    }
    FR *f = t->frames; for (int i = 0; i < n; i++, f = f->next) { sx_assert(f != NULL, "hashing lost a frame"); if (!f) sx_stop(); sx_assert(snap_same(sn[i], f), "hashing changed a frame"); snap_free(sn[i]); } sx_assert(!f, "hashing added a frame");
    free(prefix); sr_thread_free(GT(t));
#elif MODE == 1
    /* frames that normalisation drops, renames or keeps */
    static const struct { const char *fn, *file; } v[] = { { "a", "x" }, { "abort", "libc.so" }, { "__libc_start_main", "libc.so" }, { "__GI_raise", "raise.c" }, { "b.isra.0", "y" }, { "dump_stack", NULL }, { "raise", "libc.so" }, { NULL, NULL } };
    int n = sx_choice(NFR + 1, "n"); TH *t = new_thread(); FR **p = &t->frames;
    for (int i = 0; i < n; i++) {
        FR *f = sym_frame(0, 0, NULL); int c = sx_choice(sizeof v / sizeof *v, "frame"); for (int j = 0; j < NF; j++) if (fds[j].k != F_STR) seti(f, j, fds[j].k == F_BOOL ? 0 : i + 1);
#if T == 4
        f->name = g_strdup(v[c].fn);
#else
        f->function_name = g_strdup(v[c].fn);
#if T == 0 || T >= 3
        f->file_name = g_strdup(v[c].file);
#elif T == 1
        f->source_file = g_strdup(v[c].file);
#elif T == 2
        f->module_name = c & 1 ? NULL : g_strdup(v[c].file); f->reliable = c & 2;
#endif
#endif
        *p = f; p = &f->next;
    }
    int lim = sx_choice(n + 2, "limit"); TH *c = (TH *)sr_thread_dup(GT(t)), *w = (TH *)sr_thread_dup(GT(t)); bool compat = T == 2 && sx_choice(2, "compat"); int fl = SR_DUPHASH_NOHASH | (compat ? SR_DUPHASH_KOOPS_COMPAT : 0); sr_thread_normalize(GT(c));
    h = sr_thread_get_duphash(GT(t), lim, "p", fl); k = sr_thread_get_duphash(GT(c), lim, "p", fl | SR_DUPHASH_NONORMALIZE); sx_assert(h && same(h, k), "the hash is not that of the normalised thread");
    char *h2 = sr_thread_get_duphash(GT(t), lim, "p", fl); sx_assert(same(h, h2), "hashing twice gives two hashes"); g_free(h2); sx_assert(frames_same(t->frames, w->frames), "hashing changed the thread");
    sx_cover(frames_same(c->frames, t->frames) ? "plain" : "normalised"); sr_thread_free(GT(c)); sr_thread_free(GT(w)); sr_thread_free(GT(t));
#else
    ST *s; int a = sx_choice(2, "attr");
#if MT
    int nth = sx_choice(3, "threads"); s = SF(new)(); TH **q = &s->threads; int deept = nth && !a ? sx_choice(nth, "deept") : -1;
#else
    int nth = 1, deept = 0; s = SF(new)();
#endif
    for (int j = 0; j < nth; j++) {
        int n = a ? 1 : j == deept ? sx_choice(NFR + 1, "n") : 1; int deepf = !a && j == deept && n ? sx_choice(n, "deepf") : -1; FR **p;
#if MT
        *q = TF(new)(); p = &(*q)->frames; q = &(*q)->next;
#else
        p = &s->frames;
#endif
        for (int i = 0; i < n; i++) { *p = mk_frame(i, i == deepf); p = &(*p)->next; }
    }
    if (a) sym_st_attr(s, 1);
#if T == 2
    if (a) { int fl = sx_choice(NTAINT, "flag"), all = sx_choice(2, "all"); for (int i = 0; i < NTAINT; i++) if (i != fl) *taintp(s, i) = all; }
#endif
#if T == 1
    if (a) { int w = sx_choice(3, "which"); for (struct sr_gdb_sharedlib *l = s->libs; l; l = l->next) { if (w != 0 || l->next) l->from = 16; if (w != 1 || l->next) l->to = 17; } for (TH *t = s->threads; t; t = t->next) t->number = w == 2 && !t->next ? sx_u32("number") : 4; }
#elif T == 4
    if (a) for (TH *t = s->threads; t; t = t->next) t->name = t->next ? g_strdup("n") : opt_str(1, "tname");
#endif
    ST *w = SF(dup)(s); h = sr_stacktrace_get_bthash(GS(s), SR_BTHASH_NOHASH); k = sr_stacktrace_get_bthash(GS(s), SR_BTHASH_NORMAL);
#if T == 0
    PUT("Executable: %s\nSignal: %u\n\n", U(s->executable), (unsigned)s->signal);
#elif T == 1
    for (struct sr_gdb_sharedlib *l = s->libs; l; l = l->next) PUT("%llx-%llx, %s\n", (ull)l->from, (ull)l->to, U(l->soname)); PUT("\n");
#elif T == 2
    static const char letters[] = "POFRSMBUDAWCIELK";
    PUT("Version: %s\nFlags: ", U(s->version));
    /* the letters of the flags that are set, in any order */
    char *e = h && strlen(h) >= o->len && !strncmp(h, o->str, o->len) ? h + o->len : NULL; sx_assert(e != NULL, "the text does not begin with version and flags"); if (!e) sx_stop();
    int nf = 0; for (int i = 0; i < NTAINT; i++) nf += *taintp(s, i); int m = 0; while (e[m] && e[m] != '\n') m++; sx_assert(m == nf, "two oopses with different flags hash to the same text");
    for (int i = 0; i < NTAINT; i++) if (*taintp(s, i)) sx_assert(memchr(e, letters[i], m) != NULL, "a flag is missing from the hashed text");
    for (int i = 0; i < m; i++) g_string_append_c(o, e[i]); PUT("\nModules: "); for (char **x = s->modules; x && *x; x++) PUT("%s%s", *x, x[1] ? ", " : ""); PUT("\n\n");
#elif T == 3 || T == 5
    PUT("Exception: %s\n\n", U(s->exception_name));
#elif T == 6
    PUT("Error: %s\n\n", U(s->exception_name));
#endif
#if MT
    for (TH *t = s->threads; t; t = t->next) {
#if T == 1
        PUT("Thread %u\n", t->number);
#elif T == 4
        PUT("Thread %s\n", U(t->name));
#endif
        for (FR *f = t->frames; f; f = f->next) o_bt(o, f);
        if (t->next) PUT("\n");
    }
#else
    for (FR *f = s->frames; f; f = f->next) o_bt(o, f);
#endif
    (void)o_dup;
    sx_assert(h && k && same(h, o->str), "the text of the backtrace hash is not that of the stacktrace"); char *c = g_compute_checksum_for_string(G_CHECKSUM_SHA1, o->str, -1); sx_assert(same(k, c), "the hash is not the digest of its text"); g_free(c);
    sx_assert(st_same(s, w), "hashing changed the stacktrace"); sx_cover(nth ? "hash" : "empty"); SF(free)(s); SF(free)(w);
#endif
    g_free(h); g_free(k); g_string_free(o, TRUE); sx_assert(sx_live_heap() == live, "memory is lost");
}
