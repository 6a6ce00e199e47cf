/* Kernel oops normalisation (C22): exactly the frames on the noise list that belong to no module go; names lose everything from the first dot; nothing else changes. */
#define T 2
#include "types.h"
static const char *const noise[] = { "do_softirq", "do_vfs_ioctl", "dump_stack", "flush_kthread_worker", "gs_change", "irq_exit", "kernel_thread_helper", "kthread", "process_one_work", "system_call_fastpath", "warn_slowpath_common", "warn_slowpath_fmt", "warn_slowpath_fmt_taint", "warn_slowpath_null", "worker_thread" };
#define NN 15
static bool is_noise(const char *s) { if (!s) return false; for (int i = 0; i < NN; i++) if (!strcmp(s, noise[i])) return true; return false; }
static char *deep_name(void)
{
    int how = sx_choice(5, "how"); char b[64];
    if (how == 0) return NULL;
    if (how == 1) { char *s = sx_str_upto(L, "name"), *r = g_strdup(s); free(s); return r; }
    const char *w = noise[sx_choice(NN, "listed")]; int n = strlen(w);
    if (how == 2) { char *s = sx_str_upto(L, "suffix"), *r = g_strconcat(w, s, NULL); free(s); return r; }             /* listed and arbitrary bytes after it */
    strcpy(b, w);
    if (how == 3) { uint8_t k = sx_choice(n, "at"); b[k] = sx_u8("byte"); return g_strdup(b); }                        /* one byte replaced (a NUL cuts it) */
    char *s = sx_str(1, "prefix"), *r = g_strconcat(s, w, NULL); free(s); return r;
}
void harness(void)
{
    uint64_t live = sx_live_heap();
    ST *t = sr_koops_stacktrace_new(); FR *f[NFR], **p = &t->frames; char *want[NFR], *mod[NFR]; struct snap *s[NFR]; int n = 1 + sx_choice(NFR, "n"), at = sx_choice(n, "deep");
    for (int i = 0; i < n; i++) {
        f[i] = sr_koops_frame_new();
        for (int k = 0; k < NF; k++) if (fds[k].k != F_STR) { if (i == at) symi(f[i], k); else seti(f[i], k, (uint64_t)i * 7 + k); }
        f[i]->from_function_name = g_strdup("from.it"); f[i]->from_module_name = g_strdup("fm");
        if (i == at) { f[i]->function_name = deep_name(); f[i]->module_name = sx_choice(2, "module") ? g_strdup("ext4") : NULL; }
        else { static const char *const nm[] = { "kthread", "irq_exit.part.3", "sys_open.isra.1", "kthread" }; int k = sx_choice(4, "other"); f[i]->function_name = g_strdup(nm[k]); f[i]->module_name = k == 3 ? g_strdup("nfs") : NULL; }
        s[i] = snap_frame(f[i]); *p = f[i]; p = &f[i]->next;
        want[i] = g_strdup(f[i]->function_name); if (want[i]) { char *d = want[i]; while (*d && *d != '.') d++; *d = 0; }
        mod[i] = f[i]->module_name;
    }
    t->version = g_strdup("4.1"); t->taint_module_proprietary = true;
    sr_normalize_koops_stacktrace(t);
    FR *q = t->frames; int gone = 0;
    for (int i = 0; i < n; i++) {
        if (!mod[i] && is_noise(want[i])) { sx_assert(q != f[i], "a noise frame without a module is kept"); gone++; continue; }
        sx_assert(q == f[i], "a frame that is not noise is removed or moved"); if (q != f[i]) sx_stop();
        sx_assert(same(q->function_name, want[i]), "the function name is not the part before the first dot");
        for (int k = 0; k < NF; k++) if (fds[k].k != F_STR) sx_assert(geti(q, k) == s[i]->i[k], "normalisation changed a number"); else if (strp(q, k) != &q->function_name) sx_assert(same(*strp(q, k), s[i]->s[k]), "normalisation changed another text");
        q = q->next;
    }
    sx_assert(q == NULL, "frames appeared"); sx_assert(same(t->version, "4.1") && t->taint_module_proprietary, "normalisation changed the oops");
    sx_cover(gone ? "removed" : "kept");
    sr_koops_stacktrace_free(t); for (int i = 0; i < n; i++) { g_free(want[i]); snap_free(s[i]); }
    sx_assert(sx_live_heap() == live, "memory is lost");
}
