/* C41: what libdwfl reports about a core file (MODE 0: threads, frames, modules, failures; 1: notes; 2: long threads) or a dying process (3) becomes the core stacktrace. */
#include "vdw.h"
#include "core/frame.h"
#include "core/thread.h"
#include "core/stacktrace.h"
#include "core/unwind.h"
#include "abrt.h"
#include "utils.h"
#define HI 0x7f0000000000ull
static const char *const fns[] = { "f", NULL, "__libc_start_main", "_Zok", "_Zno", "__kernel_vsyscall" };
static bool fixed_pc;
static void mkmods(bool rich)
{
    nmods = rich ? 1 + sx_choice(2, "modules") : 1;
    for (int i = 0; i < nmods; i++) { struct vmod *m = &vmods[i]; m->start = HI + 0x80 * i; m->size = 0x80; m->elf = true; m->name = i ? "lib" : "[exe]"; m->file = i ? "/lib.so" : "/exe"; m->idlen = 1; m->id[0] = 0xab; }
    if (!rich) return;
    struct vmod *m = &vmods[nmods - 1];
    switch (sx_choice(4, "module_kind")) { case 0: break; case 1: m->elf = false; break; case 2: m->file = NULL; break; case 3: m->idlen = sx_choice(4, "id_length") - 1; if (m->idlen > 0 && !fixed_pc) sx_make_symbolic(m->id, m->idlen, "id"); break; }
}
static void mkframe(struct vfr *f, bool rich) { f->pc = HI + 0x10 + (rich && !fixed_pc ? sx_u8("pc") : rich ? 0x80 * sx_choice(3, "place") : 0); f->minus_one = false; f->fn = "f"; if (rich) { f->pc -= 0x10; f->minus_one = sx_choice(2, "minus"); f->fn = fns[sx_choice(6, "fn")]; } }
/* frames of thread t that have to appear: those before the start of the program, the last 256 of them */
static int visible(int t) { int n = 0; while (n < vth[t].n && !(same(vth[t].f[n].fn, "__libc_start_main") && modof(vth[t].f[n].pc - vth[t].f[n].minus_one) >= 0)) n++; return n; }
static void check_frame(struct sr_core_frame *f, struct vfr *v, bool filled)
{
    int m = modof(v->pc - v->minus_one); sx_assert(f->address == v->pc, "address of the frame"); const char *fn = NULL, *file = NULL; char id[9] = ""; uint64_t off = v->pc;
    if (m >= 0) { struct vmod *d = &vmods[m]; for (int i = 0; i < d->idlen; i++) { id[2 * i] = "0123456789abcdef"[d->id[i] >> 4]; id[2 * i + 1] = "0123456789abcdef"[d->id[i] & 15]; id[2 * i + 2] = 0; } off = v->pc - d->start; file = d->elf && d->file ? d->file : d->name; fn = v->fn; if (same(fn, "_Zok")) fn = "ok()"; }
    sx_assert(same(f->build_id, id[0] ? id : NULL), "build id of the module"); sx_assert(f->build_id_offset == off, "offset in the module"); sx_assert(same(f->function_name, fn), "function name"); if (filled && !file && same(fn, "__kernel_vsyscall")) file = "kernel"; sx_assert(same(f->file_name, file), "file name"); sx_assert(f->fingerprint == NULL, "fingerprint made up");
}
static void check_thread(struct sr_core_thread *th, int t)
{
    sx_assert(th->id == vth[t].tid, "thread id"); int n = visible(t), i = n > 256 ? n - 256 : 0; struct sr_core_frame *f = th->frames;
    for (; i < n; i++, f = f->next) { sx_assert(f != NULL, "frame missing"); if (!f) sx_stop(); check_frame(f, &vth[t].f[i], false); }
    sx_assert(f == NULL, "frame too many");
}
static void released(void) { sx_assert(the_dwfl == NULL, "the session is not ended"); sx_assert(elves == 0, "an ELF handle is not ended"); }
void harness(void)
{
    uint64_t live = sx_live_heap(); vfs_add("core", "C"); vfs_add("exe", "E"); vfd_base = 0; char *err = NULL; int expect_open = 0;
#if MODE <= 2
    bool stdin_open = sx_choice(2, "stdin"); int sfd = -1; if (stdin_open) sfd = vf_open("core", O_RDONLY); expect_open = stdin_open;
#endif
#if MODE == 0
    int focus = sx_choice(3, "focus"); mkmods(focus == 0); nth = focus == 2 ? 1 + sx_choice(2, "threads") : 1;
    int rich = focus == 1 ? sx_choice(NFR, "rich") : focus == 0 ? 0 : -1;
    for (int t = 0; t < nth; t++) { vth[t].tid = t ? 7 : (int)sx_u16("tid"); vth[t].n = focus == 2 ? sx_choice(3, "frames") : focus == 1 ? NFR : 1; for (int i = 0; i < vth[t].n; i++) mkframe(&vth[t].f[i], i == rich); }
    if (focus == 2) { nmods = 2; vmods[1] = vmods[0]; vmods[1].start += 0x80; vmods[1].name = "lib"; fault = sx_choice(NFAULT_CORE, "fault"); fault_t = sx_choice(nth, "fault_thread"); fault_i = vth[fault_t].n ? sx_choice(vth[fault_t].n, "fault_frame") : 0; if (fault == F_OPEN) vfs[0].exists = false; if (fault == F_NOSEGS) nmods = 0; if (fault == NOFAULT && sx_choice(2, "no_exe")) vfs[1].exists = false; }
    bool noseg = nmods == 0; if (nmods) { noseg = true; for (int i = 0; i < nmods; i++) if (vmods[i].elf && vmods[i].file && !(i == 0 && !vfs[1].exists)) noseg = false; }
    bool quiet = sx_choice(2, "no_message_wanted"); struct sr_core_stacktrace *s = sr_parse_coredump("core", "exe", quiet ? NULL : &err); bool fails = noseg || fault == F_OPEN || (raised && fault != F_FRAMES);
    sx_assert((s != NULL) == !fails, s ? "a failure is not noticed" : "a core file is refused"); sx_assert(quiet || (err != NULL) == fails, fails ? "a failure without a message" : "a message without a failure");
    if (s) {
        struct sr_core_thread *th = s->threads; for (int t = 0; t < nth; t++, th = th->next) { sx_assert(th != NULL, "thread missing"); if (!th) sx_stop(); check_thread(th, t); } sx_assert(!th, "thread too many");
        sx_assert(same(s->executable, "exe") && s->signal == 0 && s->crash_thread == s->threads && !s->only_crash_thread, "executable, signal, crash thread"); sx_cover("unwound");
    } else sx_cover("failed");
#elif MODE == 1
    mkmods(false); nth = 1; vth[0].n = 1; vth[0].tid = 1; mkframe(&vth[0].f[0], false); nseg = sx_choice(3, "segments"); if (nseg == 0) phnum_fails = sx_choice(2, "count_fails"); uint16_t want = 0; int deep = nseg ? sx_choice(nseg, "deep") : 0;
    for (int i = 0; i < nseg; i++) {
        int k = sx_choice(4, "segment"); vseg[i].type = k == 1 ? PT_LOAD : PT_NOTE; vseg[i].bad = k == 2; vseg[i].unreadable = k == 3; vseg[i].n = i == deep ? sx_choice(3, "notes") : 1;
        for (int j = 0; j < vseg[i].n; j++) {
            struct vnote *n = &vseg[i].note[j]; n->type = NT_PRSTATUS; n->name = "CORE"; n->namesz = 5; n->descsz = sizeof(struct elf_prstatus); n->sig = sx_u16("signal"); bool ok = true;
            if (i == deep) switch (sx_choice(6, "note")) { case 0: break; case 1: n->type = NT_PRPSINFO; ok = false; break; case 2: n->namesz = 4; ok = false; break; case 3: n->name = "LINUX"; n->namesz = 6; ok = false; break; case 4: n->descsz--; ok = false; break; case 5: n->name = "CORES"; n->namesz = 6; ok = false; break; }
            if (ok && k == 0 && !want) want = n->sig;
        }
    }
    struct sr_core_stacktrace *s = sr_parse_coredump("core", "exe", &err); sx_assert(s && !err, "a core file is refused"); if (!s) sx_stop(); sx_assert(s->signal == want, "signal number"); sx_cover(want ? "signal" : "none");
#elif MODE == 2
    static const int len[] = { 255, 256, 257, 259 }; mkmods(false); nth = 1 + sx_choice(2, "threads"); vth[0].tid = 5; vth[1].tid = 6; uint8_t base = sx_u8("base"); int m = sx_choice(3, "main");
    for (int t = 0; t < nth; t++) { vth[t].n = t ? 257 : len[sx_choice(4, "frames")]; for (int i = 0; i < vth[t].n; i++) { vth[t].f[i].pc = HI + 0x1000 + base + i; vth[t].f[i].fn = "f"; } if (m) { vth[t].f[vth[t].n - m].fn = "__libc_start_main"; vth[t].f[vth[t].n - m].pc = HI + 1; } }
    struct sr_core_stacktrace *s = sr_parse_coredump("core", "exe", &err); sx_assert(s && !err, "a core file is refused"); if (!s) sx_stop(); struct sr_core_thread *th = s->threads; for (int t = 0; t < nth; t++, th = th->next) { sx_assert(th != NULL, "thread missing"); if (!th) sx_stop(); check_thread(th, t); } sx_assert(!th, "thread too many"); sx_cover("long");
#elif MODE == 3
    int sfd = vf_open("core", O_RDONLY); sx_assert(sfd == 0, "stand-in"); int how = sx_choice(3, "how"), focus = sx_choice(3, "focus"); fixed_pc = how == 1; mkmods(focus == 0); if (how == 1) vmods[nmods - 1].id[0] = 0x5c; for (int i = 0; i < nmods; i++) if (!strcmp(vmods[i].name, "[exe]")) vmods[i].name = "exe"; nth = 1; vth[0].tid = 77; vth[0].n = focus == 1 ? NFR : focus == 2 ? sx_choice(3, "frames") : 1; int rich = focus == 1 ? sx_choice(NFR, "rich") : focus == 0 ? 0 : -1; for (int i = 0; i < vth[0].n; i++) mkframe(&vth[0].f[i], i == rich);
    if (focus == 2) { int f = sx_choice(12, "fault"); static const int fl[] = { NOFAULT, F_REPORTEND, F_PC, F_FRAMES, F_PROCREPORT, F_SEIZE, F_CLOSE, F_WAIT, F_WAITOTHER, F_NOTSTOPPED, F_NOEXIT, F_PROCATTACH }; fault = fl[f]; fault_i = vth[0].n ? sx_choice(vth[0].n, "fault_frame") : 0; if (fault == F_CLOSE) { vf_close(0); vfd_soft = true; raised = true; } }
    int sig = sx_choice(3, "signal"); sig = sig == 0 ? 0 : sig == 1 ? -1 : 1 + sx_u8("sig"); bool exe = sx_choice(2, "exe"); struct sr_core_stacktrace *s = NULL; char *json = NULL;
    if (how == 0) s = sr_core_stacktrace_from_core_hook(77, exe ? "exe" : NULL, sig, &err);
    else if (how == 1) json = sr_abrt_get_core_stacktrace_from_core_hook(77, exe ? "exe" : NULL, sig > 0 ? 11 : sig, &err);
    else { struct sr_core_stracetrace_unwind_state *st = sr_core_stacktrace_from_core_hook_prepare(77, &err); sx_assert((st != NULL) == (err == NULL), "preparation without result and message, or with both"); if (st) { sx_assert(seized == 1 && !vfd[0].open, "the process is not held"); if (sx_choice(2, "give_up")) { sr_core_stacktrace_unwind_state_free(st); released(); sx_cover("given up"); vfs_done(); sx_assert(sx_live_heap() == live, "memory is lost"); return; } s = sr_core_stacktrace_from_core_hook_generate(77, exe ? "exe" : NULL, sig, st, &err); } }
    bool fails = raised; sx_assert(((s || json) && !err) == !fails, fails ? "a failure is not noticed" : "a process is refused"); sx_assert((s || json) == !err, "neither result nor message, or both"); expect_open = vfd[0].open; if (!fails) sx_assert(!vfd[0].open && seized == 1, "the process is not held");
    if (s) { check_thread(s->threads, 0); sx_assert(!s->threads->next && same(s->executable, exe ? "exe" : NULL) && s->signal == (sig > 0 ? sig : 0) && s->crash_thread == s->threads && s->only_crash_thread, "executable, signal, crash thread"); sx_cover("unwound"); }
    if (json && focus != 1) {
        size_t l = strlen(json); sx_assert(l && json[l - 1] == '\n', "no newline behind the text"); char *e2 = NULL; struct sr_core_stacktrace *b = sr_core_stacktrace_from_json_text(json, &e2); sx_assert(b != NULL, "not a stacktrace as JSON"); if (!b) sx_stop();
        int n = visible(0); struct sr_core_frame *f = b->threads ? b->threads->frames : NULL; for (int i = 0; i < n; i++, f = f->next) { sx_assert(f != NULL, "frame missing"); if (!f) sx_stop(); check_frame(f, &vth[0].f[i], true); } sx_assert(!f, "frame too many"); sx_assert(b->signal == (sig > 0 ? 11 : 0) && same(b->executable, exe ? "exe" : NULL), "executable, signal"); sr_core_stacktrace_free(b); sx_cover("text");
    }
    g_free(json); if (fails) sx_cover("failed");
#elif MODE == 4 /* what gdb printed, resolved in the core file; 1: more frames than are kept */
    mkmods(false); nmods = 2; vmods[1] = vmods[0]; vmods[1].start += 0x80; vmods[1].name = "lib"; vmods[1].file = NULL; nth = 1 + sx_choice(2, "threads"); bool many = sx_choice(2, "many"); char *text = malloc(40000); int tl = 0, rich_t = sx_choice(nth, "rich"); strcpy(text, "x\n"); tl = 2;
    for (int t = 0; t < nth; t++) {
        tl += sprintf(text + tl, "Thread %d (LWP %d):\n", t + 1, t + 20);
        bool rich = t == rich_t; int total = many && rich ? 256 + sx_choice(3, "extra") : rich ? 1 + sx_choice(2, "frames") : 1, sigat = rich ? sx_choice(3, "signal") - 1 : -1; if (many && sigat == 1) sigat = 200;
        for (int i = 0, no = 0; i < total; i++) {
            if (i == sigat) tl += sprintf(text + tl, "#%d  <signal handler called>\n", no++);
            uint64_t pc = i & 0x7f;
            if (rich && !many) { bool far = sx_choice(2, "far"); char *d = sym_id(1, "09", "digit"); pc = (far ? 0x90 : 0x70) + (d[0] - '0'); tl += sprintf(text + tl, "#%d  0x00007f00000000%c%c in g () at c.c:1\n", no++, far ? '9' : '7', '0'); text[tl - 19] = d[0]; free(d); }
            else tl += sprintf(text + tl, "#%d  0x00007f00000000%02x in g () at c.c:1\n", no++, (unsigned)pc);
            vth[t].f[i].pc = HI + pc; vth[t].f[i].fn = "f"; vth[t].f[i].minus_one = false;
        }
        vth[t].n = total; vth[t].tid = 0;
    }
    cur_any = true; int f = sx_choice(3, "fault"); if (f == 1) fault = F_NOCORE; else if (f == 2) vfs[0].exists = false;
    struct sr_core_stacktrace *s = sr_core_stacktrace_from_gdb(text, "core", "exe", &err); bool fails = f != 0; 
    sx_assert((s != NULL) == !fails && (err != NULL) == fails, fails ? "a failure is not noticed" : "a core file is refused");
    if (s) {
        struct sr_core_thread *th = s->threads; for (int t = 0; t < nth; t++, th = th->next) { sx_assert(th != NULL, "thread missing"); if (!th) sx_stop(); check_thread(th, t); } sx_assert(!th, "thread too many");
        if (nth == 1) sx_assert(s->crash_thread == s->threads, "crash thread"); sx_assert(same(s->executable, "/exe") && s->signal == 0, "executable, signal"); sx_cover(many ? "long" : "resolved");
    } else sx_cover("failed");
    free(text);
#elif MODE == 5 /* problem directory: executable and core file in, core_backtrace out */
    vfs_done(); bool gdb = sx_choice(2, "gdb"); exepath = "x"; vfs_add("d/coredump", "C"); corename = "d/coredump"; struct vfile *ex = vfs_add("d/executable", "x"), *out = vfs_add("d/core_backtrace", NULL); vfs_add("x", "E"); vfd_base = 100; mkmods(false); nth = 1; vth[0].n = 1 + sx_choice(2, "frames"); fixed_pc = true; for (int i = 0; i < vth[0].n; i++) { mkframe(&vth[0].f[i], i == 0 && !gdb); if (gdb) vth[0].f[i].pc = HI + 0x10; } cur_any = gdb;
    int f = sx_choice(6, "fault"); if (f == 1) vfs_set(ex, NULL); else if (f == 2) vfs[0].exists = false; else if (f == 3) fault = F_EHDR; else if (f == 4) vfs_n--; else if (f == 5) vfs_faults_write = true;
    if (f == 4) { vfs_n++; vfs[3].exists = false; }
    bool ok = gdb ? sr_abrt_create_core_stacktrace_from_gdb("d", vth[0].n == 1 ? "x\nThread 1 (LWP 5):\n#0  0x00007f0000000010 in g () at c.c:1\n" : "x\nThread 1 (LWP 5):\n#0  0x00007f0000000010 in g () at c.c:1\n#1  0x00007f0000000010 in g () at c.c:1\n", false, &err) : sr_abrt_create_core_stacktrace("d", false, &err); bool fails = f != 0;
    sx_assert(ok == !fails && (err != NULL) == fails, fails ? "a failure is not noticed" : "a core file is refused");
    if (ok) {
        sx_assert(out->exists && out->len && out->data[out->len - 1] == '\n', "no text written"); char *e2 = NULL; char *t = g_strndup(out->data, out->len); struct sr_core_stacktrace *b = sr_core_stacktrace_from_json_text(t, &e2); g_free(t); sx_assert(b != NULL, "not a stacktrace as JSON"); if (!b) sx_stop();
        int n = gdb ? vth[0].n : visible(0); struct sr_core_frame *fr = b->threads ? b->threads->frames : NULL; for (int i = 0; i < n; i++, fr = fr->next) { sx_assert(fr != NULL, "frame missing"); if (!fr) sx_stop(); check_frame(fr, &vth[0].f[i], true); } sx_assert(!fr, "frame too many"); sr_core_stacktrace_free(b); sx_cover(gdb ? "gdb" : "core");
    } else sx_cover("failed");
    struct sr_core_stacktrace *s = NULL;
#endif
    sr_core_stacktrace_free(s); g_free(err); released();
    int open = 0; for (int i = 0; i < vfd_n; i++) open += vfd[i].open; sx_assert(open == expect_open, "a descriptor is not closed");
    vfs_done(); sx_assert(sx_live_heap() == live, "memory is lost");
}
