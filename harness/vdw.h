/* A stand-in for libelf and libdwfl: a process or core file made of modules, threads and frames that the harness describes.
   The library is compiled with the functions below renamed to vf_*. Handles are heap objects, so a handle used after its end, or never ended, is seen.
   One call chosen by the harness fails. */
#pragma once
#include "vfs.h"
#include <libelf.h>
#include <gelf.h>
#include <elfutils/libdwfl.h>
#include <sys/procfs.h>
#include <sys/ptrace.h>
#include <sys/wait.h>
#include <signal.h>
enum fault { NOFAULT, F_VERSION, F_OPEN, F_BEGIN, F_EHDR, F_NOCORE, F_REPORT, F_REPORTEND, F_MODULES, F_NOSEGS, F_ATTACH, F_THREADS, F_PC, F_FRAMES, NFAULT_CORE,
    F_PROCREPORT = NFAULT_CORE, F_SEIZE, F_CLOSE, F_WAIT, F_WAITOTHER, F_NOTSTOPPED, F_NOEXIT, F_PROCATTACH, NFAULT_ALL };
static int fault; static bool raised;
static bool hit(enum fault f) { if (fault == (int)f) { raised = true; return true; } return false; }
struct vmod { uint64_t start, size; const char *name, *file; bool elf; int idlen; unsigned char id[4]; };
struct vfr { uint64_t pc; bool minus_one; const char *fn; };
#define MAXFR 270
static struct vmod vmods[3]; static int nmods; static struct { int tid, n; struct vfr f[MAXFR]; } vth[2]; static int nth, fault_t, fault_i;
struct Elf { int fd; bool core; }; struct Dwfl { const Dwfl_Callbacks *cb; bool reported, ended, attached, proc; Elf *exe; int exefd; char *exename; bool exedone; };
struct Dwfl_Module { int i; }; struct Dwfl_Thread { int t; }; struct Dwfl_Frame { int t, i; };
static Dwfl *the_dwfl; static struct Dwfl_Module mod_h[3]; static int elves; static const struct vfr *cur; static bool cur_any; static const char *exepath = "exe", *corename = "core";
const char *vf_dwfl_errmsg(int e) { return "dwfl error"; }
const char *vf_elf_errmsg(int e) { return "elf error"; }
unsigned vf_elf_version(unsigned v) { return hit(F_VERSION) ? EV_NONE : EV_CURRENT; }
Elf *vf_elf_begin(int fd, Elf_Cmd c, Elf *ref) { chk(fd); bool core = !strcmp(vfd[fd - vfd_base].f->name, corename); if (core && hit(F_BEGIN)) return NULL; Elf *e = malloc(sizeof *e); e->fd = fd; e->core = core; elves++; return e; }
int vf_elf_end(Elf *e) { if (!e) return 0; if (e->core) sx_assert(the_dwfl == NULL, "the core file is closed before the session on it"); elves--; free(e); return 0; }
GElf_Ehdr *vf_gelf_getehdr(Elf *e, GElf_Ehdr *h) { sx_assert(e->core, "header of something else"); if (hit(F_EHDR)) return NULL; memset(h, 0, sizeof *h); h->e_type = hit(F_NOCORE) ? ET_EXEC : ET_CORE; return h; }
Dwfl *vf_dwfl_begin(const Dwfl_Callbacks *cb) { sx_assert(!the_dwfl, "two sessions at once"); Dwfl *d = malloc(sizeof *d); memset(d, 0, sizeof *d); d->cb = cb; return the_dwfl = d; }
void vf_dwfl_end(Dwfl *d) { if (!d) return; sx_assert(d == the_dwfl, "another session is ended"); the_dwfl = NULL; vf_elf_end(d->exe); if (d->exe) vf_close(d->exefd); free(d->exename); free(d); }
int vf_dwfl_core_file_report(Dwfl *d, Elf *e, const char *exe) { sx_assert(d == the_dwfl && e->core, "report of something else"); sx_assert(same(exe, exepath), "another executable"); return hit(F_REPORT) ? -1 : nmods; }
int vf_dwfl_linux_proc_report(Dwfl *d, pid_t pid) { sx_assert(d == the_dwfl && pid == vth[0].tid, "another process"); d->proc = true; return hit(F_PROCREPORT) ? 5 : 0; }
int vf_dwfl_report_end(Dwfl *d, int (*rm)(Dwfl_Module *, void *, const char *, Dwarf_Addr, void *), void *arg) { sx_assert(d == the_dwfl, "another session"); d->reported = true; return hit(F_REPORTEND) ? 1 : 0; }
static void **udata(void) { static void *u; return &u; }
Elf *vf_dwfl_module_getelf(Dwfl_Module *m, GElf_Addr *bias)
{
    Dwfl *d = the_dwfl; sx_assert(d && d->reported, "modules are not reported yet"); if (!vmods[m->i].elf) return NULL; *bias = 0;
    if (!strcmp(vmods[m->i].name, "[exe]") && !d->proc) {
        if (!d->exedone) { Elf *e = NULL; d->exedone = true; int fd = d->cb->find_elf(m, udata(), "[exe]", vmods[m->i].start, &d->exename, &e); if (fd >= 0) { d->exe = e; d->exefd = fd; } }
        return d->exe;
    }
    static Elf other; return &other;
}
const char *vf_dwfl_module_info(Dwfl_Module *m, void ***u, Dwarf_Addr *start, Dwarf_Addr *end, Dwarf_Addr *db, Dwarf_Addr *sb, const char **mainfile, const char **debugfile)
{ if (start) *start = vmods[m->i].start; if (mainfile) *mainfile = vmods[m->i].elf ? vmods[m->i].file : NULL; return vmods[m->i].name; }
ptrdiff_t vf_dwfl_getmodules(Dwfl *d, int (*cb)(Dwfl_Module *, void **, const char *, Dwarf_Addr, void *), void *arg, ptrdiff_t off)
{ sx_assert(d == the_dwfl && d->reported, "modules are not reported yet"); for (int i = 0; i < nmods; i++) { mod_h[i].i = i; if (i == nmods - 1 && hit(F_MODULES)) return -1; if (cb(&mod_h[i], udata(), vmods[i].name, vmods[i].start, arg) != DWARF_CB_OK) return i + 1; } return nmods == 0 && hit(F_MODULES) ? -1 : 0; }
int vf_dwfl_core_file_attach(Dwfl *d, Elf *e) { sx_assert(d == the_dwfl && e->core, "attached to something else"); d->attached = true; return hit(F_ATTACH) ? -1 : 1234; }
int vf_dwfl_linux_proc_attach(Dwfl *d, pid_t pid, bool stopped) { sx_assert(d == the_dwfl && pid == vth[0].tid && stopped, "attached to another process"); d->attached = true; return hit(F_PROCATTACH) ? 3 : 0; }
int vf_dwfl_getthreads(Dwfl *d, int (*cb)(Dwfl_Thread *, void *), void *arg)
{ sx_assert(d == the_dwfl && d->attached, "not attached"); for (int t = 0; t < nth; t++) { struct Dwfl_Thread h = { t }; int r = cb(&h, arg); if (r != DWARF_CB_OK) return r; } return hit(F_THREADS) ? -1 : 0; }
static int frames(int t, int (*cb)(Dwfl_Frame *, void *), void *arg)
{ for (int i = 0; i < vth[t].n; i++) { struct Dwfl_Frame h = { t, i }; cur = &vth[t].f[i]; int r = cb(&h, arg); if (r != DWARF_CB_OK) return r; } return t == fault_t && hit(F_FRAMES) ? -1 : 0; }
int vf_dwfl_thread_getframes(Dwfl_Thread *h, int (*cb)(Dwfl_Frame *, void *), void *arg) { return frames(h->t, cb, arg); }
int vf_dwfl_getthread_frames(Dwfl *d, pid_t tid, int (*cb)(Dwfl_Frame *, void *), void *arg) { sx_assert(d == the_dwfl && d->attached && tid == vth[0].tid, "another thread"); return frames(0, cb, arg); }
pid_t vf_dwfl_thread_tid(Dwfl_Thread *h) { return vth[h->t].tid; }
static struct Dwfl_Thread frame_thread;
Dwfl_Thread *vf_dwfl_frame_thread(Dwfl_Frame *h) { frame_thread.t = h->t; return &frame_thread; }
Dwfl *vf_dwfl_thread_dwfl(Dwfl_Thread *h) { return the_dwfl; }
bool vf_dwfl_frame_pc(Dwfl_Frame *h, Dwarf_Addr *pc, bool *isact) { if (h->t == fault_t && h->i == fault_i && hit(F_PC)) return false; *pc = vth[h->t].f[h->i].pc; if (isact) *isact = vth[h->t].f[h->i].minus_one; return true; }
static int modof(uint64_t a) { for (int i = 0; i < nmods; i++) if (a >= vmods[i].start && a - vmods[i].start < vmods[i].size) return i; return -1; }
Dwfl_Module *vf_dwfl_addrmodule(Dwfl *d, Dwarf_Addr a) { sx_assert(d == the_dwfl && d->reported, "modules are not reported yet"); int i = modof(a); if (i < 0) return NULL; mod_h[i].i = i; return &mod_h[i]; }
int vf_dwfl_module_build_id(Dwfl_Module *m, const unsigned char **bits, GElf_Addr *va) { if (vmods[m->i].idlen > 0) { *bits = vmods[m->i].id; *va = 0; } return vmods[m->i].idlen; }
const char *vf_dwfl_module_addrname(Dwfl_Module *m, GElf_Addr a) { if (cur_any) return "f"; sx_assert(a == cur->pc - cur->minus_one, "name of another address"); return cur->fn; }
int vf_dwfl_offline_section_address(Dwfl_Module *m, void **u, const char *n, Dwarf_Addr b, const char *s, GElf_Word w, const GElf_Shdr *h, Dwarf_Addr *a) { return -1; }
int vf_dwfl_linux_proc_find_elf(Dwfl_Module *m, void **u, const char *n, Dwarf_Addr b, char **f, Elf **e) { return -1; }
int vf_dwfl_build_id_find_elf(Dwfl_Module *m, void **u, const char *n, Dwarf_Addr b, char **f, Elf **e) { return -1; }
char *vf_realpath(const char *p, char *r) { sx_assert(r == NULL, "realpath with a buffer"); char *q = malloc(strlen(p) + 2); q[0] = '/'; strcpy(q + 1, p); return q; }
char *vf_demangle(const char *n, char *o, size_t *l, int *st) { if (!strcmp(n, "_Zok")) { *st = 0; return strdup("ok()"); } *st = -2; return NULL; }
/* notes: segment i lies at file offset 0x10000 * (i + 1); note k of it has its name at 0x100 * k + 8 and its content at 0x100 * k + 0x20 */
struct vnote { unsigned type, namesz; const char *name; size_t descsz; uint16_t sig; };
static struct { int type, n; bool bad, unreadable; struct vnote note[2]; } vseg[3]; static int nseg; static bool phnum_fails;
static Elf_Data datas[2]; static char namebuf[16]; static struct elf_prstatus prbuf; static int dsel;
int vf_elf_getphdrnum(Elf *e, size_t *n) { if (phnum_fails) return -1; *n = nseg; return 0; }
GElf_Phdr *vf_gelf_getphdr(Elf *e, int i, GElf_Phdr *p) { sx_assert(i >= 0 && i < nseg, "no such segment"); if (vseg[i].bad) return NULL; memset(p, 0, sizeof *p); p->p_type = vseg[i].type; p->p_offset = 0x10000 * (i + 1); p->p_filesz = 0x100 * vseg[i].n; return p; }
static Elf_Data segdata[3];
Elf_Data *vf_elf_getdata_rawchunk(Elf *e, int64_t off, size_t size, Elf_Type t)
{
    int s = off / 0x10000 - 1; int64_t in = off % 0x10000; sx_assert(s >= 0 && s < nseg, "read outside the segments"); if (s < 0 || s >= nseg) sx_stop();
    if (t == ELF_T_NHDR) { sx_assert(in == 0, "notes start elsewhere"); if (vseg[s].unreadable) return NULL; segdata[s].d_buf = &vseg[s]; segdata[s].d_size = size; return &segdata[s]; }
    int k = in / 0x100; struct vnote *n = &vseg[s].note[k]; Elf_Data *d = &datas[dsel ^= 1]; bool name = in % 0x100 == 8; sx_assert(k < vseg[s].n && (name || in % 0x100 == 0x20), "read outside the notes"); if (k >= vseg[s].n) sx_stop();
    if (name) { sx_assert(size == n->namesz, "another name"); memset(namebuf, 'x', sizeof namebuf); memcpy(namebuf, n->name, size < strlen(n->name) + 1 ? size : strlen(n->name) + 1); d->d_buf = namebuf; }
    else { sx_assert(size == n->descsz, "another content"); memset(&prbuf, 0, sizeof prbuf); prbuf.pr_cursig = n->sig; d->d_buf = &prbuf; }
    d->d_size = size; return d;
}
size_t vf_gelf_getnote(Elf_Data *d, size_t off, GElf_Nhdr *h, size_t *noff, size_t *doff)
{ int s = (int)(d - segdata), k = off / 0x100; if (k >= vseg[s].n) return 0; struct vnote *n = &vseg[s].note[k]; h->n_type = n->type; h->n_namesz = n->namesz; h->n_descsz = n->descsz; *noff = 0x100 * k + 8; *doff = 0x100 * k + 0x20; return 0x100 * (k + 1); }
static int seized;
long vf_ptrace(enum __ptrace_request r, ...) { va_list ap; va_start(ap, r); pid_t t = va_arg(ap, pid_t); va_end(ap); sx_assert((int)r == (int)PTRACE_SEIZE && t == vth[0].tid, "another process is traced"); if (hit(F_SEIZE)) { errno = EPERM; return -1; } seized++; return 0; }
pid_t vf_waitpid(pid_t p, int *st, int o) { sx_assert(p == vth[0].tid, "another process is waited for"); *st = hit(F_NOTSTOPPED) ? 0 : hit(F_NOEXIT) ? (SIGTRAP << 8 | 0x7f) : (PTRACE_EVENT_EXIT << 16 | SIGTRAP << 8 | 0x7f); return hit(F_WAIT) ? (errno = ECHILD, -1) : hit(F_WAITOTHER) ? p + 1 : p; }
