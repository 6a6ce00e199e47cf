from mkseed import mkseed
import sys
S = []
def seed(*a, **k): S.append((a, k))
seed('s01-uint32-wrap', 'C01', [('lib/utils.c', '|| r > UINT32_MAX);', '|| (long)r > (long)UINT32_MAX);')],
 'a decimal number between 2^63 and 2^64-1', 'numbers too large for 32 bits are accepted and truncated', '''
#include "utils.h"
int main(void){ uint32_t v = 7; const char *t = "9223372036854775813", *p = t; CHECK(sr_parse_uint32(&p, &v) == 0); CHECK(v == 7 && p == t); p = "4294967295"; CHECK(sr_parse_uint32(&p, &v) == 10 && v == 4294967295u); return 0; }
''')
seed('s02-noarch', 'C11', [('lib/rpm.c', '''    if (architecture != 0)
        return architecture;''', '''    if (architecture != 0 && package1->architecture)
        return architecture;''')],
 'the first package has no architecture and the second has one', 'packages that differ in architecture compare equal in one order only', '''
#include "rpm.h"
static struct sr_rpm_package *mk(const char *a){ struct sr_rpm_package *p = sr_rpm_package_new(); p->name = g_strdup("n"); p->version = g_strdup("1"); p->release = g_strdup("2"); p->architecture = g_strdup(a); return p; }
int main(void){ struct sr_rpm_package *a = mk(NULL), *b = mk("noarch"), *c = mk("x86_64"); CHECK(sr_rpm_package_cmp_nevra(b, c) < 0); CHECK(sr_rpm_package_cmp_nevra(b, a) > 0); CHECK(sr_rpm_package_cmp_nevra(a, b) < 0); CHECK(sr_rpm_package_cmp(a, a) == 0); return 0; }
''')
seed('s03-ruby-dup', 'C12', [('lib/ruby_frame.c', '''        if (result->next)
            result->next = sr_ruby_frame_dup(result->next, true);''', '''        if (result->next)
            result->next = sr_ruby_frame_dup(result->next, result->next->file_line > 0);''')],
 'a duplicated list in which a frame at line 0 is followed by further frames', 'frames after such a place are lost from the copy', '''
#include "ruby/frame.h"
int main(void){ struct sr_ruby_frame *l = NULL; for (int i = 0; i < 4; i++) { struct sr_ruby_frame *f = sr_ruby_frame_new(); f->function_name = g_strdup("f"); f->block_level = i; f->file_line = i == 1 ? 0 : 5; l = sr_ruby_frame_append(l, f); }
 struct sr_ruby_frame *d = sr_ruby_frame_dup(l, true); int n = 0; for (struct sr_ruby_frame *f = d; f; f = f->next) { CHECK(f->block_level == n); n++; } CHECK(n == 4); return 0; }
''')
seed('s04-gdb-remove', 'C13', [('lib/gdb_thread.c', '''        if (loop_frame == frame)
        {
            if (prev_frame)''', '''        if (!sr_gdb_frame_cmp(loop_frame, frame, false))
        {
            if (prev_frame)''')],
 'a thread holding two frames that differ in their number only (recursion)', 'the wrong one of the two frames is removed', '''
#include "gdb/frame.h"
#include "gdb/thread.h"
int main(void){ struct sr_gdb_thread *t = sr_gdb_thread_new(); struct sr_gdb_frame *f[4]; for (int i = 0; i < 4; i++) { f[i] = sr_gdb_frame_new(); f[i]->function_name = g_strdup(i == 2 ? "g" : "f"); f[i]->number = i; f[i]->address = 100 + i; t->frames = sr_gdb_frame_append(t->frames, f[i]); }
 CHECK(sr_gdb_thread_remove_frame(t, f[3])); CHECK(t->frames->number == 0 && t->frames->next->number == 1 && t->frames->next->next->number == 2 && !t->frames->next->next->next); return 0; }
''')
seed('s05-kernel-modules', 'C05', [('lib/koops_stacktrace.c', 'if (result_offset == result_size - 1)', 'if (result_offset == result_size)')],
 'an oops that lists exactly as many kernel modules as fit into the list before it grows (20, 40, ...)', 'the end mark of the list is written behind the allocated memory', '''
#include "koops/stacktrace.h"
#include "location.h"
int main(void){ for (int n = 18; n < 43; n++) { GString *s = g_string_new("BUG: x\\nModules linked in:"); for (int i = 0; i < n; i++) g_string_append_printf(s, " m%d", i); g_string_append(s, "\\n"); const char *t = s->str; struct sr_location l; sr_location_init(&l);
 struct sr_koops_stacktrace *k = sr_koops_stacktrace_parse(&t, &l); CHECK(k && k->modules); int c = 0; while (k->modules[c]) c++; CHECK(c == n); sr_koops_stacktrace_free(k); g_string_free(s, TRUE); } return 0; }
''', valgrind=True)
seed('s06-transposition', 'C17', [('lib/distance.c', '(i >= 2 && j >= 2 && dist[l] > dist2 + cost &&', '(j >= 2 && dist[l] >= dist2 + cost && prev_frame &&')],
 'the first frame of one thread repeats its last frame in the other, next to a frame that differs', 'frames at opposite ends of the thread are counted as transposed neighbours', '''
#include "gdb/frame.h"
#include "gdb/thread.h"
#include "distance.h"
#include "thread.h"
static struct sr_thread *mk(const char *s){ struct sr_gdb_thread *t = sr_gdb_thread_new(); for (; *s; s++) { struct sr_gdb_frame *f = sr_gdb_frame_new(); f->function_name = g_strndup(s, 1); t->frames = sr_gdb_frame_append(t->frames, f); } return (struct sr_thread*)t; }
static int min(int a, int b){ return a < b ? a : b; }
static int osa(const char *a, const char *b){ int n = strlen(a), m = strlen(b), d[9][9]; for (int i = 0; i <= n; i++) for (int j = 0; j <= m; j++) { if (!i || !j) { d[i][j] = i + j; continue; } int c = a[i-1] != b[j-1]; d[i][j] = min(min(d[i-1][j], d[i][j-1]) + 1, d[i-1][j-1] + c); if (i > 1 && j > 1 && a[i-1] == b[j-2] && a[i-2] == b[j-1]) d[i][j] = min(d[i][j], d[i-2][j-2] + c); } return d[n][m]; }
int main(void){ char a[6], b[6]; for (int n = 1; n < 5; n++) for (int m = 1; m < 5; m++) for (int x = 0; x < 81; x++) for (int y = 0; y < 81; y++) { int k = x; for (int i = 0; i < n; i++) { a[i] = "abc"[k % 3]; k /= 3; } a[n] = 0; if (k) continue; k = y; for (int i = 0; i < m; i++) { b[i] = "abc"[k % 3]; k /= 3; } b[m] = 0; if (k) continue;
 struct sr_thread *t = mk(a), *u = mk(b); float d = sr_distance(SR_DISTANCE_DAMERAU_LEVENSHTEIN, t, u); CHECK(d == (float)osa(a, b) / (n > m ? n : m)); sr_gdb_thread_free((void*)t); sr_gdb_thread_free((void*)u); } return 0; }
''')
seed('s07-average-link', 'C20', [('lib/cluster.c', '(clusters[c1].size + clusters[c2].size);', '(clusters[c1].size + (clusters[c2].size > 2 ? 2 : clusters[c2].size));')],
 'a cluster of three or more objects is joined to a cluster of smaller numbers before others are', 'the distances of the new cluster to the others are no longer the average', '''
#include "distance.h"
#include "cluster.h"
int main(void){ int n = 8; struct sr_distances *d = sr_distances_new(n, n); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) sr_distances_set_distance(d, i, j, i < 3 && j < 3 ? 0.0625f : i >= 3 && i < 7 && j >= 3 && j < 7 ? 0.03125f : i < 7 && j < 7 ? 0.25f : 0.5f);
 struct sr_dendrogram *g = sr_distances_cluster_objects(d); float max = 0; for (int i = 0; i < n - 1; i++) if (g->merge_levels[i] > max) max = g->merge_levels[i]; CHECK(max == 0.5f); int c = 0; for (struct sr_cluster *k = sr_dendrogram_cut(g, 0.5f, 1); k; k = k->next) c++; CHECK(c == 1); return 0; }
''')
seed('s08-first-thread', 'C28', [('lib/gdb_stacktrace.c', 'else if (thread_cmp_dont_compare_number(thread, result) < 0)', 'else if (thread_cmp_dont_compare_number(thread, result) <= 0 && thread != result->next)')],
 'three or more threads with the crash frame on top of which the third repeats the first', 'another thread than the first of equal threads is taken for the crash thread', '''
#include "gdb/frame.h"
#include "gdb/thread.h"
#include "gdb/stacktrace.h"
static struct sr_gdb_frame *fr(const char *n){ struct sr_gdb_frame *f = sr_gdb_frame_new(); f->function_name = g_strdup(n); f->source_file = g_strdup("s.c"); f->source_line = 3; return f; }
int main(void){ struct sr_gdb_stacktrace *s = sr_gdb_stacktrace_new(); const char *second[] = { "a", "b", "a" }; for (int i = 0; i < 3; i++) { struct sr_gdb_thread *t = sr_gdb_thread_new(); t->number = i + 1; t->frames = sr_gdb_frame_append(fr("crash"), fr(second[i])); s->threads = sr_gdb_thread_append(s->threads, t); }
 s->crash = fr("crash"); struct sr_gdb_thread *c = sr_gdb_stacktrace_find_crash_thread(s); CHECK(c && c->number == 1); return 0; }
''')
seed('s09-recursion', 'C21', [('lib/normalize.c', """            prev_frame->function_name &&
            0 != strcmp(prev_frame->function_name, "??") &&
            0 == g_strcmp0""", """            prev_frame->function_name && (curr_frame->next || prev_frame != thread->frames) &&
            0 != strcmp(prev_frame->function_name, "??") &&
            0 == g_strcmp0""")],
 'a thread that is nothing but one function calling itself', 'the recursion is not merged into one frame', '''
#include "gdb/frame.h"
#include "gdb/thread.h"
#include "normalize.h"
int main(void){ for (int n = 1; n < 5; n++) for (int m = 0; m < 2; m++) { struct sr_gdb_thread *t = sr_gdb_thread_new(); for (int i = 0; i < n + m; i++) { struct sr_gdb_frame *f = sr_gdb_frame_new(); f->function_name = g_strdup(i < n ? "f" : "main"); f->address = 16 + i; f->number = i; t->frames = sr_gdb_frame_append(t->frames, f); } sr_normalize_gdb_thread(t); int c = 0; for (struct sr_gdb_frame *f = t->frames; f; f = f->next) c++; CHECK(c == 1 + m); } return 0; }
''')
seed('s10-uniq', 'C25', [('lib/rpm.c', '''            merged->next = loop->next->next;
''', '''            merged->next = loop->next->next ? loop->next->next : prev && !prev->next ? prev : NULL;
            if (prev && merged->next && 0 == sr_rpm_package_cmp_nvr(prev, merged->next)) merged->next = merged->next->next;
''')],
 'packages of one name, version and release but different architectures with a duplicated one between them', 'a package that is no duplicate is removed from the list', '''
#include "rpm.h"
static struct sr_rpm_package *mk(const char *a){ struct sr_rpm_package *p = sr_rpm_package_new(); p->name = g_strdup("n"); p->version = g_strdup("1"); p->release = g_strdup("2"); p->architecture = g_strdup(a); return p; }
int main(void){ const char *a[] = { "a", "b", "b", "c", "d" }; struct sr_rpm_package *l = NULL; for (int i = 0; i < 5; i++) l = sr_rpm_package_append(l, mk(a[i])); l = sr_rpm_package_uniq(l); char s[9] = ""; for (; l; l = l->next) strcat(s, l->architecture); CHECK(!strcmp(s, "abcd")); return 0; }
''')
seed('s11-release-version', 'C27', [('lib/operating_system.c', "while (isdigit(*version_end) || *version_end == '.')", "while (isdigit(*version_end) || (*version_end == '.' && isdigit(version_end[1]) && !strchr(version_begin + 1, 'B')))")],
 'a release sentence with a dotted version and a code name that contains the letter B behind it', 'the version is cut at its first dot', '''
#include "operating_system.h"
int main(void){ char *n, *v; CHECK(sr_operating_system_parse_etc_system_release("CentOS Linux release 7.2 (Core)", &n, &v)); CHECK(!strcmp(v, "7.2")); CHECK(sr_operating_system_parse_etc_system_release("Red Hat Enterprise Linux Server release 6.3 Beta (Santiago)", &n, &v)); CHECK(!strcmp(v, "6.3") && !strcmp(n, "rhel")); return 0; }
''')
seed('s12-crash-tid', 'C28', [('lib/gdb_stacktrace.c', 'if (thread->tid == stacktrace->crash_tid)', 'if (thread->tid == stacktrace->crash_tid && (thread->frames || thread->next))')],
 'the thread recorded as crashed is the last one and has no frames', 'the recorded crash thread is not selected', '''
#include "gdb/frame.h"
#include "gdb/thread.h"
#include "gdb/stacktrace.h"
int main(void){ struct sr_gdb_stacktrace *s = sr_gdb_stacktrace_new(); for (int i = 0; i < 3; i++) { struct sr_gdb_thread *t = sr_gdb_thread_new(); t->number = i + 1; t->tid = 50 + i; if (i < 2) { t->frames = sr_gdb_frame_new(); t->frames->function_name = g_strdup("f"); } s->threads = sr_gdb_thread_append(s->threads, t); }
 for (int i = 0; i < 3; i++) { s->crash_tid = 50 + i; struct sr_gdb_thread *c = sr_gdb_stacktrace_find_crash_thread(s); CHECK(c && c->tid == 50 + i); } return 0; }
''')
seed('s16-core-signal', 'C41', [('lib/core_unwind.c', """    const char NOTE_CORE[] = "CORE";""", """    const char NOTE_CORE[4] = "CORE";"""), ('lib/core_unwind.c', 'if (strcmp(NOTE_CORE, name_data->d_buf))', 'if (strncmp(NOTE_CORE, name_data->d_buf, sizeof(NOTE_CORE)))')],
 'a note of type 1 whose owner only begins with CORE before the real one', 'the signal is taken from a note that is no process status', '''
#include <elf.h>
#include <gelf.h>
#include <libelf.h>
#include <sys/procfs.h>
short get_signal_number(Elf *e, const char *n);
static char buf[8192]; static size_t n;
static void note(const char *owner, int sz, int sig){ Elf64_Nhdr h = { sz, sizeof(struct elf_prstatus), NT_PRSTATUS }; struct elf_prstatus p; memset(&p, 0, sizeof p); p.pr_cursig = sig; memcpy(buf + n, &h, sizeof h); n += sizeof h; memcpy(buf + n, owner, sz); n += (sz + 3) & ~3; memcpy(buf + n, &p, sizeof p); n += sizeof p; }
int main(void){ elf_version(EV_CURRENT); Elf64_Ehdr *e = (void*)buf; memcpy(e->e_ident, ELFMAG, 4); e->e_ident[4] = ELFCLASS64; e->e_ident[5] = ELFDATA2LSB; e->e_ident[6] = 1; e->e_type = ET_CORE; e->e_machine = EM_X86_64; e->e_version = 1; e->e_phoff = sizeof *e; e->e_ehsize = sizeof *e; e->e_phentsize = sizeof(Elf64_Phdr); e->e_phnum = 1;
 n = sizeof(Elf64_Ehdr) + sizeof(Elf64_Phdr); size_t start = n; note("COREX", 6, 5); note("CORE", 5, 11); Elf64_Phdr *p = (void*)(buf + sizeof *e); p->p_type = PT_NOTE; p->p_offset = start; p->p_filesz = n - start; p->p_align = 4;
 Elf *f = elf_memory(buf, n); CHECK(f); CHECK(get_signal_number(f, "x") == 11); return 0; }
''', static=True)
seed('s13-lib-edge', 'C30', [('lib/gdb_sharedlib.c', '''            while (isxdigit(*tmp) || isspace(*tmp) || *tmp == 'x')
                ++tmp;''', '''            while (isxdigit(*tmp) || *tmp == ' ' || *tmp == 'x')
                ++tmp;''')],
 'columns separated by tabs', 'the table ends at a row with a tab before the symbol state', '''
#include "gdb/sharedlib.h"
int main(void){ struct sr_gdb_sharedlib *l = sr_gdb_sharedlib_parse("From To Syms Read Shared Object Library\\n0x1 0x2 Yes /a\\n0x3\\t0x4\\tNo\\t/b\\n0x5 0x6 Yes (*) /c\\n"); CHECK(l && l->next && l->next->next); CHECK(l->next->from == 3 && l->next->to == 4 && !strcmp(l->next->soname, "/b")); CHECK(l->next->next->from == 5); return 0; }
''')
seed('s14-short-write', 'C34', [('lib/utils.c', 'if (size != read(fd, contents, size))', 'ssize_t got = read(fd, contents, size);\n    if (got < 0 || (got == 0 && size > 0))')],
 'a read that returns less than the file held when it was opened (file cut while it is read)', 'the text returned is not the contents of the file: memory that was never written is returned with it', '''
#include "utils.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/syscall.h>
ssize_t read(int fd, void *b, size_t n){ return syscall(SYS_read, fd, b, n > 10 ? 10 : n); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t m){ return read(fd, b, n); }
int main(void){ char *e = NULL; int fd = open("satyr-seed-demo.txt", O_WRONLY | O_CREAT | O_TRUNC, 0600); CHECK(fd >= 0 && write(fd, "0123456789abcdefghij", 20) == 20); close(fd); char *s = sr_file_to_string("satyr-seed-demo.txt", &e); CHECK((s && !strcmp(s, "0123456789abcdefghij")) || (!s && e)); return 0; }
''')
seed('s15-null-address', 'C15', [('lib/core_frame.c', """    if (frame->address != ULONG_MAX)
    {""", """    if (frame->address != ULONG_MAX && (frame->address || frame->build_id))
    {""")],
 'a frame at address zero of no known module (call through a null pointer)', 'the address is not stored and is unknown after loading', '''
#include "core/frame.h"
#include <json.h>
int main(void){ struct sr_core_frame *f = sr_core_frame_new(); f->address = 0; f->build_id_offset = 5; char *j = sr_core_frame_to_json(f), *e = NULL; struct sr_core_frame *g = sr_core_frame_from_json(json_tokener_parse(j), &e); CHECK(g && g->address == 0 && g->build_id_offset == 5); return 0; }
''')
seed('s17-antisymmetry', 'C10', [('lib/python_frame.c', """    int special_file = frame1->special_file - frame2->special_file;

    if (special_file != 0)
        return special_file;

    /* line_contents */""", """    int special_file = frame1->special_file != frame2->special_file;

    if (special_file != 0)
        return special_file;

    /* line_contents */""")],
 'frames of a file and of a special file of the same name and line', 'each of the two frames is greater than the other', '''
#include "python/frame.h"
int main(void){ struct sr_python_frame *a = sr_python_frame_new(), *b = sr_python_frame_new(); a->file_name = g_strdup("string"); b->file_name = g_strdup("string"); b->special_file = true; int x = sr_python_frame_cmp(a, b), y = sr_python_frame_cmp(b, a); CHECK(x && y && (x < 0) == (y > 0)); return 0; }
''')
if __name__ == '__main__':
    for a, k in S:
        if len(sys.argv) < 2 or a[0] in sys.argv[1:] or any(a[0].startswith(x) for x in sys.argv[1:]): mkseed(*a, **k); print(a[0])
