/* C46: the procedure linkage table (MODE 0) and the unwinding entries (MODE 1) read from an ELF file. libelf and libdw are stand-ins:
   a file made of sections, program headers and .eh_frame entries that the harness describes. One call chosen by the harness fails. */
#include "vfs.h"
#include <libelf.h>
#include <gelf.h>
#include <dwarf.h>
#include <elfutils/libdw.h>
#include "elves.h"
#ifndef NS
#define NS 1
#endif
enum fault { NOFAULT, F_OPEN, F_VERSION, F_BEGIN, F_STRNDX, F_SHDR, F_STRPTR, F_DATA, F_SCN, F_RELA, F_SYM, F_IDENT, F_PHDRNUM, F_PHDR };
static int fault, fault_skip; static bool raised;
static bool hit(enum fault f) { if (fault == (int)f && fault_skip-- <= 0) { raised = true; return true; } return false; }
#define MAXS 10
struct Elf { int fd; }; struct Elf_Scn { GElf_Shdr h; const char *name; Elf_Data d; };
static struct Elf_Scn sc[MAXS]; static int ns = 1; static int elves; static bool version; static Elf *the_elf; static int strndx;
static struct { uint8_t sym; } rl[3]; static int nrl; static Elf_Data *rela_data, *sym_data; static const char *symname[3]; static int strtab;
static unsigned char ident[16]; static GElf_Phdr ph[3]; static int nph;
struct ent { Dwarf_Off off, next; int ret; bool cie; Dwarf_CIE c; Dwarf_FDE f; };
static struct ent en[4]; static int nen; static Elf_Data *eh_data;
const char *vf_elf_errmsg(int e) { return "elf error"; }
const char *vf_dwarf_errmsg(int e) { return "dwarf error"; }
unsigned vf_elf_version(unsigned v) { if (hit(F_VERSION)) return EV_NONE; version = true; return EV_CURRENT; }
Elf *vf_elf_begin(int fd, Elf_Cmd c, Elf *ref) { chk(fd); if (!version || hit(F_BEGIN)) return NULL; Elf *e = malloc(sizeof *e); e->fd = fd; elves++; return the_elf = e; }
int vf_elf_end(Elf *e) { if (!e) return 0; chk(e->fd); sx_assert(e == the_elf, "a handle is ended twice"); elves--; the_elf = NULL; free(e); return 0; }
static void live(Elf *e) { sx_assert(e && e == the_elf, "a handle that is not open is used"); }
int vf_elf_getshdrstrndx(Elf *e, size_t *n) { live(e); if (hit(F_STRNDX)) return -1; *n = strndx; return 0; }
int vf_elf_getshdrnum(Elf *e, size_t *n) { live(e); *n = ns; return 0; }
Elf_Scn *vf_elf_nextscn(Elf *e, Elf_Scn *s) { live(e); int i = s ? (int)(s - sc) + 1 : 1; return i < ns ? &sc[i] : NULL; }
Elf_Scn *vf_elf_getscn(Elf *e, size_t i) { live(e); if (hit(F_SCN)) return NULL; return i < (size_t)ns ? &sc[i] : NULL; }
size_t vf_elf_ndxscn(Elf_Scn *s) { return s - sc; }
GElf_Shdr *vf_gelf_getshdr(Elf_Scn *s, GElf_Shdr *h) { if (!s || hit(F_SHDR)) return NULL; *h = s->h; return h; }
Elf_Data *vf_elf_getdata(Elf_Scn *s, Elf_Data *d) { if (!s || d || hit(F_DATA)) return NULL; return &s->d; }
char *vf_elf_strptr(Elf *e, size_t sec, size_t off)
{
    live(e); if (hit(F_STRPTR)) return NULL;
    if (sec == (size_t)strndx) { sx_assert(off < (size_t)ns, "a name that does not exist"); return (char *)sc[off].name; }
    sx_assert(sec == (size_t)strtab, "names of symbols come from the string table of the symbol table"); for (int i = 0; i < 3; i++) if (off == (size_t)(100 + i)) return (char *)symname[i]; return NULL;
}
GElf_Rela *vf_gelf_getrela(Elf_Data *d, int n, GElf_Rela *r) { sx_assert(d == rela_data, "relocations of another section"); if (hit(F_RELA)) return NULL; for (int i = 0; i < nrl; i++) if (n == i) { memset(r, 0, sizeof *r); r->r_info = GELF_R_INFO((uint64_t)rl[i].sym, 7); return r; } return NULL; }
GElf_Sym *vf_gelf_getsym(Elf_Data *d, int n, GElf_Sym *s) { sx_assert(d == sym_data, "symbols of another section"); if (hit(F_SYM)) return NULL; for (int i = 0; i < 3; i++) if (n == i) { memset(s, 0, sizeof *s); s->st_name = 100 + i; return s; } return NULL; }
char *vf_elf_getident(Elf *e, size_t *n) { live(e); if (hit(F_IDENT)) return NULL; if (n) *n = 16; return (char *)ident; }
int vf_elf_getphdrnum(Elf *e, size_t *n) { live(e); if (hit(F_PHDRNUM)) return -1; *n = nph; return 0; }
GElf_Phdr *vf_gelf_getphdr(Elf *e, int i, GElf_Phdr *p) { live(e); if (hit(F_PHDR) || i >= nph) return NULL; *p = ph[i]; return p; }
int vf_dwarf_next_cfi(const unsigned char *id, Elf_Data *d, bool eh, Dwarf_Off off, Dwarf_Off *next, Dwarf_CFI_Entry *out)
{
    sx_assert(id == ident && d == eh_data && eh && the_elf, "another section is read");
    for (int i = 0; i < nen; i++) if (off == en[i].off) { *next = en[i].next; if (en[i].ret) return en[i].ret; if (en[i].cie) out->cie = en[i].c; else out->fde = en[i].f; return 0; }
    sx_assert(off == (nen ? en[nen - 1].next : 0), "an entry that does not exist"); *next = (Dwarf_Off)-1; return 1;
}
static int addsec(const char *name, int type, size_t size) { int i = ns++; memset(&sc[i], 0, sizeof sc[i]); sc[i].name = name; sc[i].h.sh_name = i; sc[i].h.sh_type = type; sc[i].d.d_size = size; sc[i].d.d_buf = size ? malloc(size) : NULL; if (size) memset(sc[i].d.d_buf, 0, size); return i; }
static void done(char *err, bool ok)
{
    sx_assert(elves == 0, "the ELF handle is given back"); vfs_check();
    sx_assert(ok == (err == NULL), ok ? "no error message when the file is read" : "a failure has an error message"); free(err);
}
static void put(unsigned char *p, uint64_t v, int n) { for (int i = 0; i < n; i++) p[i] = v >> (8 * i); }
static uint64_t get(const unsigned char *p, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v |= (uint64_t)p[i] << (8 * i); return v; }

static void plt(void)
{
    int slots = sx_choice(NS + 1, "slots"), tail = slots == NS ? 0 : sx_choice(16, "tail"); size_t sz = (tail || slots || sx_choice(2, "header") ? 16 : 0) + 16 * (size_t)slots + tail;
    int kind = sx_choice(7, "kind");   /* 0 relocations apply to .plt, 1 to .got.plt, 2 no .plt, 3 no relocations, 4 no content, 5 .plt comes last, 6 other relocations first */
    bool got = kind == 1 || kind == 6; int p = 0, g = 0;
    addsec(".text", SHT_PROGBITS, 0); sc[1].h.sh_info = kind == 5 ? 7 : 3;
    if (kind == 6) { int o = addsec(".rela.dyn", SHT_RELA, 24); sc[o].h.sh_info = 1; sc[o].h.sh_link = 1; } else addsec(".pltx", SHT_PROGBITS, 16);
    if (kind != 5) p = addsec(kind == 2 ? ".pl" : ".plt", SHT_PROGBITS, kind == 4 ? 0 : sz);
    int r = addsec(".rela.plt", kind == 3 ? SHT_PROGBITS : SHT_RELA, 24); strtab = addsec(".dynstr", SHT_STRTAB, 8); int d = addsec(".dynsym", SHT_DYNSYM, 24);
    if (kind == 5) p = addsec(".plt", SHT_PROGBITS, sz);
    if (got) g = addsec(".got.plt", SHT_PROGBITS, 8);
    strndx = addsec(".shstrtab", SHT_STRTAB, 8);
    if (kind == 4) sc[p].d.d_size = 64;
    uint64_t base = sx_u64("base"); sc[p].h.sh_addr = base; sc[p].h.sh_offset = sx_u64("offset"); sc[r].h.sh_info = got ? g : p; sc[r].h.sh_link = d; sc[d].h.sh_link = strtab; rela_data = &sc[r].d; sym_data = &sc[d].d;
    unsigned char *b = sc[p].d.d_buf; nrl = 3; for (int i = 0; i < 3; i++) { static const char *const nm[] = { "r0", "r1", "r2" }; rl[i].sym = sx_u8(nm[i]); symname[i] = i == 2 ? NULL : i ? "second" : "first"; }
    bool content = b != NULL; int want = -1; bool bad = false; struct { int sym; } exp[NS + 1]; int nexp = 0;
    if (b) { sx_make_symbolic(b, sz, "plt"); if (tail >= 11) sx_assume(get(b + 16 * (slots + 1) + 7, 4) < 3); }
    if (kind == 0) { fault = sx_choice(11, "fault"); if (fault == F_SHDR || fault == F_STRPTR || fault == F_DATA) fault_skip = sx_choice(8, "which"); }
    if (fault == F_OPEN) { vfs[0].exists = false; raised = true; } char *err = NULL; size_t before = sx_live_heap();
    struct sr_elf_plt_entry *l = sr_elf_get_procedure_linkage_table("exe", &err);
    for (int i = 0; i < slots + (tail >= 11) && b; i++) { uint32_t x = get(b + 16 * (i + 1) + 7, 4); int s = -1; for (int k = 0; k < 3; k++) if (x == (uint32_t)k) s = rl[k].sym; if (s < 0 || s > 2) { if (i < slots) bad = true; else want = -2; break; } exp[nexp++].sym = s; }
    bool strfault = raised && fault == F_STRPTR;
    if (!content || kind == 2 || kind == 3 || bad || (raised && !strfault)) { sx_cover("failed"); sx_assert(l == NULL, "a file that is not understood has no table"); done(err, false); sx_assert(sx_live_heap() == before, "nothing leaks"); return; }
    if (want == -2 || strfault) { sx_cover("either"); done(err, err == NULL); }
    else {
        sx_cover(raised ? "raised" : slots ? "table" : "empty"); done(err, true); struct sr_elf_plt_entry *e = l;
        for (int i = 0; i < nexp; i++) {
            if (i == slots && !e) break;
            sx_assert(e != NULL, "every slot has an entry"); sx_assert(e->address == base + 16 * (uint64_t)(i + 1), "address of the slot");
            sx_assert(e->symbol_name ? symname[exp[i].sym] && !strcmp(e->symbol_name, symname[exp[i].sym]) : symname[exp[i].sym] == NULL, "symbol of the slot"); e = e->next;
        }
        sx_assert(e == NULL, "no other entries");
    }
    sr_elf_procedure_linkage_table_free(l); sx_assert(sx_live_heap() == before, "nothing leaks");
}

struct cieinfo { Dwarf_Off off; int plen; bool pcrel, sgn, bad; };
static const char *const augs[] = { "zR", "", "z", "zPLR", "zLPR", "zRS", "zPR", "zXR", "R", "zL" };
static const uint8_t encs[] = { 0x1b, 0x00, 0x03, 0x1c, 0x10, 0x02, 0x01, 0x0b, 0x04 };
static struct cieinfo mkcie(unsigned char *b, size_t at, int i, bool rich)
{
    struct cieinfo ci = { at, ident[EI_CLASS] == ELFCLASS32 ? 4 : 8, false, false, false }; int abs = ci.plen; unsigned char *d = b + at + 12; int n = 0;
    const char *a = rich ? augs[sx_choice(10, "augmentation")] : "zR"; uint8_t enc = rich ? encs[sx_choice(9, "encoding")] : 0x1b; bool cut = rich && strchr(a, 'R') && sx_choice(2, "cut");
    for (const char *q = *a == 'z' ? a + 1 : a; *q; q++) {
        if (*q == 'L') d[n++] = 0x1b;
        else if (*q == 'P') { static const uint8_t pe[] = { 0x03, 0x9b, 0x00, 0xff, 0x04, 0x01 }; uint8_t k = pe[sx_choice(6, "personality")]; d[n++] = k; int sz = k == 0xff || k == 1 ? 0 : (k & 7) == 3 ? 4 : (k & 7) == 4 ? 8 : abs; if (!sz) { ci.bad = true; break; } n += sz; }
        else if (*q == 'R') { d[n++] = enc; if (cut) { n--; ci.bad = true; break; } int k = enc & 7; ci.plen = k == 3 ? 4 : k == 4 ? 8 : k == 0 ? abs : 0; if (!ci.plen) { ci.bad = true; break; } ci.pcrel = (enc & 0x70) == 0x10; ci.sgn = enc & 8; if (!ci.pcrel && ci.sgn) sx_cover("signed"); }
        else if (*q == 'X') { ci.bad = true; break; }
    }
    unsigned char *data = n ? malloc(n) : malloc(1); memcpy(data, d, n); if (!n) { free(data); data = (unsigned char *)b + at + 12; }   /* its own object: reads past it are seen */
    struct ent *e = &en[nen++]; e->off = at; e->next = at + 32; e->cie = true; e->c.CIE_id = DW_CIE_ID_64; e->c.augmentation = a; e->c.augmentation_data = data; e->c.augmentation_data_size = n; (void)i; return ci;
}
static bool fdebad; static uint64_t sh_addr, exec_base; static struct { uint64_t start, len; } want[2]; static int nwant;
static void mkfde(unsigned char *b, size_t at, struct cieinfo *ci, int i, int kind)
{
    int lenf = kind == 1 ? 12 : 4; size_t off = at + lenf + 4; int room = kind == 2 ? 2 * ci->plen - 1 : 2 * ci->plen + 3; put(b + at, kind == 1 ? 0xffffffff : 28, 4);
    struct ent *e = &en[nen++]; e->off = at; e->next = at + 40; e->cie = false; e->f.CIE_pointer = kind == 3 ? ci->off + 4 : ci->off; e->f.start = b + off; e->f.end = b + off + room;
    if (ci->bad) return;
    if (kind >= 2) { fdebad = true; return; }
    sx_make_symbolic(b + off, 2 * ci->plen, i ? "fde1" : "fde0"); uint64_t v = get(b + off, ci->plen), len = get(b + off + ci->plen, ci->plen);
    if (ci->sgn && !ci->pcrel) sx_assume(v >> (8 * ci->plen - 1) == 0);   /* absolute addresses that are negative numbers are not claimed */
    if (ci->sgn && ci->plen == 4) v = (uint64_t)(int64_t)(int32_t)v;
    uint64_t addr = ci->pcrel ? sh_addr + off + v : v; if (ident[EI_CLASS] == ELFCLASS32 && ci->plen == 4) addr &= 0xffffffff;
    sx_assume(addr >= exec_base && addr - exec_base <= 0xffffffff); want[nwant].start = addr - exec_base; want[nwant++].len = len;
}
static void eh(void)
{
    int shape = sx_choice(10, "shape"); ident[EI_CLASS] = sx_choice(2, "class") ? ELFCLASS32 : ELFCLASS64; bool c32 = ident[EI_CLASS] == ELFCLASS32;
    addsec(".eh_frame_hdr", SHT_PROGBITS, 4); sc[1].h.sh_addr = 77; int s = addsec(shape == 8 ? ".eh_fram" : ".eh_frame", SHT_PROGBITS, shape == 9 ? 0 : 160); strndx = addsec(".shstrtab", SHT_STRTAB, 8); eh_data = &sc[s].d; unsigned char *b = eh_data->d_buf; if (shape == 9) eh_data->d_size = 160;
    sh_addr = sx_u64("address"); sc[s].h.sh_addr = sh_addr; sc[s].h.sh_offset = sx_u64("offset"); exec_base = sx_u64("base"); if (c32) sx_assume(sh_addr <= 0xffffff00 && exec_base <= 0xffffffff); sx_assume(exec_base != UINT64_MAX);
    int first = 0; nph = 3; bool noexec = false;
    switch (shape == 0 ? sx_choice(4, "segments") : 0) {
    case 0: ph[0].p_type = PT_LOAD; ph[0].p_flags = PF_R; ph[1].p_type = PT_LOAD; ph[1].p_flags = PF_R | PF_X; ph[2].p_type = PT_LOAD; ph[2].p_flags = PF_X; first = 1; break;
    case 1: ph[0].p_type = PT_GNU_STACK; ph[0].p_flags = PF_R | PF_X; ph[1].p_type = PT_NOTE; ph[2].p_type = PT_LOAD; ph[2].p_flags = PF_X | PF_W | PF_R; first = 2; break;
    case 2: noexec = true; ph[0].p_type = PT_LOAD; ph[0].p_flags = PF_R | PF_W; ph[1].p_type = PT_DYNAMIC; ph[1].p_flags = PF_X; ph[2].p_type = PT_LOAD; break;
    case 3: nph = 0; noexec = true; break;
    }
    for (int i = 0; i < 3; i++) ph[i].p_vaddr = 5 + i; ph[first].p_vaddr = exec_base; ph[first].p_offset = sx_u64("segment_offset");
    bool fails = noexec || shape >= 8; struct cieinfo A, B; char *names = NULL;
    switch (shape) {
    case 0: A = mkcie(b, 0, 0, false); mkfde(b, 32, &A, 0, 0); if (!noexec) { fault = sx_choice(14, "fault"); if (fault == F_SHDR || fault == F_STRPTR || fault == F_PHDR) fault_skip = sx_choice(3, "which"); } break;
    case 1: A = mkcie(b, 0, 0, true); mkfde(b, 32, &A, 0, 0); fails |= A.bad; break;
    case 2: A = mkcie(b, 0, 0, false); mkfde(b, 32, &A, 0, 1 + sx_choice(3, "bad_entry")); break;
    case 3: { A = mkcie(b, 0, 0, false); mkfde(b, 32, &A, 0, 0); en[nen].off = 72; en[nen].next = 72; B = (struct cieinfo){ 72, c32 ? 4 : 8, false, false, false }; struct ent *e = &en[nen++]; e->next = 104; e->cie = true; e->c.CIE_id = DW_CIE_ID_64; e->c.augmentation = ""; e->c.augmentation_data = b + 80; mkfde(b, 104, sx_choice(2, "which_cie") ? &B : &A, 1, 0); break; }
    case 4: A = mkcie(b, 0, 0, false); en[nen].off = 32; en[nen].next = 40; en[nen++].ret = -1; mkfde(b, 40, &A, 0, 0); break;      /* an entry libdw does not understand is skipped */
    case 5: A = mkcie(b, 0, 0, false); mkfde(b, 32, &A, 0, 0); en[nen].off = 72; en[nen].next = 72; en[nen++].ret = -1; fails = true; break;
    case 6: break;                                                                                                                   /* no entries */
    case 7: A = mkcie(b, 0, 0, false); A.off = 99; mkfde(b, 32, &A, 0, 0); fails = true; break;
    }
    (void)names; if (fault == F_OPEN) { vfs[0].exists = false; raised = true; } char *err = NULL; size_t before = sx_live_heap();
    struct sr_elf_fde *l = sr_elf_get_eh_frame("exe", &err);
    if (fails || fdebad || raised) { sx_cover("failed"); sx_assert(l == NULL, "a file that is not understood has no entries"); done(err, false); }
    else {
        sx_cover(nwant ? "entries" : "none"); done(err, true); struct sr_elf_fde *e = l;
        for (int i = 0; i < nwant; i++) { sx_assert(e != NULL, "every function has an entry"); sx_assert(e->exec_base == exec_base, "the base is the address of the executable segment"); sx_assert(e->start_address == want[i].start, "the start is relative to the base"); sx_assert(e->length == want[i].len, "the length is that of the function"); e = e->next; }
        sx_assert(e == NULL, "no other entries"); sr_elf_eh_frame_free(l);
    }
    sx_assert(sx_live_heap() == before, "nothing leaks");
}
void harness(void) { vfs_add("exe", "x"); if (MODE) eh(); else plt(); }
