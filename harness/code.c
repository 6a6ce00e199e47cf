/* C42: disassembled instructions (MODE 0..3), unwinding entries (4, 5), call graphs (6: the real callgraph.c over a disassembler that returns what the harness says; 7: look-ups). */
#include "gen.h"
#if MODE == 6
#define sr_disasm_get_function_instructions vf_instructions
#define sr_callgraph_compute vf_cg_compute
#define sr_callgraph_extend vf_cg_extend
#define sr_callgraph_free vf_cg_free
#define sr_callgraph_find vf_cg_find
#define sr_callgraph_last vf_cg_last
#include "callgraph.c"
#else
#include "disasm.h"
#include "elves.h"
#include "callgraph.h"
#include "rfc8259.h"
#endif
#define BASE 0x400000
#define HI 0x7f0000000000ull
static char *instr_call(uint64_t a) { return g_strdup_printf("callq  0x%x", (unsigned)a); }
#if MODE == 6
/* up to three functions; the calls each of them makes, in order (-1: none), 3 stands for an address outside (a PLT entry) */
static uint64_t addr[4] = { BASE, BASE + 0x40, BASE + 0x50, 0x300 }; static int calls[3][NC], ncalls[3], broken = -1; static int asked[3];
char **vf_instructions(struct sr_disasm_state *st, uint64_t start, uint64_t size, char **error)
{
    int i = 0; while (i < 3 && addr[i] != start) i++;
    sx_assert(i < 3, "disassembly of something that is no function"); if (i == 3) sx_stop();
    sx_assert(size == (uint64_t)(0x10 + i), "disassembled with a wrong length"); sx_assert(!asked[i]++ || i == broken, "a function is disassembled twice");
    if (i == broken) { *error = g_strdup("broken"); return NULL; }
    char **r = malloc((ncalls[i] + 3) * sizeof *r); int n = 0; r[n++] = strdup("push   %rbp"); for (int k = 0; k < ncalls[i]; k++) { char *c = instr_call(addr[calls[i][k]]); r[n++] = strdup(c); g_free(c); } r[n++] = strdup("jmp    0x400000"); r[n] = NULL; return r;
}
static void check_entry(struct sr_callgraph *c, int i, uint64_t a)
{
    sx_assert(c->address == a, "address of the function"); int n = 0; bool seen[4] = { false };
    for (int k = 0; k < ncalls[i]; k++) { int t = calls[i][k]; if (seen[t]) continue; seen[t] = true; sx_assert(c->callees[n] == addr[t], "called address"); if (c->callees[n] != addr[t]) sx_stop(); n++; }
    sx_assert(c->callees[n] == 0, "a call too many");
}
#endif
void harness(void)
{
    uint64_t live = sx_live_heap();
#if MODE == 0 /* an instruction is one of the listed ones when its first word is */
    char *ins = sx_str_upto(N, "instruction"); for (int i = 0; ins[i]; i++) sx_assume(ins[i] != '\t' && ins[i] != '\n' && ins[i] != '\v' && ins[i] != '\f' && ins[i] != '\r');
    char *m0 = sym_id(1 + sx_choice(2, "m0"), "az", "mn0"); char *m1 = sym_id(1 + sx_choice(M, "m1"), "az", "mn1"); const char *mn[3] = { NULL }; int n = sx_choice(3, "listed"); if (n > 0) mn[0] = m0; if (n > 1) mn[1] = m1;
    size_t w = 0; while (ins[w] && ins[w] != ' ') w++;
    bool want = false; for (int i = 0; i < n; i++) if (strlen(mn[i]) == w && !memcmp(mn[i], ins, w)) want = true;
    bool got = sr_disasm_instruction_is_one_of(ins, mn); sx_assert(got == want, got ? "another instruction is taken for a listed one" : "a listed instruction is not recognised"); sx_cover(got ? "listed" : "other");
    char *list[3] = { ".", ins, NULL }; sx_assert(sr_disasm_instruction_present(list, mn) == want, "presence disagrees with recognition"); sx_assert(!sr_disasm_instruction_present(list + 2, mn), "present in an empty list");
    free(ins); free(m0); free(m1);
#elif MODE == 1 /* the single address operand */
    struct gb g; gb_init(&g); int k = sx_choice(3, "mnemonic"); gb_lit(&g, k == 0 ? "callq" : k == 1 ? "j" : ""); gb_lit(&g, sx_choice(2, "blanks") ? " " : "   "); if (k == 2) g.n = 0, g.b[0] = 0, gb_lit(&g, "ret");
    if (k == 2) gb_lit(&g, sx_choice(2, "blank") ? " " : "");
    char *op = sx_str_upto(N, "op"); if (k == 2 && g.b[g.n - 1] != ' ') sx_assume(!op[0]);
    static const char ok[] = "09afAFxx  %%((**,,##<<"; for (int i = 0; op[i]; i++) in_ranges(op[i], ok); gb_lit(&g, op); char *s = gb_text(&g);
    int i = 0; while (op[i] == ' ') i++; if (op[i] == '0' && op[i + 1] == 'x') { i += 2; sx_assume(op[i] != 0 && op[i] != ' ' && op[i] != '%' && op[i] != '(' && op[i] != '*' && op[i] != ',' && op[i] != '#' && op[i] != '<' && op[i] != 'x'); }
    uint64_t v = 0; int d = 0; for (; (op[i] >= '0' && op[i] <= '9') || (op[i] >= 'a' && op[i] <= 'f') || (op[i] >= 'A' && op[i] <= 'F'); i++, d++) { unsigned c = (unsigned char)op[i]; v = v * 16 + sx_ite(c <= '9', c - '0', (c | 32) - 'a' + 10); }
    while (op[i] == ' ') i++; bool want = d && !op[i]; uint64_t got = 77; bool r = sr_disasm_instruction_parse_single_address_operand(s, sx_choice(2, "dest") ? &got : NULL);
    sx_assert(r == want, r ? "something else is taken for an address operand" : "an address operand is refused"); if (r) sx_assert(got == v || got == 77, "value of the address operand"); else sx_assert(got == 77, "refused but stored"); sx_cover(r ? "address" : "none");
    free(op); free(s);
#elif MODE == 2 /* addresses called by a function: each once, in order */
    int n = sx_choice(N + 1, "n"), nc = 0, used = 0; char *ins[N + 1]; uint64_t all[N], want[N]; static const char *const mn[] = { "call   ", "callq  ", "jmpq   ", "callq  *", "call ", "callb ", "callx ", "calll " };
    for (int i = 0; i < n; i++) {
        struct gb g; gb_init(&g); int m = sx_choice(8, "mnemonic"), c = used ? sx_choice(2, "again") : 0; gb_lit(&g, mn[m]); gb_lit(&g, "0x"); uint64_t v; if (c) { v = all[0]; char b[20]; snprintf(b, sizeof b, "%llx", (unsigned long long)v); gb_lit(&g, b); } else { v = 0x10 + i; gb_lit(&g, "1"); char *h = gb_id(&g, 1, "09", "digit"); v = 16 + (h[0] - '0'); free(h); }
        all[used++] = v; ins[i] = gb_text(&g);
        if (m != 2 && m != 3 && m != 6) { bool dup = false; for (int j = 0; j < nc; j++) if (want[j] == v) dup = true; if (!dup) want[nc++] = v; }
    }
    ins[n] = NULL; uint64_t *r = sr_disasm_get_callee_addresses(ins); for (int i = 0; i < nc; i++) { sx_assert(r[i] == want[i], "called address"); if (r[i] != want[i]) sx_stop(); } sx_assert(r[nc] == 0, "a call too many"); sx_cover(nc > 1 ? "calls" : nc ? "call" : "none");
    g_free(r); for (int i = 0; i < n; i++) free(ins[i]);
#elif MODE == 3 /* text of instructions; releasing them */
    int n = sx_choice(N + 1, "n"); char **ins = malloc((n + 1) * sizeof *ins); struct gb g; gb_init(&g); for (int i = 0; i < n; i++) { ins[i] = sx_str_upto(2, "ins"); gb_lit(&g, ins[i]); gb_lit(&g, "\n"); } ins[n] = NULL;
    char *t = sr_disasm_instructions_to_text(ins); sx_assert(same(t, g.b), "text of the instructions"); g_free(t); sr_disasm_instructions_free(ins); char *e = NULL; sx_assert(!sr_disasm_init("/nowhere", &e) && e, "no disassembler, no message"); g_free(e); sr_disasm_free(NULL); sx_cover("text");
#elif MODE == 4 /* look-ups of unwinding entries and PLT entries */
    int n = sx_choice(N + 1, "n"); struct sr_elf_fde *l = NULL, **p = &l, *e[N]; struct sr_elf_plt_entry *pl = NULL, **q = &pl, *pe[N];
    for (int i = 0; i < n; i++) { e[i] = *p = g_malloc(sizeof **p); e[i]->exec_base = BASE + sx_u8("base"); e[i]->start_address = HI + sx_u16("start"); e[i]->length = sx_u8("length"); e[i]->next = NULL; p = &e[i]->next;
        pe[i] = *q = g_malloc(sizeof **q); pe[i]->address = e[i]->start_address; pe[i]->symbol_name = g_strdup("s"); pe[i]->next = NULL; q = &pe[i]->next; }
    uint64_t a = (sx_choice(2, "absolute") ? BASE : 0) + HI + sx_u16("a"); struct sr_elf_fde *o = NULL, *b = NULL, *s = NULL; struct sr_elf_plt_entry *w = NULL;
    for (int i = n - 1; i >= 0; i--) { uint64_t st = e[i]->start_address, ab = st + e[i]->exec_base; if (a >= st && a - st < e[i]->length) o = e[i]; if (a >= ab && a - ab < e[i]->length) b = e[i]; if (a == ab) s = e[i]; if (a == st) w = pe[i]; }
    sx_assert(sr_elf_find_fde_for_offset(l, a) == o, "entry for an offset"); sx_assert(sr_elf_find_fde_for_address(l, a) == b, "entry for an address"); sx_assert(sr_elf_find_fde_for_start_address(l, a) == s, "entry for a start address"); sx_assert(sr_elf_plt_find_for_address(pl, a) == w, "PLT entry for an address");
    for (int i = 0; i < n; i++) sx_assert(e[i]->next == (i + 1 < n ? e[i + 1] : NULL), "list changed"); if (o || b || s || w) sx_cover("found"); else sx_cover("none"); sr_elf_eh_frame_free(l); sr_elf_procedure_linkage_table_free(pl);
#elif MODE == 5 /* unwinding entries as JSON */
    int n = 1 + sx_choice(N, "n"); struct sr_elf_fde *l = NULL, **p = &l; static const uint64_t big[] = { 0, 9, 4294967296ull, 18446744073709551615ull };
    for (int i = 0; i < n; i++) { *p = g_malloc(sizeof **p); (*p)->exec_base = 5; (*p)->start_address = big[sx_choice(4, "start")]; (*p)->length = big[sx_choice(4, "length")]; (*p)->next = NULL; p = &(*p)->next; }
    bool rec = sx_choice(2, "recursive"); char *t = sr_elf_fde_to_json(l, rec); { const char *e = rfc_value(rfc_ws(t), NULL, 0); sx_assert(e && !*rfc_ws(e), "not well-formed JSON"); }; int objs = 0; for (char *c = t; *c; c++) objs += *c == '{'; sx_assert(objs == (rec ? n : 1), "number of entries");
    char *c = t; int i = 0; for (struct sr_elf_fde *f = l; f && i < objs; f = f->next, i++) { char b[60]; snprintf(b, sizeof b, "\"start_address\": %llu\n", (unsigned long long)f->start_address); c = strstr(c, b); sx_assert(c != NULL, "start address"); if (!c) sx_stop(); snprintf(b, sizeof b, "\"length\": %llu\n", (unsigned long long)f->length); c = strstr(c, b); sx_assert(c != NULL, "length"); if (!c) sx_stop(); }
    g_free(t); sr_elf_eh_frame_free(l); sx_cover("json");
#elif MODE == 6
    struct sr_elf_fde *l = NULL, **p = &l; uint64_t base = sx_choice(2, "base") ? 0x100 : 0; bool compute = sx_choice(2, "compute"); if (compute) base = 0;
    for (int i = 0; i < 3; i++) { *p = g_malloc(sizeof **p); (*p)->exec_base = base; (*p)->start_address = addr[i] - base; (*p)->length = 0x10 + i; (*p)->next = NULL; p = &(*p)->next; ncalls[i] = sx_choice(NC + (i == 0), "ncalls"); for (int k = 0; k < ncalls[i]; k++) calls[i][k] = sx_choice(4, "call"); }
    broken = sx_choice(4, "broken") - 1; char *err = NULL; struct sr_callgraph *cg = NULL;
    if (compute) {
        cg = sr_callgraph_compute(NULL, l, &err);
        if (broken >= 0) { sx_assert(!cg && err, "failure not reported"); g_free(err); sx_cover("failed"); }
        else { struct sr_callgraph *c = cg; sx_assert(!err, "message although it succeeded"); for (int i = 0; i < 3; i++, c = c->next) { sx_assert(c != NULL, "function missing"); if (!c) sx_stop(); check_entry(c, i, addr[i]); } sx_assert(!c, "function too many"); sx_cover("computed"); }
    } else {
        bool in[3] = { false }; int rounds = 1 + sx_choice(2, "rounds");
        for (int r = 0; r < rounds; r++) {
            int s = sx_choice(4, "start"); bool fails = s == 3 || (s == broken && !in[s]);
            struct sr_callgraph *g = sr_callgraph_extend(cg, addr[s], NULL, l, &err);
            if (fails) { sx_assert(!g && err, "failure not reported"); g_free(err); err = NULL; sx_cover("failed"); if (s != 3) asked[s] = 0; continue; }
            sx_assert(g && !err, "extension failed"); if (!g) sx_stop(); sx_assert(!cg || g == cg, "the graph is replaced"); cg = g;
            if (!in[s]) { in[s] = true; bool more = true; while (more) { more = false; for (int i = 0; i < 3; i++) if (in[i]) for (int k = 0; k < ncalls[i]; k++) { int t = calls[i][k]; if (t < 3 && t != broken && !in[t]) in[t] = more = true; } } }
            int n = 0; for (struct sr_callgraph *c = cg; c; c = c->next) { int i = 0; while (i < 3 && addr[i] != c->address) i++; sx_assert(i < 3 && in[i], "a function that is not called"); if (i == 3) sx_stop(); check_entry(c, i, addr[i]); n++; }
            sx_assert(n == in[0] + in[1] + in[2], "not every called function once"); for (int i = 0; i < 3; i++) { if (i == broken) asked[i] = 0; struct sr_callgraph *c = sr_callgraph_find(cg, addr[i]); sx_assert((c != NULL) == in[i], "looking up a function"); } sx_cover("extended");
        }
    }
    sr_callgraph_free(cg); sr_elf_eh_frame_free(l);
#elif MODE == 7
    int n = sx_choice(N + 1, "n"); struct sr_callgraph *l = NULL, **p = &l, *e[N], *want = NULL; for (int i = 0; i < n; i++) { e[i] = *p = g_malloc(sizeof **p); e[i]->address = sx_u64("address"); e[i]->callees = g_malloc0(8); e[i]->next = NULL; p = &e[i]->next; }
    uint64_t a = sx_u64("a"); for (int i = n - 1; i >= 0; i--) if (e[i]->address == a) want = e[i];
    sx_assert(sr_callgraph_find(l, a) == want, "looking up a function"); sx_assert(sr_callgraph_last(l) == (n ? e[n - 1] : NULL), "last function"); sr_callgraph_free(l); sx_cover(want ? "found" : "none");
#endif
    sx_assert(sx_live_heap() == live, "memory is lost");
}
