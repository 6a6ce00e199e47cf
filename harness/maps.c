/* Address maps (C30): gdb shared library tables (MODE 0 any text, 1 disturbed table, 2 rows, 3 lookup) and module listings (4 any text, 5 disturbed, 6 rows, 7 lookup). */
#include "gen.h"
#include "gdb/sharedlib.h"
#include "unstrip.h"
#include "utils.h"
static void libs_free(struct sr_gdb_sharedlib *l) { while (l) { struct sr_gdb_sharedlib *n = l->next; sr_gdb_sharedlib_free(l); l = n; } }
static const int wd[] = { 1, 2, 8, 16 };
#define HDR "From                To                  Syms Read   Shared Object Library\n"
void harness(void)
{
    uint64_t live = sx_live_heap(); struct gb g; gb_init(&g); char *t = NULL;
#if MODE == 0
    int k = sx_choice(3, "ctx"); static const char *const pre[] = { HDR, HDR "0x1 0x2 Yes a\n", HDR "  No" }; gb_lit(&g, pre[k]); char *w = sx_str_upto(N, "w"); gb_lit(&g, w); free(w); t = gb_text(&g);
    struct sr_gdb_sharedlib *l = sr_gdb_sharedlib_parse(t); sx_cover(l ? "parsed" : "refused");
    for (struct sr_gdb_sharedlib *q = l; q; q = q->next) sx_assert(q->soname && (q->symbols == SYMS_OK || q->symbols == SYMS_NOT_FOUND || q->symbols == SYMS_WRONG), "an entry without a name or state");
    libs_free(l);
#elif MODE == 1
    t = sx_disturb("#0  x ()\nFrom  To  Syms Read  Shared Object Library\n0xfa 0xfb  Yes (*)  /l/a\n     No   b\n", K);
    struct sr_gdb_sharedlib *l = sr_gdb_sharedlib_parse(t); sx_cover(l ? "parsed" : "refused"); libs_free(l);
#elif MODE == 2
    int before = sx_choice(3, "before"); if (before == 1) gb_lit(&g, "#0  0x1 in f ()\n From To\n"); else if (before == 2) gb_lit(&g, "From here\nFrom To\n"); gb_lit(&g, before ? "From To Syms Read Shared Object Library\n" : HDR);
    int n = 1 + sx_choice(N, "rows"); uint64_t from[3], to[3]; int sym[3]; char *nm[3]; int deep = sx_choice(n, "deep"), last = sx_choice(3, "end");
    for (int i = 0; i < n; i++) {
        if (i == deep) {
            int a = sx_choice(5, "addr");
            if (a == 4) { from[i] = to[i] = UINT64_MAX; gb_lit(&g, "                                        "); }
            else { gb_lit(&g, "0x"); from[i] = gb_hex(&g, wd[a], "from"); int gap = sx_choice(3, "gap"); gb_lit(&g, gap == 0 ? " " : gap == 1 ? "  " : "\t"); gb_lit(&g, "0x"); to[i] = gb_hex(&g, wd[3 - a], "to"); gb_lit(&g, gap == 2 ? "\t" : "  "); }
            int s = sx_choice(3, "syms"); sym[i] = s == 0 ? SYMS_OK : s == 1 ? SYMS_NOT_FOUND : SYMS_WRONG; gb_lit(&g, s == 0 ? "Yes" : s == 1 ? "Yes (*)" : "No"); gb_lit(&g, s == 1 ? "  " : s == 2 ? "\t" : "         ");
            int b = g.n; char *c = gb_sym(&g, 1, " \n\t\v\f\r(", "c0"); free(c); c = gb_sym(&g, sx_choice(L, "len"), "\n", "soname"); free(c); nm[i] = g_strndup(g.b + b, g.n - b);
        } else { from[i] = 0x10 + i; to[i] = 0xabcdef; sym[i] = SYMS_OK; gb_lit(&g, i == 0 ? "0x10" : i == 1 ? "0x11" : "0x12"); gb_lit(&g, " 0xabcdef Yes /lib/x.so"); nm[i] = g_strdup("/lib/x.so"); }
        if (i + 1 < n || last) gb_chr(&g, '\n');
    }
    if (last == 2) gb_lit(&g, "(*): Shared library is missing debugging information.\nNo symbol table is loaded.  Use the \"file\" command.\n");
    t = gb_text(&g); struct sr_gdb_sharedlib *l = sr_gdb_sharedlib_parse(t), *q = l; sx_assert(sr_gdb_sharedlib_count(l) == n, "another number of libraries than rows");
    for (int i = 0; i < n; i++, q = q->next) {
        if (!q) sx_stop();
        sx_assert((q->from == from[i]) & (q->to == to[i]), "a library has another range than its row"); sx_assert(q->symbols == sym[i], "a library has another symbol state than its row"); sx_assert(same(q->soname, nm[i]), "a library has another name than its row"); g_free(nm[i]);
    }
    sx_cover("rows"); libs_free(l);
#elif MODE == 3
    int n = sx_choice(N + 1, "n"); struct sr_gdb_sharedlib *l = NULL, *a[4];
    for (int i = 0; i < n; i++) { a[i] = sr_gdb_sharedlib_new(); a[i]->from = sx_u64("from"); a[i]->to = sx_u64("to"); a[i]->soname = g_strdup("s"); l = sr_gdb_sharedlib_append(l, a[i]); }
    uint64_t x = sx_u64("address"); struct sr_gdb_sharedlib *r = sr_gdb_sharedlib_find_address(l, x); sx_assert(sr_gdb_sharedlib_count(l) == n, "the count is wrong");
    if (x == UINT64_MAX) sx_assert(!r, "the address that means unknown is found");
    else if (r) { bool mine = false; for (int i = 0; i < n; i++) if (a[i] == r) { mine = true; sx_assert((r->from <= x) & (x <= r->to), "the library found does not contain the address"); } sx_assert(mine, "a library that is not listed"); sx_cover("found"); }
    else { for (int i = 0; i < n; i++) sx_assert(!((a[i]->from <= x) & (x <= a[i]->to)), "the library that contains the address is not found"); sx_cover("none"); }
    libs_free(l);
#elif MODE == 4 || MODE == 5
#if MODE == 4
    int k = sx_choice(4, "ctx"); static const char *const pre[] = { "", "0x1+0x2 ", "0x1+0x2 ab@0x3 /f ", "0x1+0x2 ab - - m\n" }; gb_lit(&g, pre[k]); char *w = sx_str_upto(N, "w"); gb_lit(&g, w); free(w); t = gb_text(&g);
#else
    t = sx_disturb("0x4a+0x1f abc@0x4b /l/a /d/a.debug a\n0x5+0x6 - . . b\n", K);
#endif
    struct sr_unstrip_entry *l = sr_unstrip_parse(t); sx_cover(l ? "parsed" : "refused"); for (struct sr_unstrip_entry *q = l; q; q = q->next) sx_assert(q->build_id && q->file_name && q->mod_name, "an entry without a text");
    sr_unstrip_free(l);
#elif MODE == 6
    int n = 1 + sx_choice(N, "rows"); uint64_t st[3], ln[3]; char *id[3], *fl[3], *md[3]; bool bad[3]; int deep = sx_choice(n, "deep"), nl = sx_choice(2, "newline"), b;
    for (int i = 0; i < n; i++) {
        bad[i] = false;
        if (i == deep) {
            int a = sx_choice(4, "digits"); gb_lit(&g, "0x"); st[i] = gb_hex(&g, wd[a], "start"); gb_lit(&g, "+0x"); ln[i] = gb_hex(&g, wd[3 - a], "length"); gb_chr(&g, ' ');
            b = g.n; int h = sx_choice(4, "id"); if (h) { char *c = gb_id(&g, h, "09afAF", "buildid"); free(c); } id[i] = g_strndup(g.b + b, g.n - b); if (!h) gb_chr(&g, '-'); else if (sx_choice(2, "at")) { gb_lit(&g, "@0x"); gb_hex(&g, 2, "at"); } gb_chr(&g, ' ');
            b = g.n; char *c = gb_sym(&g, 1 + sx_choice(L, "len"), " \n\t\v\f\r", "file"); free(c); fl[i] = g_strndup(g.b + b, g.n - b); gb_lit(&g, sx_choice(2, "debug") ? " /d.debug " : "  - ");
            b = g.n; c = gb_sym(&g, 1 + sx_choice(2, "mlen"), " \n\t\v\f\r", "module"); free(c); md[i] = g_strndup(g.b + b, g.n - b);
        } else if (sx_choice(2, "kind")) { bad[i] = true; gb_lit(&g, sx_choice(2, "bad") ? "nothing of that form" : ""); id[i] = fl[i] = md[i] = NULL; }
        else { st[i] = 0x1000; ln[i] = 0x20; gb_lit(&g, "0x1000+0x20 0f1e@0x1234 /usr/lib/z.so - z.so"); id[i] = g_strdup("0f1e"); fl[i] = g_strdup("/usr/lib/z.so"); md[i] = g_strdup("z.so"); }
        if (i + 1 < n || nl) gb_chr(&g, '\n');
    }
    t = gb_text(&g); struct sr_unstrip_entry *l = sr_unstrip_parse(t), *q = l;
    for (int i = 0; i < n; i++) if (!bad[i]) {
        sx_assert(q != NULL, "a row is lost"); if (!q) sx_stop();
        sx_assert((q->start == st[i]) & (q->length == ln[i]), "an entry has another range than its row"); sx_assert(same(q->build_id, id[i]), "an entry has another build id than its row"); sx_assert(same(q->file_name, fl[i]), "an entry has another file than its row"); sx_assert(same(q->mod_name, md[i]), "an entry has another module name than its row"); q = q->next;
    }
    sx_assert(!q, "entries appeared"); sx_cover("rows"); for (int i = 0; i < n; i++) { g_free(id[i]); g_free(fl[i]); g_free(md[i]); } sr_unstrip_free(l);
#else
    int n = sx_choice(N + 1, "n"); struct sr_unstrip_entry *l = NULL, **p = &l, *a[4];
    for (int i = 0; i < n; i++) { a[i] = *p = g_malloc0(sizeof **p); (*p)->start = sx_u64("start"); (*p)->length = sx_u64("length"); (*p)->build_id = g_strdup("a"); p = &(*p)->next; }
    uint64_t x = sx_u64("address"); struct sr_unstrip_entry *r = sr_unstrip_find_address(l, x);
#define IN(e) ((x >= (e)->start) & (x - (e)->start < (e)->length))          /* start <= x < start + length, without overflow */
    if (r) { bool mine = false; for (int i = 0; i < n; i++) if (a[i] == r) { mine = true; sx_assert(IN(r), "the module found does not contain the address"); } sx_assert(mine, "a module that is not listed"); sx_cover("found"); }
    else { for (int i = 0; i < n; i++) sx_assert(!IN(a[i]), "the module that contains the address is not found"); sx_cover("none"); }
    sr_unstrip_free(l);
#endif
    free(t); sx_assert(sx_live_heap() == live, "memory is lost");
}
