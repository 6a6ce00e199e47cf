/* JSON of stacktraces: C14 well-formed text (MODE 0), C15 round trip (MODE 1: strings, 2: numbers), C16 ill-typed documents (3), arbitrary text (4). */
#include "types.h"
#include <json.h>
#include "rfc8259.h"
/* what the JSON form carries: bring fields that mean nothing on their own to what loading gives */
static void canon_frame(FR *f)
{
#if T == 0
    if (!f->fingerprint) f->fingerprint_hashed = true;
#elif T == 3
    if (!f->file_name) f->special_file = false; if (!f->function_name) f->special_function = false;
#elif T == 4
    if (!f->file_name) f->file_line = 0;
#elif T == 5
    if (!f->function_name) f->special_function = false;
#endif
}
static void canon(ST *s)
{
#if MT
    for (TH *t = s->threads; t; t = t->next) {
        for (FR *f = t->frames; f; f = f->next) canon_frame(f);
#if T == 0
        t->id = 0; if (!s->crash_thread) s->crash_thread = s->threads;
#endif
    }
#else
    for (FR *f = s->frames; f; f = f->next) canon_frame(f);
#endif
#if T == 2
    g_free(s->reason); s->reason = NULL;
#endif
}
static ST *load(const char *text)
{
    char *err = NULL; ST *r = (ST *)sr_stacktrace_from_json_text(RT, text, &err);
    if (!r) { sx_assert(err != NULL, "loading fails without an error message"); g_free(err); }
    return r;
}
#if MODE <= 2
static ST *build(void)
{
#if MODE == 0 || MODE == 1
    /* one string arbitrary: of a frame, or of the whole stacktrace; the others present or absent */
    int which = sx_choice(2, "where"); const char *k = sx_choice(2, "rest") ? "k" : NULL; unsigned deep = which ? 0 : 1u << strno(sx_choice(nstr(), "str"));
    int nt = which ? sx_choice(3, "threads") : 1, nf = which ? sx_choice(3, "frames") : 1;
    ST *s = SF(new)();
    TH *t;
#if MT
    for (int i = 0; i < nt; i++) { t = TF(new)(); s->threads = TF(append)(s->threads, t);
#if T == 4
        t->name = which && i == 0 ? opt_str(L, "tname") : NULL;
#endif
#else
    t = s; {
#endif
        for (int j = 0; j < nf; j++) { FR *f = FF(new)(); for (int i = 0; i < NF; i++) if (fds[i].k == F_STR) *strp(f, i) = deep >> i & 1 ? opt_str(L, "s") : g_strdup(k); else if (fds[i].k == F_BOOL && !which) symi(f, i); t->frames = FF(append)(t->frames, f); }
    }
    if (which) sym_st_attr(s, L);
#if T == 0
    s->signal = 11;
#elif T == 2
    int ta = sx_choice(which ? NTAINT + 1 : 1, "taint1"); for (int i = 0; i < NTAINT; i++) *taintp(s, i) = i + 1 == ta;
#endif
#else
    ST *s = sym_st(1, 1, 0, 0, sx_choice(2, "rest") ? "k" : NULL);
    int keep = sx_choice(NF + 1, "num"); FR *f = sr_stacktrace_threads(GS(s)) ? (FR *)sr_thread_frames(sr_stacktrace_threads(GS(s))) : NULL;
    for (int i = 0; f && i < NF; i++) if (i != keep && fds[i].k != F_STR) seti(f, i, 0);
#if T == 0
    s->signal = keep == NF ? sx_u16("signal") : 11;
#elif T == 2
    int ta = sx_choice(keep == NF ? NTAINT + 1 : 1, "taint1"), tb = sx_choice(keep == NF ? 2 : 1, "taint2"); for (int i = 0; i < NTAINT; i++) *taintp(s, i) = (i + 1 == ta) != tb;
#endif
#endif
    return s;
}
#endif
#if MODE >= 3
/* members a document of this type may have, and the type each must be of */
enum { V_NULL, V_BOOL, V_INT, V_NEG, V_BIG, V_DBL, V_STR, V_ESTR, V_ARR, V_OBJ, V_ANUL, V_AINT, V_ASTR, V_AOBJ, V_AMIX, NV };
static const char *const vals[NV] = { "null", "true", "7", "-3", "99999999999999999999", "1.5", "\"x\"", "\"\"", "[]", "{}", "[null]", "[1]", "[\"NO\"]", "[{}]", "[\"a\",1]" };
enum { M_STR, M_NUM, M_BOOL, M_AOBJ, M_ASTR, M_OBJ, M_NONE };
static const char okv[7][NV] = {
    { 0,0,0,0,0,0,1,1,0,0,0,0,0,0,0 }, { 0,0,1,1,1,0,0,0,0,0,0,0,0,0,0 }, { 0,1,0,0,0,0,0,0,0,0,0,0,0,0,0 }, { 0,0,0,0,0,0,0,0,1,0,0,0,0,1,0 },
    { 0,0,0,0,0,0,0,0,1,0,0,0,1,0,0 }, { 0 }, { 1,1,1,1,1,1,1,1,1,1,1,1,1,1,1 } };
struct mem { int at; const char *key; int m; };     /* at: 0 stacktrace, 1 thread, 2 frame, 3 platform */
static const struct mem mems[] = {
#if T == 0
    {0,"signal",M_NUM},{0,"executable",M_STR},{0,"only_crash_thread",M_BOOL},{0,"stacktrace",M_AOBJ},{1,"frames",M_AOBJ},{1,"crash_thread",M_BOOL},
    {2,"address",M_NUM},{2,"build_id",M_STR},{2,"build_id_offset",M_NUM},{2,"function_name",M_STR},{2,"file_name",M_STR},{2,"fingerprint",M_STR},{2,"fingerprint_hashed",M_BOOL},
#elif T == 2
    {0,"version",M_STR},{0,"raw_oops",M_STR},{0,"taint_flags",M_ASTR},{0,"modules",M_ASTR},{0,"frames",M_AOBJ},
    {2,"address",M_NUM},{2,"reliable",M_BOOL},{2,"function_name",M_STR},{2,"function_offset",M_NUM},{2,"function_length",M_NUM},{2,"module_name",M_STR},{2,"from_address",M_NUM},{2,"from_function_name",M_STR},{2,"from_function_offset",M_NUM},{2,"from_function_length",M_NUM},{2,"from_module_name",M_STR},{2,"special_stack",M_STR},
#elif T == 3
    {0,"exception_name",M_STR},{0,"stacktrace",M_AOBJ},{2,"file_name",M_STR},{2,"special_file",M_STR},{2,"function_name",M_STR},{2,"special_function",M_STR},{2,"line_contents",M_STR},{2,"file_line",M_NUM},
#elif T == 4
    {0,"threads",M_AOBJ},{1,"name",M_STR},{1,"frames",M_AOBJ},{2,"name",M_STR},{2,"file_name",M_STR},{2,"file_line",M_NUM},{2,"class_path",M_STR},{2,"is_native",M_BOOL},{2,"is_exception",M_BOOL},{2,"message",M_STR},
#elif T == 5
    {0,"exception_name",M_STR},{0,"stacktrace",M_AOBJ},{2,"file_name",M_STR},{2,"function_name",M_STR},{2,"special_function",M_STR},{2,"file_line",M_NUM},{2,"block_level",M_NUM},{2,"rescue_level",M_NUM},
#elif T == 6
    {0,"exception_name",M_STR},{0,"stacktrace",M_AOBJ},{0,"platform",M_OBJ},{3,"engine",M_STR},{3,"runtime",M_STR},{2,"file_name",M_STR},{2,"function_name",M_STR},{2,"file_line",M_NUM},{2,"line_column",M_NUM},
#endif
    {0,"other",M_NONE},{2,"other",M_NONE} };
#define NM ((int)(sizeof mems / sizeof *mems))
#if T == 0
#define OPEN_TH "{\"stacktrace\":["
#define OPEN_FR "{\"stacktrace\":[{\"frames\":["
#define CLOSE_TH "]}"
#define CLOSE_FR "]}]}"
#elif T == 4
#define OPEN_TH "{\"threads\":["
#define OPEN_FR "{\"threads\":[{\"frames\":["
#define CLOSE_TH "]}"
#define CLOSE_FR "]}]}"
#elif T == 2
#define OPEN_FR "{\"frames\":["
#define CLOSE_FR "]}"
#else
#define OPEN_FR "{\"stacktrace\":["
#define CLOSE_FR "]}"
#endif
#ifndef OPEN_TH
#define OPEN_TH ""
#define CLOSE_TH ""
#endif
static void use(ST *s)
{
    char *j = sr_stacktrace_to_json(GS(s)); const char *e = rfc_value(j, NULL, 0); sx_assert(e && *rfc_ws(e) == 0, "a loaded object is written as malformed JSON");
    g_free(j);
    for (struct sr_thread *t = sr_stacktrace_threads(GS(s)); t; t = sr_thread_next(t)) for (struct sr_frame *f = sr_thread_frames(t); f; f = sr_frame_next(f)) {
#if T == 5
        if (((FR *)f)->rescue_level > 100 || ((FR *)f)->block_level > 100) continue;   /* the rendering is that long */
#endif
        GString *b = g_string_new(NULL); sr_frame_append_to_str(f, b); g_string_free(b, TRUE); }
    sr_stacktrace_free(GS(s));
}
#endif
void harness(void)
{
    uint64_t live = sx_live_heap();
#if MODE == 0
    ST *s = build(); char *j = sr_stacktrace_to_json(GS(s));
    struct strs v = { 0 }; const char *e = rfc_value(j, &v, 0);
    sx_assert(e != NULL, "the text written is not well-formed JSON"); if (!e) { sx_obs_s("j", j); sx_stop(); }
    sx_assert(*rfc_ws(e) == 0, "text follows the JSON value");
    struct sr_thread *t = sr_stacktrace_threads(GS(s)); FR *f = t ? (FR *)sr_thread_frames(t) : NULL;
    for (int i = 0; f && i < NF; i++) if (fds[i].k == F_STR && *strp(f, i)) sx_assert(strs_has(&v, *strp(f, i)), "a string does not decode to the original bytes");
    strs_free(&v); g_free(j); SF(free)(s); sx_cover("wellformed");
#elif MODE <= 2
    ST *s = build(); char *j = sr_stacktrace_to_json(GS(s)); 
    ST *r = load(j); sx_assert(r != NULL, "the JSON written is refused when loaded"); if (!r) sx_stop();
    char *j2 = sr_stacktrace_to_json(GS(r)); sx_assert(same(j, j2), "writing the loaded stacktrace gives other JSON");
    canon(s); sx_assert(st_same(s, r), "the loaded stacktrace differs");
    g_free(j2); g_free(j); SF(free)(s); SF(free)(r); sx_cover("roundtrip");
#elif MODE == 3
    struct gb g; gb_init(&g); int root = sx_choice(10, "root"); bool ok = false;
    if (root == 0) { int v = sx_choice(NV, "val"); gb_lit(&g, vals[v]); ok = v == V_OBJ; if (v == V_NULL) ok = false; }
    else {
        int m = sx_choice(NM, "mem"), v = sx_choice(NV, "val"), n = root % 3; const struct mem *e = &mems[m]; ok = okv[e->m][v];
        gb_lit(&g, e->at == 2 ? OPEN_FR : e->at == 1 ? OPEN_TH : e->at == 3 ? "{\"platform\":" : "");
        sx_assume(root <= 3);   /* 1: alone, 2: after a good element, 3: before one */
        bool list = e->at == 1 || e->at == 2; if (!list) sx_assume(root == 1);
        if (root == 2) gb_lit(&g, "{},");
        gb_lit(&g, "{\""); gb_lit(&g, e->key); gb_lit(&g, "\":"); gb_lit(&g, vals[v]);
        if (e->at == 3) { gb_lit(&g, e->key[0] == 'e' ? ",\"runtime\":\"Node.js\"" : ",\"engine\":\"V8\""); ok = false; }
        gb_lit(&g, "}"); if (root == 3) gb_lit(&g, ",{}"); (void)n;
        gb_lit(&g, e->at == 2 ? CLOSE_FR : e->at == 1 ? CLOSE_TH : e->at == 3 ? "}" : "");
#if T == 6
        if (e->m == M_OBJ) ok = false;
#endif
    }
    char *d = gb_text(&g); char *err = NULL; bool noerr = sx_choice(2, "noerr");
    ST *s = (ST *)sr_stacktrace_from_json_text(RT, d, noerr ? NULL : &err);
    sx_assert(!!s == ok, s ? "a member of the wrong type is accepted" : "a document of the right form is refused");
    if (!s && !noerr) { sx_assert(err != NULL, "loading fails without an error message"); }
    if (s) sx_assert(err == NULL, "loading succeeds with an error message");
    g_free(err); sx_cover(s ? "loaded" : "refused"); sx_obs_i("ok", !!s); if (s) use(s); free(d);
#else
    static const char *pre[] = { "", "{\"", "{\"stacktrace\":[", "{\"signal\":", "{\"frames\":[{\"", "{\"exception_name\":\"" };
    struct gb g; gb_init(&g); gb_lit(&g, pre[sx_choice(6, "pre")]); char *tx = sx_str_upto(L, "t"); gb_lit(&g, tx); free(tx); char *d = gb_text(&g);
    ST *s = load(d); if (s) { use(s); sx_cover("loaded"); } else sx_cover("refused"); free(d); sx_obs_i("ok", !!s);
#endif
    sx_assert(sx_live_heap() == live, "memory is lost");
}
