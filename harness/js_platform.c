/* JavaScript engines and runtimes (C37). MODE 0: numbers and names, 1: any names, 2: JSON written and loaded, 3: any JSON loaded, 4: parsing through a platform. */
#include "types.h"
#include "json.h"
#include "utils.h"
#include "location.h"
#ifndef K
#define K 1
#endif
#define VE(e) ((e) > 0 && (e) < _SR_JS_ENGINE_UPPER_BOUND)
#define VR(r) ((r) > 0 && (r) < _SR_JS_RUNTIME_UPPER_BOUND)
static char *disturbed(void) { static const char *const base[] = { "V8", "Node.js", "<unknown>", "" }; return sx_disturb(base[sx_choice(4, "base")], K); }
void harness(void)
{
    uint64_t live = sx_live_heap();
#if MODE == 0
    uint32_t e = sx_u32("engine"), r = sx_u32("runtime"); sx_assume(e <= 0xF); sx_assume(r <= 0xFFF); sr_js_platform_t p = sr_js_platform_new(); sr_js_platform_init(p, r, e); sr_js_platform_t q = sr_js_platform_dup(p);
    sx_assert(sr_js_platform_engine(p) == e && sr_js_platform_runtime(p) == r && q == p, "engine or runtime is stored wrongly");
    uint32_t e2 = sx_u32("engine2"), r2 = sx_u32("runtime2"); sx_assume(e2 <= 0xF); sx_assume(r2 <= 0xFFF); sr_js_platform_init(q, r2, e2); sx_assert((p == q) == ((e == e2) & (r == r2)), "two platforms are stored as one");
    const char *en = sr_js_engine_to_string(e), *rn = sr_js_runtime_to_string(r); sx_assert(!!en == !!VE(e), "an engine has no name, or a name without being one"); sx_assert(!!rn == !!VR(r), "a runtime has no name, or a name without being one");
    if (en) sx_assert(sr_js_engine_from_string(en) == e, "the name of an engine means another one"); if (rn) { sx_assert(sr_js_runtime_from_string(rn) == r, "the name of a runtime means another one"); char *err = NULL; sr_js_platform_t z = sr_js_platform_from_string(rn, NULL, &err); sx_assert(!err && sr_js_platform_runtime(z) == r && VE(sr_js_platform_engine(z)), "a known runtime is refused"); }
    if (r == SR_JS_RUNTIME_NODEJS) sx_assert(same(rn, "Node.js"), "Node.js has another name"); if (e == SR_JS_ENGINE_V8) sx_assert(same(en, "V8"), "V8 has another name");
    sx_cover(en && rn ? "both" : en || rn ? "one" : "none");
#elif MODE == 1
    char *s = sx_choice(2, "kind") ? sx_str_upto(N, "name") : disturbed(), *ver = sx_choice(2, "version") ? "v1" : NULL, *err = NULL; unsigned e = 0, r = 0;
    for (unsigned i = 1; i < _SR_JS_ENGINE_UPPER_BOUND; i++) if (same(s, sr_js_engine_to_string(i))) e = i; for (unsigned i = 1; i < _SR_JS_RUNTIME_UPPER_BOUND; i++) if (same(s, sr_js_runtime_to_string(i))) r = i;
    sx_assert(sr_js_engine_from_string(s) == e && sr_js_runtime_from_string(s) == r, "a name is taken for another one");
    sr_js_platform_t p = sr_js_platform_from_string(s, ver, &err); sx_assert(!!p == !!r && !!p == !err, "an unknown runtime is accepted, or refused without a message"); if (p) sx_assert(sr_js_platform_runtime(p) == r && VE(sr_js_platform_engine(p)), "a platform is not that of its runtime"); sx_cover(p ? "known" : "unknown"); g_free(err); free(s);
#elif MODE == 2
    unsigned e = sx_choice(_SR_JS_ENGINE_UPPER_BOUND + 2, "engine"), r = sx_choice(_SR_JS_RUNTIME_UPPER_BOUND + 2, "runtime"); if (e == _SR_JS_ENGINE_UPPER_BOUND + 1) e = _SR_JS_ENGINE_UNINIT; if (r == _SR_JS_RUNTIME_UPPER_BOUND + 1) r = _SR_JS_RUNTIME_UNINIT;
    sr_js_platform_t p = sr_js_platform_new(), q; sr_js_platform_init(p, r, e); char *j = sr_js_platform_to_json(p), *err = NULL; enum json_tokener_error je; json_object *o = json_tokener_parse_verbose(j, &je); sx_assert(o != NULL, "not well-formed"); if (!o) sx_stop();
    q = sr_js_platform_from_json(o, &err); sx_assert(!err, "its own JSON is refused"); sx_assert(sr_js_platform_engine(q) == (VE(e) ? e : 0) && sr_js_platform_runtime(q) == (VR(r) ? r : 0), "engine or runtime are lost or swapped in JSON"); json_object_put(o); g_free(err);
    /* the same inside a stacktrace */
    struct sr_js_stacktrace *s = sr_js_stacktrace_new(); s->exception_name = g_strdup("E"); sr_js_platform_init(s->platform, r, e); s->frames = sr_js_frame_new(); s->frames->file_name = g_strdup("f"); char *sj = sr_js_stacktrace_to_json(s); o = json_tokener_parse_verbose(sj, &je); sx_assert(o != NULL, "not well-formed"); if (!o) sx_stop();
    struct sr_js_stacktrace *t = sr_js_stacktrace_from_json(o, &err); sx_assert(t && !err, "a stacktrace's own JSON is refused"); if (t) { sx_assert(sr_js_platform_engine(t->platform) == (VE(e) ? e : 0) && sr_js_platform_runtime(t->platform) == (VR(r) ? r : 0), "engine or runtime are lost in a stacktrace's JSON"); sr_js_stacktrace_free(t); }
    json_object_put(o); g_free(sj); sr_js_stacktrace_free(s); g_free(j); sx_cover(q ? "known" : "unknown");
#elif MODE == 3
    static const char *const v[] = { "V8", "Node.js", "<unknown>" }; json_object *o = json_object_new_object(); char *n[2] = { 0 }, *err = NULL; int deep = sx_choice(2, "deep");
    for (int i = 0; i < 2; i++) {
        int c = sx_choice(6, "value"); const char *k = i ? "runtime" : "engine";
        if (c < 3) n[i] = g_strdup(v[c]); else if (c == 3) { if (i == deep) { char *x = disturbed(); n[i] = g_strdup(x); free(x); } else n[i] = g_strdup("Chakra"); } else if (c == 4) { json_object_object_add(o, k, json_object_new_int(1)); continue; }
        if (n[i]) json_object_object_add(o, k, json_object_new_string(n[i]));
    }
    int have = sx_choice(2, "wanterr"); sr_js_platform_t p = sr_js_platform_from_json(o, have ? &err : NULL); unsigned e = n[0] ? sr_js_engine_from_string(n[0]) : 0, r = n[1] ? sr_js_runtime_from_string(n[1]) : 0;
    bool ok = n[0] && n[1] && (e || same(n[0], "<unknown>")) && (r || same(n[1], "<unknown>"));
    if (ok) { sx_assert(!err && sr_js_platform_engine(p) == e && sr_js_platform_runtime(p) == r, "a platform is loaded wrongly"); sx_cover("loaded"); } else { sx_assert(p == SR_JS_PLATFORM_NULL && (!have || err), "an unknown or missing name is accepted, or refused without a message"); sx_cover("refused"); }
    g_free(err); g_free(n[0]); g_free(n[1]); json_object_put(o);
#else
    static const char *const txt[] = { "Error: x\n    at f (/a.js:1:2)\n    at /b.js:3:4\n", "    at f (/a.js:1:2)", "Error: x\n" }; int w = sx_choice(3, "text"); char *t = sx_choice(2, "dist") ? sx_disturb(txt[w], K) : g_strdup(txt[w]); const char *a = t, *b = t; struct sr_location la, lb; sr_location_init(&la); sr_location_init(&lb);
    unsigned e = sx_choice(3, "engine"), r = sx_choice(3, "runtime"); if (e == 2) e = 0xF; if (r == 2) r = 0xFFF; sr_js_platform_t p = sr_js_platform_new(); sr_js_platform_init(p, r, e); bool valid = VE(e) && VR(r);
    if (w != 1) {
        struct sr_js_stacktrace *x = sr_js_platform_parse_stacktrace(p, &a, &la), *y = sr_js_stacktrace_parse_v8(&b, &lb);
        if (!valid) sx_assert(!x && a == t, "an unknown platform parses"); else { sx_assert(!x == !y && a == b, "parsing through the platform differs"); if (x && y) { sx_assert(x->platform == p, "the platform is not recorded"); sx_assert(same(x->exception_name, y->exception_name), "another exception"); struct sr_js_frame *f = x->frames, *g = y->frames; for (; f && g; f = f->next, g = g->next) sx_assert(!sr_js_frame_cmp(f, g), "another frame"); sx_assert(!f && !g, "another number of frames"); sx_cover("parsed"); } }
        sr_js_stacktrace_free(x); sr_js_stacktrace_free(y);
    } else {
        struct sr_js_frame *x = sr_js_platform_parse_frame(p, &a, &la), *y = sr_js_frame_parse_v8(&b, &lb);
        if (!valid) sx_assert(!x && a == t, "an unknown platform parses"); else { sx_assert(!x == !y && a == b, "parsing through the platform differs"); if (x && y) { sx_assert(!sr_js_frame_cmp(x, y), "another frame"); sx_cover("frame"); } }
        sr_js_frame_free(x); sr_js_frame_free(y);
    }
    g_free(t);
#endif
    sx_assert(sx_live_heap() == live, "memory is lost");
}
