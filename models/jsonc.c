/* json-c 0.17 model: parser (default, non-strict mode) and read accessors. */
#include <json.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <limits.h>
#include "fmt.h"
#include "sx.h"
#undef json_object_get_type
struct json_object { int type; int ref; bool b; bool isu; uint64_t i; double d; char *s; size_t slen; size_t n, cap; struct json_object **a; struct lh_table t; };
typedef struct json_object J;
static J *mk(int t) { J *o = malloc(sizeof *o); memset(o, 0, sizeof *o); o->type = t; o->ref = 1; return o; }
struct json_object *json_object_get(J *o) { if (o) o->ref++; return o; }
int json_object_put(J *o)
{
    if (!o) return 0; if (--o->ref > 0) return 0;
    free(o->s); for (size_t i = 0; i < o->n; i++) json_object_put(o->a[i]); free(o->a);
    for (struct lh_entry *e = o->t.head; e;) { struct lh_entry *n = e->next; free((void *)e->k); json_object_put((J *)e->v); free(e); e = n; }
    free(o); return 1;
}
static void addmember(J *o, char *k, J *v)
{
    for (struct lh_entry *e = o->t.head; e; e = e->next) if (!strcmp(e->k, k)) { json_object_put((J *)e->v); e->v = v; free(k); return; }
    struct lh_entry *e = malloc(sizeof *e); e->k = k; e->v = v; e->k_is_constant = 0; e->next = NULL; e->prev = o->t.tail; if (o->t.tail) o->t.tail->next = e; else o->t.head = e; o->t.tail = e; o->t.count++;
}
static void additem(J *o, J *v) { if (o->n == o->cap) { o->cap = o->cap ? o->cap * 2 : 4; o->a = realloc(o->a, o->cap * sizeof *o->a); } o->a[o->n++] = v; }
enum json_type json_object_get_type(const J *o) { return o ? o->type : json_type_null; }
int json_object_is_type(const J *o, enum json_type t) { return o ? o->type == (int)t : t == json_type_null; }
const char *json_type_to_name(enum json_type t) { static const char *const n[] = {"null", "boolean", "double", "int", "object", "array", "string"}; return t <= json_type_string ? n[t] : "?"; }
json_bool json_object_object_get_ex(const J *o, const char *k, J **v)
{
    if (v) *v = NULL; if (!o || o->type != json_type_object) return 0;
    for (struct lh_entry *e = o->t.head; e; e = e->next) if (!strcmp(e->k, k)) { if (v) *v = (J *)e->v; return 1; }
    return 0;
}
J *json_object_object_get(const J *o, const char *k) { J *v; return json_object_object_get_ex(o, k, &v) ? v : NULL; }
struct lh_table *json_object_get_object(const J *o) { return o && o->type == json_type_object ? (struct lh_table *)&o->t : NULL; }
int json_object_object_length(const J *o) { return o->t.count; }
size_t json_object_array_length(const J *o) { return o->n; }
J *json_object_array_get_idx(const J *o, size_t i) { return i < o->n ? o->a[i] : NULL; }
struct array_list *json_object_get_array(const J *o) { return NULL; }
json_bool json_object_get_boolean(const J *o) { if (!o) return 0; switch (o->type) { case json_type_boolean: return o->b; case json_type_int: return o->i != 0; case json_type_double: return o->d != 0; case json_type_string: return o->slen != 0; default: return 0; } }
int64_t json_object_get_int64(const J *o) { if (!o) return 0; if (o->type == json_type_int) { if (o->isu) return o->i > INT64_MAX ? INT64_MAX : (int64_t)o->i; return (int64_t)o->i; } if (o->type == json_type_boolean) return o->b; if (o->type == json_type_string) return strtoll(o->s, NULL, 10); return 0; }
uint64_t json_object_get_uint64(const J *o) { if (!o) return 0; if (o->type == json_type_int) { if (o->isu) return o->i; return (int64_t)o->i < 0 ? 0 : o->i; } if (o->type == json_type_boolean) return o->b; if (o->type == json_type_string) return strtoull(o->s, NULL, 10); return 0; }
int32_t json_object_get_int(const J *o) { int64_t v = json_object_get_int64(o); return v <= INT32_MIN ? INT32_MIN : v >= INT32_MAX ? INT32_MAX : (int32_t)v; }
double json_object_get_double(const J *o) { return o && o->type == json_type_double ? o->d : o && o->type == json_type_int ? (double)(int64_t)o->i : 0; }
int json_object_get_string_len(const J *o) { return o && o->type == json_type_string ? (int)o->slen : 0; }
const char *json_object_get_string(J *o) { if (!o) return NULL; if (o->type == json_type_string) return o->s; return "{json}"; }

struct ps { const char *p; enum json_tokener_error err; };
static void ws(struct ps *s)
{
    for (;;) {
        while (*s->p == ' ' || *s->p == '\t' || *s->p == '\n' || *s->p == '\r' || *s->p == '\f' || *s->p == '\v') s->p++;
        if (*s->p == '/' && s->p[1] == '*') { const char *e = strstr(s->p + 2, "*/"); if (!e) { s->p += strlen(s->p); return; } s->p = e + 2; continue; }
        if (*s->p == '/' && s->p[1] == '/') { while (*s->p && *s->p != '\n') s->p++; continue; }
        return;
    }
}
static J *fail(struct ps *s, enum json_tokener_error e) { if (s->err == json_tokener_success) s->err = *s->p ? e : json_tokener_continue; return NULL; }
static int hexv(char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }
static char *str(struct ps *s, size_t *len)
{
    char q = *s->p++; struct fmtbuf b; fb_init(&b);
    for (;;) {
        char c = *s->p;
        if (c == q) { s->p++; *len = b.len; return b.p; }
        if (c == 0) { fail(s, json_tokener_error_parse_string); free(b.p); return NULL; }
        if (c != '\\') { fb_put(&b, &c, 1); s->p++; continue; }
        c = *++s->p; char o;
        switch (c) {
        case '"': case '\\': case '/': o = c; break; case 'b': o = '\b'; break; case 'n': o = '\n'; break; case 'r': o = '\r'; break; case 't': o = '\t'; break; case 'f': o = '\f'; break;
        case 'u': { unsigned v = 0; for (int k = 1; k <= 4; k++) { int h = hexv(s->p[k]); if (h < 0) { s->p += k; fail(s, json_tokener_error_parse_string); free(b.p); return NULL; } v = v << 4 | h; } s->p += 5; char u[3];
            if (v < 0x80) { u[0] = v; fb_put(&b, u, 1); } else if (v < 0x800) { u[0] = 0xc0 | v >> 6; u[1] = 0x80 | (v & 63); fb_put(&b, u, 2); } else if (v >= 0xd800 && v <= 0xdfff) { fb_put(&b, "\xef\xbf\xbd", 3); } else { u[0] = 0xe0 | v >> 12; u[1] = 0x80 | (v >> 6 & 63); u[2] = 0x80 | (v & 63); fb_put(&b, u, 3); } continue; }
        default: fail(s, json_tokener_error_parse_string); free(b.p); return NULL;
        }
        fb_put(&b, &o, 1); s->p++;
    }
}
static J *val(struct ps *s, int depth)
{
    ws(s); char c = *s->p;
    if (depth > 32) return fail(s, json_tokener_error_depth);
    if (c == '{') {
        J *o = mk(json_type_object); s->p++;
        for (;;) {
            ws(s); if (*s->p == '}') { s->p++; return o; }
            if (*s->p != '"' && *s->p != '\'') { fail(s, json_tokener_error_parse_object_key_name); break; }
            size_t n; char *k = str(s, &n); if (!k) break; ws(s);
            if (*s->p != ':') { fail(s, json_tokener_error_parse_object_key_sep); free(k); break; }
            s->p++; J *v = val(s, depth + 1); if (s->err) { free(k); break; } addmember(o, k, v); ws(s);
            if (*s->p == ',') { s->p++; continue; } if (*s->p == '}') continue; fail(s, json_tokener_error_parse_object_value_sep); break;
        }
        json_object_put(o); return NULL;
    }
    if (c == '[') {
        J *o = mk(json_type_array); s->p++;
        for (;;) {
            ws(s); if (*s->p == ']') { s->p++; return o; }
            J *v = val(s, depth + 1); if (s->err) break; additem(o, v); ws(s);
            if (*s->p == ',') { s->p++; continue; } if (*s->p == ']') continue; fail(s, json_tokener_error_parse_array); break;
        }
        json_object_put(o); return NULL;
    }
    if (c == '"' || c == '\'') { size_t n; char *t = str(s, &n); if (!t) return NULL; J *o = mk(json_type_string); o->s = t; o->slen = n; return o; }
    if (!strncmp(s->p, "null", 4)) { s->p += 4; return NULL; }
    if (!strncmp(s->p, "true", 4)) { s->p += 4; J *o = mk(json_type_boolean); o->b = true; return o; }
    if (!strncmp(s->p, "false", 5)) { s->p += 5; return mk(json_type_boolean); }
    if (c == '-' || (c >= '0' && c <= '9')) {
        bool neg = c == '-', over = false; const char *q = s->p + neg; uint64_t v = 0; int nd = 0;
        { const char *e = q; while (*e >= '0' && *e <= '9') e++; if (e > q && sx_is_symbolic(*q) && fb_undec(q, e - q, &v)) { nd = e - q; q = e; } }
        for (; *q >= '0' && *q <= '9'; q++) { unsigned d = *q - '0'; nd++; if (nd >= 19 && (v > UINT64_MAX / 10 || v * 10 > UINT64_MAX - d)) over = true; v = v * 10 + d; }
        if (!nd) { return fail(s, json_tokener_error_parse_number); }
        if (*q == '.' || *q == 'e' || *q == 'E') { while ((*q >= '0' && *q <= '9') || *q == '.' || *q == 'e' || *q == 'E' || *q == '-' || *q == '+') q++; s->p = q; J *o = mk(json_type_double); o->d = 0.5; return o; }
        s->p = q; J *o = mk(json_type_int);
        if (neg) { o->i = over || v > (uint64_t)1 << 63 ? (uint64_t)INT64_MIN : -v; } else { o->isu = true; o->i = over ? UINT64_MAX : v; }
        return o;
    }
    return fail(s, json_tokener_error_parse_unexpected);
}
J *json_tokener_parse_verbose(const char *t, enum json_tokener_error *e)
{
    struct ps s = { t, json_tokener_success }; J *o = val(&s, 0); *e = s.err;
    return s.err ? NULL : o;
}
J *json_tokener_parse(const char *t) { enum json_tokener_error e; return json_tokener_parse_verbose(t, &e); }
const char *json_tokener_error_desc(enum json_tokener_error e) { return "json error"; }
J *json_object_new_object(void) { return mk(json_type_object); }
J *json_object_new_array(void) { return mk(json_type_array); }
J *json_object_new_int(int32_t v) { J *o = mk(json_type_int); o->i = (int64_t)v; return o; }
J *json_object_new_int64(int64_t v) { J *o = mk(json_type_int); o->i = v; return o; }
J *json_object_new_boolean(json_bool v) { J *o = mk(json_type_boolean); o->b = v != 0; return o; }
J *json_object_new_string(const char *s) { J *o = mk(json_type_string); o->slen = strlen(s); o->s = malloc(o->slen + 1); memcpy(o->s, s, o->slen + 1); return o; }
int json_object_object_add(J *o, const char *k, J *v) { size_t n = strlen(k) + 1; char *c = malloc(n); memcpy(c, k, n); addmember(o, c, v); return 0; }
int json_object_array_add(J *o, J *v) { additem(o, v); return 0; }
