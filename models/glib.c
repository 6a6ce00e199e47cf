/* glib model (the functions satyr uses plus close relatives a refactoring might use). */
#include <glib.h>
#include <stdarg.h>
#include <string.h>
#include <stdlib.h>
#include "fmt.h"
#include "sx.h"
#undef g_free
#undef g_strdup
#undef g_string_append_c
#undef g_string_append
#undef g_string_append_len
#undef g_string_free
#undef g_strstrip
#undef g_string_truncate
gpointer g_malloc(gsize n) { return n ? malloc(n) : NULL; }
gpointer g_malloc0(gsize n) { return n ? calloc(1, n) : NULL; }
gpointer g_realloc(gpointer p, gsize n) { if (!n) { free(p); return NULL; } return realloc(p, n); }
gpointer g_try_malloc(gsize n) { return g_malloc(n); }
gpointer g_try_malloc0(gsize n) { return g_malloc0(n); }
gpointer g_try_realloc(gpointer p, gsize n) { return g_realloc(p, n); }
static gsize mulchk(gsize a, gsize b) { if (b && a > G_MAXSIZE / b) abort(); return a * b; }
gpointer g_malloc_n(gsize a, gsize b) { return g_malloc(mulchk(a, b)); }
gpointer g_malloc0_n(gsize a, gsize b) { return g_malloc0(mulchk(a, b)); }
gpointer g_realloc_n(gpointer p, gsize a, gsize b) { return g_realloc(p, mulchk(a, b)); }
void g_free(gpointer p) { free(p); }
void g_free_sized(gpointer p, size_t n) { free(p); }
void g_clear_pointer_(gpointer *p, GDestroyNotify d) { gpointer q = *p; if (q) { *p = NULL; d(q); } }
gpointer g_memdup2(gconstpointer p, gsize n) { if (!p || !n) return NULL; gpointer q = malloc(n); memcpy(q, p, n); return q; }
gpointer g_memdup(gconstpointer p, guint n) { return g_memdup2(p, n); }
gchar *g_strdup(const gchar *s) { if (!s) return NULL; gsize n = strlen(s) + 1; char *p = malloc(n); memcpy(p, s, n); return p; }
gchar *g_strndup(const gchar *s, gsize n)
{   /* strncpy semantics into n+1 zeroed bytes */
    if (!s) return NULL; char *p = malloc(n + 1); gsize i = 0; while (i < n && s[i]) { p[i] = s[i]; i++; } for (; i < n + 1; i++) p[i] = 0; return p;
}
gchar *g_strnfill(gsize n, gchar c) { char *p = malloc(n + 1); memset(p, c, n); p[n] = 0; return p; }
gchar **g_strdupv(gchar **v) { if (!v) return NULL; gsize n = 0; while (v[n]) n++; gchar **r = malloc((n + 1) * sizeof *r); for (gsize i = 0; i < n; i++) r[i] = g_strdup(v[i]); r[n] = NULL; return r; }
void g_strfreev(gchar **v) { if (!v) return; for (gsize i = 0; v[i]; i++) free(v[i]); free(v); }
guint g_strv_length(gchar **v) { guint n = 0; while (v[n]) n++; return n; }
gboolean g_strv_contains(const gchar *const *v, const gchar *s) { for (; *v; v++) if (!strcmp(*v, s)) return TRUE; return FALSE; }
int g_strcmp0(const char *a, const char *b) { if (!a) return -(a != b); if (!b) return a != b; return strcmp(a, b); }
gboolean g_str_equal_(gconstpointer a, gconstpointer b) { return strcmp(a, b) == 0; }
gboolean (g_str_equal)(gconstpointer a, gconstpointer b) { return strcmp(a, b) == 0; }
gboolean (g_str_has_prefix)(const gchar *s, const gchar *p) { return strncmp(s, p, strlen(p)) == 0; }
gboolean (g_str_has_suffix)(const gchar *s, const gchar *p) { gsize a = strlen(s), b = strlen(p); return a >= b && strcmp(s + a - b, p) == 0; }
gchar *g_stpcpy(gchar *d, const char *s) { gsize n = strlen(s); memcpy(d, s, n + 1); return d + n; }
gchar *g_strchug(gchar *s) { gsize i = 0; while (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13)) i++; memmove(s, s + i, strlen(s + i) + 1); return s; }
gchar *g_strchomp(gchar *s) { gsize n = strlen(s); while (n && (s[n - 1] == ' ' || (s[n - 1] >= 9 && s[n - 1] <= 13))) s[--n] = 0; return s; }
gchar *g_strstr_len(const gchar *h, gssize n, const gchar *x) { if (n < 0) return strstr(h, x); gsize k = strlen(x); for (gssize i = 0; i + (gssize)k <= n && h[i]; i++) if (!strncmp(h + i, x, k)) return (gchar *)h + i; return NULL; }
gchar *g_strrstr(const gchar *h, const gchar *x) { gsize n = strlen(h), k = strlen(x); if (!k) return (gchar *)h; for (gsize i = n + 1; i-- > 0;) if (i + k <= n && !strncmp(h + i, x, k)) return (gchar *)h + i; return NULL; }
gchar *g_strvconcat_(const gchar *sep, const gchar *first, va_list ap) { struct fmtbuf b; fb_init(&b); gboolean f = TRUE; for (const gchar *s = first; s; s = va_arg(ap, const gchar *)) { if (!f && sep) fb_put(&b, sep, strlen(sep)); fb_put(&b, s, strlen(s)); f = FALSE; } return b.p; }
gchar *g_strconcat(const gchar *a, ...) { if (!a) return NULL; va_list ap; va_start(ap, a); gchar *r = g_strvconcat_(NULL, a, ap); va_end(ap); return r; }
gchar *g_strjoin(const gchar *sep, ...) { va_list ap; va_start(ap, sep); const gchar *f = va_arg(ap, const gchar *); gchar *r = f ? g_strvconcat_(sep, f, ap) : g_strdup(""); va_end(ap); return r; }
gchar *g_strjoinv(const gchar *sep, gchar **v) { struct fmtbuf b; fb_init(&b); for (gsize i = 0; v[i]; i++) { if (i && sep) fb_put(&b, sep, strlen(sep)); fb_put(&b, v[i], strlen(v[i])); } return b.p; }
gchar **g_strsplit(const gchar *s, const gchar *d, gint max)
{
    gsize k = strlen(d), n = 0, cap = 8; gchar **r = malloc(cap * sizeof *r);
    if (*s) while (1) { if (n + 2 >= cap) { cap *= 2; r = realloc(r, cap * sizeof *r); } const gchar *e = max > 0 && (gint)n + 1 >= max ? NULL : strstr(s, d); if (!e) { r[n++] = g_strdup(s); break; } r[n++] = g_strndup(s, e - s); s = e + k; }
    r[n] = NULL; return r;
}
gchar *g_strdup_vprintf(const gchar *f, va_list ap) { struct fmtbuf b; fb_init(&b); fb_vfmt(&b, f, ap); return b.p; }
gchar *g_strdup_printf(const gchar *f, ...) { va_list ap; va_start(ap, f); gchar *r = g_strdup_vprintf(f, ap); va_end(ap); return r; }
gint g_snprintf(gchar *d, gulong n, const gchar *f, ...) { struct fmtbuf b; va_list ap; va_start(ap, f); fb_init(&b); fb_vfmt(&b, f, ap); va_end(ap); if (n) { gsize k = b.len < n - 1 ? b.len : n - 1; memcpy(d, b.p, k); d[k] = 0; } gint r = b.len; free(b.p); return r; }
gboolean g_ascii_isspace_(gchar c) { return c == ' ' || (c >= 9 && c <= 13 && c != 11); }
gint g_ascii_strcasecmp(const gchar *a, const gchar *b) { for (;; a++, b++) { int x = (guchar)*a, y = (guchar)*b; if (x >= 'A' && x <= 'Z') x += 32; if (y >= 'A' && y <= 'Z') y += 32; if (x != y) return x - y; if (!x) return 0; } }
gint g_ascii_strncasecmp(const gchar *a, const gchar *b, gsize n) { for (; n; n--, a++, b++) { int x = (guchar)*a, y = (guchar)*b; if (x >= 'A' && x <= 'Z') x += 32; if (y >= 'A' && y <= 'Z') y += 32; if (x != y) return x - y; if (!x) return 0; } return 0; }
gchar g_ascii_tolower(gchar c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
gchar g_ascii_toupper(gchar c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
gint g_ascii_digit_value(gchar c) { return c >= '0' && c <= '9' ? c - '0' : -1; }
gint g_ascii_xdigit_value(gchar c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }
guint64 g_ascii_strtoull(const gchar *s, gchar **e, guint b) { return strtoull(s, e, b); }
gint64 g_ascii_strtoll(const gchar *s, gchar **e, guint b) { return strtoll(s, e, b); }
static guint16 asciitab[256]; const guint16 *const g_ascii_table = asciitab; /* filled by sx_glib_init */
void sx_glib_init(void)
{
    for (int c = 0; c < 128; c++) { guint16 m = 0; int up = c >= 'A' && c <= 'Z', lw = c >= 'a' && c <= 'z', dg = c >= '0' && c <= '9';
        if (up) m |= G_ASCII_UPPER; if (lw) m |= G_ASCII_LOWER; if (up || lw) m |= G_ASCII_ALPHA; if (dg) m |= G_ASCII_DIGIT; if (up || lw || dg) m |= G_ASCII_ALNUM; if (dg || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) m |= G_ASCII_XDIGIT;
        if (c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\f') m |= G_ASCII_SPACE; if (c >= 32 && c < 127) m |= G_ASCII_PRINT; if (c > 32 && c < 127) m |= G_ASCII_GRAPH; if (c < 32 || c == 127) m |= G_ASCII_CNTRL; if (c > 32 && c < 127 && !(up || lw || dg)) m |= G_ASCII_PUNCT; asciitab[c] = m; }
}
/* GString */
static void gs_grow(GString *s, gsize n) { if (s->len + n + 1 > s->allocated_len) { while (s->len + n + 1 > s->allocated_len) s->allocated_len *= 2; s->str = realloc(s->str, s->allocated_len); } }
GString *g_string_sized_new(gsize n) { GString *s = malloc(sizeof *s); s->allocated_len = 64; while (s->allocated_len < n + 2) s->allocated_len *= 2; s->str = malloc(s->allocated_len); s->len = 0; s->str[0] = 0; return s; }
GString *g_string_insert_len(GString *s, gssize pos, const gchar *v, gssize len)
{
    if (!s) return NULL; if (len == 0) return s; if (!v) return s; if (len < 0) len = strlen(v); gsize p = pos < 0 ? s->len : (gsize)pos; if (p > s->len) return s;
    gs_grow(s, len); if (p < s->len) memmove(s->str + p + len, s->str + p, s->len - p); memcpy(s->str + p, v, len); s->len += len; s->str[s->len] = 0; return s;
}
GString *g_string_append_len(GString *s, const gchar *v, gssize n) { return g_string_insert_len(s, -1, v, n); }
GString *g_string_append(GString *s, const gchar *v) { return g_string_insert_len(s, -1, v, -1); }
GString *g_string_prepend(GString *s, const gchar *v) { return g_string_insert_len(s, 0, v, -1); }
GString *g_string_prepend_len(GString *s, const gchar *v, gssize n) { return g_string_insert_len(s, 0, v, n); }
GString *g_string_insert(GString *s, gssize p, const gchar *v) { return g_string_insert_len(s, p, v, -1); }
GString *g_string_insert_c(GString *s, gssize p, gchar c) { if (!s) return NULL; return g_string_insert_len(s, p, &c, 1); }
GString *g_string_append_c(GString *s, gchar c) { return g_string_insert_c(s, -1, c); }
GString *g_string_prepend_c(GString *s, gchar c) { return g_string_insert_c(s, 0, c); }
GString *g_string_new(const gchar *i) { GString *s = g_string_sized_new(i ? strlen(i) + 2 : 2); if (i) g_string_append(s, i); return s; }
GString *g_string_new_len(const gchar *i, gssize n) { if (n < 0) return g_string_new(i); GString *s = g_string_sized_new(n); if (i) g_string_append_len(s, i, n); return s; }
GString *g_string_assign(GString *s, const gchar *v) { s->len = 0; s->str[0] = 0; return g_string_append(s, v); }
GString *g_string_truncate(GString *s, gsize n) { if (n < s->len) s->len = n; s->str[s->len] = 0; return s; }
GString *g_string_set_size(GString *s, gsize n) { if (n >= s->allocated_len) gs_grow(s, n - s->len); s->len = n; s->str[n] = 0; return s; }
GString *g_string_erase(GString *s, gssize p, gssize n) { if (!s) return NULL; if (p < 0 || (gsize)p > s->len) return s; if (n < 0) n = s->len - p; else { if ((gsize)(p + n) > s->len) return s; if ((gsize)(p + n) < s->len) memmove(s->str + p, s->str + p + n, s->len - (p + n)); } s->len -= n; s->str[s->len] = 0; return s; }
gchar *g_string_free(GString *s, gboolean f) { if (!s) return NULL; gchar *r = s->str; if (f) { free(r); r = NULL; } free(s); return r; }
gchar *g_string_free_and_steal(GString *s) { return g_string_free(s, FALSE); }
void g_string_append_vprintf(GString *s, const gchar *f, va_list ap) { struct fmtbuf b; fb_init(&b); fb_vfmt(&b, f, ap); g_string_append_len(s, b.p, b.len); free(b.p); }
void g_string_append_printf(GString *s, const gchar *f, ...) { va_list ap; va_start(ap, f); g_string_append_vprintf(s, f, ap); va_end(ap); }
void g_string_printf(GString *s, const gchar *f, ...) { va_list ap; va_start(ap, f); s->len = 0; s->str[0] = 0; g_string_append_vprintf(s, f, ap); va_end(ap); }
gboolean g_string_equal(const GString *a, const GString *b) { return a->len == b->len && memcmp(a->str, b->str, a->len) == 0; }
/* checksums: an injective stand-in for SHA-1 over the model's strings ("sha1:" followed by the text) */
gchar *g_compute_checksum_for_string(GChecksumType t, const gchar *s, gssize n) { gsize k = n < 0 ? strlen(s) : (gsize)n; gchar *r = malloc(k + 6); memcpy(r, "sha1:", 5); memcpy(r + 5, s, k); r[k + 5] = 0; return r; }
struct _GChecksum { guint64 a, b; };
GChecksum *g_checksum_new(GChecksumType t) { GChecksum *c = malloc(sizeof *c); c->a = 1469598103934665603ull; c->b = 7; return c; }
void g_checksum_update(GChecksum *c, const guchar *d, gssize n) { if (n < 0) n = strlen((const char *)d); for (gssize i = 0; i < n; i++) { c->a = (c->a << 5) + c->a + d[i]; c->b = (c->b << 7) - c->b + d[i] + 1; } }
void g_checksum_get_digest(GChecksum *c, guint8 *out, gsize *n) { for (gsize i = 0; i < *n; i++) out[i] = i < 8 ? c->a >> (8 * i) : i < 16 ? c->b >> (8 * (i - 8)) : 0; if (*n > 20) *n = 20; }
void g_checksum_free(GChecksum *c) { free(c); }
/* logging */
void g_return_if_fail_warning(const char *d, const char *f, const char *e) {}
void g_log(const gchar *d, GLogLevelFlags l, const gchar *f, ...) { if (l & G_LOG_LEVEL_ERROR) abort(); }
void g_print(const gchar *f, ...) {}
void g_printerr(const gchar *f, ...) {}
void g_assertion_message_expr(const char *d, const char *f, int l, const char *fn, const char *e) { abort(); }
void g_assertion_message(const char *d, const char *f, int l, const char *fn, const char *e) { abort(); }
gchar *g_path_get_basename(const gchar *p) { gsize n = strlen(p); if (!n) return g_strdup("."); while (n > 1 && p[n - 1] == '/') n--; if (n == 1 && p[0] == '/') return g_strdup("/"); gsize b = n; while (b > 0 && p[b - 1] != '/') b--; return g_strndup(p + b, n - b); }
/* GList / GSList / GPtrArray / GHashTable are not used by satyr's library; minimal GPtrArray and GSList follow for refactorings */
GPtrArray *g_ptr_array_new(void) { GPtrArray *a = malloc(64); a->pdata = NULL; a->len = 0; return a; }
void g_ptr_array_add(GPtrArray *a, gpointer d) { a->pdata = realloc(a->pdata, (a->len + 1) * sizeof(gpointer)); a->pdata[a->len++] = d; }
gpointer *g_ptr_array_free(GPtrArray *a, gboolean f) { gpointer *r = a->pdata; if (f) { free(r); r = NULL; } free(a); return r; }
void g_ptr_array_unref(GPtrArray *a) { g_ptr_array_free(a, TRUE); }
GSList *g_slist_prepend(GSList *l, gpointer d) { GSList *n = malloc(sizeof *n); n->data = d; n->next = l; return n; }
GSList *g_slist_append(GSList *l, gpointer d) { GSList *n = malloc(sizeof *n); n->data = d; n->next = NULL; if (!l) return n; GSList *t = l; while (t->next) t = t->next; t->next = n; return l; }
void g_slist_free(GSList *l) { while (l) { GSList *n = l->next; free(l); l = n; } }
