/* A strict RFC 8259 recogniser at byte level (bytes above 127 pass through); collects decoded strings. */
#pragma once
#include <string.h>
#include <stdlib.h>
struct strs { char *s[64]; int n; };
static void strs_add(struct strs *v, char *s) { if (v && v->n < 64) v->s[v->n++] = s; else free(s); }
static bool strs_has(struct strs *v, const char *s) { for (int i = 0; i < v->n; i++) if (!strcmp(v->s[i], s)) return true; return false; }
static void strs_free(struct strs *v) { for (int i = 0; i < v->n; i++) free(v->s[i]); v->n = 0; }
static const char *rfc_ws(const char *p) { while (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r') p++; return p; }
static int rfc_hex(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static const char *rfc_string(const char *p, struct strs *v)
{
    if (*p != '"') return NULL; p++; char *o = malloc(strlen(p) + 1); int n = 0;
    for (;; p++) {
        unsigned char c = *p;
        if (c == '"') break;
        if (c < 0x20) { free(o); return NULL; }
        if (c != '\\') { o[n++] = c; continue; }
        switch (*++p) {
        case '"': o[n++] = '"'; break; case '\\': o[n++] = '\\'; break; case '/': o[n++] = '/'; break; case 'b': o[n++] = 8; break; case 'f': o[n++] = 12; break;
        case 'n': o[n++] = 10; break; case 'r': o[n++] = 13; break; case 't': o[n++] = 9; break;
        case 'u': { int x = 0; for (int i = 1; i <= 4; i++) { int h = rfc_hex(p[i]); if (h < 0) { free(o); return NULL; } x = x * 16 + h; } p += 4; if (x < 0x80) o[n++] = x; else { o[n++] = '?'; } break; }
        default: free(o); return NULL;
        }
    }
    o[n] = 0; strs_add(v, o); return p + 1;
}
static const char *rfc_value(const char *p, struct strs *v, int depth)
{
    p = rfc_ws(p); if (depth > 12) return NULL;
    if (*p == '"') return rfc_string(p, v);
    if (*p == '{' || *p == '[') {
        bool obj = *p == '{'; char end = obj ? '}' : ']'; p = rfc_ws(p + 1); if (*p == end) return p + 1;
        for (;;) {
            if (obj) { p = rfc_string(rfc_ws(p), NULL); if (!p) return NULL; p = rfc_ws(p); if (*p != ':') return NULL; p++; }
            p = rfc_value(p, v, depth + 1); if (!p) return NULL; p = rfc_ws(p);
            if (*p == end) return p + 1; if (*p != ',') return NULL; p++;
        }
    }
    if (!strncmp(p, "true", 4) || !strncmp(p, "null", 4)) return p + 4;
    if (!strncmp(p, "false", 5)) return p + 5;
    if (*p == '-') p++;
    if (*p < '0' || *p > '9') return NULL;
    if (*p == '0') p++; else while (*p >= '0' && *p <= '9') p++;
    if (*p == '.') { p++; if (*p < '0' || *p > '9') return NULL; while (*p >= '0' && *p <= '9') p++; }
    if (*p == 'e' || *p == 'E') { p++; if (*p == '+' || *p == '-') p++; if (*p < '0' || *p > '9') return NULL; while (*p >= '0' && *p <= '9') p++; }
    return p;
}
