/* printf-style formatting into a growing buffer, shared by the libc and glib models. */
#pragma once
#include <stdarg.h>
#include <stdint.h>
#include <stddef.h>
struct fmtbuf { char *p; size_t len, cap; };
void fb_init(struct fmtbuf *b);
void fb_put(struct fmtbuf *b, const char *s, size_t n);
void fb_vfmt(struct fmtbuf *b, const char *f, va_list ap);

int fb_undec(const char *q, int n, uint64_t *v);
