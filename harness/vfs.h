/* A stand-in for the file system calls the library makes (the library is compiled with open, read, ... renamed to these).
   Each call may fail or be short when vfs_faults is set; descriptors are tracked. */
#pragma once
#include "gen.h"
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdarg.h>
#include <sys/stat.h>
#define VFS_MAX 40
struct vfile { const char *name; char *data; size_t len; bool exists, readable; };
static struct vfile vfs[VFS_MAX]; static int vfs_n; static bool vfs_faults_write, vfs_faults, vfs_failed, vfs_huge; static uint64_t vfs_hugesize;
static struct { struct vfile *f; size_t pos; bool open, rd, wr; } vfd[64]; static int vfd_n; static int vfd_base = 100, vfs_opened, vfs_closed, vfs_mode;
static bool vfs_fault(const char *w) { if (vfs_faults && sx_choice(2, w)) { vfs_failed = true; errno = EIO; return true; } return false; }
static struct vfile *vfs_find(const char *p) { for (int i = 0; i < vfs_n; i++) if (!strcmp(vfs[i].name, p)) return &vfs[i]; return NULL; }
static struct vfile *vfs_add(const char *n, const char *data) { struct vfile *f = &vfs[vfs_n++]; f->name = n; f->exists = f->readable = data != NULL; f->data = NULL; f->len = 0; if (data) { f->len = strlen(data); f->data = malloc(f->len + 1); memcpy(f->data, data, f->len + 1); } return f; }
static void vfs_set(struct vfile *f, const char *data) { free(f->data); f->data = NULL; f->len = 0; f->exists = f->readable = data != NULL; if (data) { f->len = strlen(data); f->data = malloc(f->len + 1); memcpy(f->data, data, f->len + 1); } }
static void vfs_done(void) { for (int i = 0; i < vfs_n; i++) free(vfs[i].data); vfs_n = 0; }
/* every descriptor closed exactly once (a second close fails in chk) */
static void vfs_check(void) { sx_assert(vfs_opened == vfs_closed, "a descriptor is not closed"); }
static int chk(int fd) { int i = fd - vfd_base; bool ok = i >= 0 && i < vfd_n && vfd[i].open; sx_assert(ok, "a descriptor that is not open is used"); if (!ok) sx_stop(); return i; }
int vf_open(const char *path, int flags, ...)
{
    if (vfs_fault("open")) return -1;
    struct vfile *f = vfs_find(path); bool wr = (flags & O_ACCMODE) != O_RDONLY;
    if (!f || !f->exists) {
        if (!(flags & O_CREAT) || !f) { errno = ENOENT; return -1; }
        va_list ap; va_start(ap, flags); vfs_mode = va_arg(ap, int); va_end(ap);
        f->exists = f->readable = true;
    }
    if (!f->readable) { errno = EACCES; return -1; }
    if (wr && (flags & O_TRUNC)) { free(f->data); f->data = NULL; f->len = 0; }
    sx_assert(vfd_n < 64, "too many files are opened"); int i = vfd_n++; vfd[i].f = f; vfd[i].pos = 0; vfd[i].open = true; vfd[i].wr = wr; vfd[i].rd = (flags & O_ACCMODE) != O_WRONLY; vfs_opened++;
    return vfd_base + i;
}
int vf_open64(const char *path, int flags, ...) { va_list ap; va_start(ap, flags); int m = flags & O_CREAT ? va_arg(ap, int) : 0; va_end(ap); return vf_open(path, flags, m); }
static bool vfd_soft;
int vf_close(int fd) { if (vfd_soft && fd == 0 && !vfd[0].open) { errno = EBADF; return -1; } int i = chk(fd); vfd[i].open = false; vfs_closed++; return vfs_fault("close") ? -1 : 0; }
off_t vf_lseek(int fd, off_t o, int wh)
{
    int i = chk(fd); if (vfs_fault("lseek")) return -1;
    if (vfs_huge && wh == SEEK_END) return (off_t)vfs_hugesize + o;
    off_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off_t)vfd[i].pos : (off_t)vfd[i].f->len; if (b + o < 0) { errno = EINVAL; return -1; }
    vfd[i].pos = b + o; return vfd[i].pos;
}
off_t vf_lseek64(int fd, off_t o, int wh) { return vf_lseek(fd, o, wh); }
int vf_fstat(int fd, struct stat *st) { int i = chk(fd); if (vfs_fault("fstat")) return -1; memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0640; st->st_size = vfs_huge ? (off_t)vfs_hugesize : (off_t)vfd[i].f->len; return 0; }
static ssize_t rd(struct vfile *f, size_t pos, void *b, size_t n)
{
    if (vfs_huge) { sx_assert(false, "a file over the limit is read"); sx_stop(); }
    size_t k = pos >= f->len ? 0 : f->len - pos; if (k > n) k = n;
    if (vfs_faults && k) { int c = sx_choice((int)k + 1, "short"); if (c) { vfs_failed = true; k -= c; } }
    memcpy(b, f->data + pos, k); return k;
}
ssize_t vf_read(int fd, void *b, size_t n) { int i = chk(fd); sx_assert(vfd[i].rd, "a file open for writing is read"); if (vfs_fault("read")) return -1; ssize_t k = rd(vfd[i].f, vfd[i].pos, b, n); vfd[i].pos += k; return k; }
ssize_t vf_pread(int fd, void *b, size_t n, off_t o) { int i = chk(fd); if (vfs_fault("read")) return -1; return rd(vfd[i].f, o, b, n); }
ssize_t vf_write(int fd, const void *b, size_t n)
{
    int i = chk(fd); sx_assert(vfd[i].wr, "a file open for reading is written"); if (vfs_faults_write || vfs_fault("write")) { if (vfs_faults_write) errno = ENOSPC; return -1; }
    if (vfs_faults && n) { int c = sx_choice((int)n + 1, "short"); if (c) { vfs_failed = true; n -= c; } }
    struct vfile *f = vfd[i].f; if (vfd[i].pos + n > f->len) { char *d = malloc(vfd[i].pos + n + 1); if (f->len) memcpy(d, f->data, f->len); free(f->data); f->data = d; f->len = vfd[i].pos + n; f->data[f->len] = 0; }
    memcpy(f->data + vfd[i].pos, b, n); vfd[i].pos += n; return n;
}
int vf_fsync(int fd) { chk(fd); return vfs_fault("fsync") ? -1 : 0; }
int vf_access(const char *path, int m) { struct vfile *f = vfs_find(path); if (!f || !f->exists) { errno = ENOENT; return -1; } if ((m & R_OK) && !f->readable) { errno = EACCES; return -1; } return 0; }
int vf_stat(const char *path, struct stat *st) { if (vf_access(path, F_OK)) return -1; memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0640; st->st_size = vfs_find(path)->len; return 0; }
