/* Whole-file reading and writing under faults (C34). MODE 0: read; 1: write; 2: too big; 3: written and read again */
#include "vfs.h"
#include "utils.h"
void harness(void)
{
    char *err = NULL;
#if MODE == 0
    int st = sx_choice(3, "exists"); char *t = sx_str_upto(N, "data"); struct vfile *f = vfs_add("d/f", st ? t : NULL); if (st == 1) f->readable = false;
    uint64_t live = sx_live_heap(); vfs_faults = true; char *r = sr_file_to_string("d/f", &err); vfs_faults = false;
    if (r) { sx_assert(st == 2, "contents from a file that can not be read"); sx_assert(!err, "success with an error message"); for (size_t i = 0; i < f->len; i++) sx_assert(r[i] == t[i], "other contents"); sx_assert(r[f->len] == 0, "the contents are not terminated"); sx_cover("read"); }
    else { sx_assert(err != NULL, "failure without an error message"); sx_assert(st != 2 || vfs_failed, "a readable file is refused"); sx_cover("failed"); }
    sx_obs_i("ok", !!r); g_free(r); g_free(err); vfs_check(); sx_assert(sx_live_heap() == live, "memory is lost"); free(t);
#elif MODE == 1 || MODE == 3
    int st = sx_choice(3, "exists"); char *t = sx_str_upto(N, "data"); struct vfile *f = vfs_add("d/f", st ? "older contents" : NULL); if (st == 1) f->readable = false;
    uint64_t live = sx_live_heap(); char *olddata = f->data; vfs_faults = MODE == 1; bool ok = sr_string_to_file("d/f", t, &err); vfs_faults = false;
    if (ok) { sx_assert(st != 1, "a file that can not be opened is written"); sx_assert(!err, "success with an error message"); sx_assert(f->exists && f->len == strlen(t) && (f->len == 0 || !memcmp(f->data, t, f->len)), "the file has other contents"); sx_cover("written"); }
    else { sx_assert(err != NULL, "failure without an error message"); sx_assert(st == 1 || vfs_failed, "writing fails"); sx_cover("failed"); }
    vfs_check(); sx_obs_i("ok", ok);
    if (MODE == 3 && ok) { char *r = sr_file_to_string("d/f", &err); sx_assert(r && same(r, t) && !err, "what was written is not read"); g_free(r); sx_cover("again"); vfs_check(); }
    g_free(err); vfs_faults = false; free(t); (void)live; (void)olddata;
#else
    /* whatever the size says beyond the limit, nothing is read */
    vfs_add("d/f", "x"); vfs_huge = true; vfs_hugesize = sx_u64("size"); sx_assume(vfs_hugesize > 20000000 && vfs_hugesize < INT64_MAX);
    uint64_t live = sx_live_heap(); vfs_faults = true; char *r = sr_file_to_string("d/f", &err); vfs_faults = false;
    sx_assert(!r && err, "a file over the limit is loaded"); g_free(err); vfs_check(); sx_assert(sx_live_heap() == live, "memory is lost"); sx_cover("huge");
#endif
    vfs_done();
}
