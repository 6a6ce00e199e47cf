/* Quality of Java threads (C29). */
#define T 4
#include "types.h"
void harness(void)
{
    uint64_t live = sx_live_heap(); TH *t = new_thread(); FR **p = &t->frames; int n = sx_choice(NFR + 1, "n"), ok = 0;
    for (int i = 0; i < n; i++) {
        FR *f = FF(new)(); f->name = sx_choice(2, "named") ? g_strdup("a.b") : NULL; int h = sx_choice(3, "file"); if (h == 1) f->file_name = g_strdup("A.java"); else if (h == 2) { char *s = sx_str_upto(2, "fn"); f->file_name = g_strdup(s); free(s); }
        uint8_t nat = sx_u8("native"), exc = sx_u8("exception"); sx_assume((nat <= 1) & (exc <= 1)); f->is_native = nat; f->is_exception = exc; f->file_line = sx_u32("line"); ok += (nat != 0) | (h != 0); *p = f; p = &f->next;
    }
    TH *b = TF(dup)(t, false); int a = sx_choice(3, "start"), o = a * 5, all = a * 7, o0 = o, all0 = all; sr_java_thread_quality_counts(t, &o, &all); float q = sr_java_thread_quality(t);
    sx_assert(o == o0 + ok && all == all0 + n, "the frames that are native or have a file are not counted right");
    sx_assert(q >= 0 && q <= 1 && q == (n ? ok / (float)n : 1.0f), "the rating is not the share of known frames"); sx_assert(thread_same(t, b), "rating changed the thread"); sx_cover(ok ? "known" : "unknown");
    if (n) { FR *f = t->frames; g_free(f->file_name); f->file_name = g_strdup("B.java"); float q2 = sr_java_thread_quality(t); sx_assert(q2 >= q && q2 <= 1, "resolving a frame lowers the rating"); }
    TF(free)(b); TF(free)(t); sx_assert(sx_live_heap() == live, "memory is lost");
}
