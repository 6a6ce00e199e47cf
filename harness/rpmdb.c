/* C45: asking the rpm database about installed packages. librpm is a stand-in: a database of NH headers whose tags the harness describes. */
#include "sx.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <rpm/rpmlib.h>
#include <rpm/rpmdb.h>
#include <rpm/rpmts.h>
#include <rpm/rpmtd.h>
#include <rpm/header.h>
#include "rpm.h"
#ifndef NH
#define NH 2
#endif
struct headerToken_s { char *s[4]; bool has_epoch, has_time; uint32_t epoch, time; int missing; };
struct rpmts_s { int n; };
struct rpmdbMatchIterator_s { int at; };
static struct headerToken_s hd[NH]; static int nh; static bool noconf; static const char *want; static int tag_wanted; static int live_ts, live_it, live_td, tds; static bool emptyiter;
static const int tags[4] = { RPMTAG_NAME, RPMTAG_VERSION, RPMTAG_RELEASE, RPMTAG_ARCH };
static struct headerToken_s *current;
int vf_rpmReadConfigFiles(const char *f, const char *t) { return noconf ? -1 : 0; }
rpmts vf_rpmtsCreate(void) { rpmts t = malloc(sizeof *t); t->n = 1; live_ts++; return t; }
rpmts vf_rpmtsFree(rpmts t) { if (t) { sx_assert(live_it == 0, "the transaction set ends before its iterator"); live_ts--; free(t); } return NULL; }
rpmdbMatchIterator vf_rpmtsInitIterator(const rpmts t, rpmDbiTagVal tag, const void *key, size_t len)
{
    sx_assert(t && t->n == 1, "the query uses a live transaction set"); sx_assert((int)tag == tag_wanted, "the query is on the right index");
    sx_assert((len == strlen(want) || len == 0) && memcmp(key, want, strlen(want)) == 0, "the query has the key of the caller");
    if (nh == 0 && emptyiter) return NULL;
    rpmdbMatchIterator it = malloc(sizeof *it); it->at = 0; live_it++; return it;
}
Header vf_rpmdbNextIterator(rpmdbMatchIterator it) { if (!it) return NULL; current = NULL; if (it->at >= nh) return NULL; current = &hd[it->at++]; return current; }
rpmdbMatchIterator vf_rpmdbFreeIterator(rpmdbMatchIterator it) { if (it) { live_it--; free(it); } return NULL; }
rpmtd vf_rpmtdNew(void) { rpmtd td = malloc(sizeof *td); memset(td, 0, sizeof *td); live_td++; return td; }
rpmtd vf_rpmtdFree(rpmtd td) { if (td) { live_td--; free(td); } return NULL; }
void vf_rpmtdReset(rpmtd td) { memset(td, 0, sizeof *td); }
void vf_rpmtdFreeData(rpmtd td) { memset(td, 0, sizeof *td); }
static bool lookup(Header h, int tag, const char **s, uint32_t **n)
{
    sx_assert(h && h == current, "a header is used after the iterator left it"); *s = NULL; *n = NULL;
    for (int i = 0; i < 4; i++) if (tag == tags[i]) { *s = h->s[i]; return h->missing != i; }
    if (tag == RPMTAG_EPOCH) { *n = &h->epoch; return h->has_epoch; }
    if (tag == RPMTAG_EPOCHNUM) { static uint32_t zero; zero = 0; *n = h->has_epoch ? &h->epoch : &zero; return true; }
    if (tag == RPMTAG_INSTALLTIME) { *n = &h->time; return h->missing != 4; }
    return false;
}
int vf_headerIsEntry(Header h, rpmTagVal tag) { const char *s; uint32_t *n; return lookup(h, tag, &s, &n); }
const char *vf_headerGetString(Header h, rpmTagVal tag) { const char *s; uint32_t *n; return lookup(h, tag, &s, &n) ? s : NULL; }
uint64_t vf_headerGetNumber(Header h, rpmTagVal tag) { const char *s; uint32_t *n; return lookup(h, tag, &s, &n) && n ? *n : 0; }
int vf_headerGet(Header h, rpmTagVal tag, rpmtd td, headerGetFlags flags)
{ const char *s; uint32_t *n; memset(td, 0, sizeof *td); td->tag = tag; if (!lookup(h, tag, &s, &n)) return 0; td->count = 1; td->type = s ? RPM_STRING_TYPE : RPM_INT32_TYPE; td->data = s ? (void *)s : (void *)n; return 1; }
const char *vf_rpmtdGetString(rpmtd td) { return td->data && td->type == RPM_STRING_TYPE ? td->data : NULL; }
uint32_t *vf_rpmtdGetUint32(rpmtd td) { return td->data && td->type == RPM_INT32_TYPE ? td->data : NULL; }
uint64_t vf_rpmtdGetNumber(rpmtd td) { return td->data && td->type == RPM_INT32_TYPE ? *(uint32_t *)td->data : 0; }

void harness(void)
{
    static const char *nm[4] = { "name", "version", "release", "arch" }; char in[24];
    char *key = sx_str(3, "key"); want = key; nh = sx_choice(NH + 1, "headers"); noconf = sx_choice(2, "noconf"); emptyiter = nh == 0 && sx_choice(2, "emptyiter");
    int bad = nh ? (int)sx_choice(nh + 1, "bad") - 1 : -1; int what = bad >= 0 ? (int)sx_choice(5, "what") : -1;
    for (int i = 0; i < nh; i++) {
        for (int k = 0; k < 4; k++) { snprintf(in, sizeof in, "%s%d", nm[k], i); hd[i].s[k] = sx_str(2, in); }
        snprintf(in, sizeof in, "hasepoch%d", i); hd[i].has_epoch = sx_choice(2, in);
        snprintf(in, sizeof in, "epoch%d", i); hd[i].epoch = sx_u32(in);
        snprintf(in, sizeof in, "time%d", i); hd[i].time = sx_u32(in);
        hd[i].missing = i == bad ? what : -1;
    }
    char *err = NULL; tag_wanted = MODE ? RPMTAG_BASENAMES : RPMTAG_NAME;
    size_t before = sx_live_heap();
    struct sr_rpm_package *p = MODE ? sr_rpm_package_get_by_path(key, &err) : sr_rpm_package_get_by_name(key, &err);
    sx_assert(live_ts == 0 && live_it == 0 && live_td == 0, "every handle of librpm is given back");
    if (noconf || bad >= 0) { sx_cover("failed"); sx_assert(p == NULL, "a failed query gives no packages"); sx_assert(err != NULL, "a failed query has an error message"); }
    else {
        sx_assert(err == NULL, "a query that works has no error message");
        struct sr_rpm_package *q = p; sx_cover(nh ? "packages" : "nothing");
        for (int i = 0; i < nh; i++, q = q->next) {
            sx_assert(q != NULL, "every installed package is listed");
            sx_assert(!strcmp(q->name, hd[i].s[0]) && !strcmp(q->version, hd[i].s[1]) && !strcmp(q->release, hd[i].s[2]) && !strcmp(q->architecture, hd[i].s[3]), "the strings of the package are those in the database");
            sx_assert(q->epoch == (hd[i].has_epoch ? hd[i].epoch : 0), "the epoch is that in the database, 0 when there is none");
            sx_assert(q->install_time == hd[i].time, "the install time is that in the database");
            sx_assert(q->consistency == NULL && q->role == 0, "nothing else is claimed about the package");
        }
        sx_assert(q == NULL, "no other package is listed");
    }
    sr_rpm_package_free(p, true); free(err);
    sx_assert(sx_live_heap() == before, "nothing leaks");
}
