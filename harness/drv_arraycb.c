#include "vf.h"
#include "acct.h"
#include <libcork/ds.h>
/* argv: own reuse remove done elemsize [no init callback: 1] */
static int own, RE, RM, DN, NI; static size_t ninit[2]; static size_t es;
static struct cork_raw_array ra[2];
static long base[2];
static int nxt, leak;
enum { FRESH = 0, USED = 1, SPARE = 2, GONE = 3 };
static unsigned char phase[100000]; static signed char home[100000];
static struct { int k, id; } lg[100000]; static int nlg;
static int udtok[2], cur = -1;
static void L(int k, int id) { if (nlg < 100000) { lg[nlg].k = k; lg[nlg++].id = id; } }
static int getid(const void *p)
{
    int v; memcpy(&v, p, 4);
    for (size_t j = 4; j < es; j++) if (((const unsigned char *) p)[j] != (unsigned char) (v * 13 + j)) return -1;
    return v > 0 && v < nxt ? v : -1;
}
static void setid(void *p, int v) { memcpy(p, &v, 4); for (size_t j = 4; j < es; j++) ((unsigned char *) p)[j] = (unsigned char) (v * 13 + j); }
static void chk(int k, void *ud, void *p, int want, int to)
{
    int id = getid(p), i = ud == &udtok[0] ? 0 : ud == &udtok[1] ? 1 : -1;
    L(k, id);
    if (id < 0 || i < 0 || home[id] != i) L(90 + k, id);
    else if (want >= 0 && phase[id] != want) L(80 + k, id);
    if (id > 0) phase[id] = to;
}
static void cb_init(void *ud, void *p)
{
    int i = ud == &udtok[0] ? 0 : 1; setid(p, nxt); home[nxt] = i; phase[nxt] = USED; L(1, nxt); nxt++;
}
static void cb_reuse(void *ud, void *p) { chk(2, ud, p, RM ? SPARE : -1, USED); }
static void cb_remove(void *ud, void *p) { chk(3, ud, p, USED, SPARE); }
static void cb_done(void *ud, void *p) { int id = getid(p); chk(4, ud, p, -1, GONE); }
static void cb_fud(void *ud) { L(ud == &udtok[0] || ud == &udtok[1] ? 5 : 95, 0); }
/* owned pointers */
struct obj { int id; };
static void freeobj(void *p) { struct obj *o = p; L(6, o->id); free(o); }
static struct obj *mkobj(void) { struct obj *o = malloc(sizeof *o); o->id = nxt++; return o; }
typedef cork_array(char) typed;
static void init1(int i)
{
    base[i] = acct_blocks;
    if (own) { cork_pointer_array_init(&ra[i], freeobj); return; }
    cork_raw_array_init(&ra[i], es);
    if (i) cork_array_set_callback_data((typed *) &ra[i], &udtok[i], cb_fud); else cork_raw_array_set_callback_data(&ra[i], &udtok[i], cb_fud);
    ninit[i] = 0;
    if (!NI) { if (i) cork_array_set_init((typed *) &ra[i], cb_init); else cork_raw_array_set_init(&ra[i], cb_init); }
    if (RE) { if (i) cork_array_set_reuse((typed *) &ra[i], cb_reuse); else cork_raw_array_set_reuse(&ra[i], cb_reuse); }
    if (RM) { if (i) cork_array_set_remove((typed *) &ra[i], cb_remove); else cork_raw_array_set_remove(&ra[i], cb_remove); }
    if (DN) { if (i) cork_array_set_done((typed *) &ra[i], cb_done); else cork_raw_array_set_done(&ra[i], cb_done); }
}
static int failat, ncp, cpd;
/* without an init callback the caller gives new elements their contents */
static void fresh(int i, void *e) { setid(e, nxt); home[nxt] = i; phase[nxt] = USED; nxt++; }
static int cp(void *ud, void *d, const void *s)
{
    if (ncp++ == failat) { cork_error_set_printf(77, "x"); return -1; }
    if (own) *(void **) d = mkobj();
    if (NI) {
        int i = cpd;
        size_t at = ((char *) d - (char *) ra[i].items) / es;
        if (at >= ninit[i]) { fresh(i, d); ninit[i] = at + 1; }
    }
    return 0;
}
static int idat(int i, size_t p)
{
    void *e = cork_raw_array_at(&ra[i], p);
    if (own) return *(void **) e ? (*(struct obj **) e)->id : -5;
    return getid(e);
}
static int cmp(const void *a, const void *b) { const int *x = a, *y = b; return x[0] != y[0] ? (x[0] < y[0] ? -1 : 1) : x[1] != y[1] ? (x[1] < y[1] ? -1 : 1) : 0; }
static int icmp(const void *a, const void *b) { const int *x = a, *y = b; return *x < *y ? -1 : *x > *y; }
static void Jlog(int from, int to, const char *sep)
{
    for (int k = from; k < to; k++) J(k > from || *sep ? ",[%d,%d]" : "[%d,%d]", lg[k].k, lg[k].id);
}
int main(int argc, char **argv)
{
    bool up = false; int k, a, b, c;
    vf_init(); acct_install();
    own = atoi(argv[1]); RE = atoi(argv[2]); RM = atoi(argv[3]); DN = atoi(argv[4]); es = atoi(argv[5]); NI = argc > 6 && atoi(argv[6]);
    acct_warm();
    long warm = acct_blocks;
    while (vf_next()) {
        char abuf[65536]; int al = 0; abuf[0] = 0; nlg = 0; leak = 0;
        int cf = 0, n3 = 0;
        if (vf_is("reset")) {
            long before = 0;
            for (k = 0; k < 2; k++) if (up) cork_raw_array_done(&ra[k]);
            nlg = 0; nxt = 1; memset(phase, 0, sizeof phase);
            for (k = 0; k < 2; k++) init1(k);
            up = true; strcpy(abuf, "[]");
        } else if (vf_is("app")) {
            a = vf_int(); void *e = cork_raw_array_append(&ra[a - 1]);
            if (own) *(void **) e = mkobj();
            else if (NI && ra[a - 1].size > ninit[a - 1]) { fresh(a - 1, e); ninit[a - 1] = ra[a - 1].size; }
            else if (!RM || !RE) { int id = getid(e); if (id > 0) phase[id] = USED; }
            sprintf(abuf, "[%d]", a);
        } else if (vf_is("rmr")) {
            a = vf_int(); b = vf_int(); c = vf_int();
            al = sprintf(abuf, "[%d,%d,%d,[", a, b, c);
            for (k = b; k < b + c; k++) { int id = idat(a - 1, k); al += sprintf(abuf + al, k > b ? ",%d" : "%d", id); if (!RM && !own && id > 0) phase[id] = SPARE; }
            strcpy(abuf + al, "]]");
            cork_raw_array_remove_range(&ra[a - 1], b, c);
        } else if (vf_is("clear")) { a = vf_int(); sprintf(abuf, "[%d]", a); cork_raw_array_clear(&ra[a - 1]);
        } else if (vf_is("ens")) { a = vf_int(); b = vf_int(); sprintf(abuf, "[%d,%d]", a, b); cork_raw_array_ensure_size(&ra[a - 1], b);
        } else if (vf_is("renew")) {
            long other = acct_blocks; a = vf_int(); sprintf(abuf, "[%d]", a);
            /* everything an array allocates is allocated between init and done
             * of that array; rebuild both so that nothing else is live */
            cork_raw_array_done(&ra[a - 1]);
            init1(a - 1);
        } else if (vf_is("copy") || vf_is("copyfail")) {
            a = vf_int(); failat = vf_int(); ncp = 0; int n0 = nxt; int d = 2 - a; cpd = d;
            int rc = cork_raw_array_copy(&ra[d], &ra[a - 1], cp, NULL);
            cf = rc != 0;
            if (cf) {
                int mm = 0;
                for (int q = 0; q < 100000 && q < nxt; q++) ;
                cork_raw_array_clear(&ra[d]);
                al = sprintf(abuf, "[%d,%d,%d,[", a, failat, nxt - n0);
                int first = 1;
                for (k = 0; k < nlg; k++) if (lg[k].k == 1 || lg[k].k == 2) { al += sprintf(abuf + al, first ? "%d" : ",%d", lg[k].id); first = 0; }
                strcpy(abuf + al, "]]");
                cork_error_clear();
            } else {
                size_t n = cork_raw_array_size(&ra[d]);
                al = sprintf(abuf, "[%d,%d,[", a, failat);
                for (size_t q = 0; q < n; q++) { int id = idat(d, q); if (!own && !RE && id > 0) phase[id] = USED; al += sprintf(abuf + al, q ? ",%d" : "%d", id); }
                strcpy(abuf + al, "]]");
            }
        } else VF_DIE("op %s", vf_op);
        if (!cf || own) qsort(lg, nlg, sizeof lg[0], cmp);
        else {
            /* three groups: prepared (init/reuse), then removals before and after them */
            int i, first = nlg, p = 0, q = 0; static struct { int k, id; } g1[100000], g2[100000]; int m = 0;
            int firstprep = -1;
            for (i = 0; i < nlg; i++) if (lg[i].k == 1 || lg[i].k == 2) { if (firstprep < 0) firstprep = i; g1[m].k = lg[i].k; g1[m++].id = lg[i].id; }
            if (firstprep < 0) firstprep = nlg;
            qsort(g1, m, sizeof g1[0], cmp);
            for (i = 0; i < nlg; i++) if (!(lg[i].k == 1 || lg[i].k == 2)) { if (i < firstprep) p++; g2[q].k = lg[i].k; g2[q++].id = lg[i].id; }
            qsort(g2, p, sizeof g2[0], cmp); qsort(g2 + p, q - p, sizeof g2[0], cmp);
            memcpy(lg, g1, m * sizeof lg[0]); memcpy(lg + m, g2, q * sizeof lg[0]);
        }
        if (acct_bad) leak += 100000;
        J("{\"op\":\"%s\",\"a\":%s,\"r\":[", cf ? "copyfail" : vf_is("copyfail") ? "copy" : vf_op, abuf);
        Jlog(0, nlg, "");
        J("],\"s\":[");
        for (k = 0; k < 2; k++) {
            size_t n = cork_raw_array_size(&ra[k]); int *v = calloc(n + 1, sizeof(int));
            for (size_t q = 0; q < n; q++) v[q] = idat(k, q);
            qsort(v, n, sizeof(int), icmp);
            J(k ? ",[" : "[");
            for (size_t q = 0; q < n; q++) J(q ? ",%d" : "%d", v[q]);
            J("]"); free(v);
        }
        /* blocks still live although both arrays could be destroyed now: checked by "renew" of both */
        J(",%d]}", leak); J_end();
    }
    for (k = 0; k < 2; k++) if (up) cork_raw_array_done(&ra[k]);
    if (acct_blocks != warm) { fprintf(stderr, "LEAK: %ld blocks still allocated after destroying both arrays\n", acct_blocks - warm); return 3; }
    return 0;
}
