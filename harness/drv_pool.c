#include "acct.h"
#include <signal.h>
#include <sys/wait.h>
#include <libcork/core/mempool.h>
/* argv: number of pools.  Objects are filled with one byte; every byte of every
 * live object is read back at every step. */
#define MAXO 6000
struct twelve { char c[12]; };
struct ud { int id, freed; };
static struct pl { struct cork_mempool *mp; size_t es; int seen, nb; char *obj[MAXO]; char live[MAXO]; struct ud *ud; int udid; int dn[MAXO], ndn, extra, wrong; } P[8];
static struct pl *cur; static int news[MAXO], nnews; static int freed_ud;
static struct { char *p; size_t n; } blk[4096]; static int nblk;
static void hook(void *p, size_t n, int on)
{
    if (on) { if (nblk < 4096) { blk[nblk].p = p; blk[nblk++].n = n; } }
    else for (int i = 0; i < nblk; i++) if (blk[i].p == p) { blk[i] = blk[--nblk]; break; }
}
static int find(struct pl *q, void *o) { for (int i = 1; i <= q->seen; i++) if (q->obj[i] == o) return i; return 0; }
static void init_cb(void *u, void *o)
{
    if (u != cur->ud) cur->wrong++;
    int id = find(cur, o);
    if (!id) { id = ++cur->seen; if (id >= MAXO) VF_BAD("too many objects"); cur->obj[id] = o; cur->live[id] = 0; }
    news[nnews++] = id; memset(o, 7, cur->es);
}
static int cmpi(const void *a, const void *b) { return *(int *) a - *(int *) b; }
static void done_cb(void *u, void *o)
{
    if (u != cur->ud || (cur->ud && cur->ud->freed)) cur->wrong++;
    int id = find(cur, o);
    if (id) cur->dn[cur->ndn++] = id; else cur->extra++;
    volatile char *c = o; for (size_t i = 0; i < cur->es; i++) c[i] = c[i];
}
static void ud_free(void *u) { struct ud *x = u; freed_ud = freed_ud ? 1000 : x->id; x->freed++; }
static int tok(struct pl *q, int i) { unsigned char *c = (void *) q->obj[i]; for (size_t k = 1; k < q->es; k++) if (c[k] != c[0]) return -9; return q->es ? c[0] : 0; }
int main(int argc, char **argv)
{
    vf_init(); int np = atoi(argv[1]); acct_install();
    acct_warm();
    acct_hook = hook; long base = acct_blocks;
    while (vf_next()) {
        int p, i, f;
        freed_ud = 0; nnews = 0;
        if (vf_is("reset")) {
            for (p = 1; p <= np; p++) if (P[p].mp) {
                cur = &P[p]; for (i = 1; i <= P[p].seen; i++) if (P[p].live[i]) cork_mempool_free_object(P[p].mp, P[p].obj[i]);
                cork_mempool_free(P[p].mp); memset(&P[p], 0, sizeof P[p]);
            }
            J("{\"r\":[]");
        } else if (vf_is("pool")) {
            p = vf_int(); size_t es = vf_int(), bs = vf_int();
            memset(&P[p], 0, sizeof P[p]); P[p].es = es;
            if (es == 12) P[p].mp = bs ? cork_mempool_new_ex(struct twelve, bs) : cork_mempool_new(struct twelve);
            else P[p].mp = bs ? cork_mempool_new_size_ex(es, bs) : cork_mempool_new_size(es);
            J("{\"r\":[]");
        } else if (vf_is("cb")) {
            p = vf_int(); i = vf_int(); f = vf_int();
            cork_mempool_set_init_object(P[p].mp, i ? init_cb : NULL); cork_mempool_set_done_object(P[p].mp, f ? done_cb : NULL);
            J("{\"r\":[]");
        } else if (vf_is("ud")) {
            p = vf_int(); struct ud *u = calloc(1, sizeof *u); u->id = vf_int();
            cork_mempool_set_user_data(P[p].mp, u, ud_free); P[p].ud = u; P[p].udid = u->id;
            J("{\"r\":[%d]", freed_ud);
        } else if (vf_is("all")) {
            p = vf_int(); struct ud *u = calloc(1, sizeof *u); u->id = vf_int(); i = vf_int(); f = vf_int();
            cork_mempool_set_callbacks(P[p].mp, u, ud_free, i ? init_cb : NULL, f ? done_cb : NULL); P[p].ud = u; P[p].udid = u->id;
            J("{\"r\":[%d]", freed_ud);
        } else if (vf_is("new")) {
            p = vf_int(); f = vf_int(); struct pl *q = cur = &P[p];
            long b0 = acct_blocks; char *o = cork_mempool_new_object(q->mp);
            int id = find(q, o), before = -1, ok = 0; size_t es = q->es, al = es % 16 == 0 ? 16 : es % 8 == 0 ? 8 : es % 4 == 0 ? 4 : es % 2 == 0 ? 2 : 1;
            for (i = 0; i < nblk; i++) if (o >= blk[i].p && o + es <= blk[i].p + blk[i].n) ok = 1;
            if ((uintptr_t) o % al) ok = 0;
            if (!id) { id = ++q->seen; if (id >= MAXO) VF_BAD("too many objects"); q->obj[id] = o; }
            else before = tok(q, id);
            if (q->live[id]) ok = -1;
            q->live[id] = 1; memset(o, f, es);
            J("{\"a\":[%d,%d,%d,[", p, f, id);
            for (i = 0; i < nnews; i++) J(i ? ",%d" : "%d", news[i]);
            J("],%ld,%d],\"r\":[%d,%d]", acct_blocks - b0, before, ok, q->wrong ? -1 : q->udid);
        } else if (vf_is("free") || vf_is("w")) {
            p = vf_int(); struct pl *q = cur = &P[p]; int k = vf_int(), n = 0, id = 0;
            for (i = 1; i <= q->seen; i++) n += q->live[i];
            if (!n) VF_BAD("nothing live");
            k %= n; for (i = 1; i <= q->seen; i++) if (q->live[i] && k-- == 0) id = i;
            if (vf_is("free")) { q->live[id] = 0; cork_mempool_free_object(q->mp, q->obj[id]); J("{\"a\":[%d,%d],\"r\":[]", p, id); }
            else { f = vf_int(); memset(q->obj[id], f, q->es); J("{\"a\":[%d,%d,%d],\"r\":[]", p, id, f); }
        } else if (vf_is("del")) {
            p = vf_int(); struct pl *q = cur = &P[p];
            cork_mempool_free(q->mp); q->mp = NULL;
            qsort(q->dn, q->ndn, sizeof(int), cmpi);
            J("{\"a\":[%d,[", p); for (i = 0; i < q->ndn; i++) J(i ? ",%d" : "%d", q->dn[i]);
            J("],%d],\"r\":[%d]", q->extra, q->wrong ? -1 : freed_ud);
            memset(q, 0, sizeof *q);
        } else if (vf_is("delbad")) {
            p = vf_int(); cur = &P[p]; int st = 0; fflush(NULL);
            pid_t pid = fork();
            if (pid == 0) { close(2); signal(SIGABRT, SIG_DFL); cork_mempool_free(P[p].mp); _exit(0); }
            waitpid(pid, &st, 0);
            J("{\"r\":[%d]", WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT);
        } else VF_DIE("op %s", vf_op);
        J(",\"s\":[["); int any = 0;
        for (p = 1; p <= np; p++) {
            struct pl *q = &P[p]; J(p > 1 ? ",[" : "["); any += q->mp != NULL;
            for (i = 1; i <= q->seen; i++) J(i > 1 ? ",%d" : "%d", q->live[i] ? tok(q, i) : -1);
            J("]");
        }
        J("],%ld]}", (any ? 0 : acct_blocks - base) + 1000 * acct_bad); J_end();
    }
    return 0;
}
