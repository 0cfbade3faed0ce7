#include "acct.h"
#include <libcork/core/gc.h>
#include <libcork/helpers/gc.h>
#include <pthread.h>
#include <semaphore.h>
/* argv: objects, slots, threads (1).  An object is made and used by one thread, its
 * owner; the threads take turns.  "pad" objects are kept alive by the harness and made
 * candidate roots, so that automatic collections happen inside later calls. */
#define MAXN 64
#ifndef KEY
#define KEY 0          /* each thread has a block for its collector */
#endif
static int n, K, T = 1, me = 1;
#define OWN(i) (((i) - 1) * T / n + 1)
struct obj { int id, magic; struct obj *sl[8], *hid; };
static struct obj *ob[MAXN + 1]; static int st[MAXN + 1], ext[MAXN + 1], nf[MAXN + 1];
static int gone[MAXN + 1]; static long padlive[9], badpad; static struct obj *padst[9][20000]; static int npadst[9];
#define pads padst[me]
#define npads npadst[me]
_free_(obj) {
    struct obj *o = obj;
    if (o->id <= 0) { if (-o->id != me) badpad++; else padlive[me]--; if (o->magic != 0x5a5a) badpad++; return; }
    if (OWN(o->id) != me) badpad++;
    gone[o->id]++; if (o->magic != 1000 + o->id) st[o->id] = 2;
    if (st[o->id] == 0) st[o->id] = 3; else if (st[o->id] == 1) st[o->id] = 0;
    struct obj *h = o->hid; if (h && o->magic == 1000 + o->id) { o->hid = NULL; cork_gc_decref(h); }
}
_recurse_(obj) { struct obj *o = obj; for (int k = 0; k < K; k++) recurse(gc, o->sl[k], ud); }
_gc_(obj);
struct leaf { int id, magic; };
#define leaf__free obj__free
_gc_no_recurse_(leaf);
static struct obj *mk(int id, struct obj **s)
{
    bool any = false; for (int k = 0; k < K; k++) any |= s && s[k];
    (void) any;
    struct obj *o = cork_gc_new(obj); o->id = id; o->magic = 1000 + id; o->hid = NULL;
    for (int k = 0; k < K; k++) o->sl[k] = s ? cork_gc_incref(s[k]) : NULL;
    return o;
}
static void gone_json(void) { bool f = true; J("["); for (int i = 1; i <= n; i++) for (int c = 0; c < gone[i]; c++) { J(f ? "%d" : ",%d", i); f = false; } J("]"); }
static void step(void)
{
    int i, k, t;
    if (vf_is("new")) {
        i = vf_int(); struct obj *s[8]; k = vf_int(); if (k != K) VF_DIE("slots");
        J("{\"a\":[%d,[", i);
        for (k = 0; k < K; k++) { t = vf_int(); s[k] = t ? ob[t] : NULL; J(k ? ",%d" : "%d", t); }
        ob[i] = mk(i, s); st[i] = 1; ext[i] = 1; J("]],\"r\":[]");
    } else if (vf_is("inc")) { i = vf_int(); J("{\"r\":[%s]", cork_gc_incref(ob[i]) == ob[i] ? "" : "1"); ext[i]++;
    } else if (vf_is("dec")) { i = vf_int(); ext[i]--; cork_gc_decref(ob[i]); J("{\"a\":[%d,", i); gone_json(); J("],\"r\":[]");
    } else if (vf_is("set")) {
        i = vf_int(); k = vf_int(); t = vf_int();
        struct obj *old = ob[i]->sl[k - 1]; ob[i]->sl[k - 1] = t ? cork_gc_incref(ob[t]) : NULL; cork_gc_decref(old);
        J("{\"a\":[%d,%d,%d,", i, k, t); gone_json(); J("],\"r\":[]");
    } else if (vf_is("give")) { i = vf_int(); k = vf_int(); t = vf_int(); ob[i]->sl[k - 1] = ob[t]; ext[t]--; J("{\"r\":[]");
    } else if (vf_is("take")) { i = vf_int(); k = vf_int(); ext[ob[i]->sl[k - 1]->id]++; ob[i]->sl[k - 1] = NULL; J("{\"r\":[]");
    } else if (vf_is("hold")) { i = vf_int(); t = vf_int(); ob[i]->hid = ob[t]; ext[t]--; J("{\"r\":[]");
    } else if (vf_is("unhold")) { i = vf_int(); ext[ob[i]->hid->id]++; ob[i]->hid = NULL; J("{\"r\":[]");
    } else if (vf_is("pad")) {
        vf_int(); t = vf_int();
        for (i = 0; i < t; i++) {
            if (npads >= 20000) VF_DIE("pads");
            struct obj *o = cork_gc_new(obj); memset(o, 0, sizeof *o); o->magic = 0x5a5a; o->id = -me; padlive[me]++; pads[npads++] = o;
            cork_gc_incref(o); cork_gc_decref(o);
        }
        J("{\"a\":[%d,%d,", me, t); gone_json(); J("],\"r\":[]");
    } else if (vf_is("unpad")) { for (i = 0; i < npads; i++) cork_gc_decref(pads[i]); npads = 0; J("{\"a\":[%d,", me); gone_json(); J("],\"r\":[]");
    } else if (vf_is("done")) { cork_gc_done(); J("{\"a\":[%d,", me); gone_json(); J("],\"r\":[]");
    } else if (vf_is("decnull")) { cork_gc_decref(NULL); J("{\"r\":[%s]", cork_gc_incref(NULL) == NULL ? "" : "1");
    } else VF_DIE("op %s", vf_op);
}
/* lets go of everything of this thread */
static void clean(void)
{
    int i;
    for (i = 1; i <= n; i++) if (OWN(i) == me) while (st[i] == 1 && ext[i] > 0) { ext[i]--; cork_gc_decref(ob[i]); }
    for (i = 0; i < npads; i++) cork_gc_decref(pads[i]);
    npads = 0; cork_gc_done();
}
static pthread_t th[9]; static sem_t go[9], done; static bool ending;
static void *worker(void *ud)
{
    int t = (int) (intptr_t) ud;
    for (;;) {
        while (sem_wait(&go[t]) != 0) ;
        if (ending) { clean(); sem_post(&done); return NULL; }
        step(); sem_post(&done);
    }
}
static void turn(int t) { me = t; if (t == 1) step(); else { sem_post(&go[t]); while (sem_wait(&done) != 0) ; } me = 1; }
static int whose(void)
{
    char *p = vf_pos; int i;
    if (vf_is("decnull")) return 1;
    i = vf_int(); vf_pos = p;
    return vf_is("pad") || vf_is("unpad") || vf_is("done") ? i : OWN(i);
}
int main(int argc, char **argv)
{
    vf_init(); n = atoi(argv[1]); K = atoi(argv[2]); if (argc > 3) T = atoi(argv[3]); acct_install();
    acct_warm();
    int i; for (i = 0; i < 9; i++) sem_init(&go[i], 0, 0);
    sem_init(&done, 0, 0);
    if (T == 1) cork_gc_init();             /* otherwise left to the first use */
    else cork_gc_done();
    long base = acct_blocks; bool on = false;
    while (vf_next()) {
        memset(gone, 0, sizeof gone);
        if (vf_is("reset")) {
            ending = true;
            for (me = 2; on && me <= T; me++) { sem_post(&go[me]); while (sem_wait(&done) != 0) ; pthread_join(th[me], NULL); }
            ending = false; me = 1; clean();
            if (T == 1) cork_gc_init();
            long pl = 0; for (i = 1; i <= T; i++) pl += padlive[i];
            if (acct_blocks != base || acct_bad || badpad || pl) { fprintf(stderr, "MEMORY %ld %ld pads %ld %ld\n", acct_blocks - base, acct_bad, badpad, pl); return 77; }
            for (i = 2; i <= T; i++) pthread_create(&th[i], NULL, worker, (void *) (intptr_t) i);
            on = true;
            memset(st, 0, sizeof st); memset(ext, 0, sizeof ext);
            J("{\"r\":[]");
        } else turn(whose());
        J(",\"s\":[["); int any = 0;
        for (i = 1; i <= n; i++) {
            int x = st[i]; any += x;
            if (x == 1 && (ob[i]->id != i || ob[i]->magic != 1000 + i)) x = 4;
            J(i > 1 ? ",%d" : "%d", x);
        }
        for (me = 1; me <= T; me++) for (i = 0; i < npads; any++, i++) if (pads[i]->magic != 0x5a5a) badpad++;
        me = 1;
        J("],[");
        for (i = 1; i <= T; i++) J(i > 1 ? ",%ld" : "%ld", badpad ? -1 : padlive[i]);
        J("],%ld]}", any || KEY ? acct_bad : acct_blocks - base + acct_bad); J_end();
    }
    return 0;
}
