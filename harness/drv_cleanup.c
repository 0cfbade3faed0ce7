#include "vf.h"
#include "acct.h"
#include <libcork/core.h>
#include <libcork/ds.h>
#include <libcork/os.h>
#include <libcork/threads.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <pthread.h>
/* Each "run" is one process: run NFN body.. MAIN status, where a body is a counted list of
 * actions (kind, x, y); the process runs the actions of MAIN, exits, and every cleanup
 * function, when it is first called, runs its own body. */
#define MAXF 24
#define MAXA 400
struct act { int k, x, y; };
static struct act body[MAXF + 1][MAXA];
static int nbody[MAXF + 1], nfn, called[MAXF];
struct ev { int k, x, y; };
static struct { volatile int n; struct ev e[4096]; } *lg;
static void ev(int k, int x, int y) { int i = lg->n; if (i < 4096) { lg->e[i].k = k; lg->e[i].x = x; lg->e[i].y = y; } lg->n = i + 1; }
static void go(int b);
static void fn(int i) { ev(1, i, 0); if (!called[i]) { called[i] = 1; go(i); } ev(2, i, 0); }
#define F(i) static void fn##i(void) { fn(i); }
F(0) F(1) F(2) F(3) F(4) F(5) F(6) F(7) F(8) F(9) F(10) F(11) F(12) F(13) F(14) F(15) F(16) F(17) F(18) F(19) F(20) F(21) F(22) F(23)
static cork_cleanup_function fns[MAXF] = { fn0, fn1, fn2, fn3, fn4, fn5, fn6, fn7, fn8, fn9, fn10, fn11, fn12, fn13, fn14, fn15, fn16, fn17, fn18, fn19, fn20, fn21, fn22, fn23 };
static int thread_body(void *ud) { int *r = ud; cork_error_set_printf(77, "in thread %d", 5); *r = cork_error_code() == 77; return -1; }
static int use(int k)
{
    switch (k) {
        case 0: { int ok = !cork_error_occurred() || cork_error_code() == 5 || cork_error_code() == 3; cork_error_set_printf(5, "first %s", "use"); return ok && cork_error_code() == 5 && strcmp(cork_error_message(), "first use") == 0; }
        case 1: { bool o = cork_error_occurred(); return o == (cork_error_code() != CORK_ERROR_NONE); }
        case 2: { struct cork_ipv4 v; int rc = cork_ipv4_init(&v, "bad"); int ok = rc != 0 && cork_error_code() == CORK_PARSE_ERROR; cork_error_clear(); return ok; }
        case 3: { struct cork_hash_table *t = cork_string_hash_table_new(0, 0); cork_hash_table_put(t, "a", "b", NULL, NULL, NULL); int ok = strcmp(cork_hash_table_get(t, "a"), "b") == 0; cork_hash_table_free(t); return ok; }
        case 4: { int r = 0; struct cork_thread *t = cork_thread_new("t", &r, NULL, thread_body); if (cork_thread_start(t) != 0) return 0; int rc = cork_thread_join(t); int ok = rc != 0 && r && cork_error_code() == 77; cork_error_clear(); return ok; }
        case 5: cork_gc_init(); cork_gc_done(); return 1;
        case 6: { const char *s = cork_strdup("text"); int ok = strcmp(s, "text") == 0; cork_strfree(s); return ok; }
    }
    VF_DIE("use %d", k);
}
static void reg(int f, int p, int named)
{
    ev(0, f, p);
    if (named) { char *nm = strdup("some name"); cork_cleanup_at_exit_named(nm, p, fns[f]); memset(nm, '#', 9); free(nm); }
    else cork_cleanup_at_exit(p, fns[f]);
}
static struct act *thact;
static void *thgo(void *p) { reg(thact->x, thact->y, 0); return NULL; }
static void go(int b)
{
    for (int i = 0; i < nbody[b]; i++) {
        struct act *a = &body[b][i]; pthread_t th;
        if (a->k == 0 || a->k == 1) reg(a->x, a->y, a->k);
        else if (a->k == 2) { int r = use(a->x); ev(3, a->x, r); }
        else if (a->k == 3) { thact = a; pthread_create(&th, NULL, thgo, NULL); pthread_join(th, NULL); }
    }
}
static int st;
/* registered before the library's own handlers, so it runs after all of them */
static void last(void) { ev(5, acct_bad ? 9999 : (int) acct_blocks, 0); }
int main(void)
{
    vf_init();
    lg = mmap(NULL, sizeof *lg, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    while (vf_next()) {
        nfn = vf_int();
        for (int b = 0; b <= nfn; b++) {
            nbody[b] = vf_int(); if (nbody[b] > MAXA || nfn > MAXF) VF_DIE("size");
            for (int i = 0; i < nbody[b]; i++) { vf_int(); body[b][i].k = vf_int(); body[b][i].x = vf_int(); body[b][i].y = vf_int(); }
        }
        st = vf_int(); int how = vf_int();
        memset(called, 0, sizeof called); lg->n = 0;
        fflush(vf_out); fflush(stdin);
        pid_t p = fork();
        if (p == 0) {
            atexit(last);
            acct_install();
            alarm(20);
            go(nfn);
            ev(4, 0, 0);
            if (how == 1) { cork_error_set_string(3, "pending"); }
            /* do not let exit() touch the parent's stdin position */
            fclose(vf_out);
            exit(st);
        }
        int ws; waitpid(p, &ws, 0);
        int held = -1;
        J("{\"events\":[");
        for (int i = 0; i < lg->n && i < 4096; i++) {
            struct ev *e = &lg->e[i];
            if (e->k == 5) { held = e->x; continue; }
            if (i) J(",");
            if (e->k == 0) J("{\"op\":\"reg\",\"a\":[%d,%d],\"r\":[]}", e->x, e->y);
            else if (e->k == 1) J("{\"op\":\"call\",\"a\":[%d],\"r\":[]}", e->x);
            else if (e->k == 2) J("{\"op\":\"return\",\"a\":[%d],\"r\":[]}", e->x);
            else if (e->k == 3) J("{\"op\":\"use\",\"a\":[%d],\"r\":%d}", e->x, e->y);
            else if (e->k == 4) J("{\"op\":\"exit\",\"a\":[],\"r\":[]}");
        }
        J(",{\"op\":\"end\",\"a\":[%d],\"r\":[%d,%d]}]}", st, WIFEXITED(ws) ? WEXITSTATUS(ws) : 1000 + WTERMSIG(ws), held);
        J_end();
    }
    _exit(0);
}
