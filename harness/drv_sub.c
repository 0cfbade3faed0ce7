#define _GNU_SOURCE 1
#include "vf.h"
#include "acct.h"
#include <dirent.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <libcork/core.h>
#include <libcork/ds.h>
#include <libcork/os.h>
/* Real children, run by the library, that follow scripts.  Parent and children
 * log into shared memory; the order of the log is that of an atomic counter
 * taken before each effect (so a log entry precedes what it causes). */
#define PAT (8 << 20)
#define MAXEV 60000
#define MAXK 6
enum { NEW = 1, CALL, RET, W, WD, C, X, RD, SEND, END, FAULT, DATA, EOFS, INH, HANG, LV, CD, RFAULT };
struct ent { int ready, op, a[6], cells[MAXK], r[3]; };
struct shm { int next, flag[32], pid[MAXK + 1], desc[MAXK + 1], gone[MAXK + 1], lv[MAXK + 1]; struct ent e[MAXEV]; };
static struct shm *sh; static int shfd; static unsigned char *pat; static int nk; static int *cellp[MAXK + 1]; static int cell[MAXK + 1];
static const char *names[] = { "", "new", "call", "ret", "w", "wd", "c", "x", "rd", "send", "end", "fault", "data", "eof", "inh", "hang", "lv", "cd", "rfault" };
static const char *jobs[] = { "", "start", "drain", "wait", "fin", "abort", "send", "end" };
static void L(int op, int a, int b, int c, int d, int e, int f)
{
    int i = __atomic_fetch_add(&sh->next, 1, __ATOMIC_SEQ_CST);
    if (i >= MAXEV) return;
    struct ent *x = &sh->e[i];
    x->op = op; x->a[0] = a; x->a[1] = b; x->a[2] = c; x->a[3] = d; x->a[4] = e; x->a[5] = f;
    __atomic_store_n(&x->ready, 1, __ATOMIC_SEQ_CST);
}
static void LR(int job, int i, int r0, int r1, int r2)
{
    int n = __atomic_fetch_add(&sh->next, 1, __ATOMIC_SEQ_CST);
    if (n >= MAXEV) return;
    struct ent *x = &sh->e[n];
    x->op = RET; x->a[0] = job; x->a[1] = i; x->r[0] = r0; x->r[1] = r1; x->r[2] = r2;
    for (int k = 1; k <= nk; k++) x->cells[k - 1] = cell[k];
    __atomic_store_n(&x->ready, 1, __ATOMIC_SEQ_CST);
}
static unsigned char *base(int kid, int st) { return pat + (kid * 3 + st) * 300007; }
static int at(int kid, int st, const void *b, size_t n, long expect) { return memcmp(b, base(kid, st) + expect, n) == 0 ? expect : -1; }
pid_t __real_fork(void);
/* ------------------------------------------------------------- children */
static long sys_write(int fd, const void *b, size_t n) { ssize_t k; do k = write(fd, b, n); while (k < 0 && errno == EINTR); return k; }
static int follow(int kid, const int *sc, int n, int code)
{
    long off[3] = { 0, 0, 0 }; char buf[5000];
    bool left = false;
    sh->pid[kid] = getpid();
    for (int i = 0; i < n; ) {
        int op = sc[i++];
        if (op == 1) {
            int st = sc[i++], len = sc[i++];
            L(W, kid, st, off[st], len, 0, 0);
            for (long k = 0; k < len; ) { long w = sys_write(st, base(kid, st) + off[st] + k, len - k); if (w < 0) _exit(71); k += w; }
            off[st] += len;
            L(WD, kid, st, 0, 0, 0, 0);
        } else if (op == 2) { int st = sc[i++]; L(C, kid, st, 0, 0, 0, 0); close(st); if (st == 0) L(CD, kid, 0, 0, 0, 0, 0); }
        else if (op == 3 || op == 4) {
            long want = op == 3 ? sc[i++] : 1 << 30;
            while (want > 0) {
                ssize_t k = read(0, buf, want < 5000 ? want : 5000);
                if (k < 0) { if (errno == EINTR) continue; _exit(72); }
                L(RD, kid, at(kid, 0, buf, k, off[0]), k, 0, 0, 0);
                if (k == 0) break;
                off[0] += k; want -= k;
            }
        } else if (op == 5) __atomic_store_n(&sh->flag[sc[i++]], 1, __ATOMIC_SEQ_CST);
        else if (op == 6) { int f = sc[i++]; while (!__atomic_load_n(&sh->flag[f], __ATOMIC_SEQ_CST)) usleep(200); }
        else if (op == 7) usleep(sc[i++]);
        else if (op == 8) {                                /* exit, leaving the rest to a descendant */
            pid_t p = left ? 0 : (sh->lv[kid] = 1, L(LV, kid, 0, 0, 0, 0, 0), __real_fork());
            if (p != 0) return p < 0 ? 75 : code;
            left = true; sh->desc[kid] = getpid();
        }
        else _exit(73);
    }
    L(X, kid, 0, 0, 0, 0, 0);
    if (left) { __atomic_store_n(&sh->gone[kid], 1, __ATOMIC_SEQ_CST); _exit(0); }
    return code;
}
struct kid { int no, mode, n, code; int *sc; };
static int body(void *u) { struct kid *k = u; prctl(PR_SET_PDEATHSIG, SIGKILL); return follow(k->no, k->sc, k->n, k->code); }
static void bfree(void *u) { struct kid *k = u; k->no = -1; }
static void load_pat(void) { pat = malloc(PAT); unsigned x = 12345; for (int i = 0; i < PAT; i++) { x = x * 1103515245u + 12345u; pat[i] = x >> 16; } }
static int child_main(int argc, char **argv)
{
    int kid = atoi(argv[3]), code = atoi(argv[4]), n = argc - 5; int *sc = malloc((n + 1) * sizeof(int));
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    for (int i = 0; i < n; i++) sc[i] = atoi(argv[5 + i]);
    sh = mmap(NULL, sizeof(struct shm), PROT_READ | PROT_WRITE, MAP_SHARED, atoi(argv[2]), 0);
    if (sh == MAP_FAILED) _exit(74);
    load_pat();
    _exit(follow(kid, sc, n, code));
}
/* ---------------------------------------------------------------- parent */
struct cons { struct cork_stream_consumer c; int kid, st; long got, failat; int eoffail; };
static struct cons cs[MAXK + 1][3];
static int cdata(struct cork_stream_consumer *c, const void *b, size_t n, bool first)
{
    struct cons *x = (struct cons *) c; int ans = x->failat >= 0 && x->got + (long) n >= x->failat ? -1 : 0;
    L(DATA, x->kid, x->st, at(x->kid, x->st, b, n, x->got), n, first, ans);
    x->got += n; if (ans) cork_error_set_string(777, "data"); else errno = 0;
    return ans;
}
static int ceof(struct cork_stream_consumer *c)
{
    struct cons *x = (struct cons *) c;
    L(EOFS, x->kid, x->st, x->eoffail, 0, 0, 0);
    if (x->eoffail) cork_error_set_string(778, "eof");
    return x->eoffail;
}
static void cfree(struct cork_stream_consumer *c) { }
static int failfork, failpipe, forks, pipes, curkid; static struct cork_subprocess *sub[MAXK + 1];
static bool inlib;
pid_t __real_fork(void); int __real_pipe(int *); static int pipes_of_kid[MAXK + 1], starting, single;
/* pipes: 1 for stdin, one per consumer; the count tells which kid is being started */
static int npipes[MAXK + 1];
static int kid_of_pipe(int n) { if (single) return single; for (int k = 1, t = 0; k <= nk; k++) { t += npipes[k]; if (n <= t) return k; } return nk; }
pid_t __wrap_fork(void) { if (inlib && ++forks == failfork) { L(FAULT, single ? single : forks, 0, 0, 0, 0, 0); errno = EAGAIN; return -1; } return __real_fork(); }
int __wrap_pipe(int *p) { if (inlib && ++pipes == failpipe) { L(FAULT, kid_of_pipe(pipes), 0, 0, 0, 0, 0); errno = EMFILE; return -1; } return __real_pipe(p); }
/* the n-th read of the library while it drains fails */
static int failread; static bool reading; ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int fd, void *b, size_t n) { if (reading && failread > 0 && --failread == 0) { L(RFAULT, 0, 0, 0, 0, 0, 0); errno = EIO; return -1; } return __real_read(fd, b, n); }
static int eintr; pid_t __real_waitpid(pid_t, int *, int);
/* lagging: the child gets the time to go on between the parent's reads and its look at whether the child has exited */
static bool lagging;
pid_t __wrap_waitpid(pid_t p, int *st, int fl) { for (int i = 0; lagging && p > 0 && i < 10; i++) { siginfo_t si = { 0 }; if (waitid(P_PID, p, &si, WEXITED | WNOWAIT | WNOHANG) || si.si_pid) break; usleep(300); }  if (eintr > 0) { eintr--; errno = EINTR; return -1; } return __real_waitpid(p, st, fl); }
static int nfds(void) { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static volatile int hung; static volatile bool watching; static int running;
static void *watchdog(void *u)
{
    int last = -1, idle = 0;
    sigset_t all; sigfillset(&all); pthread_sigmask(SIG_BLOCK, &all, NULL);
    for (;;) {
        usleep(100000);
        if (!watching) { last = -1; idle = 0; continue; }
        int now = __atomic_load_n(&sh->next, __ATOMIC_SEQ_CST);
        if (now != last) { last = now; idle = 0; continue; }
        if (++idle == 120) { hung = 1; L(HANG, 0, 0, 0, 0, 0, 0); for (int k = 1; k <= MAXK; k++) { if (sh->pid[k]) kill(sh->pid[k], SIGKILL); if (sh->desc[k]) kill(sh->desc[k], SIGKILL); } last = -1; idle = 60; }
        if (hung && idle > 110) _exit(96);
    }
    return NULL;
}
static void onalarm(int s) { }
static void tick(bool on) { struct itimerval it = { { 0, on ? 3000 : 0 }, { 0, on ? 3000 : 0 } }; setitimer(ITIMER_REAL, &it, NULL); }
static __attribute__((noinline)) void dirty(void) { volatile char b[2048]; memset((char *) b, 0xff, sizeof b); __asm__ volatile("" ::"r"(b) : "memory"); }
static int alive(int i) { int n = 0; for (int k = 1; k <= nk; k++) if ((i == 0 || i == k) && sh->pid[k] && kill(sh->pid[k], 0) == 0) n++; return n; }
int main(int argc, char **argv)
{
    if (argc > 2 && strcmp(argv[1], "child") == 0) return child_main(argc, argv);
    vf_init(); acct_install(); acct_warm(); load_pat();
    shfd = memfd_create("vfshm", 0); if (ftruncate(shfd, sizeof(struct shm))) VF_DIE("shm");
    sh = mmap(NULL, sizeof(struct shm), PROT_READ | PROT_WRITE, MAP_SHARED, shfd, 0); if (sh == MAP_FAILED) VF_DIE("shm");
    int o1 = memfd_create("o1", 0), o2 = memfd_create("o2", 0), err2 = dup(2);
    signal(SIGPIPE, SIG_IGN); struct sigaction sa = { .sa_handler = onalarm }; sigaction(SIGALRM, &sa, NULL);
    pthread_t wt; pthread_create(&wt, NULL, watchdog, NULL);
    static struct kid kids[MAXK + 1];
    while (vf_next()) {
        if (!vf_is("run")) VF_DIE("op %s", vf_op);
        int ticking = vf_int(); failfork = vf_int(); failpipe = vf_int(); int grouped = vf_int(); nk = vf_int();
        memset(sh, 0, offsetof(struct shm, e)); memset(sh->e, 0, 4096 * sizeof(struct ent)); hung = failread = 0; forks = pipes = 0;
        static int maxn; if (maxn > 4096) memset(sh->e, 0, sizeof sh->e); 
        dup2(o1, 1); dup2(o2, 2); if (ftruncate(o1, 0) || ftruncate(o2, 0)) VF_DIE("trunc"); lseek(o1, 0, SEEK_SET); lseek(o2, 0, SEEK_SET);
        int fds0 = nfds(); long blocks = acct_blocks;
        struct cork_subprocess_group *g = grouped ? cork_subprocess_group_new() : NULL;
        for (int k = 1; k <= nk; k++) {
            struct kid *d = &kids[k]; int has[3], failat[3], eoff[3]; d->no = k; d->mode = vf_int();
            for (int t = 1; t <= 2; t++) { has[t] = vf_int(); failat[t] = vf_int(); eoff[t] = vf_int(); }
            int hc = vf_int(); d->code = vf_int(); int want = vf_int(); d->n = vf_int(); d->sc = calloc(d->n + 1, sizeof(int)); for (int i = 0; i < d->n; i++) d->sc[i] = vf_int();
            cell[k] = -99; npipes[k] = 1;
            struct cork_stream_consumer *cc[3] = { 0, 0, 0 };
            for (int t = 1; t <= 2; t++) if (has[t]) { cs[k][t] = (struct cons) { { cdata, ceof, cfree }, k, t, 0, failat[t], eoff[t] }; cc[t] = &cs[k][t].c; npipes[k]++; }
            L(NEW, k, has[1], has[2], hc, want, 0);
            if (d->mode == 0) sub[k] = cork_subprocess_new(d, bfree, body, cc[1], cc[2], hc ? &cell[k] : NULL);
            else {
                struct cork_exec *x = cork_exec_new(d->mode == 1 ? "/proc/self/exe" : d->mode == 3 ? "/nonexistent/dir/prog" : "vf-no-such-program"); char b[40];
                cork_exec_add_param(x, "vf"); cork_exec_add_param(x, "child");
                snprintf(b, 40, "%d", shfd); cork_exec_add_param(x, b); snprintf(b, 40, "%d", k); cork_exec_add_param(x, b); snprintf(b, 40, "%d", d->code); cork_exec_add_param(x, b);
                for (int i = 0; i < d->n; i++) { snprintf(b, 40, "%d", d->sc[i]); cork_exec_add_param(x, b); }
                sub[k] = cork_subprocess_new_exec(x, cc[1], cc[2], hc ? &cell[k] : NULL);
            }
            if (g) cork_subprocess_group_add(g, sub[k]);
        }
        int n = vf_int(); long sent[MAXK + 1] = { 0 }; watching = true;
        for (int j = 0; j < n && !hung; j++) {
            int op = vf_int(), i = vf_int(), rc;
            if (op == 8) { __atomic_store_n(&sh->flag[i], 1, __ATOMIC_SEQ_CST); continue; }
            if (op == 9) { while (!hung && !__atomic_load_n(&sh->flag[i], __ATOMIC_SEQ_CST)) usleep(200); continue; }
            if (op == 10) { usleep(i); continue; }
            if (op == 12) { failread = i; continue; }
            if (op == 6 || op == 7) {
                int len = op == 6 ? vf_int() : 0; struct cork_stream_consumer *c = cork_subprocess_stdin(sub[i]);
                if (op == 6) {
                    char *b = malloc(len + 1); memcpy(b, base(i, 0) + sent[i], len);
                    L(SEND, i, sent[i], len, 0, 0, 0); if (ticking && ticking != 3) tick(true); rc = cork_stream_consumer_data(c, b, len, sent[i] == 0); tick(false); sent[i] += len; memset(b, 0, len); free(b);
                } else { L(END, i, 0, 0, 0, 0, 0); rc = cork_stream_consumer_eof(c); }
                LR(op, i, rc, rc ? 1 : 0, 0); cork_error_clear();
                continue;
            }
            int again = op == 11; if (again) op = 4;
            for (;;) {
                L(CALL, op, i, 0, 0, 0, 0); lagging = ticking == 3; if (ticking && op != 1 && !lagging) tick(true);
                if (ticking == 2) eintr = op == 5 ? 2 : op == 3 ? 1 : 0;
                reading = op == 2 || op == 3;
                switch (op) {
                  case 1: single = i; inlib = true; rc = i ? cork_subprocess_start(sub[i]) : cork_subprocess_group_start(g); inlib = false; break;
                  case 2: dirty(); rc = i ? cork_subprocess_drain(sub[i]) : cork_subprocess_group_drain(g); break;
                  case 3: rc = i ? cork_subprocess_wait(sub[i]) : cork_subprocess_group_wait(g); break;
                  case 4: rc = i ? cork_subprocess_is_finished(sub[i]) : cork_subprocess_group_is_finished(g); break;
                  case 5: rc = i ? cork_subprocess_abort(sub[i]) : cork_subprocess_group_abort(g); break;
                  default: VF_DIE("parent op %d", op);
                }
                eintr = 0; lagging = reading = false; if (ticking) tick(false);
                int code = cork_error_code(); cork_error_clear();
                LR(op, i, rc, op == 1 ? code != 0 : code, op == 5 || op == 3 || (op == 1 && rc) || (op == 2 && code) ? alive(i) : 0);
                if (!again || hung) break;
                if (op == 4) { if (rc) break; op = 2; } else { op = 4; if (!rc) usleep(300); }
            }
        }
        while (vf_more()) vf_int();
        for (int k = 1; k <= nk; k++) while (!hung && sh->lv[k] && !__atomic_load_n(&sh->gone[k], __ATOMIC_SEQ_CST)) usleep(200);
        watching = false;
        for (int k = 1; k <= nk; k++) cork_stream_consumer_free(cork_subprocess_stdin(sub[k]));
        if (g) cork_subprocess_group_free(g); else for (int k = 1; k <= nk; k++) cork_subprocess_free(sub[k]);
        for (int k = 1; k <= nk; k++) for (int t = 1; t <= 2; t++) {
            bool others = false; for (int q = 1; q <= nk; q++) if (q != k && npipes[q] < 3) others = true;
            if (npipes[k] < 3 && !others && cs[k][t].kid != k) {
                int fd = t == 1 ? o1 : o2; off_t z = lseek(fd, 0, SEEK_END); char *b = malloc(z + 1); if (pread(fd, b, z, 0) != z) VF_DIE("pread");
                L(INH, k, t, at(k, t, b, z, 0) == 0 ? z : -1, 0, 0, 0); free(b);
            }
        }
        for (int k = 0; k <= MAXK; k++) for (int t = 0; t < 3; t++) cs[k][t].kid = 0;
        int zombies = 0, st; pid_t p;
        while ((p = waitpid(-1, &st, WNOHANG)) > 0) zombies++;
        if (p == 0) { zombies += 100; for (int k = 1; k <= nk; k++) if (sh->pid[k]) kill(sh->pid[k], SIGKILL); while (waitpid(-1, &st, 0) > 0); }
        int total = sh->next < MAXEV ? sh->next : MAXEV; maxn = total; dup2(err2, 2);
        if (sh->next > MAXEV) VF_BAD("too many events");
        J("{\"events\":["); int out = 0;
        for (int i = 0; i < total; i++) {
            struct ent *e = &sh->e[i]; if (!e->ready) continue;
            if (out++) J(",");
            int na = (int[]) { 0, 5, 2, 0, 4, 2, 2, 1, 3, 3, 1, 1, 6, 3, 3, 0, 1, 1, 0 }[e->op];
            J("{\"op\":\"%s\",\"a\":[", names[e->op]);
            if (e->op == CALL) J("\"%s\",%d", jobs[e->a[0]], e->a[1]);
            else if (e->op == RET) { J("\"%s\",%d,[", jobs[e->a[0]], e->a[1]); for (int k = 0; k < nk; k++) J(k ? ",%d" : "%d", e->cells[k]); J("]"); }
            else for (int q = 0; q < na; q++) J(q ? ",%d" : "%d", e->a[q]);
            if (e->op == RET) J("],\"r\":[%d,%d,%d]}", e->r[0], e->r[1], e->r[2]); else J("],\"r\":[]}");
        }
        J("%s{\"op\":\"over\",\"a\":[],\"r\":[%d,%d,%ld]}]}\n", out ? "," : "", nfds() - fds0, zombies, acct_blocks - blocks);
        fflush(vf_out);
        for (int k = 1; k <= nk; k++) free(kids[k].sc);
    }
    fflush(vf_out); _exit(acct_bad ? 97 : 0);
}
