#define _GNU_SOURCE 1
#include "vsched.h"
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <semaphore.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#define MAXT 12
#define MAXSTEP 40000
#define LOGSZ (1 << 16)
#define NCONF (1 << 16)
#define MAXPRE 4
struct conf { uintptr_t w; uint16_t rd, wr; };
struct shared {
    char log[LOGSZ]; int loglen;
    int nsteps; unsigned char cur[MAXSTEP]; uint16_t en[MAXSTEP];
    struct conf conf[NCONF];
    int grew;
};
static struct shared *S;
static bool active; static int nthreads; static __thread int self; static __thread int depth;
static sem_t sem[MAXT]; static bool fin[MAXT], started[MAXT]; static int waits[MAXT]; static pthread_t pt[MAXT];
static int step, since; static long total;
static int npre, pre_at[MAXPRE], pre_to[MAXPRE];
static bool frozen;                       /* the set of conflicting words is fixed during a round */
static unsigned char *frozen_map;

int sc_self(void) { return self; }
void sc_event(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    if (S->loglen < LOGSZ - 1000) {
        if (S->loglen) S->log[S->loglen++] = ',';
        S->loglen += vsnprintf(S->log + S->loglen, 990, fmt, ap);
    }
    va_end(ap);
}
static void die(const char *what) { sc_event("{\"op\":\"%s\",\"a\":[%d],\"r\":0}", what, self); _exit(3); }
static unsigned enabled(void)
{
    unsigned m = 0;
    for (int i = 0; i < nthreads; i++)
        if (started[i] && !fin[i] && (waits[i] < 0 || fin[waits[i]])) m |= 1u << i;
    return m;
}
static void go(int to)
{
    int me = self;
    if (to == me) return;
    since = 0;
    sem_post(&sem[to]);
    while (sem_wait(&sem[me]) != 0) ;
}
/* pick the thread that runs next; choice: is it one the schedule may decide? */
static int next_after(unsigned m, int me) { for (int i = 1; i <= nthreads; i++) { int t = (me + i) % nthreads; if (m & (1u << t)) return t; } return -1; }
static void decide(bool must_switch)
{
    unsigned m = enabled(); int me = self, to = me;
    if (++total > 2000000) die("stuck");
    if (m == 0) die("deadlock");
    if (must_switch || !(m & (1u << me))) { unsigned o = m & ~(1u << me); to = o ? next_after(o, me) : next_after(m, me); }
    if (m & (m - 1)) {
        if (step < MAXSTEP) { S->cur[step] = to; S->en[step] = m; S->nsteps = step + 1; }
        for (int i = 0; i < npre; i++) if (pre_at[i] == step && (m & (1u << pre_to[i]))) to = pre_to[i];
        step++;
    }
    if (to < 0) die("deadlock");
    go(to);
}
static void point(void)
{
    if (!active || depth) return;
    depth++;
    if (++since > 60) decide(true); else decide(false);
    depth--;
}
void sc_point(void) { point(); }
static bool stacky(uintptr_t a)
{
    uintptr_t sp = (uintptr_t) __builtin_frame_address(0), tp = (uintptr_t) pthread_self();
    return (a > sp - 4096 && a < sp + 65536) || (a > tp - 65536 && a < tp + 4096);
}
/* ------------------------------------------------ memory with checked life */
#define ARENA (1 << 20)
#define MAGIC 0x5ca1ab1e
struct hdr { size_t n; uint32_t magic, freed; };
static char *arena; static size_t used[MAXT]; static long live;
static void arena_init(void) { arena = mmap(NULL, (size_t) ARENA * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
static uint16_t *owner;                   /* offset of the block of each 16-byte unit, in units */
void *sc_alloc(size_t n)
{
    if (!arena) arena_init();
    if (!owner) owner = mmap(NULL, (size_t) ARENA / 16 * MAXT * 2, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    size_t need = ((n + 15) / 16 + 2) * 16, o = used[self];
    if (o + need > ARENA) die("nomem");
    struct hdr *h = (struct hdr *) (arena + (size_t) self * ARENA + o);
    h->n = n; h->magic = MAGIC; h->freed = 0;
    for (size_t i = 0; i < need / 16; i++) owner[((size_t) self * ARENA + o) / 16 + i] = i;
    used[self] += need;
    live++;
    for (size_t i = 0; i < n; i++) ((volatile char *) (h + 1))[i] = 0xbe;
    return h + 1;
}
void sc_release(void *p, size_t n)
{
    if (!p) return;
    struct hdr *h = (struct hdr *) p - 1;
    if (h->magic != MAGIC || h->freed) die("badfree");
    if (h->n != n) die("badsize");
    h->freed = 1; live--;
    for (size_t i = 0; i < n; i++) ((volatile char *) p)[i] = 0xdd;
}
long sc_live(void) { return live; }
static void check(uintptr_t a, size_t n)
{
    if (!arena || a < (uintptr_t) arena || a >= (uintptr_t) arena + (size_t) ARENA * MAXT) return;
    size_t u = (a - (uintptr_t) arena) / 16;
    struct hdr *h = (struct hdr *) (arena + (u - owner[u]) * 16);
    if (h->magic != MAGIC) die("wild");
    if (h->freed) die("uaf");
    if (a < (uintptr_t) (h + 1) || a + n > (uintptr_t) (h + 1) + h->n) die("outside");
}
/* ------------------------------------------------- conflicting memory words */
static struct conf *conf_of(uintptr_t w)
{
    unsigned i = (unsigned) ((w * 0x9e3779b97f4a7c15ull) >> 40) % NCONF;
    for (int k = 0; k < 64; k++, i = (i + 1) % NCONF) {
        if (S->conf[i].w == w) return &S->conf[i];
        if (S->conf[i].w == 0) { S->conf[i].w = w; return &S->conf[i]; }
    }
    return NULL;
}
static bool conflicting(struct conf *c) { unsigned all = c->rd | c->wr; return c->wr && (all & (all - 1)); }
static void access_(uintptr_t a, size_t n, bool wr)
{
    if (!active || depth) return;
    if (stacky(a)) return;
    bool pt = false;
    for (uintptr_t w = a >> 3; w <= (a + n - 1) >> 3; w++) {
        struct conf *c = conf_of(w);
        if (!c) { pt = true; continue; }
        bool was = conflicting(c);
        if (wr) c->wr |= 1u << self; else c->rd |= 1u << self;
        if (!was && conflicting(c)) S->grew = 1;
        if (frozen_map ? frozen_map[c - S->conf] : conflicting(c)) pt = true;
    }
    if (pt) point();
    check(a, n);
}
#define RW(n) \
    void __tsan_read##n(void *a) { access_((uintptr_t) a, n, false); } \
    void __tsan_write##n(void *a) { access_((uintptr_t) a, n, true); } \
    void __tsan_unaligned_read##n(void *a) { access_((uintptr_t) a, n, false); } \
    void __tsan_unaligned_write##n(void *a) { access_((uintptr_t) a, n, true); } \
    void __tsan_volatile_read##n(void *a) { access_((uintptr_t) a, n, false); } \
    void __tsan_volatile_write##n(void *a) { access_((uintptr_t) a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { if (n) access_((uintptr_t) a, n, false); }
void __tsan_write_range(void *a, unsigned long n) { if (n) access_((uintptr_t) a, n, true); }
void __tsan_func_entry(void *p) { (void) p; }
void __tsan_func_exit(void) { }
void __tsan_init(void) { }
void __tsan_vptr_update(void **a, void *b) { (void) a; (void) b; }
void __tsan_vptr_read(void **a) { (void) a; }
void __tsan_atomic_thread_fence(int o) { (void) o; point(); }
void __tsan_atomic_signal_fence(int o) { (void) o; }
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *a, int o) { access_((uintptr_t) a, sizeof(T), false); return *a; } \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int o) { access_((uintptr_t) a, sizeof(T), true); *a = v; } \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int o) { access_((uintptr_t) a, sizeof(T), true); T x = *a; *a = v; return x; } \
    T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int o) { access_((uintptr_t) a, sizeof(T), true); T x = *a; *a = x + v; return x; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int o) { access_((uintptr_t) a, sizeof(T), true); T x = *a; *a = x - v; return x; } \
    T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int o) { access_((uintptr_t) a, sizeof(T), true); T x = *a; *a = x & v; return x; } \
    T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int o) { access_((uintptr_t) a, sizeof(T), true); T x = *a; *a = x | v; return x; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int o) { access_((uintptr_t) a, sizeof(T), true); T x = *a; *a = x ^ v; return x; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int o) { access_((uintptr_t) a, sizeof(T), true); T x = *a; *a = ~(x & v); return x; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T v, int o, int p) \
    { access_((uintptr_t) a, sizeof(T), true); T x = *a; if (x == *e) { *a = v; return 1; } *e = x; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T v, int o, int p) \
    { access_((uintptr_t) a, sizeof(T), true); T x = *a; if (x == *e) { *a = v; return 1; } *e = x; return 0; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T v, int o, int p) \
    { access_((uintptr_t) a, sizeof(T), true); T x = *a; if (x == e) *a = v; return x; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
/* ----------------------------------------------------------- libc functions */
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
size_t __real_strlen(const char *); int __real_vsnprintf(char *, size_t, const char *, va_list); int __real_memcmp(const void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (n) { access_((uintptr_t) s, n, false); access_((uintptr_t) d, n, true); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (n) { access_((uintptr_t) s, n, false); access_((uintptr_t) d, n, true); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (n) access_((uintptr_t) d, n, true); return __real_memset(d, c, n); }
size_t __wrap_strlen(const char *s) { access_((uintptr_t) s, 1, false); size_t n = __real_strlen(s); access_((uintptr_t) s, n + 1, false); return n; }
int __wrap_memcmp(const void *a, const void *b, size_t n) { if (n) { access_((uintptr_t) a, n, false); access_((uintptr_t) b, n, false); } return __real_memcmp(a, b, n); }
int __wrap_vsnprintf(char *d, size_t n, const char *f, va_list ap)
{ if (n) access_((uintptr_t) d, 1, true); depth++; int r = __real_vsnprintf(d, n, f, ap); depth--; if (n) access_((uintptr_t) d, (size_t) r + 1 < n ? (size_t) r + 1 : n, true); return r; }
/* ------------------------------------------------------------------ threads */
struct tr { void *(*f)(void *); void *a; int id; };
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
static void *tramp(void *v)
{
    struct tr *t = v; void *(*f)(void *) = t->f; void *a = t->a; self = t->id;
    depth = 1; free(t);
    while (sem_wait(&sem[self]) != 0) ;
    depth = 0;
    void *r = f(a);
    depth++;
    fin[self] = true;
    unsigned m = enabled();
    if (m == 0) { if (active) die("deadlock"); }
    else {
        int to = next_after(m, self);
        if (m & (m - 1)) {
            if (step < MAXSTEP) { S->cur[step] = to; S->en[step] = m; S->nsteps = step + 1; }
            for (int i = 0; i < npre; i++) if (pre_at[i] == step && (m & (1u << pre_to[i]))) to = pre_to[i];
            step++;
        }
        since = 0; sem_post(&sem[to]);
    }
    return r;
}
int sc_fail_create;
int __wrap_pthread_create(pthread_t *p, const pthread_attr_t *at, void *(*f)(void *), void *a)
{
    if (sc_fail_create) { sc_fail_create = 0; return EAGAIN; }
    if (!active) return __real_pthread_create(p, at, f, a);
    if (nthreads >= MAXT) die("toomany");
    depth++;
    struct tr *t = malloc(sizeof *t); t->f = f; t->a = a; t->id = nthreads;
    sem_init(&sem[nthreads], 0, 0); waits[nthreads] = -1; fin[nthreads] = false;
    pthread_t x; int rc = __real_pthread_create(&x, at, tramp, t);
    if (rc == 0) { pt[nthreads] = x; started[nthreads] = true; nthreads++; }
    depth--;
    *p = x;
    if (rc == 0) point();
    return rc;
}
int __wrap_pthread_join(pthread_t p, void **r)
{
    if (active) {
        int t = -1;
        for (int i = 0; i < nthreads; i++) if (started[i] && pthread_equal(pt[i], p)) t = i;
        if (t >= 0) {
            point();
            depth++;
            if (!fin[t]) { waits[self] = t; decide(true); waits[self] = -1; }
            started[t] = false;
            depth--;
        }
    }
    return __real_pthread_join(p, r);
}
int __wrap_pthread_setname_np(pthread_t p, const char *n) { (void) p; (void) n; return 0; }
int __wrap_sched_yield(void) { if (active && !depth) { depth++; decide(true); depth--; } return 0; }
int __wrap_usleep(unsigned us) { (void) us; return __wrap_sched_yield(); }
int __wrap_nanosleep(const void *a, void *b) { (void) a; (void) b; return __wrap_sched_yield(); }
int __real_pthread_mutex_trylock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (!active) return __real_pthread_mutex_trylock(m); point(); int rc; while ((rc = __real_pthread_mutex_trylock(m)) == EBUSY) __wrap_sched_yield(); return rc; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { point(); return __real_pthread_mutex_trylock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int rc = __real_pthread_mutex_unlock(m); point(); return rc; }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { (void) c; __real_pthread_mutex_unlock(m); __wrap_sched_yield(); return __wrap_pthread_mutex_lock(m); }
int __real_pthread_once(pthread_once_t *, void (*)(void));
struct once_st { pthread_once_t *o; int st; };
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void))
{
    static struct once_st os[64]; int i;
    if (!active) return __real_pthread_once(o, f);
    for (i = 0; i < 64 && os[i].o && os[i].o != o; i++) ;
    if (i == 64) die("toomany");
    os[i].o = o;
    point();
    if (os[i].st == 0) { os[i].st = 1; f(); os[i].st = 2; }
    while (os[i].st != 2) __wrap_sched_yield();
    return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { (void) c; return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { (void) c; return 0; }
/* --------------------------------------------------------------- exploration */
static void crash(int s) { (void) s; sc_event("{\"op\":\"crash\",\"a\":[%d],\"r\":%d}", self, s); _exit(3); }
static void one(void (*body)(void))
{
    S->loglen = 0; S->nsteps = 0; S->log[0] = 0;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        int sg[] = { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGALRM };
        for (unsigned i = 0; i < sizeof sg / sizeof *sg; i++) signal(sg[i], crash);
        int nul = open("/dev/null", 1); dup2(nul, 2);
        alarm(30);
        nthreads = 1; self = 0; started[0] = true; waits[0] = -1; sem_init(&sem[0], 0, 0); pt[0] = pthread_self();
        active = true;
        body();
        active = false;
        exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (st != 0 && !(WIFEXITED(st) && WEXITSTATUS(st) == 3)) sc_event("{\"op\":\"died\",\"a\":[],\"r\":%d}", st);
    S->log[S->loglen] = 0;
}
static uint64_t fnv(const char *s) { uint64_t h = 14695981039346656037ull; for (; *s; s++) h = (h ^ (unsigned char) *s) * 1099511628211ull; return h; }
static uint64_t seen[1 << 16]; static int nseen; static int nruns, distinct;
static void report(void)
{
    nruns++;
    uint64_t h = fnv(S->log) | 1; unsigned i = h % (1 << 16);
    while (seen[i]) { if (seen[i] == h) return; i = (i + 1) % (1 << 16); }
    if (nseen > 50000) return;
    seen[i] = h; nseen++; distinct++;
    printf("{\"events\":[%s],\"schedule\":[", S->log);
    for (int k = 0; k < npre; k++) printf(k ? ",[%d,%d]" : "[%d,%d]", pre_at[k], pre_to[k]);
    printf("]}\n");
}
static void freeze(void)
{
    if (!frozen_map) frozen_map = malloc(NCONF);
    for (int i = 0; i < NCONF; i++) frozen_map[i] = S->conf[i].w && conflicting(&S->conf[i]);
    S->grew = 0;
}
struct pre { int n, at[MAXPRE], to[MAXPRE]; };
void sc_explore(void (*body)(void), int maxpre, int maxruns, unsigned seed)
{
    if (!S) { S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
    memset(S->conf, 0, sizeof S->conf); nruns = distinct = 0; nseen = 0; memset(seen, 0, sizeof seen);
    srandom(seed);
    if (frozen_map) { free(frozen_map); frozen_map = NULL; }
    fflush(stdout);
    /* find the conflicting words: run undisturbed, then switch at random places */
    npre = 0; one(body); report();
    for (int k = 0; k < 12; k++) {
        freeze(); npre = 0; one(body); int ns = S->nsteps; if (!ns) break;
        npre = 1; pre_at[0] = random() % ns; pre_to[0] = 0;
        uint16_t m = S->en[pre_at[0]]; do pre_to[0] = random() % MAXT; while (!(m & (1u << pre_to[0])));
        one(body); fflush(stdout);
    }
    static struct pre *q; static int cap; int head = 0, tail = 0, rounds = 0, lvl2 = 0;
again:
    freeze(); head = tail = 0;
    if (!q) { cap = 1 << 18; q = malloc(cap * sizeof *q); }
    q[tail++].n = 0; q[0].n = 0;
    int skipped = 0;
    while (head < tail && nruns < maxruns) {
        /* breadth first by number of preemptions; within the last levels, a random order */
        if (head > 0) { int j = head; int same = head; while (same < tail && q[same].n == q[head].n) { same++; if (same - head > 4096) break; } j = head + random() % (same - head); struct pre t = q[j]; q[j] = q[head]; q[head] = t; }
        struct pre p = q[head++];
        npre = p.n; memcpy(pre_at, p.at, sizeof pre_at); memcpy(pre_to, p.to, sizeof pre_to);
        one(body); report();
        if (p.n < maxpre) {
            int from = p.n ? p.at[p.n - 1] + 1 : 0;
            for (int s = from; s < S->nsteps; s++)
                for (int t = 0; t < MAXT; t++)
                    if ((S->en[s] & (1u << t)) && t != S->cur[s]) {
                        if (tail < cap) { struct pre *x = &q[tail++]; *x = p; x->at[x->n] = s; x->to[x->n] = t; x->n++; } else skipped++;
                    }
        }
    }
    int left = tail - head + skipped;
    if (S->grew && ++rounds < 3 && nruns < maxruns) goto again;
    printf("{\"runs\":%d,\"distinct\":%d,\"left\":%d,\"points\":%d}\n", nruns, distinct, left, lvl2);
    fflush(stdout);
}
