#define _GNU_SOURCE 1
#include "vf.h"
#include <pthread.h>
#include <libcork/core.h>
#include <libcork/ds.h>
#include <libcork/threads.h>
#include "vsched.h"
/* "explore <kind> maxpre maxruns seed nthreads { nops { op args.. } }": runs the
 * threads' scripts under many schedules; thread 0 is the main thread, which
 * starts the others first and joins them last. */
#define MAXT 8
#define MAXO 40
struct op { char name[12]; int n; long a[6]; char *s; };
static struct op sc[MAXT][MAXO]; static int no[MAXT], nt; static char kind[16];
static void *a_xmalloc(const struct cork_alloc *a, size_t n) { return sc_alloc(n); }
static void a_free(const struct cork_alloc *a, void *p, size_t n) { sc_release(p, n); }
static void hexs(char *out, const char *s) { int n = 0; out[0] = 0; for (; s && *s && n < 95; s++, n++) out += sprintf(out, n ? ",%u" : "%u", (unsigned char) *s); }
static int is(struct op *o, const char *s) { return strcmp(o->name, s) == 0; }
#define LO(x) ((unsigned) (x) & 0xffff)
#define HI(x) (((unsigned) (x) >> 16) & 0xffff)
/* ------------------------------------------------------------------- errors */
static void ev_err(int t, struct op *o)
{
    char m[400], a[400]; hexs(m, cork_error_message()); hexs(a, o->s ? o->s : "");
    unsigned c = cork_error_code();
    sc_event("{\"op\":\"%s\",\"a\":[%d,[%u,%u],[%s],0],\"r\":[%d,[%u,%u],[%s]]}", o->name, t + 1, HI(o->a[0]), LO(o->a[0]), a, cork_error_occurred(), HI(c), LO(c), m);
}
static void do_err(int t, struct op *o)
{
    if (is(o, "str")) cork_error_set_string(o->a[0], o->s);
    else if (is(o, "fmt")) cork_error_set_printf(o->a[0], "%s", o->s);
    else if (is(o, "self")) { const char *m = cork_error_message(); cork_error_set_printf(o->a[0], "%s%s", o->s, m ? m : ""); }
    else if (is(o, "prestr")) cork_error_prefix_string(o->s);
    else if (is(o, "prefmt")) cork_error_prefix_printf("%s", o->s);
    else if (is(o, "clear")) cork_error_clear();
    else if (is(o, "get")) ;
    else VF_DIE("err op %s", o->name);
    ev_err(t, o);
}
/* --------------------------------------------------------------------- once */
cork_once_barrier(b0); cork_once_barrier(b1); cork_once_barrier(r0); cork_once_barrier(r1);
static volatile int shared_[4]; static int cnt_[4];
static void through(int t, int b, int again);
static void guarded(int t, int b, int again)
{
    sc_event("{\"op\":\"begin\",\"a\":[%d,%d],\"r\":0}", t + 1, b);
    shared_[b] = 1; sc_point(); shared_[b] = 2; sc_point();
    if (again > 0) through(t, b, again - 1);
    if (again < 0) through(t, b == 2 ? 3 : 1, 0);
    sc_event("{\"op\":\"end\",\"a\":[%d,%d],\"r\":0}", t + 1, b);
    shared_[b] = 3;
}
static void through(int t, int b, int again)
{
    sc_event("{\"op\":\"enter\",\"a\":[%d,%d],\"r\":0}", t + 1, b);
    switch (b) {
        case 0: cork_once(b0, guarded(t, b, again)); break;
        case 1: cork_once(b1, guarded(t, b, again)); break;
        case 2: cork_once_recursive(r0, guarded(t, b, again)); break;
        case 3: cork_once_recursive(r1, guarded(t, b, again)); break;
    }
    sc_event("{\"op\":\"pass\",\"a\":[%d,%d],\"r\":0}", t + 1, b);
}
/* ------------------------------------------------------------------ atomics */
static volatile int vi; static volatile unsigned vu; static volatile size_t vs; static char *volatile vp; static char anchor[64];
static void limbs(char *out, unsigned long v, int n) { int i; out[0] = 0; for (i = n - 1; i >= 0; i--) out += sprintf(out, i == n - 1 ? "%lu" : ",%lu", (v >> (16 * i)) & 0xffff); }
static void do_atomic(int t, struct op *o)
{
    char ty = o->name[0]; const char *f = o->name + 1; int n = ty == 'i' || ty == 'u' ? 2 : 4;
    unsigned long x = o->a[0], y = o->a[1], r = 0; char bx[64], by[64], br[64];
    limbs(bx, x, n); limbs(by, y, n);
    sc_event("{\"op\":\"call\",\"a\":[%d,\"%c\",\"%s\",[%s],[%s]],\"r\":[]}", t + 1, ty, f, bx, by);
#define OPS(P, V, T) \
    if (!strcmp(f, "add")) r = (T) P##_atomic_add(&V, (T) x); else if (!strcmp(f, "padd")) r = (T) P##_atomic_pre_add(&V, (T) x); \
    else if (!strcmp(f, "sub")) r = (T) P##_atomic_sub(&V, (T) x); else if (!strcmp(f, "psub")) r = (T) P##_atomic_pre_sub(&V, (T) x); \
    else if (!strcmp(f, "cas")) r = (T) P##_cas(&V, (T) x, (T) y); else VF_DIE("atomic %s", f);
    if (ty == 'i') { OPS(cork_int, vi, int) } else if (ty == 'u') { OPS(cork_uint, vu, unsigned) } else if (ty == 's') { OPS(cork_size, vs, size_t) }
    else r = (unsigned long) cork_ptr_cas(&vp, (char *) x, (char *) y);
    limbs(br, r, n);
    sc_event("{\"op\":\"ret\",\"a\":[%d],\"r\":[%s]}", t + 1, br);
}
/* ------------------------------------------------------------------ threads */
static struct cork_thread *th[MAXT]; static pthread_t raw[MAXT]; struct tud { int i; volatile int done, freed; }; static struct tud tu[MAXT];
static int run_script(int t);
static void ud_free(void *u) { struct tud *x = u; sc_event("{\"op\":\"freeud\",\"a\":[%d],\"r\":%d}", x->i, x->freed); x->freed++; }
static int rcs[MAXT];
static int body(void *u)
{
    struct tud *x = u; int i = x->i;
    sc_event("{\"op\":\"begin\",\"a\":[%d],\"r\":[%d,%u]}", i, cork_current_thread_get() == th[i] && x == &tu[i] && !x->freed, cork_current_thread_get_id());
    run_script(i);
    x->done = 1;
    char m[400]; hexs(m, cork_error_message()); unsigned c = cork_error_code();
    sc_event("{\"op\":\"end\",\"a\":[%d,%d,[%u,%u],[%s]],\"r\":[%u]}", i, rcs[i], HI(c), LO(c), m, cork_current_thread_get_id());
    return rcs[i];
}
static void *rawbody(void *u) { run_script((int) (intptr_t) u); return NULL; }
static void do_thread(int t, struct op *o)
{
    int i = o->a[0];
    if (is(o, "new")) {
        char nm[400]; hexs(nm, o->s);
        tu[i].i = i; th[i] = cork_thread_new(o->s, &tu[i], o->a[1] ? ud_free : NULL, body);
        const char *n = cork_thread_get_name(th[i]);
        sc_event("{\"op\":\"new\",\"a\":[%d,%ld,[%s]],\"r\":[%u,%d]}", i, o->a[1], nm, cork_thread_get_id(th[i]), strcmp(n, o->s) == 0 && n != o->s);
    } else if (is(o, "start")) {
        sc_event("{\"op\":\"start\",\"a\":[%d,%ld],\"r\":0}", i, o->a[1]);
        sc_fail_create = o->a[1];
        int rc = cork_thread_start(th[i]); unsigned c = o->a[1] ? cork_error_code() : 0;
        sc_event("{\"op\":\"started\",\"a\":[%d,%ld],\"r\":[%d,[%u,%u]]}", i, o->a[1], rc, HI(c), LO(c));
        if (o->a[1]) cork_error_clear();
    } else if (is(o, "join")) {
        int rc = cork_thread_join(th[i]); char m[400]; hexs(m, cork_error_message()); unsigned c = cork_error_code();
        sc_event("{\"op\":\"join\",\"a\":[%d],\"r\":[%d,[%u,%u],[%s],%d]}", i, rc, HI(c), LO(c), m, tu[i].done);
        cork_error_clear();
    } else if (is(o, "free")) { sc_event("{\"op\":\"free\",\"a\":[%d],\"r\":0}", i); cork_thread_free(th[i]); sc_event("{\"op\":\"freed\",\"a\":[%d],\"r\":0}", i);
    } else if (is(o, "id")) { sc_event("{\"op\":\"id\",\"a\":[%d],\"r\":[%u,%d]}", t + 1, cork_current_thread_get_id(), cork_current_thread_get() == NULL);
    } else if (is(o, "err")) { cork_error_set_string(o->a[0], o->s);
    } else if (is(o, "rc")) { rcs[t] = o->a[0];
    } else if (is(o, "raw")) { pthread_create(&raw[i], NULL, rawbody, (void *) (intptr_t) i);
    } else if (is(o, "rawjoin")) { pthread_join(raw[i], NULL);
    } else VF_DIE("thread op %s", o->name);
}
/* ---------------------------------------------------------- managed buffers */
static struct cork_managed_buffer *mb; static char mbdata[8]; static volatile int mbfreed; static struct cork_slice msl[MAXT][4];
static void mb_free(void *b, size_t n) { mbfreed++; sc_event("{\"op\":\"free\",\"a\":[],\"r\":[%d,%zu]}", b == mbdata, n); }
static void do_mb(int t, struct op *o)
{
    int k = o->a[0];
    if (is(o, "ref")) { cork_managed_buffer_ref(mb); sc_event("{\"op\":\"ref\",\"a\":[%d],\"r\":[]}", t + 1);
    } else if (is(o, "unref")) { sc_event("{\"op\":\"unref\",\"a\":[%d],\"r\":[]}", t + 1); cork_managed_buffer_unref(mb);
    } else if (is(o, "slice")) { int rc = cork_managed_buffer_slice(&msl[t][k], mb, o->a[1], o->a[2]); if (rc) cork_error_clear(); sc_event("{\"op\":\"slice\",\"a\":[%d,%d,%ld,%ld],\"r\":[%d]}", t + 1, k + 1, o->a[1], o->a[2], rc);
    } else if (is(o, "copy")) { int rc = cork_slice_copy(&msl[t][k], &msl[t][o->a[1]], 0, msl[t][o->a[1]].size); sc_event("{\"op\":\"copy\",\"a\":[%d,%d,%ld],\"r\":[%d]}", t + 1, k + 1, o->a[1] + 1, rc);
    } else if (is(o, "finish")) { sc_event("{\"op\":\"finish\",\"a\":[%d,%d],\"r\":[]}", t + 1, k + 1); cork_slice_finish(&msl[t][k]);
    } else if (is(o, "read")) { sc_event("{\"op\":\"read\",\"a\":[%d],\"r\":[%d]}", t + 1, mb->buf == mbdata && mb->size == 8 && !mbfreed);
    } else VF_DIE("mb op %s", o->name);
}
static int run_script(int t)
{
    for (int i = 0; i < no[t]; i++) {
        struct op *o = &sc[t][i];
        if (!strcmp(kind, "err")) do_err(t, o);
        else if (!strcmp(kind, "once")) { if (is(o, "t")) through(t, o->a[0], o->a[1]); }
        else if (!strcmp(kind, "atomic")) do_atomic(t, o);
        else if (!strcmp(kind, "thread")) do_thread(t, o);
        else if (!strcmp(kind, "mb")) do_mb(t, o);
        else VF_DIE("kind %s", kind);
    }
    return 0;
}
static void *tmain(void *v) { run_script((int) (intptr_t) v); return NULL; }
static void atend(void) { /* without __thread the main thread's blocks are released by nobody */ sc_event("{\"op\":\"exit\",\"a\":[],\"r\":%ld}", CORK_CONFIG_HAVE_THREAD_STORAGE_CLASS ? sc_live() : 0L); }
static void body_main(void)
{
    pthread_t p[MAXT];
    if (!strcmp(kind, "mb")) { memcpy(mbdata, "abcdefgh", 8); mb = cork_managed_buffer_new(mbdata, 8, mb_free); for (int t = 1; t < nt; t++) cork_managed_buffer_ref(mb); }     /* one reference for each thread */
    if (strcmp(kind, "thread")) {
        for (int t = 1; t < nt; t++) pthread_create(&p[t], NULL, tmain, (void *) (intptr_t) t);
        run_script(0);
        for (int t = 1; t < nt; t++) pthread_join(p[t], NULL);
        if (!strcmp(kind, "atomic")) {
            char b[4][64]; limbs(b[0], vi, 2); limbs(b[1], vu, 2); limbs(b[2], vs, 4); limbs(b[3], (unsigned long) vp, 4);
            sc_event("{\"op\":\"final\",\"a\":[],\"r\":[[%s],[%s],[%s],[%s]]}", b[0], b[1], b[2], b[3]);
        }
    } else run_script(0);
}
int main(int argc, char **argv)
{
    vf_init();
    atexit(atend);                         /* runs after the library's own cleanup functions */
    struct cork_alloc *a = cork_alloc_new_alloc(cork_allocator);
    cork_alloc_set_xmalloc(a, a_xmalloc); cork_alloc_set_free(a, a_free); cork_set_allocator(a);
    while (vf_next()) {
        size_t l; char *k = vf_str(&l); strncpy(kind, k, 15);
        int maxpre = vf_int(), maxruns = vf_int(), seed = vf_int(); nt = vf_int();
        vi = vf_int(); vu = vi; vs = vi; vp = (char *) (long) vi;
        for (int t = 0; t < nt; t++) {
            no[t] = vf_int();
            for (int i = 0; i < no[t]; i++) {
                struct op *o = &sc[t][i]; memset(o, 0, sizeof *o);
                strncpy(o->name, vf_str(&l), 11);
                o->n = vf_int(); for (int q = 0; q < o->n; q++) o->a[q] = vf_int();
                o->s = vf_str(&l);
            }
        }
        sc_explore(body_main, maxpre, maxruns, seed);
    }
    _exit(0);
}
