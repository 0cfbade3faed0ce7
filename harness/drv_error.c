#include "vf.h"
#include "acct.h"
#include <libcork/core.h>
#include <libcork/ds.h>
#include <libcork/os.h>
/* the error conditions of any number of threads, with messages of any length: the threads
 * take turns, each step being done by the one whose number it starts with (1: the main
 * thread; the others start when they are first mentioned, and end at the next reset) */
#include <libcork/threads.h>
#include <pthread.h>
#include <semaphore.h>
static unsigned long long base;
static void set_v(cork_error c, const char *f, ...) { va_list ap; va_start(ap, f); cork_error_set_vprintf(c, f, ap); va_end(ap); }
static void pre_v(const char *f, ...) { va_list ap; va_start(ap, f); cork_error_prefix_vprintf(f, ap); va_end(ap); }
static void out_bytes(const char *s) { bool first = true; fputc('[', vf_out); for (; s && *s; s++) { fprintf(vf_out, first ? "%u" : ",%u", (unsigned char) *s); first = false; } fputc(']', vf_out); }
static void unknown_here(void) { cork_unknown_error(); }
static int fails(int k)
{
    struct cork_ipv4 v4; struct cork_ipv6 v6; struct cork_ip ip; struct cork_slice sl, s2; struct cork_buffer b = CORK_BUFFER_INIT(); struct cork_path_list *pl; int rc; char buf[4] = "abc";
    struct cork_stream_consumer *dummy = NULL;
    switch (k) {
        case 0: return cork_ipv4_init(&v4, "1.2.3");
        case 1: return cork_ipv6_init(&v6, "1:2");
        case 2: return cork_ip_init(&ip, "nope");
        case 3: cork_slice_init_static(&sl, buf, 3); return cork_slice_copy(&s2, &sl, 2, 2);
        case 4: rc = cork_timestamp_format_utc(0, "%Q", &b); cork_buffer_done(&b); return rc;
        case 5: pl = cork_path_list_new("/nonexistent-vf:/nonexistent-vf2"); { struct cork_file *f = cork_path_list_find_file(pl, "x"); rc = f == NULL ? -1 : 0; if (f) cork_file_free(f); } cork_path_list_free(pl); return rc;
        case 6: return cork_consume_file_from_path(dummy, "/nonexistent-vf", 0);
        case 7: cork_slice_init_static(&sl, buf, 3); return cork_slice_slice(&sl, 4, 1);
        case 8: return cork_walk_directory("/nonexistent-vf", NULL);
        case 9: { struct cork_file *f = cork_file_new("/nonexistent-vf"); rc = cork_file_remove(f, 0); cork_file_free(f); return rc; }
        case 10: { struct cork_file *f = cork_file_new("/nonexistent-vf/a"); rc = cork_file_mkdir(f, 0755, 0); cork_file_free(f); return rc; }
        /* the conditions that have macros of their own */
        case 11: cork_parse_error("bad %s at %d", "token", 7); return cork_error_code() == CORK_PARSE_ERROR && strcmp(cork_error_message(), "bad token at 7") == 0 ? -1 : 0;
        case 12: cork_redefined("twice: %s", "x%y"); return cork_error_code() == CORK_REDEFINED && strcmp(cork_error_message(), "twice: x%y") == 0 ? -1 : 0;
        case 13: cork_undefined("no %c%c", 'a', 'b'); return cork_error_code() == CORK_UNDEFINED && strcmp(cork_error_message(), "no ab") == 0 ? -1 : 0;
        case 14: cork_system_error_set_explicit(ENOTDIR); return cork_error_code() == ENOTDIR && strcmp(cork_error_message(), strerror(ENOTDIR)) == 0 ? -1 : 0;
        case 15: errno = ENOSPC; cork_system_error_set(); return cork_error_code() == ENOSPC && strcmp(cork_error_message(), strerror(ENOSPC)) == 0 ? -1 : 0;
        case 16: cork_unknown_error(); return cork_error_code() == CORK_UNKNOWN_ERROR ? -1 : 0;
    }
    VF_DIE("fails %d", k);
}
static int works(int k)
{
    struct cork_ipv4 v4; struct cork_ipv6 v6; struct cork_ip ip; struct cork_slice sl, s2; struct cork_buffer b = CORK_BUFFER_INIT(); int rc; char buf[4] = "abc"; bool ex;
    switch (k) {
        case 0: return cork_ipv4_init(&v4, "1.2.3.4");
        case 1: return cork_ipv6_init(&v6, "1::2");
        case 2: return cork_ip_init(&ip, "::1") || cork_ip_init(&ip, "9.8.7.6");
        case 3: cork_slice_init_static(&sl, buf, 3); return cork_slice_copy(&s2, &sl, 2, 1);
        case 4: rc = cork_timestamp_format_utc(0, "%Y", &b); cork_buffer_done(&b); return rc;
        case 5: { struct cork_file *f = cork_file_new("/nonexistent-vf"); rc = cork_file_exists(f, &ex) || ex; cork_file_free(f); return rc; }
        case 6: { struct cork_file *f = cork_file_new("/nonexistent-vf"); rc = cork_file_remove(f, CORK_FILE_PERMISSIVE); cork_file_free(f); return rc; }
        case 7: cork_slice_init_static(&sl, buf, 3); return cork_slice_slice(&sl, 3, 0);
    }
    VF_DIE("works %d", k);
}
static int fresh_bad;
static void step(int who)
{
    int two = vf_int(); if (two != 2) VF_DIE("code");
    unsigned long hi = vf_int(), lo = vf_int(); cork_error c = hi << 16 | lo;
    size_t l; char *s = vf_str(&l); int x = vf_more() ? vf_int() : 0, bad = 0; char tmp[200]; const char *text = s; long blocks = acct_blocks;
    const char *m = cork_error_message(); if (!m) m = "";
    if (vf_is("str")) cork_error_set_string(c, s); else if (vf_is("fmt")) cork_error_set_printf(c, "%s", s);
    else if (vf_is("vfmt")) set_v(c, "%.*s%s", (int) (l / 2), s, s + l / 2);
    else if (vf_is("dep")) cork_error_set(c, x, "%s", s);
    else if (vf_is("self")) cork_error_set_printf(c, "%s%s", s, m);
    else if (vf_is("selftail")) cork_error_set_string(c, m + (strlen(m) - strlen(m) / 2));
    else if (vf_is("sys")) { c = hi << 16 | lo; if (x) { errno = c; cork_system_error_set(); } else cork_system_error_set_explicit(c); text = strerror(c); }
    else if (vf_is("unknown")) { unknown_here(); text = "Unknown error in unknown_here"; }
    else if (vf_is("prestr")) cork_error_prefix_string(s); else if (vf_is("prefmt")) cork_error_prefix_printf("%s", s);
    else if (vf_is("depre")) { if (x) pre_v("%s", s); else cork_error_prefix("%s", s); }
    else if (vf_is("preself")) cork_error_prefix_printf("%s%s", m, s);
    else if (vf_is("clear")) cork_error_clear(); else if (vf_is("get")) ;
    else if (vf_is("fails")) { bad = fails(x) == 0; c = cork_error_code(); strncpy(tmp, cork_error_message() ? cork_error_message() : "", 199); tmp[199] = 0; text = tmp; }
    else if (vf_is("works")) bad = works(x) != 0;
    else VF_DIE("op %s", vf_op);
    if (acct_blocks != blocks) bad = 1;               /* nothing but the two message buffers, which exist already */
    /* hints: the arguments as the specification sees them */
    fprintf(vf_out, "{\"a\":[%d,[%u,%u],", who, c >> 16, c & 0xffff); out_bytes(text);
    unsigned k = cork_error_code();
    fprintf(vf_out, ",%d],\"r\":[%d,[%u,%u],", x, bad || fresh_bad ? 99 : cork_error_occurred(), k >> 16, k & 0xffff); out_bytes(cork_error_message());
    fprintf(vf_out, "],\"s\":[]}\n");
    free(s);
}
#define MAXT 300
static struct w { sem_t go, done; int n, quit, live, kind; pthread_t p; struct cork_thread *c; } ws[MAXT];
static void *worker(void *ud)
{
    struct w *w = ud;
    /* a new thread has no error, whatever the others have */
    fresh_bad |= cork_error_occurred() || cork_error_code() != CORK_ERROR_NONE || (cork_error_message() && cork_error_message()[0] != 0);
    acct_warm(); cork_error_clear();
    sem_post(&w->done);
    for (;;) {
        sem_wait(&w->go);
        if (w->quit) return NULL;
        step(w->n);
        sem_post(&w->done);
    }
}
static int cworker(void *ud) { worker(ud); return 0; }
static unsigned made;
static void on(int t)
{
    if (t == 1) { step(1); return; }
    if (t < 2 || t >= MAXT) VF_DIE("thread %d", t);
    struct w *w = &ws[t];
    if (!w->live) {
        sem_init(&w->go, 0, 0); sem_init(&w->done, 0, 0); w->n = t; w->quit = 0; w->live = 1; w->kind = made++ % 2;
        if (w->kind) { w->c = cork_thread_new("worker", w, NULL, cworker); cork_thread_start(w->c); } else pthread_create(&w->p, NULL, worker, w);
        sem_wait(&w->done);
    }
    sem_post(&w->go); sem_wait(&w->done);
}
static void end_all(void)
{
    for (int t = 2; t < MAXT; t++) if (ws[t].live) {
        ws[t].quit = 1; sem_post(&ws[t].go);
        if (ws[t].kind) cork_thread_join(ws[t].c); else pthread_join(ws[t].p, NULL);
        ws[t].live = 0;
    }
}
int main(void)
{
    vf_init(); acct_install();
    acct_warm();
    while (vf_next()) {
        if (vf_is("reset")) { end_all(); cork_error_clear(); fprintf(vf_out, "{\"r\":[],\"s\":[]}\n"); continue; }
        on(vf_int());
    }
    fflush(vf_out); _exit(acct_bad ? 97 : 0);
}
