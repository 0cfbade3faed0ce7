/* A deterministic scheduler for code compiled with -fsanitize=thread but linked
 * against vsched.c instead of the ThreadSanitizer runtime: real threads, of which
 * exactly one runs at a time.  Every access to memory that two threads use (one
 * of them writing), every atomic operation, and every thread creation and join
 * is a point at which the schedule may switch to another thread. */
#ifndef SCHED_H
#define SCHED_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
void sc_event(const char *fmt, ...);             /* append one JSON event to the log of this run */
void sc_point(void);                             /* an explicit scheduling point */
void *sc_alloc(size_t n); void sc_release(void *p, size_t n);       /* deterministic addresses, checked accesses */
int sc_self(void);
long sc_live(void);                              /* blocks obtained and not released */
extern int sc_fail_create;                      /* the next pthread_create fails with EAGAIN */
/* explore: runs body() under every schedule with at most maxpre preemptions, as
 * long as no more than maxruns runs are needed (then a random sample of them);
 * prints one JSON line per distinct log: {"events": [...], "schedule": [...]} */
void sc_explore(void (*body)(void), int maxpre, int maxruns, unsigned seed);
#endif
