#define _GNU_SOURCE 1
#include "vf.h"
#include <sys/wait.h>
#include <libcork/core.h>
#include <libcork/helpers/errors.h>
#include <libcork/helpers/posix.h>
/* Chains of functions, each with one checked call; see specs/Checked.tla. */
#define MAXL 8
static const char *names[] = { "ee", "ei", "ep", "xe", "xi", "xp", "rie", "rii", "rip", "rpe", "rpi", "rpp", "ei_posix", "ep_posix", "rii_posix", "rpi_posix", "rip_posix", "rpp_posix" };
enum { EE, EI, EP, XE, XI, XP, RIE, RII, RIP, RPE, RPI, RPP, EIX, EPX, RIIX, RPIX, RIPX, RPPX };
static struct { int m, other, ptr; } lv[MAXL]; static int nl;
static struct { int v, code, err; } sc[16]; static int nsc, calls, evals;
static int passed[MAXL], np, jumped[MAXL], nj;
static char token[1]; static int where;
static int runi(int n); static void *runp(int n);
static int leaf(void)
{
    if (calls >= nsc) VF_BAD("called again after %d calls", calls);
    int k = calls++; if (sc[k].code) cork_error_set_string(sc[k].code, "scripted");
    errno = sc[k].err; return sc[k].v;
}
static int ci(int n) { return n + 1 < nl ? runi(n + 1) : leaf(); }
/* pointers of all kinds: only NULL is none */
static void *ptr(int v) { return v == 0 ? NULL : where & 1 ? (void *) token : (void *) ((uintptr_t) 1 << (where / 2 % 60)); }
static void *cp(int n) { if (n + 1 < nl) return runp(n + 1); int v = leaf(); where++; return ptr(v); }
static int other(int n) { evals++; return lv[n].other; }
/* the macros are statements like any other: they stand in branches and loops */
#define LEVEL(OK, BAD, R0, R1) \
    volatile int before = n, turn = 0; int yes = lv[n].m; \
    for (turn = 0; turn < 1; turn++) { \
        if (yes == EE) ee_check(ci(n)); else if (yes == EI) ei_check(ci(n)); else if (yes == EP) ep_check(cp(n)); \
        else if (yes == EIX) ei_check_posix(ci(n)); else if (yes == EPX) ep_check_posix(cp(n)); \
        else if (yes == XE) xe_check(R1, ci(n)); else if (yes == XI) xi_check(R1, ci(n)); else if (yes == XP) xp_check(R1, cp(n)); \
        else R0 \
    } \
    if (before != n || turn != 1) VF_BAD("went astray"); \
    passed[np++] = n + 1; return OK; \
error: \
    jumped[nj++] = n + 1; return BAD;
static int runi(int n)
{
    LEVEL(0, -1,
        if (yes == RIE) rie_check(ci(n)); else if (yes == RII) rii_check(ci(n)); else if (yes == RIP) rip_check(cp(n));
        else if (yes == RIIX) rii_check_posix(ci(n)); else if (yes == RIPX) rip_check_posix(cp(n)); else VF_DIE("macro %d", yes);, other(n))
}
static void *runp(int n)
{
    LEVEL(token, NULL,
        if (yes == RPE) rpe_check(ci(n)); else if (yes == RPI) rpi_check(ci(n)); else if (yes == RPP) rpp_check(cp(n));
        else if (yes == RPIX) rpi_check_posix(ci(n)); else if (yes == RPPX) rpp_check_posix(cp(n)); else VF_DIE("macro %d", yes);, (other(n), NULL))
}
static int forked(void (*f)(int), int x)
{
    fflush(vf_out);
    pid_t p = fork(); int st;
    if (p == 0) { if (!freopen("/dev/null", "w", stderr)) _exit(98); f(x); _exit(0); }
    while (waitpid(p, &st, 0) < 0) ;
    return WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT ? 1 : WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 0 : 2;
}
static void insist(int x) { void *p = x ? (where++ & 1 ? (void *) token : (void *) ((uintptr_t) 1 << 33)) : NULL; if (cork_abort_if_null(p, "no pointer") != p) _exit(9); }
static void unreach(int x) { cork_unreachable(); }
static const char *fates[] = { "alive", "aborted", "odd" };
int main(int argc, char **argv)
{
    vf_init(); if (!freopen("/dev/null", "w", stdout)) VF_DIE("null");
    while (vf_next()) {
        if (vf_is("reset")) { cork_error_clear(); J("{\"r\":[]"); }
        else if (vf_is("set")) { cork_error_set_string(vf_int(), "before"); J("{\"r\":[]"); }
        else if (vf_is("clear")) { cork_error_clear(); J("{\"r\":[]"); }
        else if (vf_is("insist")) J("{\"r\":[\"%s\"]", fates[forked(insist, vf_int())]);
        else if (vf_is("unreachable")) J("{\"r\":[\"%s\"]", fates[forked(unreach, 0)]);
        else if (vf_is("run")) {
            nl = vf_int();
            for (int i = 0; i < nl; i++) {
                if (vf_int() != 3) VF_DIE("level");
                char *s = vf_str(NULL); for (lv[i].m = 0; lv[i].m < 18 && strcmp(s, names[lv[i].m]); lv[i].m++) ; free(s); if (lv[i].m == 18) VF_DIE("macro");
                lv[i].other = vf_int(); lv[i].ptr = vf_int();
            }
            nsc = vf_int(); for (int i = 0; i < nsc; i++) { if (vf_int() != 3) VF_DIE("script"); sc[i].v = vf_int(); sc[i].code = vf_int(); sc[i].err = vf_int(); }
            calls = evals = np = nj = 0;
            int v; if (lv[0].ptr) v = runp(0) ? 1 : 0; else v = runi(0);
            int given = 0; for (int i = 0; i < nl; i++) if (lv[i].m == XE || lv[i].m == XI || lv[i].m == XP) given++;
            int left = nl - np - nj; if (evals > given || evals > left) VF_BAD("a result was evaluated that was not used");
            J("{\"r\":[%d,%d,[", v, calls);
            for (int i = 0; i < np; i++) J(i ? ",%d" : "%d", passed[i]);
            J("],[");
            for (int i = 0; i < nj; i++) J(i ? ",%d" : "%d", jumped[i]);
            J("]]");
        } else VF_DIE("op %s", vf_op);
        int code = cork_error_code();
        if (code && (!cork_error_occurred() || (strcmp(cork_error_message(), "before") && strcmp(cork_error_message(), "scripted") && strcmp(cork_error_message(), strerror(code))))) code = -1;
        if (!code && cork_error_occurred()) code = -2;
        J(",\"s\":%d}", code); J_end();
    }
    return 0;
}
