#include "vf.h"
#include "acct.h"
#include <libcork/core.h>
#include <libcork/ds.h>
#include <libcork/os.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fcntl.h>
extern char **environ;
/* usage: drv_exec SCRATCH name...; run in SCRATCH */
static const char *base; static size_t lbase;
static struct cork_exec *x;
static int nn; static char **names;
/* text with the scratch directory written as @ */
static void q(const char *s, size_t n)
{
    fputc('"', vf_out);
    for (size_t i = 0; i < n; i++) {
        unsigned char c = s[i];
        if (i + lbase <= n && memcmp(s + i, base, lbase) == 0) { fputc('@', vf_out); i += lbase - 1; continue; }
        if (c == '"' || c == '\\' || c < 32) fprintf(vf_out, "\\u%04x", c); else fputc(c, vf_out);
    }
    fputc('"', vf_out);
}
static void qs(const char *s) { q(s, strlen(s)); }
/* ... and back */
static char *str(void)
{
    size_t l; char *s = vf_str(&l), *r; size_t k = 0;
    r = malloc(l + l * lbase + 1);
    for (size_t i = 0; i < l; i++) if (s[i] == '@') { memcpy(r + k, base, lbase); k += lbase; } else r[k++] = s[i];
    r[k] = 0; free(s);
    char *t = strdup(r); free(r); return t;
}
static void scrap(char *s) { memset(s, '#', strlen(s)); free(s); }
static char *pairs[64][2]; static int npairs;
static void readpairs(void) { npairs = vf_int(); for (int i = 0; i < npairs; i++) { vf_int(); pairs[i][0] = str(); pairs[i][1] = str(); } }
static void droppairs(void) { for (int i = 0; i < npairs; i++) { scrap(pairs[i][0]); scrap(pairs[i][1]); } }
static void child(char *fp, char *fd)
{
    int rc = cork_exec_run(x);
    if (fp && rc) {
        if (!cork_error_occurred()) rc = -2;
        cork_error_clear();
        cork_exec_add_param(x, fp); cork_exec_set_cwd(x, fd);
        if (rc != -2) rc = cork_exec_run(x);
    }
    if (rc != -1 || !cork_error_occurred()) rc = -2;
    FILE *f = fdopen(9, "w");
    fprintf(f, "[%d,[],[],\"\"]", rc); fflush(f);
    _exit(acct_bad ? 97 : 0);
}
int main(int argc, char **argv)
{
    vf_init(); acct_install();
    base = argv[1]; lbase = strlen(base); nn = argc - 2; names = argv + 2;
    if (chdir(base) != 0) VF_DIE("chdir");
    cork_error_clear(); acct_warm(); long blocks = acct_blocks;
    fcntl(fileno(vf_out), F_SETFD, FD_CLOEXEC);
    clearenv();
    while (vf_next()) {
        char *buf = NULL; size_t lb = 0;
        if (vf_is("reset")) {
            if (x) { cork_exec_free(x); x = NULL; }
            clearenv();
            if (acct_blocks != blocks) { fprintf(stderr, "%ld blocks leaked\n", acct_blocks - blocks); fflush(vf_out); _exit(96); }
        } else if (vf_is("new")) { char *p = str(); x = cork_exec_new(p); scrap(p); }
        else if (vf_is("newp") || vf_is("newa")) {
            char *p = str(); int n = vf_int(); char **a = malloc((n + 9) * sizeof *a);
            for (int i = 0; i < n; i++) a[i] = str();
            for (int i = n; i < n + 9; i++) a[i] = NULL;
            if (vf_is("newa")) { char **c = malloc((n + 1) * sizeof *c); memcpy(c, a, (n + 1) * sizeof *c); x = cork_exec_new_with_param_array(p, c); free(c); }
            else { if (n > 8) VF_DIE("too many"); x = cork_exec_new_with_params(p, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], NULL); }
            scrap(p); for (int i = 0; i < n; i++) scrap(a[i]); free(a);
        } else if (vf_is("add")) { char *p = str(); cork_exec_add_param(x, p); scrap(p); }
        else if (vf_is("cwd")) { char *p = str(); cork_exec_set_cwd(x, p); scrap(p); }
        else if (vf_is("env")) { struct cork_env *e = cork_env_new(); readpairs(); for (int i = 0; i < npairs; i++) cork_env_add(e, pairs[i][0], pairs[i][1]); droppairs(); cork_exec_set_env(x, e); if (cork_exec_env(x) != e) VF_BAD("env"); }
        else if (vf_is("penv")) { clearenv(); readpairs(); for (int i = 0; i < npairs; i++) setenv(pairs[i][0], pairs[i][1], 1); droppairs(); }
        else if (vf_is("free")) { cork_exec_free(x); x = NULL; }
        else if (vf_is("run") || vf_is("subrun") || vf_is("runfix")) {
            char *fp = NULL, *fd = NULL; if (vf_is("runfix")) { fp = str(); fd = str(); }
            int p[2]; if (pipe(p)) VF_DIE("pipe");
            fcntl(p[0], F_SETFD, FD_CLOEXEC);
            fflush(vf_out);
            pid_t pid = 0; struct cork_subprocess *sub = NULL; int code = 0, rc = 0;
            if (vf_is("subrun")) {
                dup2(p[1], 9); close(p[1]);
                sub = cork_subprocess_new_exec(x, NULL, NULL, &code); x = NULL;
                rc = cork_subprocess_start(sub);
                close(9);
            } else {
                pid = fork();
                if (pid == 0) { dup2(p[1], 9); close(p[1]); child(fp, fd); }
                close(p[1]);
            }
            lb = 0; size_t cap = 1 << 16; buf = malloc(cap + 1); ssize_t k;
            while ((k = read(p[0], buf + lb, cap - lb)) > 0) { lb += k; if (cap - lb < 100) buf = realloc(buf, (cap *= 2) + 1); }
            buf[lb] = 0;
            close(p[0]);
            if (sub) { if (rc == 0) rc = cork_subprocess_wait(sub); cork_subprocess_free(sub); cork_error_clear(); if (lb == 0 && rc == 0 && code != 0) lb = sprintf(buf, "[-1,[],[],\"\"]"); }
            else { int ws; waitpid(pid, &ws, 0); if (!WIFEXITED(ws) || WEXITSTATUS(ws)) lb = sprintf(buf, "[\"child %d\",[],[],\"\"]", ws); }
            if (lb == 0) lb = sprintf(buf, "[-3,[],[],\"\"]");
            if (fp) { scrap(fp); scrap(fd); }
        } else VF_DIE("op %s", vf_op);
        fprintf(vf_out, "{\"r\":");
        if (buf) { /* JSON already, but for the name of the scratch directory */
            for (size_t i = 0; i < lb; i++) if (i + lbase <= lb && memcmp(buf + i, base, lbase) == 0) { fputc('@', vf_out); i += lbase - 1; } else fputc(buf[i], vf_out);
            free(buf);
        } else fprintf(vf_out, "[]");
        if (!x) { fprintf(vf_out, ",\"s\":[0,\"\",[],\"\",[[\"none\",\"none\"]],[]]}\n"); fflush(vf_out); continue; }
        fprintf(vf_out, ",\"s\":[1,"); qs(cork_exec_program(x)); fprintf(vf_out, ",[");
        for (size_t i = 0; i < cork_exec_param_count(x); i++) { if (i) fputc(',', vf_out); const char *v = cork_exec_param(x, i); if (v) qs(v); else fprintf(vf_out, "null"); }
        fprintf(vf_out, "],"); qs(cork_exec_description(x)); fprintf(vf_out, ",[");
        struct cork_env *e = cork_exec_env(x);
        if (!e) fprintf(vf_out, "[\"none\",\"none\"]");
        else { bool first = true; for (int i = 0; i < nn; i++) { const char *v = cork_env_get(e, names[i]); if (v) { fprintf(vf_out, first ? "[" : ",["); qs(names[i]); fputc(',', vf_out); qs(v); fputc(']', vf_out); first = false; } } }
        fprintf(vf_out, "],["); if (cork_exec_cwd(x)) qs(cork_exec_cwd(x)); fprintf(vf_out, "]]}\n");
        fflush(vf_out);
    }
    fflush(vf_out); _exit(acct_bad ? 97 : 0);
}
