#include "vf.h"
#include <libcork/core.h>
#include <libcork/cli.h>
#include <sys/wait.h>
#define MAXN 24
static struct cork_command node[MAXN], *kids[MAXN][MAXN + 1];
static int nnodes, parser[MAXN];
static FILE *ev; static int nev;
static void q(const char *s)
{
    fputc('"', ev);
    for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\' || c < 32) fprintf(ev, "\\u%04x", c); else fputc(c, ev); }
    fputc('"', ev);
}
static void event(const char *what, int n, int argc, char **argv)
{
    fprintf(ev, "%s[\"%s\",%d,[", nev++ ? "," : "", what, n + 1);
    for (int i = 0; i < argc; i++) { if (i) fputc(',', ev); q(argv[i]); }
    fprintf(ev, "]]");
    if (argv[argc] != NULL) fprintf(ev, ",\"not terminated\"");
}
static int parse(int n, int argc, char **argv)
{
    int k = 1;
    event("options", n, argc, argv);
    if (parser[n] == 2) {
        while (k < argc && argv[k][0] == '-') {
            if (strcmp(argv[k], "--") == 0) return k + 1;
            if (strcmp(argv[k], "-z") == 0) { cork_command_show_help(&node[n], "Bad option."); exit(EXIT_FAILURE); }
            k++;
        }
    } else if (parser[n] == 3) while (k + 1 < argc && strcmp(argv[k], "-o") == 0) k += 2;
    return k;
}
static void leaf(int n, int argc, char **argv) { event("leaf", n, argc, argv); if (argc > 0 && strcmp(argv[0], "exit3") == 0) exit(3); }
#define F(n) static int P##n(int c, char **v) { return parse(n, c, v); } static void L##n(int c, char **v) { leaf(n, c, v); }
#define ALL(M) M(0) M(1) M(2) M(3) M(4) M(5) M(6) M(7) M(8) M(9) M(10) M(11) M(12) M(13) M(14) M(15) M(16) M(17) M(18) M(19) M(20) M(21) M(22) M(23)
ALL(F)
#define PP(n) P##n,
#define LL(n) L##n,
static cork_option_parser ps[MAXN] = { ALL(PP) };
static cork_leaf_command_run ls[MAXN] = { ALL(LL) };
static char *opt(void) { char *s = vf_str(NULL); return *s ? s : NULL; }
static void fin(void) { fprintf(ev, "]"); fclose(ev); }
static char *slurp(int fd) { size_t n = 0, cap = 4096; char *b = malloc(cap); ssize_t r; while ((r = read(fd, b + n, cap - n - 1)) > 0) { n += r; if (n > cap / 2) b = realloc(b, cap *= 2); } b[n] = 0; close(fd); return b; }
static int says(const char *w)
{
    for (int i = 0; i < nnodes; i++)
        if (strcmp(w, node[i].name) == 0 || (node[i].short_desc && strcmp(w, node[i].short_desc) == 0)
            || (node[i].usage_suffix && strcmp(w, node[i].usage_suffix) == 0)
            || (node[i].full_help && strncmp(w, node[i].full_help, strlen(w)) == 0 && node[i].full_help[strlen(w)] == '\n')) return 1;
    return 0;
}
int main(int argc, char **argv)
{
    vf_init();
    while (vf_next()) {
        if (vf_is("reset")) { nnodes = 0; J("{\"r\":[],\"s\":[]}"); J_end(); }
        else if (vf_is("tree")) {
            nnodes = vf_int();
            for (int i = 0; i < nnodes; i++) {
                if (vf_int() != 7) VF_DIE("node");
                int kind = vf_int(); char *name = vf_str(NULL); parser[i] = vf_int();
                char *sd = opt(), *us = opt(), *fh = opt(); int nk = vf_int();
                if (fh) { fh = realloc(fh, strlen(fh) + 2); strcat(fh, "\n"); }
                for (int k = 0; k < nk; k++) kids[i][k] = &node[vf_int() - 1];
                kids[i][nk] = NULL;
                struct cork_command l = cork_leaf_command(name, sd, us, fh, parser[i] ? ps[i] : NULL, ls[i]);
                struct cork_command s = cork_command_set(name, sd, parser[i] ? ps[i] : NULL, kids[i]);
                node[i] = kind ? s : l;
            }
            J("{\"r\":[],\"s\":[]}"); J_end();
        } else if (vf_is("main")) {
            int n = vf_int(), e[2], o[2], st; char **av = malloc((n + 1) * sizeof *av);
            for (int i = 0; i < n; i++) av[i] = vf_str(NULL);
            av[n] = NULL;
            if (pipe(e) || pipe(o)) VF_DIE("pipe");
            fflush(vf_out);
            pid_t p = fork();
            if (p == 0) {
                fclose(stdin); dup2(o[1], 1); dup2(o[1], 2); close(o[0]); close(o[1]); close(e[0]);
                ev = fdopen(e[1], "w"); fprintf(ev, "["); atexit(fin);
                exit(cork_command_main(&node[0], n, av));
            }
            close(e[1]); close(o[1]);
            char *out = slurp(o[0]), *log = slurp(e[0]);
            waitpid(p, &st, 0);
            const char *status = !WIFEXITED(st) ? "killed" : WEXITSTATUS(st) == 0 ? "success" : WEXITSTATUS(st) == EXIT_FAILURE ? "failure" : WEXITSTATUS(st) == 3 ? "3" : "odd";
            int helped = strstr(log, "\"leaf\"") == NULL && (strcmp(status, "success") == 0);
            if (strcmp(status, "odd") == 0 || strcmp(status, "killed") == 0) fprintf(stderr, "%s\n", out);
            /* a failure must say something; what is left to the program's words, except for a command's own help */
            int bad = strstr(out, "Bad option.") != NULL;
            if (bad) helped = 1;
            size_t ol = strlen(out); bool cut = ol && out[ol - 1] != '\n';
            if (strcmp(status, "failure") == 0 && *out == 0) status = "silent failure";
            else if (cut) status = "unfinished line";
            char *from = out;
            if (strcmp(status, "failure") == 0 && !bad) { helped = 1; for (char *u = out; (u = strstr(u, "Usage:")); u++) from = u + 6; }
            if (!helped && strcmp(status, "success") == 0 && *out) status = "unexpected output";
            J("{\"r\":[\"%s\",%s,[", status, log[0] && log[strlen(log) - 1] == ']' ? log : "[]");
            if (helped) {
                int k = 0;
                for (char *w = strtok(from, " \t\n"); w; w = strtok(NULL, " \t\n")) if (says(w)) { J("%s\"", k++ ? "," : ""); for (char *c = w; *c; c++) if (*c == '"' || *c == '\\') J("\\%c", *c); else J("%c", *c); J("\""); }
            }
            J("]],\"s\":[]}"); J_end();
            for (int i = 0; i < n; i++) free(av[i]);
            free(av); free(out); free(log);
        } else VF_DIE("unknown op %s", vf_op);
    }
    return 0;
}
