#include "vf.h"
#include <libcork/core.h>
#include <libcork/os.h>
#include <sys/mman.h>
#include <sys/wait.h>
/* "run STATUS (k a b c)..": one process that makes allocators (1 parent), gives them
 * user data (2 which id free?), registers cleanup functions (3 which), installs one (4 which). */
#define MAXA 40
#define MAXE 400
enum { NEW, DATA, CLEANUP, EXIT, UD, REL, USE, END };
static const char *names[] = { "new", "data", "cleanup", "exit", "ud", "rel", "use", "end" };
static struct { volatile int n; struct { int k, a[3], r; } e[MAXE]; long held[MAXA + 1]; int bad, nal; } *lg;
static struct cork_alloc *al[MAXA + 1]; static int nal, exiting, freed;
static const struct cork_alloc *root_p;
static int ev(int k, int a, int b, int c, int r) { int i = lg->n; if (i < MAXE) { lg->e[i].k = k; lg->e[i].a[0] = a; lg->e[i].a[1] = b; lg->e[i].a[2] = c; lg->e[i].r = r; } lg->n = i + 1; return i; }
struct hdr { size_t who, size; };
static int self(const struct cork_alloc *a) { if (a == root_p) return 0; for (int i = 1; i <= nal; i++) if (al[i] == a) return i; lg->bad++; return 0; }
static void *x_malloc(const struct cork_alloc *a, size_t n) { int i = self(a); struct hdr *h = malloc(n + sizeof *h); h->who = i; h->size = n; lg->held[i]++; return h + 1; }
static void x_free(const struct cork_alloc *a, void *p, size_t n)
{
    int i = self(a); struct hdr *h = (struct hdr *) p - 1;
    if (h->who != i || h->size != n) lg->bad++;
    if (exiting) for (int k = 1; k <= nal; k++) if ((char *) al[k] == (char *) p) { ev(REL, i, 0, 0, -1); al[k] = (struct cork_alloc *) 1; }
    lg->held[i]--; h->who = 999; free(h);
}
static void *x_calloc(const struct cork_alloc *a, size_t c, size_t n) { void *p = x_malloc(a, c * n); memset(p, 0, c * n); return p; }
static void *x_realloc(const struct cork_alloc *a, void *p, size_t o, size_t n) { void *q = x_malloc(a, n); if (p) { memcpy(q, p, o < n ? o : n); x_free(a, p, o); } return q; }
static const struct cork_alloc root = { NULL, NULL, NULL, x_calloc, x_malloc, x_realloc, x_calloc, x_malloc, x_realloc, x_free };
static void freer(void *p) { if (exiting) ev(UD, (int) (intptr_t) p, 0, 0, -1); else if (freed < 0) freed = (int) (intptr_t) p; else freed = 9999; }
static int which[8], nwhich, nwhich_run;
/* cleanup functions run the last registered first */
static void clean(void)
{
    int i = which[--nwhich];
    const struct cork_alloc *a = i ? al[i] : root_p; int ok = 1;
    char *p = cork_alloc_malloc(a, 100); memset(p, 7, 100); p = cork_alloc_realloc(a, p, 100, 300); ok = p[99] == 7; cork_alloc_free(a, p, 300);
    const char *s = cork_alloc_strdup(a, "text"); ok = ok && !strcmp(s, "text"); cork_alloc_strfree(a, s);
    s = cork_strdup("installed"); ok = ok && !strcmp(s, "installed"); cork_strfree(s);
    ev(USE, i, 0, 0, ok);
}
static void last(void) { ev(END, 0, 0, 0, -1); }
int main(void)
{
    vf_init(); root_p = &root;
    lg = mmap(NULL, sizeof *lg, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    while (vf_next()) {
        memset((void *) lg, 0, sizeof *lg);
        fflush(vf_out); pid_t pid = fork();
        if (pid == 0) {
            atexit(last); int st = vf_int();
            while (vf_more()) {
                int k = vf_int(), a = vf_int(), b = vf_int(), c = vf_int();
                if (k == 1) {
                    ev(NEW, a, 0, 0, -1); struct cork_alloc *n = cork_alloc_new_alloc(a ? al[a] : root_p); al[++nal] = n;
                    cork_alloc_set_xmalloc(n, x_malloc); cork_alloc_set_free(n, x_free);
                    if (b & 1) cork_alloc_set_calloc(n, x_calloc);
                    if (b & 2) cork_alloc_set_xrealloc(n, x_realloc);
                } else if (k == 2) { freed = -1; cork_alloc_set_user_data(al[a], (void *) (intptr_t) b, c ? freer : NULL); ev(DATA, a, b, c, freed); }
                else if (k == 3) { which[nwhich++] = a; cork_cleanup_at_exit(0, clean); ev(CLEANUP, 0, 0, 0, -1); }
                else { cork_set_allocator(a ? al[a] : root_p); }
            }
            lg->nal = nal; ev(EXIT, 0, 0, 0, -1); exiting = 1; exit(st);
        }
        int status; waitpid(pid, &status, 0);
        fprintf(vf_out, "{\"events\":[");
        for (int i = 0; i < lg->n && i < MAXE; i++) {
            int k = lg->e[i].k, *a = (int *) lg->e[i].a; if (i) fputc(',', vf_out);
            fprintf(vf_out, "{\"op\":\"%s\",\"a\":[", names[k]);
            if (k == NEW || k == UD || k == REL || k == USE) fprintf(vf_out, "%d", a[0]);
            else if (k == DATA) fprintf(vf_out, "%d,%d,%d", a[0], a[1], a[2]);
            else if (k == END) { fprintf(vf_out, "["); for (int j = 0; j <= lg->nal; j++) fprintf(vf_out, j ? ",%ld" : "%ld", lg->held[j]); fprintf(vf_out, "],%d", lg->bad); }
            if (lg->e[i].r >= 0) fprintf(vf_out, "],\"r\":[%d]}", lg->e[i].r); else fprintf(vf_out, "],\"r\":[]}");
        }
        if (!WIFEXITED(status)) fprintf(vf_out, ",{\"op\":\"crash\",\"a\":[%d],\"r\":[]}", status);
        fprintf(vf_out, "]}\n");
    }
    fflush(vf_out); _exit(0);
}
