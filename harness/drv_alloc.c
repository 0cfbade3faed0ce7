#include "vf.h"
#include <libcork/core.h>
#include <sys/mman.h>
#include <sys/wait.h>
/* usage: drv_alloc N.  The user's allocator puts a header before each block. */
#define N 16
#define LIMIT 1048576
struct hdr { size_t magic, size; };
static long held, bad; static int fault, via, config, nslots;
static const struct cork_alloc *std_alloc, *cur;
#define LIVE 0x11223344aabbccddUL
static void *prim(size_t n) { if (fault) { fault = 0; return NULL; } if (n > LIMIT + 64) return NULL; struct hdr *h = malloc(n + sizeof *h); h->magic = LIVE; h->size = n; held++; memset(h + 1, 0xa5, n); return h + 1; }
static void rel(void *p, size_t n) { if (!p) { bad++; return; } struct hdr *h = (struct hdr *) p - 1; if (h->magic != LIVE || h->size != n) { bad++; if (h->magic != LIVE) return; } h->magic = 0; held--; free(h); }
static void *u_xmalloc(const struct cork_alloc *a, size_t n) { if (!via) via = 1; return prim(n); }
static void u_free(const struct cork_alloc *a, void *p, size_t n) { if (!via) via = 2; rel(p, n); }
static void *u_xcalloc(const struct cork_alloc *a, size_t c, size_t n) { if (!via) via = 3; size_t t; if (__builtin_mul_overflow(c, n, &t)) return NULL; void *p = prim(t); if (p) memset(p, 0, t); return p; }
static void *u_xrealloc(const struct cork_alloc *a, void *p, size_t o, size_t n)
{
    if (!via) via = 4;
    if (p && (((struct hdr *) p)[-1].magic != LIVE || ((struct hdr *) p)[-1].size != o)) bad++;
    void *q = prim(n); if (q && p) { memcpy(q, p, o < n ? o : n); rel(p, o); } return q;
}
static void *u_malloc(const struct cork_alloc *a, size_t n) { if (!via) via = 5; void *p = prim(n); if (!p) abort(); return p; }
static void *u_calloc(const struct cork_alloc *a, size_t c, size_t n) { if (!via) via = 6; void *p = u_xcalloc(a, c, n); if (!p) abort(); return p; }
static void *u_realloc(const struct cork_alloc *a, void *p, size_t o, size_t n) { if (!via) via = 7; void *q = u_xrealloc(a, p, o, n); if (!q) abort(); return q; }
static const char *names[] = { "", "xmalloc", "free", "xcalloc", "xrealloc", "malloc", "calloc", "realloc" };
static void *blk[N]; static size_t sz[N]; static int kind[N]; static char *shadow[N];
static size_t num(void) { long long v = vf_int(); switch (v) { case -1: return SIZE_MAX; case -2: return SIZE_MAX / 2; case -3: return SIZE_MAX / 2 + 1; case -4: return (size_t) 1 << 32; case -5: return SIZE_MAX - 7; case -6: return SIZE_MAX - 8; } return v; }
/* the two ways to use an allocator */
#define D (config == 4)
/* the macros for objects of a type, where the size is that of one */
struct t24 { long a[3]; }; struct t100 { char a[100]; };
static bool typed(void) { static int k; return k++ % 2; }
static void *c_malloc(size_t n) { if (typed()) { if (n == 24) return D ? cork_alloc_new(cur, struct t24) : cork_new(struct t24); if (n == 100) return D ? cork_alloc_new(cur, struct t100) : cork_new(struct t100); } return D ? cork_alloc_malloc(cur, n) : cork_malloc(n); }
static void *c_xmalloc(size_t n) { if (typed()) { if (n == 24) return D ? cork_alloc_xnew(cur, struct t24) : cork_xnew(struct t24); if (n == 100) return D ? cork_alloc_xnew(cur, struct t100) : cork_xnew(struct t100); } return D ? cork_alloc_xmalloc(cur, n) : cork_xmalloc(n); }
static void *c_calloc(size_t c, size_t n) { return D ? cork_alloc_calloc(cur, c, n) : cork_calloc(c, n); }
static void *c_xcalloc(size_t c, size_t n) { return D ? cork_alloc_xcalloc(cur, c, n) : cork_xcalloc(c, n); }
static void *c_realloc(void *p, size_t o, size_t n) { return D ? cork_alloc_realloc(cur, p, o, n) : cork_realloc(p, o, n); }
static void *c_xrealloc(void *p, size_t o, size_t n) { return D ? cork_alloc_xrealloc(cur, p, o, n) : cork_xrealloc(p, o, n); }
static void *c_xreallocf(void *p, size_t o, size_t n) { return D ? cork_alloc_xreallocf(cur, p, o, n) : cork_xreallocf(p, o, n); }
static void c_free(void *p, size_t n) { if (typed()) { if (n == 24) { if (D) cork_alloc_delete(cur, struct t24, p); else cork_delete(struct t24, p); return; } if (n == 100) { if (D) cork_alloc_delete(cur, struct t100, p); else cork_delete(struct t100, p); return; } } if (D) cork_alloc_free(cur, p, n); else cork_free(p, n); }
static void c_cfree(void *p, size_t c, size_t n) { if (D) cork_alloc_cfree(cur, p, c, n); else cork_cfree(p, c, n); }
static const char *c_strdup(const char *s) { return D ? cork_alloc_strdup(cur, s) : cork_strdup(s); }
static const char *c_strndup(const char *s, size_t n) { return D ? cork_alloc_strndup(cur, s, n) : cork_strndup(s, n); }
static const char *c_xstrdup(const char *s) { return D ? cork_alloc_xstrdup(cur, s) : cork_xstrdup(s); }
static const char *c_xstrndup(const char *s, size_t n) { return D ? cork_alloc_xstrndup(cur, s, n) : cork_xstrndup(s, n); }
static void c_strfree(const char *s) { if (D) cork_alloc_strfree(cur, s); else cork_strfree(s); }
static bool same(int i) { return memcmp(blk[i], shadow[i], sz[i]) == 0; }
static void scribble(int i) { for (size_t k = 0; k < sz[i]; k++) ((char *) blk[i])[k] = (char) (rand() >> 3); free(shadow[i]); shadow[i] = malloc(sz[i] + 1); memcpy(shadow[i], blk[i], sz[i]); }
static void forget(int i) { blk[i] = NULL; sz[i] = 0; kind[i] = 0; free(shadow[i]); shadow[i] = NULL; }
static void drop(int i) { if (kind[i] == 1) c_free(blk[i], sz[i]); else if (kind[i] == 2) c_strfree(blk[i]); forget(i); }
static char *src(size_t n, bool nul) { char *s = malloc(n + nul + (n + nul == 0)); for (size_t k = 0; k < n; k++) s[k] = 'a' + rand() % 26; if (nul) s[n] = 0; return s; }
static const char *took(int i, void *p, size_t n)
{
    if (!p) return "null";
    if (kind[i]) { free(shadow[i]); shadow[i] = NULL; }
    blk[i] = p; sz[i] = n; kind[i] = 1; scribble(i);
    return "ok";
}
static void reallocate(int how, int i, size_t n, const char **q)
{
    size_t o = sz[i], m = o < n ? o : n; char *keep = shadow[i]; void *old = blk[i]; int k = kind[i];
    void *p = how == 0 ? c_realloc(old, o, n) : how == 1 ? c_xrealloc(old, o, n) : c_xreallocf(old, o, n);
    if (!p) { *q = "null"; if (how == 2) forget(i); else if (k && !same(i)) *q = "changed"; return; }
    bool ok = k == 0 || memcmp(p, keep, m) == 0;
    blk[i] = p; sz[i] = n; kind[i] = 1; scribble(i);
    *q = ok ? "ok" : "contents lost";
}
static int child(void (*fn)(void)) { fflush(vf_out); fflush(stderr); pid_t p = fork(); if (p == 0) { close(2); fn(); _exit(0); } int st; if (p < 0 || waitpid(p, &st, 0) != p) VF_DIE("fork"); return WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT ? 1 : WIFSIGNALED(st) ? 100 + WTERMSIG(st) : 200 + WEXITSTATUS(st); }
static char *ex_what; static int ex_slot; static size_t ex_c, ex_n;
static void ex(void)
{
    void *p = NULL;
    fault = config == 0 || config == 3 ? 0 : 1;
    if (!fault) ex_n = SIZE_MAX / 2;
    if (!strcmp(ex_what, "malloc")) p = c_malloc(ex_n);
    else if (!strcmp(ex_what, "calloc")) p = c_calloc(1, ex_n);
    else if (!strcmp(ex_what, "realloc")) p = c_realloc(blk[ex_slot], sz[ex_slot], ex_n);
    else if (!strcmp(ex_what, "strdup")) { if (!fault) abort(); p = (void *) c_strdup("text"); }
    else if (!strcmp(ex_what, "strndup")) { if (!fault) abort(); p = (void *) c_strndup("text", 3); }
    _exit(p ? 7 : 8);
}
static void wrong(void)
{
    if (!strcmp(ex_what, "free")) c_free(blk[ex_slot], ex_n);
    else if (!strcmp(ex_what, "cfree")) c_cfree(blk[ex_slot], 1, ex_n);
    else if (!strcmp(ex_what, "realloc")) c_realloc(blk[ex_slot], ex_n, 50);
    else if (!strcmp(ex_what, "xrealloc")) c_xrealloc(blk[ex_slot], ex_n, 50);
}
int main(int argc, char **argv)
{
    vf_init(); nslots = atoi(argv[1]); std_alloc = cork_allocator; cur = std_alloc;
    while (vf_next()) {
        const char *q = NULL, *want = ""; char buf[40]; via = 0;
        if (vf_is("reset")) {
            for (int i = 0; i < N; i++) drop(i);
            if (held) { fprintf(stderr, "%ld blocks leaked\n", held); fflush(vf_out); _exit(96); }
            config = 0; cork_allocator = cur = std_alloc; bad = 0;
        } else if (vf_is("config")) {
            config = vf_int(); int n = vf_int();
            struct cork_alloc *a = cork_alloc_new_alloc(std_alloc);
            cork_alloc_set_xmalloc(a, u_xmalloc); cork_alloc_set_free(a, u_free);
            while (n--) {
                char *m = vf_str(NULL);
                if (!strcmp(m, "xcalloc")) cork_alloc_set_xcalloc(a, u_xcalloc); else if (!strcmp(m, "xrealloc")) cork_alloc_set_xrealloc(a, u_xrealloc);
                else if (!strcmp(m, "malloc")) cork_alloc_set_malloc(a, u_malloc); else if (!strcmp(m, "calloc")) cork_alloc_set_calloc(a, u_calloc);
                else if (!strcmp(m, "realloc")) cork_alloc_set_realloc(a, u_realloc); else if (strcmp(m, "xmalloc") && strcmp(m, "free")) VF_DIE("method %s", m);
                free(m);
            }
            /* the debugging allocator keeps its own data in its parent: it is made before faults are injected */
            cur = config == 0 ? std_alloc : config == 1 || config == 4 ? a : cork_debug_alloc_new(config == 2 ? a : std_alloc);
            if (config == 2) held--;
            cork_allocator = config == 4 ? std_alloc : cur;
        } else if (vf_is("exhaust")) {
            ex_what = vf_str(NULL); ex_slot = vf_int(); ex_n = vf_int();
            int rc = child(ex); snprintf(buf, sizeof buf, rc == 1 ? "aborted" : "not aborted %d", rc); q = buf; free(ex_what);
        } else if (vf_is("wrong")) {
            ex_slot = vf_int(); ex_what = vf_str(NULL); ex_n = vf_int();
            int rc = child(wrong); snprintf(buf, sizeof buf, rc == 1 ? "aborted" : "not aborted %d", rc); q = buf; free(ex_what);
        } else {
            int i = vf_int(); char *s; want = vf_op;
            if (vf_is("free")) { q = same(i) ? "ok" : "contents lost"; c_free(blk[i], sz[i]); forget(i); }
            else if (vf_is("cfree")) { size_t c = num(), n = num(); q = same(i) ? "ok" : "contents lost"; c_cfree(blk[i], c, n); forget(i); want = "free"; }
            else if (vf_is("strfree")) { q = memcmp(blk[i], shadow[i], sz[i] + 1) == 0 && cork_strlen(blk[i]) == sz[i] ? "ok" : "contents lost"; c_strfree(blk[i]); forget(i); want = ""; }
            else {
                size_t n = num();
                if (vf_is("malloc")) q = took(i, c_malloc(n), n);
                else if (vf_is("xmalloc")) { fault = vf_int(); q = took(i, c_xmalloc(n), n); }
                else if (vf_is("calloc") || vf_is("xcalloc")) {
                    size_t m = num(); fault = vf_is("xcalloc") ? vf_int() : 0;
                    unsigned char *p = vf_is("calloc") ? c_calloc(n, m) : c_xcalloc(n, m); bool z = true;
                    for (size_t k = 0; p && k < n * m; k++) z = z && p[k] == 0;
                    q = took(i, p, n * m); if (!z) q = "not zeroed";
                }
                else if (vf_is("realloc")) reallocate(0, i, n, &q);
                else if (vf_is("xrealloc")) { fault = vf_int(); reallocate(1, i, n, &q); }
                else if (vf_is("xreallocf")) { fault = vf_int(); want = "xrealloc"; reallocate(2, i, n, &q); }
                else {
                    bool x = *vf_op == 'x', dup = strstr(vf_op, "strdup") != NULL; want = "";
                    fault = x ? vf_int() : 0; s = src(n, dup);
                    const char *p = dup ? (x ? c_xstrdup(s) : c_strdup(s)) : x ? c_xstrndup(s, n) : c_strndup(s, n);
                    if (!p) q = "null";
                    else {
                        q = memcmp(p, s, n) == 0 && p[n] == 0 && cork_strlen(p) == n ? "ok" : "bad copy";
                        blk[i] = (void *) p; sz[i] = n; kind[i] = 2; shadow[i] = malloc(n + 1); memcpy(shadow[i], s, n); shadow[i][n] = 0;
                    }
                    free(s);
                }
            }
            fault = 0;
        }
        if (q) fprintf(vf_out, "{\"r\":[\"%s\",%d],\"s\":[[", q, (config == 1 || config == 4) && *want && strcmp(names[via], want) == 0 && strcmp(want, "xmalloc") && strcmp(want, "free") ? 1 : 0);
        else fprintf(vf_out, "{\"r\":[],\"s\":[[");
        for (int i = 1; i <= nslots; i++) { if (i > 1) fputc(',', vf_out); if (kind[i]) fprintf(vf_out, "[\"%s\",%zu]", kind[i] == 1 ? "mem" : "str", kind[i] == 1 && (config == 1 || config == 4) ? ((struct hdr *) blk[i])[-1].size : sz[i]); else fprintf(vf_out, "[]"); }
        fprintf(vf_out, "],%ld,%ld]}\n", config == 0 || config == 3 ? 0 : held, bad);
    }
    fflush(vf_out); _exit(0);
}
