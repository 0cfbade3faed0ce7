#include "vf.h"
#include "acct.h"
#include <libcork/core.h>
#include <libcork/ds.h>
#include <libcork/os.h>
extern char **environ;
/* usage: drv_env NS name...; collections in slots 1..NS, 0 is the process */
static struct cork_env *slot[10];
static void vp(struct cork_env *e, const char *n, const char *f, ...) { va_list ap; va_start(ap, f); cork_env_add_vprintf(e, n, f, ap); va_end(ap); }
static void qstr(const char *s) { fputc('"', vf_out); for (; *s; s++) fputc(*s, vf_out); fputc('"', vf_out); }
static void val(const char *s) { fputc('[', vf_out); if (s) qstr(s); fputc(']', vf_out); }
static void scrap(char *s, size_t l) { memset(s, '#', l); free(s); }
int main(int argc, char **argv)
{
    vf_init(); acct_install();
    int ns = atoi(argv[1]), nn = argc - 2;
    cork_error_clear(); acct_warm(); long base = acct_blocks;
    clearenv();
    while (vf_next()) {
        const char *got = NULL;
        if (vf_is("reset")) {
            for (int i = 1; i <= ns; i++) if (slot[i]) { cork_env_free(slot[i]); slot[i] = NULL; }
            clearenv();
            long b = acct_blocks - base; if (b) { fprintf(stderr, "%ld blocks leaked\n", b); fflush(vf_out); _exit(96); }
        } else {
            int w = vf_int(); struct cork_env *e = slot[w];
            size_t l1 = 0, l2 = 0; char *s1 = vf_more() ? vf_str(&l1) : NULL, *s2 = vf_more() ? vf_str(&l2) : NULL;
            if (vf_is("new")) slot[w] = cork_env_new(); else if (vf_is("clone")) slot[w] = cork_env_clone_current();
            else if (vf_is("free")) { cork_env_free(e); slot[w] = NULL; }
            else if (vf_is("add")) cork_env_add(e, s1, s2);
            else if (vf_is("printf")) { char *h = strndup(s2, l2 / 2); cork_env_add_printf(e, s1, "%s%s", h, s2 + l2 / 2); free(h); }
            else if (vf_is("vprintf")) { char *h = strndup(s2, l2 / 2); vp(e, s1, "%s%c%s" + (l2 ? 0 : 4), h, l2 ? s2[l2 / 2] : 0, l2 ? s2 + l2 / 2 + 1 : ""); free(h); }
            else if (vf_is("copy")) cork_env_add(e, s2, cork_env_get(e, s1));
            else if (vf_is("double")) cork_env_add_printf(e, s2, "%s%s", cork_env_get(e, s1), cork_env_get(e, s1));
            else if (vf_is("remove")) cork_env_remove(e, s1);
            else if (vf_is("get")) got = cork_env_get(e, s1);
            else if (vf_is("replace")) cork_env_replace_current(e);
            else VF_DIE("op %s", vf_op);
            if (s1) scrap(s1, l1); if (s2) scrap(s2, l2);
        }
        fprintf(vf_out, "{\"r\":"); val(got); fprintf(vf_out, ",\"s\":[[");
        for (int w = 0; w <= ns; w++) {
            fprintf(vf_out, w ? ",[" : "[");
            for (int i = 0; i < nn; i++) { if (i) fputc(',', vf_out); val(w && !slot[w] ? NULL : cork_env_get(slot[w], argv[2 + i])); }
            fputc(']', vf_out);
        }
        int n = 0; for (char **p = environ; p && *p; p++) n++;
        fprintf(vf_out, "],%d]}\n", n);
    }
    fflush(vf_out); _exit(acct_bad ? 97 : 0);
}
