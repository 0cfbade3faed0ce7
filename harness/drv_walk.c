#include "fsx.h"
#include "acct.h"
#include <libcork/core.h>
#include <libcork/ds.h>
#include <libcork/os.h>
/* run TREE kind root script..: one visit; kind: walk, list, swalk or slist (the real root directory);
 * "@" at the start of root stands for the scratch directory; the script gives the
 * callbacks' results in order (0 when it is exhausted), and which opendir and readdir fail */
static long long script[64]; static int nscript, at, nest, opens, reads, failopen, failread, dirs;
static int first;
static void sep(void) { if (!first) fputc(',', vf_out); first = 0; }
static void fails(int e) { sep(); fprintf(vf_out, "{\"op\":\"sysfail\",\"a\":[],\"r\":0}"); errno = e; }
DIR *__real_opendir(const char *); struct dirent *__real_readdir(DIR *); int __real_closedir(DIR *);
DIR *__wrap_opendir(const char *p) { if (nest == 2) return __real_opendir(p); if (++opens == failopen) { fails(EMFILE); return NULL; } DIR *d = __real_opendir(p); if (d) dirs++; return d; }
int __wrap_closedir(DIR *d) { if (nest != 2) dirs--; return __real_closedir(d); }
struct dirent *__wrap_readdir(DIR *d) { if (nest == 2) return __real_readdir(d); if (++reads == failread) { fails(EIO); return NULL; } return __real_readdir(d); }
static void jstr(const char *s)
{
    fputc('"', vf_out);
    if (strncmp(s, fsx_base, fsx_lbase) == 0) { fputc('@', vf_out); s += fsx_lbase; }
    for (; *s; s++) if (*s == '"' || *s == '\\') fprintf(vf_out, "\\%c", *s); else if ((unsigned char) *s < 32 || (unsigned char) *s > 126) fprintf(vf_out, "\\u%04x", (unsigned char) *s); else fputc(*s, vf_out);
    fputc('"', vf_out);
}
static int next(int skip) { long long v = at < nscript ? script[at++] : 0; if (v == 1 && !skip) v = 0; if (v == -1) cork_error_set_string(0xbeef, "mine"); errno = EIO; return v; }
static int e0(struct cork_dir_walker *w, const char *f, const char *r, const char *b) { return 0; }
static void inner(const char *p) { if (nest != 1) return; nest = 2; struct cork_dir_walker w = { e0, e0, e0 }; cork_walk_directory(p, &w); cork_error_clear(); nest = 1; }
struct mine { int pad; struct cork_dir_walker w; };
static int on(const char *op, struct cork_dir_walker *w, const char *f, const char *r, const char *b)
{
    sep(); fprintf(vf_out, "{\"op\":\"%s\",\"a\":[", op); jstr(f); fputc(',', vf_out); jstr(r); fputc(',', vf_out); jstr(b);
    inner(*op == 'e' ? f : ".");
    int rc = next(*op == 'e');
    fprintf(vf_out, ",%d],\"r\":%d}", rc, ((struct mine *) ((char *) w - offsetof(struct mine, w)))->pad);
    return rc;
}
static int center(struct cork_dir_walker *w, const char *f, const char *r, const char *b) { return on("enter", w, f, r, b); }
static int cfile(struct cork_dir_walker *w, const char *f, const char *r, const char *b) { return on("file", w, f, r, b); }
static int cleave(struct cork_dir_walker *w, const char *f, const char *r, const char *b) { return on("leave", w, f, r, b); }
static const char *types[] = { [CORK_FILE_MISSING] = "missing", [CORK_FILE_REGULAR] = "file", [CORK_FILE_DIRECTORY] = "dir", [CORK_FILE_SYMLINK] = "link", [CORK_FILE_UNKNOWN] = "fifo" };
static int centry(struct cork_file *c, const char *n, void *ud)
{
    enum cork_file_type t = 99; bool e;
    sep(); fprintf(vf_out, "{\"op\":\"entry\",\"a\":["); jstr(cork_path_get(cork_file_path(c))); fputc(',', vf_out); jstr(n);
    int rc1 = cork_file_type(c, &t), er = rc1 && cork_error_occurred();
    int bad = (rc1 && !er) || *(int *) ud != 7 || (!rc1 && (t > CORK_FILE_UNKNOWN || cork_file_exists(c, &e) || e != (t != CORK_FILE_MISSING)));
    inner(cork_path_get(cork_file_path(c)));
    cork_error_clear();
    int rc = next(1);
    fprintf(vf_out, ",%d],\"r\":\"%s\"}", rc, bad ? "bad" : er ? "error" : types[t]);
    return rc;
}
static void slash(void)      /* what is in the real root directory */
{
    DIR *d = __real_opendir("/"); struct dirent *e; int n = 0;
    sep(); fprintf(vf_out, "{\"op\":\"tree\",\"a\":[[");
    while ((e = __real_readdir(d))) {
        char p[300]; struct stat st; bool ok;
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        snprintf(p, sizeof p, "/%s", e->d_name); ok = stat(p, &st) == 0;
        fprintf(vf_out, n++ ? ",[[" : "[["); jstr(e->d_name); fprintf(vf_out, "],\"%s\",%d,[%s]]", !ok ? "link" : fsx_type(st.st_mode), 511, ok ? "" : "\"?\"");
    }
    __real_closedir(d);
    fprintf(vf_out, "]],\"r\":0}");
}
int main(int argc, char **argv)
{
    vf_init(); fsx_init(argv[1]); acct_install();
    cork_error_clear(); acct_warm();
    fsx_clear();
    while (vf_next()) {
        mode_t o = umask(0); nest = 2; fsx_clear(); fsx_tree(); umask(o);
        char *kind = vf_str(NULL), *root = vf_str(NULL), *spec = root; int have; char *sv = vf_pos; char *cs = fsx_comps(0); free(cs);
        have = vf_int(); failopen = vf_int(); failread = vf_int(); int nst = vf_int(); nscript = vf_int();
        for (int i = 0; i < nscript; i++) script[i] = vf_int();
        char *text = malloc(fsx_lbase + strlen(root) + have + 2);
        if (root[0] == '@') { strcpy(text, fsx_base); strcat(text, root + 1); } else strcpy(text, root);
        for (int i = 0; i < have; i++) strcat(text, "/");
        char *given = strdup(text); free(text);
        at = opens = reads = dirs = 0; first = 1; int sk = kind[0] == 's';
        fprintf(vf_out, "{\"events\":[");
        if (sk) slash(); 
        long blocks = acct_blocks; int rc;
        sep(); fprintf(vf_out, "{\"op\":\"begin\",\"a\":[\"%s\",[", kind + sk);
        { char *end = vf_pos; vf_pos = sv; int n = vf_int(); for (int i = 0; i < n; i++) { char *s = vf_str(NULL); if (i) fputc(',', vf_out); jstr(s); free(s); } vf_pos = end; }
        fprintf(vf_out, "],"); jstr(spec); fprintf(vf_out, ",%d],\"r\":0}", have);
        nest = nst;
        if (kind[sk] == 'w') { struct mine w = { 0, { center, cfile, cleave } }; rc = cork_walk_directory(given, &w.w); if (w.w.enter_directory != center || w.w.file != cfile || w.w.leave_directory != cleave) rc = 1234; }
        else { int ud = 7; struct cork_file *f = cork_file_new(given); rc = cork_file_iterate_directory(f, centry, &ud); if (strcmp(cork_path_get(cork_file_path(f)), given)) rc = 1234; cork_file_free(f); }
        int err = !cork_error_occurred() ? 0 : cork_error_code() == 0xbeef && strcmp(cork_error_message(), "mine") == 0 ? 1 : 2;
        cork_error_clear();
        sep(); fprintf(vf_out, "{\"op\":\"end\",\"a\":[],\"r\":[%d,%d,%ld,%d]}]}\n", rc, err, acct_blocks - blocks, dirs);
        fflush(vf_out);
        free(given); free(kind); free(root); nest = 2;
    }
    fsx_clear(); fflush(vf_out); _exit(acct_bad ? 97 : 0);
}
