#include "fsx.h"
#include "acct.h"
#include <libcork/core.h>
#include <libcork/ds.h>
#include <libcork/os.h>
/* usage: drv_plist SCRATCH N; paths that start with "/@" are below SCRATCH */
#define N 8
static struct cork_path_list *lst[N];
static char *in(const char *s)     /* a list of paths, as the library gets it */
{
    size_t n = 0, cap = strlen(s) * (fsx_lbase + 2) + 1; char *r = malloc(cap); bool start = true;
    for (; *s; s++) {
        if (start && s[0] == '/' && s[1] == '@') { memcpy(r + n, fsx_base, fsx_lbase); n += fsx_lbase; s++; start = false; continue; }
        r[n++] = *s; start = *s == ':';
    }
    r[n] = 0;
    char *exact = strdup(r); free(r);
    return exact;
}
static void out(const char *s)
{
    bool start = true, first = true;
    fputc('[', vf_out);
    for (; s && *s; s++) {
        if (start && strncmp(s, fsx_base, fsx_lbase) == 0) { fprintf(vf_out, first ? "47,64" : ",47,64"); s += fsx_lbase - 1; start = first = false; continue; }
        fprintf(vf_out, first ? "%u" : ",%u", (unsigned char) *s); first = false; start = *s == ':';
    }
    fputc(']', vf_out);
    if (!s) fprintf(vf_out, ",\"null\"");
}
static const char *types[] = { [CORK_FILE_MISSING] = "missing", [CORK_FILE_REGULAR] = "file", [CORK_FILE_DIRECTORY] = "dir", [CORK_FILE_SYMLINK] = "link", [CORK_FILE_UNKNOWN] = "fifo" };
static void hit(struct cork_file *f)
{
    enum cork_file_type t = 0; bool e = false;
    int rc = cork_file_type(f, &t) | cork_file_exists(f, &e);
    fputc('[', vf_out); out(cork_path_get(cork_file_path(f))); fprintf(vf_out, ",\"%s\"]", rc || !e ? "bad" : types[t]);
}
int main(int argc, char **argv)
{
    vf_init(); fsx_init(argv[1]); int n = atoi(argv[2]); acct_install();
    cork_error_clear(); acct_warm(); long blocks = acct_blocks;
    fsx_clear();
    while (vf_next()) {
        cork_error_clear(); char *s = NULL, *x = NULL;
        fprintf(vf_out, "{\"r\":");
        if (vf_is("reset")) {
            for (int i = 0; i < N; i++) if (lst[i]) { cork_path_list_free(lst[i]); lst[i] = NULL; }
            fsx_clear();
            if (acct_blocks != blocks) { fprintf(stderr, "%ld blocks leaked\n", acct_blocks - blocks); _exit(96); }
            fprintf(vf_out, "0");
        } else if (vf_is("tree")) { fsx_clear(); fsx_tree(); fprintf(vf_out, "0"); }
        else {
            int i = vf_int();
            if (vf_is("empty")) { lst[i] = cork_path_list_new_empty(); fprintf(vf_out, "0"); }
            else if (vf_is("new")) { s = vf_str(NULL); x = in(s); lst[i] = cork_path_list_new(x); fprintf(vf_out, "0"); }
            else if (vf_is("free")) { cork_path_list_free(lst[i]); lst[i] = NULL; fprintf(vf_out, "0"); }
            else if (vf_is("add")) { s = vf_str(NULL); x = in(s); cork_path_list_add(lst[i], cork_path_new(x)); fprintf(vf_out, "0"); }
            else if (vf_is("find")) {
                s = vf_str(NULL); x = in(s);
                struct cork_file *f = cork_path_list_find_file(lst[i], x);
                if (f) { fprintf(vf_out, "[\"%s\",", cork_error_occurred() ? "found with error" : "found"); hit(f); fputc(']', vf_out); cork_file_free(f); }
                else if (!cork_error_occurred()) fprintf(vf_out, "[\"no error\"]");
                else if (cork_error_code() == ENOENT) fprintf(vf_out, "[\"%s\"]", strstr(cork_error_message(), x) ? "none" : "unnamed");
                else fprintf(vf_out, "[\"error\"]");
            } else if (vf_is("findall")) {
                s = vf_str(NULL); x = in(s);
                struct cork_file_list *l = cork_path_list_find_files(lst[i], x);
                if (l) {
                    fprintf(vf_out, "[\"%s\",[", cork_error_occurred() ? "files with error" : "files");
                    for (size_t k = 0; k < cork_file_list_size(l); k++) { if (k) fputc(',', vf_out); hit(cork_file_list_get(l, k)); }
                    fprintf(vf_out, "]]"); cork_file_list_free(l);
                } else fprintf(vf_out, cork_error_occurred() ? "[\"error\"]" : "[\"no error\"]");
            } else if (vf_is("files")) {
                struct cork_file_list *l = i % 2 && cork_path_list_size(lst[i]) == 0 ? cork_file_list_new_empty() : cork_file_list_new(lst[i]);
                int more = vf_int();
                while (more--) { char *t = vf_str(NULL), *u = in(t); cork_file_list_add(l, cork_file_new(u)); free(t); free(u); }
                fputc('[', vf_out);
                for (size_t k = 0; k < cork_file_list_size(l); k++) { if (k) fputc(',', vf_out); out(cork_path_get(cork_file_path(cork_file_list_get(l, k)))); }
                fputc(']', vf_out); cork_file_list_free(l);
            } else VF_DIE("op %s", vf_op);
        }
        free(s); if (x) { memset(x, '#', strlen(x)); free(x); }
        fprintf(vf_out, ",\"s\":[");
        for (int i = 1; i <= n; i++) {
            if (i > 1) fputc(',', vf_out);
            fputc('[', vf_out);
            if (lst[i]) {
                fputc('[', vf_out);
                for (size_t k = 0; k < cork_path_list_size(lst[i]); k++) { if (k) fputc(',', vf_out); out(cork_path_get(cork_path_list_get(lst[i], k))); }
                fprintf(vf_out, "],"); out(cork_path_list_to_string(lst[i]));
            }
            fputc(']', vf_out);
        }
        fprintf(vf_out, "]}\n");
    }
    fsx_clear(); fflush(vf_out); _exit(acct_bad ? 97 : 0);
}
