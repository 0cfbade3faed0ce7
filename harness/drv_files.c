#include "fsx.h"
#include "acct.h"
#include <libcork/core.h>
#include <libcork/ds.h>
#include <libcork/os.h>
/* usage: drv_files SCRATCH path...; the paths of the observation, relative to SCRATCH */
#define N 8
static struct cork_file *obj[N];
static const char *types[] = { [CORK_FILE_MISSING] = "missing", [CORK_FILE_REGULAR] = "file", [CORK_FILE_DIRECTORY] = "dir", [CORK_FILE_SYMLINK] = "link", [CORK_FILE_UNKNOWN] = "fifo" };
static int rcode(int rc) { return fsx_escapes ? -99 : rc == 0 ? (cork_error_occurred() ? 77 : 0) : rc == -1 && cork_error_occurred() ? -1 : -2; }
int main(int argc, char **argv)
{
    vf_init(); fsx_init(argv[1]); acct_install();
    cork_error_clear(); acct_warm(); long blocks = acct_blocks;
    fsx_clear();
    while (vf_next()) {
        char q[64] = "0"; cork_error_clear(); fsx_calls = fsx_refuse = fsx_refused = 0; int hint = -1; long long arg[6]; int na = 0;
        if (vf_is("reset")) {
            for (int i = 0; i < N; i++) if (obj[i]) { cork_file_free(obj[i]); obj[i] = NULL; }
            fsx_clear();
            if (acct_blocks != blocks) { fprintf(stderr, "%ld blocks leaked\n", acct_blocks - blocks); fflush(vf_out); _exit(96); }
        } else if (vf_is("tree")) { mode_t o = umask(0); fsx_clear(); fsx_tree(); umask(o); }
        else if (vf_is("put")) { mode_t o = umask(0); fsx_entry(); fsx_modes(); umask(o); }
        else if (vf_is("drop")) { char *p = fsx_comps(0); if (__real_unlink(p) && __real_rmdir(p)) VF_DIE("drop %s", p); free(p); }
        else if (vf_is("umask")) umask(vf_int());
        else if (vf_is("new")) {
            int i = vf_int(); char *save = vf_pos; char *dummy = fsx_comps(0); int sp = vf_int(); free(dummy);
            char *end = vf_pos; vf_pos = save; char *p = fsx_comps(sp); vf_pos = end;
            if (i % 2) obj[i] = cork_file_new(p); else obj[i] = cork_file_new_from_path(cork_path_new(p));
            if (strcmp(cork_path_get(cork_file_path(obj[i])), p)) strcpy(q, "\"path\"");
            memset(p, '#', strlen(p)); free(p);
        } else {
            while (vf_more()) arg[na++] = vf_int();
            struct cork_file *f = obj[arg[0]];
            if (vf_is("free")) { cork_file_free(f); obj[arg[0]] = NULL; }
            else if (vf_is("exists")) { bool e = false; int rc = rcode(cork_file_exists(f, &e)); if (rc) sprintf(q, "%d", rc); else strcpy(q, e ? "\"yes\"" : "\"no\""); }
            else if (vf_is("type")) { enum cork_file_type t = 99; int rc = rcode(cork_file_type(f, &t)); if (rc || t > CORK_FILE_UNKNOWN) sprintf(q, "%d", rc); else sprintf(q, "\"%s\"", types[t]); }
            else if (vf_is("mkdir")) sprintf(q, "%d", rcode(cork_file_mkdir(f, arg[1], arg[2])));
            else if (vf_is("remove")) sprintf(q, "%d", rcode(cork_file_remove(f, arg[1])));
            else if (vf_is("mkdirx")) { fsx_refuse = arg[3]; sprintf(q, "%d", rcode(cork_file_mkdir(f, arg[1], arg[2]))); hint = fsx_refused; }
            else if (vf_is("removex")) { fsx_refuse = arg[2]; sprintf(q, "%d", rcode(cork_file_remove(f, arg[1]))); hint = fsx_refused; }
            else if (vf_is("race")) { fsx_race = arg[1]; sprintf(q, "%d", rcode(cork_file_mkdir(f, 0777, arg[2]))); fsx_race = -1; }
            else VF_DIE("op %s", vf_op);
        }
        fprintf(vf_out, "{");
        if (hint >= 0) { fprintf(vf_out, "\"a\":["); for (int i = 0; i < na - 1; i++) fprintf(vf_out, "%lld,", arg[i]); fprintf(vf_out, "%d],", hint); }
        fprintf(vf_out, "\"r\":%s,\"s\":[[", q);
        bool first = true; int n = 0;
        for (int i = 2; i < argc; i++) if (fsx_node(argv[i], first)) first = false;
        n = fsx_count();
        fprintf(vf_out, "],%d]}\n", n);
    }
    fsx_clear(); fflush(vf_out); _exit(acct_bad ? 97 : 0);
}
