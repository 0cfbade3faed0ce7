#include "fsx.h"
#include "acct.h"
#include <libcork/core.h>
#include <libcork/ds.h>
#include <libcork/os.h>
/* usage: drv_path SCRATCH N */
#define N 8
static struct cork_path *obj[N];
static char *want[N];        /* strings returned earlier still belong to their object */
int main(int argc, char **argv)
{
    vf_init(); fsx_init(argv[1]); int n = atoi(argv[2]); acct_install();
    cork_error_clear(); acct_warm(); long blocks = acct_blocks;
    fsx_clear();
    while (vf_next()) {
        int rc = 0; cork_error_clear(); char *s = NULL; char hint[PATH_MAX * 4]; hint[0] = 0;
        if (vf_is("reset")) {
            for (int i = 0; i < N; i++) if (obj[i]) { cork_path_free(obj[i]); obj[i] = NULL; }
            if (chdir("/")) VF_DIE("cd");
            if (acct_blocks != blocks) { fprintf(stderr, "%ld blocks leaked\n", acct_blocks - blocks); fflush(vf_out); _exit(96); }
        } else if (vf_is("chdir")) {
            /* 0: the root, 1: the scratch directory, 2: one below it, 3: one that does not exist any more, 4: one with a very long name, 5: /usr */
            int k = vf_int(); char b[PATH_MAX * 3];
            if (chdir(fsx_base)) VF_DIE("cd");
            fsx_clear();
            if (k == 0) { if (chdir("/")) VF_DIE("cd"); }
            else if (k == 2 || k == 3) { if (__real_mkdir("some dir", 0755) || chdir("some dir")) VF_DIE("cd"); if (k == 3 && __real_rmdir("../some dir")) VF_DIE("rmdir"); }
            else if (k == 4) { for (int i = 0; i < 14; i++) { memset(b, 'a' + i, 240); b[240] = 0; if (__real_mkdir(b, 0755) || chdir(b)) VF_DIE("cd"); } }
            else if (k == 5) { if (chdir("/usr")) VF_DIE("cd"); }
            if (k == 3 || !getcwd(b, PATH_MAX)) b[0] = 0;
            int at = sprintf(hint, "\"a\":[%d,[", k);
            for (int i = 0; b[i]; i++) at += sprintf(hint + at, i ? ",%d" : "%d", (unsigned char) b[i]);
            strcpy(hint + at, "]],");
        } else {
            int i = vf_int();
            if (vf_is("new")) { s = vf_str(NULL); obj[i] = cork_path_new(s); }
            else if (vf_is("newnull")) obj[i] = cork_path_new(NULL);
            else if (vf_is("free")) { cork_path_free(obj[i]); obj[i] = NULL; }
            else if (vf_is("set")) { s = vf_str(NULL); cork_path_set(obj[i], s); }
            else if (vf_is("setnull")) cork_path_set(obj[i], NULL);
            else if (vf_is("append")) { s = vf_str(NULL); cork_path_append(obj[i], s); }
            else if (vf_is("appendnull")) cork_path_append(obj[i], NULL);
            else if (vf_is("setbase")) cork_path_set_basename(obj[i]);
            else if (vf_is("setdir")) cork_path_set_dirname(obj[i]);
            else if (vf_is("setcwd")) rc = cork_path_set_cwd(obj[i]);
            else if (vf_is("setabs")) rc = cork_path_set_absolute(obj[i]);
            else if (vf_is("cwd")) { obj[i] = cork_path_cwd(); rc = obj[i] ? 0 : -1; }
            else {
                int j = vf_int();
                if (vf_is("clone")) obj[i] = cork_path_clone(obj[j]);
                else if (vf_is("appendp")) cork_path_append_path(obj[i], obj[j]);
                else if (vf_is("base")) obj[i] = cork_path_basename(obj[j]);
                else if (vf_is("dir")) obj[i] = cork_path_dirname(obj[j]);
                else if (vf_is("abs")) { obj[i] = cork_path_absolute(obj[j]); rc = obj[i] ? 0 : -1; }
                else if (vf_is("join")) { s = vf_str(NULL); obj[i] = cork_path_join(obj[j], s); }
                else if (vf_is("joinp")) obj[i] = cork_path_join_path(obj[j], obj[vf_int()]);
                else VF_DIE("op %s", vf_op);
            }
        }
        if (s) { memset(s, '#', strlen(s)); free(s); }
        if ((rc == 0) == cork_error_occurred()) rc = 77;
        cork_error_clear();
        fprintf(vf_out, "{%s\"r\":%d,\"s\":[", hint, rc);
        for (int i = 1; i <= n; i++) {
            if (i > 1) fputc(',', vf_out);
            if (!obj[i]) { fprintf(vf_out, "[]"); continue; }
            const char *p = cork_path_get(obj[i]);
            fputc('[', vf_out);
            if (p) J_bytes(p, strlen(p)); else fprintf(vf_out, "-1");
            fputc(']', vf_out);
        }
        fprintf(vf_out, "]}\n");
    }
    if (chdir(fsx_base)) VF_DIE("cd");
    fsx_clear(); fflush(vf_out); _exit(acct_bad ? 97 : 0);
}
