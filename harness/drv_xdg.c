#include "vf.h"
#include "acct.h"
#include <libcork/core.h>
#include <libcork/ds.h>
#include <libcork/os.h>
static const char *names[] = { "", "HOME", "XDG_CONFIG_HOME", "XDG_CONFIG_DIRS", "XDG_DATA_HOME", "XDG_DATA_DIRS", "XDG_CACHE_HOME", "XDG_RUNTIME_DIR" };
static void put(int i) { if (vf_int()) { char *s = vf_str(NULL); setenv(names[i], s, 1); memset(s, '#', strlen(s)); free(s); } else unsetenv(names[i]); }
static void one(struct cork_path *p) { if (p) { J("["); J_bytes(cork_path_get(p), strlen(cork_path_get(p))); J("]"); cork_path_free(p); } else J("[]"); }
static void list(struct cork_path_list *l)
{
    if (!l) { J("[]"); return; }
    J("[");
    for (size_t i = 0; i < cork_path_list_size(l); i++) { const char *s = cork_path_get(cork_path_list_get(l, i)); if (i) J(","); J_bytes(s, strlen(s)); }
    J("]"); cork_path_list_free(l);
}
int main(void)
{
    vf_init(); acct_install(); cork_error_clear(); acct_warm(); long blocks = acct_blocks;
    for (int i = 1; i < 8; i++) unsetenv(names[i]);
    while (vf_next()) {
        cork_error_clear(); bool got = true;
        J("{\"r\":");
        if (vf_is("reset")) {
            for (int i = 1; i < 8; i++) unsetenv(names[i]);
            if (acct_blocks != blocks) { fprintf(stderr, "%ld blocks leaked\n", acct_blocks - blocks); fflush(vf_out); _exit(96); }
            J("[]");
        } else if (vf_is("env")) { vf_int(); for (int i = 1; i < 8; i++) put(i); J("[]"); }
        else if (vf_is("set")) { int i = vf_int(); put(i); J("[]"); }
        else {
            struct cork_path *p = NULL; struct cork_path_list *l = NULL;
            if (vf_is("home")) p = cork_path_home(); else if (vf_is("cache")) p = cork_path_user_cache_path(); else if (vf_is("runtime")) p = cork_path_user_runtime_path();
            else if (vf_is("config")) l = cork_path_config_paths(); else if (vf_is("data")) l = cork_path_data_paths(); else VF_DIE("op %s", vf_op);
            got = p || l;
            if (l) list(l); else one(p);
        }
        if (got == cork_error_occurred()) J(",\"e\":\"error condition\",\"op\":\"bad-error-condition\"");
        J(",\"s\":[");
        for (int i = 1; i < 8; i++) { const char *v = getenv(names[i]); if (i > 1) J(","); J("["); if (v) J_bytes(v, strlen(v)); J("]"); }
        J("]}\n");
    }
    fflush(vf_out); _exit(acct_bad ? 97 : 0);
}
