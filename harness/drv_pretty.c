#include "vf.h"
#include <libcork/core.h>
#include <libcork/ds.h>
int main(int argc, char **argv)
{
    vf_init();
    while (vf_next()) {
        if (vf_is("reset")) { J("{\"r\":[],\"s\":0}"); J_end(); continue; }
        int n = vf_int(); size_t pl, sl; char *p = vf_str(&pl), *s0 = vf_str(&sl), *s = malloc(sl ? sl : 1);
        memcpy(s, s0, sl); free(s0);
        struct cork_buffer b = CORK_BUFFER_INIT();
        if (pl) cork_buffer_set(&b, p, pl);
        if (vf_is("cstr")) cork_buffer_append_c_string(&b, s, sl);
        else if (vf_is("hex")) cork_buffer_append_hex_dump(&b, n, s, sl);
        else if (vf_is("multi")) cork_buffer_append_multiline(&b, n, s, sl);
        else if (vf_is("bin")) cork_buffer_append_binary(&b, n, s, sl);
        else if (vf_is("ind")) cork_buffer_append_indent(&b, n);
        else VF_DIE("op %s", vf_op);
        J("{\"r\":"); J_bytes(b.buf, b.size);
        J(",\"s\":%d}", b.buf != NULL && ((char *) b.buf)[b.size] != 0); J_end();
        cork_buffer_done(&b); free(s); free(p);
    }
    return 0;
}
