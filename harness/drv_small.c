#include "vf.h"
#include <libcork/core.h>
#include <libcork/ds.h>
/* argv: ring N new|init   |   bits N new|init */
int main(int argc, char **argv)
{
    size_t n = atoi(argv[2]); bool dyn = !strcmp(argv[3], "new"), up = false;
    struct cork_ring_buffer rs, *r = NULL; struct cork_bitset bs, *b = NULL;
    bool ring = !strcmp(argv[1], "ring");
    vf_init();
    while (vf_next()) {
        long res = 0;
        if (vf_is("reset")) {
            if (ring) {
                if (up) { if (dyn) cork_ring_buffer_free(r); else cork_ring_buffer_done(r); }
                if (dyn) r = cork_ring_buffer_new(n); else { r = &rs; cork_ring_buffer_init(r, n); }
            } else {
                if (up) { if (dyn) cork_bitset_free(b); else cork_bitset_done(b); }
                if (dyn) b = cork_bitset_new(n); else { b = &bs; cork_bitset_init(b, n); }
            }
            up = true;
        } else if (vf_is("add")) res = cork_ring_buffer_add(r, (void *) (intptr_t) vf_int());
        else if (vf_is("pop")) res = (long) (intptr_t) cork_ring_buffer_pop(r);
        else if (vf_is("peek")) res = (long) (intptr_t) cork_ring_buffer_peek(r);
        else if (vf_is("set")) { size_t i = vf_int(); int v = vf_int(); cork_bitset_set(b, i, v); }
        else if (vf_is("clear")) cork_bitset_clear(b);
        else VF_DIE("op %s", vf_op);
        J("{\"r\":%ld,\"s\":", res);
        if (ring) J("[%d,%d]", cork_ring_buffer_is_empty(r), cork_ring_buffer_is_full(r));
        else {
            J("[%zu,[", b->bit_count);
            for (size_t i = 0; i < n; i++) { long g = (long) cork_bitset_get(b, i); J(i ? ",%ld" : "%ld", g); }
            J("]]");
        }
        J("}"); J_end();
    }
    return 0;
}
