#include "vf.h"
#include <libcork/core.h>
#include <libcork/ds.h>
/* argv: fk fv ud nko nv hashmode */
struct ob { int id; };
static struct ob *ks, *vs; static int nko, nv, hm, fk, fv, ud;
static int *ck, *cv, cu;
static struct cork_hash_table *t;
static cork_hash c_hash(void *u, const void *k) { int i = (((const struct ob *) k)->id - 1) / 2; return hm == 0 ? 3 : hm == 1 ? i : i * 8u; }
static bool c_eq(void *u, const void *a, const void *b) { return (((const struct ob *) a)->id - 1) / 2 == (((const struct ob *) b)->id - 1) / 2; }
static void freek(void *p) { if (p) ck[(struct ob *) p - ks]++; }
static void freev(void *p) { if (p) cv[(struct ob *) p - vs]++; }
static int udobj;
static void freeu(void *p) { if (p == &udobj) cu++; else cu += 1000; }
static void mk(void)
{
    t = cork_hash_table_new(0, 0);
    cork_hash_table_set_hash(t, c_hash); cork_hash_table_set_equals(t, c_eq);
    if (fk) cork_hash_table_set_free_key(t, freek);
    if (fv) cork_hash_table_set_free_value(t, freev);
    if (ud) cork_hash_table_set_user_data(t, &udobj, freeu);
}
struct plan { int nd, dels[256], ab; };
static enum cork_hash_table_map_result map_cb(void *u, struct cork_hash_table_entry *e)
{
    struct plan *p = u; int k = (((struct ob *) e->key)->id - 1) / 2;
    if (k == p->ab) return CORK_HASH_TABLE_MAP_ABORT;
    for (int i = 0; i < p->nd; i++) if (p->dels[i] == k) return CORK_HASH_TABLE_MAP_DELETE;
    return CORK_HASH_TABLE_MAP_CONTINUE;
}
static void *K(int i) { return &ks[i]; }
static void *VV(int i) { return i ? &vs[i] : NULL; }
int main(int argc, char **argv)
{
    vf_init();
    fk = atoi(argv[1]); fv = atoi(argv[2]); ud = atoi(argv[3]); nko = atoi(argv[4]); nv = atoi(argv[5]); hm = atoi(argv[6]);
    ks = calloc(nko + 1, sizeof *ks); vs = calloc(nv + 1, sizeof *vs);
    ck = calloc(nko + 1, sizeof(int)); cv = calloc(nv + 1, sizeof(int));
    for (int i = 0; i <= nko; i++) ks[i].id = i;
    for (int i = 0; i <= nv; i++) vs[i].id = i;
    while (vf_next()) {
        int i;
        memset(ck, 0, (nko + 1) * sizeof(int)); memset(cv, 0, (nv + 1) * sizeof(int)); cu = 0;
        if (vf_is("reset")) {
            if (t) cork_hash_table_free(t);
            mk(); J("{\"r\":0,\"s\":0}"); J_end(); continue;
        }
        J("{\"r\":{\"x\":");
        if (vf_is("put")) {
            int k = vf_int(), v = vf_int(); bool nw; struct ob *ok, *ov;
            cork_hash_table_put(t, K(k), VV(v), &nw, (void **) &ok, (void **) &ov);
            J("[%d,%d,%d]", nw, ok ? ok->id : 0, ov ? ov->id : 0);
        } else if (vf_is("goc")) {
            int k = vf_int(), v = vf_int(); bool nw;
            struct cork_hash_table_entry *e = cork_hash_table_get_or_create(t, K(k), &nw);
            if (nw) e->value = VV(v);
            J("%d", nw);
        } else if (vf_is("del")) {
            J("%d", cork_hash_table_delete(t, K(vf_int()), NULL, NULL));
        } else if (vf_is("dele")) {
            struct cork_hash_table_entry *e = cork_hash_table_get_entry(t, K(vf_int()));
            if (e) cork_hash_table_delete_entry(t, e);
            J("%d", e != NULL);
        } else if (vf_is("clear")) { cork_hash_table_clear(t); J("0");
        } else if (vf_is("ensure")) { cork_hash_table_ensure_size(t, vf_int()); J("0");
        } else if (vf_is("destroy")) { cork_hash_table_free(t); mk(); J("0");
        } else if (vf_is("map")) {
            struct plan p; p.nd = vf_int(); for (i = 0; i < p.nd; i++) p.dels[i] = vf_int(); p.ab = vf_int();
            cork_hash_table_map(t, &p, map_cb); J("0");
        } else VF_DIE("op %s", vf_op);
        J(",\"f\":{\"k\":[");
        for (i = 1; i <= nko; i++) J(i > 1 ? ",%d" : "%d", ck[i]);
        J("],\"v\":[");
        for (i = 1; i <= nv; i++) J(i > 1 ? ",%d" : "%d", cv[i]);
        J("],\"u\":%d}},\"s\":%zu}", cu, cork_hash_table_size(t));
        J_end();
    }
    return 0;
}
