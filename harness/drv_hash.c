#include "vf.h"
#include <libcork/core.h>
#include <libcork/ds.h>
/* argv: kind (custom|string|pointer) hashmode nkeys initial_size */
struct ko { int id; int pad; char text[24]; };
static struct ko *kos; static int nko, nkeys; static const char *kind; static int hmode;
static struct cork_hash_table *t;
static unsigned long count;
static cork_hash hash_of(int k)
{
    switch (hmode) {
    case 0: return 7;                       /* everything collides */
    case 1: return k;
    case 2: return k * 8u;                  /* collide until the table grows */
    case 3: return k & 1;
    case 4: return (cork_hash) k << 28 | (k & 3);
    case 5: return (cork_hash) k * 2654435761u;
    default: return 0xffffffffu - k;
    }
}
static cork_hash c_hash(void *ud, const void *k) { return hash_of(((const struct ko *) k)->id); }
static bool c_eq(void *ud, const void *a, const void *b) { return ((const struct ko *) a)->id == ((const struct ko *) b)->id; }
static bool ptr, str;
static void *key_ptr(int i) { return str ? (void *) kos[i].text : (void *) &kos[i]; }
static int key_id(const void *p)
{
    if (p == NULL) return -1;
    if (str) return (int) (((const char *) p - offsetof(struct ko, text) - (const char *) kos) / sizeof(struct ko));
    return (int) ((const struct ko *) p - kos);
}
static cork_hash pre(int i)   /* the hash value a caller would precompute */
{
    if (str) return cork_hash_buffer(0, kos[i].text, strlen(kos[i].text));
    if (ptr) return (cork_hash) (uintptr_t) &kos[i];
    return hash_of(kos[i].id);
}
static void *V(long v) { return (void *) (intptr_t) v; }
static long N(void *v) { return (long) (intptr_t) v; }
struct plan { int nd; int dels[512]; int ab; };
static enum cork_hash_table_map_result map_cb(void *ud, struct cork_hash_table_entry *e)
{
    static int first;
    struct plan *p = ud;
    int o = key_id(e->key), k = ptr ? o : o / 2, i;
    J(p->nd < 0 ? "%d" : "%d,", o);
    if (k == p->ab) return CORK_HASH_TABLE_MAP_ABORT;
    for (i = 0; i < p->nd; i++) if (p->dels[i] == k) return CORK_HASH_TABLE_MAP_DELETE;
    return CORK_HASH_TABLE_MAP_CONTINUE;
}
static int nvis, vis[4096];
static enum cork_hash_table_map_result map_rec(void *ud, struct cork_hash_table_entry *e)
{
    struct plan *p = ud;
    int o = key_id(e->key), k = ptr ? o : o / 2, i;
    if (nvis < 4096) vis[nvis++] = o;
    if (k == p->ab) return CORK_HASH_TABLE_MAP_ABORT;
    for (i = 0; i < p->nd; i++) if (p->dels[i] == k) return CORK_HASH_TABLE_MAP_DELETE;
    return CORK_HASH_TABLE_MAP_CONTINUE;
}
static void obs(void)
{
    struct cork_hash_table_iterator it;
    struct cork_hash_table_entry *e;
    int i, nd = ptr ? nko : nkeys, c = 0;
    J(",\"s\":{\"n\":%zu,\"it\":[", cork_hash_table_size(t));
    cork_hash_table_iterator_init(t, &it);
    while ((e = cork_hash_table_iterator_next(&it)) != NULL && c < 10000)
        J("%s[%d,%ld]", c++ ? "," : "", key_id(e->key), N(e->value));
    J("],\"get\":[");
    for (i = 0; i < nd; i++) {
        int o = ptr ? i : 2 * i + (count & 1);
        long v;
        if (count & 2) { e = cork_hash_table_get_entry(t, key_ptr(o)); v = N(cork_hash_table_get_hash(t, pre(o), key_ptr(o))); }
        else { e = cork_hash_table_get_entry_hash(t, pre(o), key_ptr(o)); v = N(cork_hash_table_get(t, key_ptr(o))); }
        if (e && N(e->value) != v) v = -99999;
        J("%s[%d,%ld]", i ? "," : "", e ? key_id(e->key) : -1, v);
    }
    J("]}}");
}
int main(int argc, char **argv)
{
    vf_init();
    kind = argv[1]; hmode = atoi(argv[2]); nkeys = atoi(argv[3]); int init = atoi(argv[4]);
    nko = 2 * nkeys; kos = calloc(nko, sizeof(struct ko));
    str = !strcmp(kind, "string"); ptr = !strcmp(kind, "pointer");
    for (int i = 0; i < nko; i++) { kos[i].id = i / 2; snprintf(kos[i].text, 24, "%skey%d", (i / 2) % 3 ? "" : "a", (i / 2)); }
    while (vf_next()) {
        count++;
        bool h = (count / 2) & 1;
        if (vf_is("reset")) {
            if (t) cork_hash_table_free(t);
            t = str ? cork_string_hash_table_new(init, 0) : ptr ? cork_pointer_hash_table_new(init, 0) : cork_hash_table_new(init, 0);
            if (!str && !ptr) { cork_hash_table_set_hash(t, c_hash); cork_hash_table_set_equals(t, c_eq); }
            J("{\"r\":0");
        } else if (vf_is("put") || vf_is("put0")) {
            bool out = vf_is("put"); int k = vf_int(); long v = vf_int();
            bool nw = 0x55; void *ok = &nw, *ov = &nw;
            if (h) cork_hash_table_put_hash(t, pre(k), key_ptr(k), V(v), out ? &nw : NULL, out ? &ok : NULL, out ? &ov : NULL);
            else cork_hash_table_put(t, key_ptr(k), V(v), out ? &nw : NULL, out ? &ok : NULL, out ? &ov : NULL);
            if (out) J("{\"r\":[%d,%d,%ld]", nw, key_id(ok), N(ov)); else J("{\"r\":[]");
        } else if (vf_is("goc")) {
            int k = vf_int(); long v = vf_int(); bool nw = false;
            struct cork_hash_table_entry *e = h ? cork_hash_table_get_or_create_hash(t, pre(k), key_ptr(k), &nw)
                                                : cork_hash_table_get_or_create(t, key_ptr(k), &nw);
            J("{\"r\":[%d,%d,%ld]", nw, key_id(e->key), N(e->value));
            if (nw) e->value = V(v);
        } else if (vf_is("del") || vf_is("del0")) {
            bool out = vf_is("del"); int k = vf_int(); void *dk = NULL, *dv = NULL; bool f;
            f = h ? cork_hash_table_delete_hash(t, pre(k), key_ptr(k), out ? &dk : NULL, out ? &dv : NULL)
                  : cork_hash_table_delete(t, key_ptr(k), out ? &dk : NULL, out ? &dv : NULL);
            if (out) J("{\"r\":[%d,%d,%ld]", f, f ? key_id(dk) : -1, f ? N(dv) : 0L); else J("{\"r\":[%d]", f);
        } else if (vf_is("dele")) {
            int k = vf_int(); struct cork_hash_table_entry *e = cork_hash_table_get_entry(t, key_ptr(k));
            if (e) cork_hash_table_delete_entry(t, e);
            J("{\"r\":%d", e != NULL);
        } else if (vf_is("sete")) {
            int k = vf_int(); long v = vf_int(); struct cork_hash_table_entry *e = cork_hash_table_get_entry(t, key_ptr(k));
            if (e) e->value = V(v);
            J("{\"r\":%d", e != NULL);
        } else if (vf_is("clear")) { cork_hash_table_clear(t); J("{\"r\":0");
        } else if (vf_is("ensure")) { cork_hash_table_ensure_size(t, vf_int()); J("{\"r\":0");
        } else if (vf_is("map")) {
            struct plan p; p.nd = vf_int();
            for (int i = 0; i < p.nd; i++) p.dels[i] = vf_int();
            p.ab = vf_int(); nvis = 0;
            cork_hash_table_map(t, &p, map_rec);
            J("{\"r\":["); for (int i = 0; i < nvis; i++) J(i ? ",%d" : "%d", vis[i]); J("]");
        } else VF_DIE("op %s", vf_op);
        obs();
        J_end();
    }
    if (t) cork_hash_table_free(t);
    return 0;
}
