#include "vf.h"
#include <libcork/core.h>
#include <libcork/ds.h>
/* argv: kind (custom|string|pointer) hashmode keys initial_size */
struct key { int id; char text[20]; };
static struct key *keys; static struct cork_hash_table_entry **seen; static int nkeys, hmode; static bool str, ptr;
static struct cork_hash_table *t;
static cork_hash hash_of(int k)
{
    switch (hmode) {
    case 1: return k;
    case 2: return (cork_hash) k << 13 | k >> 19;
    case 3: return 0xffffffffu - k;
    default: return (cork_hash) k * 2654435761u;
    }
}
static cork_hash c_hash(void *ud, const void *k) { return hash_of(((const struct key *) k)->id); }
static bool c_eq(void *ud, const void *a, const void *b) { return ((const struct key *) a)->id == ((const struct key *) b)->id; }
static void *kp(int i) { return str ? (void *) keys[i].text : (void *) &keys[i]; }
static int id(const void *p) { return str ? (int) ((struct key *) ((const char *) p - offsetof(struct key, text)) - keys) : (int) ((struct key *) p - keys); }
static cork_hash pre(int i) { return str ? cork_hash_buffer(0, keys[i].text, strlen(keys[i].text)) : ptr ? (cork_hash) (uintptr_t) &keys[i] : hash_of(i); }
static int A, B, S;
static enum cork_hash_table_map_result drop(void *ud, struct cork_hash_table_entry *e)
{
    int k = id(e->key);
    if (k >= A && k < B && (k - A) % S == 0) { ++*(long *) ud; return CORK_HASH_TABLE_MAP_DELETE; }
    return CORK_HASH_TABLE_MAP_CONTINUE;
}
int main(int argc, char **argv)
{
    vf_init();
    str = !strcmp(argv[1], "string"); ptr = !strcmp(argv[1], "pointer"); hmode = atoi(argv[2]); nkeys = atoi(argv[3]); int init = atoi(argv[4]);
    keys = calloc(nkeys, sizeof *keys); seen = calloc(nkeys, sizeof *seen);
    for (int i = 0; i < nkeys; i++) { keys[i].id = i; snprintf(keys[i].text, 20, "%d", i); }
    while (vf_next()) {
        long n = 0; int k; bool nw;
        if (vf_is("reset")) {
            if (t) cork_hash_table_free(t);
            t = str ? cork_string_hash_table_new(init, 0) : ptr ? cork_pointer_hash_table_new(init, 0) : cork_hash_table_new(init, 0);
            if (!str && !ptr) { cork_hash_table_set_hash(t, c_hash); cork_hash_table_set_equals(t, c_eq); }
            J("{\"r\":[]");
        } else if (vf_is("clear")) { cork_hash_table_clear(t); J("{\"r\":[]");
        } else {
            A = vf_int(); B = vf_int(); S = vf_int();
            if (B > nkeys || S < 1) VF_DIE("keys");
            if (vf_is("ensure")) { cork_hash_table_ensure_size(t, B); J("{\"r\":[]"); }
            else if (vf_is("map")) { cork_hash_table_map(t, &n, drop); J("{\"r\":[%ld]", n); }
            else {
                for (k = A; k < B; k += S) {
                    void *v = (void *) (intptr_t) (k + 1);
                    if (vf_is("put")) { nw = false; cork_hash_table_put(t, kp(k), v, &nw, NULL, NULL); n += nw; }
                    else if (vf_is("put0")) { size_t was = cork_hash_table_size(t); cork_hash_table_put_hash(t, pre(k), kp(k), v, NULL, NULL, NULL); n += cork_hash_table_size(t) - was; }
                    else if (vf_is("goc")) { nw = false; struct cork_hash_table_entry *e = cork_hash_table_get_or_create(t, kp(k), &nw); if (nw) e->value = v; n += nw; }
                    else if (vf_is("del")) n += cork_hash_table_delete(t, kp(k), NULL, NULL);
                    else if (vf_is("dele")) { struct cork_hash_table_entry *e = cork_hash_table_get_entry_hash(t, pre(k), kp(k)); if (e) { cork_hash_table_delete_entry(t, e); n++; } }
                    else VF_DIE("op %s", vf_op);
                }
                J("{\"r\":[%ld]", n);
            }
        }
        J(",\"s\":[%zu,[", cork_hash_table_size(t));
        struct cork_hash_table_iterator it; struct cork_hash_table_entry *e; long c = 0, bad = 0;
        memset(seen, 0, nkeys * sizeof *seen);
        cork_hash_table_iterator_init(t, &it);
        while ((e = cork_hash_table_iterator_next(&it)) != NULL && c < 2L * nkeys) {
            k = id(e->key);
            if (k < 0 || k >= nkeys || e->value != (void *) (intptr_t) (k + 1)) { bad++; k = -1; } else seen[k] = e;
            J(c++ ? ",%d" : "%d", k);
        }
        for (k = 0; k < nkeys; k++) {
            struct cork_hash_table_entry *f = (k & 1) ? cork_hash_table_get_entry(t, kp(k)) : cork_hash_table_get_entry_hash(t, pre(k), kp(k));
            if (f != seen[k] || cork_hash_table_get(t, kp(k)) != (f ? f->value : NULL)) bad++;
        }
        J("],%ld]}", bad); J_end();
    }
    if (t) cork_hash_table_free(t);
    return 0;
}
