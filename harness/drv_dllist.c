#include "vf.h"
#include <libcork/core.h>
#include <libcork/ds.h>
/* argv: number of lists, number of elements */
struct el { int pad; int id; struct cork_dllist_item item; };
static int nl, ne;
static struct cork_dllist *ls; static struct el *es;
#define ID(it) (cork_container_of((it), struct el, item)->id)
struct plan { int nd, dels[64], stop, n, seen[4096]; };
static int visit_cb(void *u, struct cork_dllist_item *it)
{
    struct plan *p = u; int id = ID(it);
    if (p->n < 4096) p->seen[p->n++] = id;
    for (int i = 0; i < p->nd; i++) if (p->dels[i] == id) { cork_dllist_remove(it); memset(it, 0xbe, sizeof *it); }
    return id != p->stop ? 0 : id % 2 ? 7 : -7;
}
static void map_cb(struct cork_dllist_item *it, void *u) { visit_cb(u, it); }
int main(int argc, char **argv)
{
    vf_init(); nl = atoi(argv[1]); ne = atoi(argv[2]);
    ls = calloc(nl + 1, sizeof *ls); es = calloc(ne + 1, sizeof *es);
    for (int i = 0; i <= ne; i++) es[i].id = i;
    while (vf_next()) {
        int a, b; struct plan p; int isv = 0, rc = 0;
        memset(&p, 0, sizeof p);
        if (vf_is("reset")) {
            for (a = 1; a <= nl; a++) { if (a == 1) { struct cork_dllist x = CORK_DLLIST_INIT(ls[1]); ls[1] = x; } else cork_dllist_init(&ls[a]); }
            for (a = 1; a <= ne; a++) memset(&es[a].item, 0xbe, sizeof es[a].item);
        } else if (vf_is("addh")) { a = vf_int(); b = vf_int(); cork_dllist_add_to_head(&ls[a], &es[b].item);
        } else if (vf_is("addt")) { a = vf_int(); b = vf_int(); cork_dllist_add_to_tail(&ls[a], &es[b].item);
        } else if (vf_is("add")) { a = vf_int(); b = vf_int(); cork_dllist_add(&ls[a], &es[b].item);
        } else if (vf_is("aft")) { a = vf_int(); b = vf_int(); cork_dllist_add_after(&es[a].item, &es[b].item);
        } else if (vf_is("bef")) { a = vf_int(); b = vf_int(); cork_dllist_add_before(&es[a].item, &es[b].item);
        } else if (vf_is("rem")) { a = vf_int(); cork_dllist_remove(&es[a].item); memset(&es[a].item, 0xbe, sizeof es[a].item);
        } else if (vf_is("cath")) { a = vf_int(); b = vf_int(); cork_dllist_add_list_to_head(&ls[a], &ls[b]);
        } else if (vf_is("catt")) { a = vf_int(); b = vf_int(); cork_dllist_add_list_to_tail(&ls[a], &ls[b]);
        } else if (vf_is("init")) { a = vf_int(); cork_dllist_init(&ls[a]);
        } else {
            struct cork_dllist_item *cur, *next; struct el *e;
            isv = 1; a = vf_int(); p.nd = vf_int(); for (b = 0; b < p.nd; b++) p.dels[b] = vf_int(); p.stop = vf_int();
            if (vf_is("visit")) rc = cork_dllist_visit(&ls[a], &p, visit_cb);
            else if (vf_is("map")) cork_dllist_map(&ls[a], map_cb, &p);
            else if (vf_is("fev")) { cork_dllist_foreach_void(&ls[a], cur, next) visit_cb(&p, cur); }
            else if (vf_is("fe")) { cork_dllist_foreach(&ls[a], cur, next, struct el, e, item) visit_cb(&p, &e->item); }
            else VF_DIE("op %s", vf_op);
        }
        J("{\"r\":[");
        if (isv) { J("%d,[", rc); for (b = 0; b < p.n; b++) J(b ? ",%d" : "%d", p.seen[b]); J("]"); }
        J("],\"s\":[");
        for (a = 1; a <= nl; a++) {
            struct cork_dllist_item *c; int n;
            J(a > 1 ? ",[[" : "[[");
            for (n = 0, c = cork_dllist_start(&ls[a]); !cork_dllist_is_end(&ls[a], c) && n <= ne; c = c->next, n++) J(n ? ",%d" : "%d", ID(c));
            J("],[");
            for (n = 0, c = cork_dllist_end(&ls[a]); !cork_dllist_is_start(&ls[a], c) && n <= ne; c = c->prev, n++) J(n ? ",%d" : "%d", ID(c));
            c = cork_dllist_head(&ls[a]);
            J("],%zu,%d,%d", cork_dllist_size(&ls[a]), cork_dllist_is_empty(&ls[a]), c ? ID(c) : 0);
            c = cork_dllist_tail(&ls[a]);
            J(",%d]", c ? ID(c) : 0);
        }
        J("]}"); J_end();
    }
    return 0;
}
