#include "vf.h"
#include "acct.h"
#include <libcork/ds.h>
/* argv: NS NM size content1-hex content2-hex.. */
static int ns, nm; static size_t size; static char *data[8];
static struct cork_slice *sl; static int *st;     /* st: 0 none, 1 live */
static char **orig; static int *root;   /* root[i]: whose caller's buffer slice i still uses */
static struct cork_managed_buffer **mb; static int *h, *mlive; static char **mbuf; static int *freed;
static int wrongfree; static long base;
static void freer(void *p, size_t n)
{
    for (int m = 1; m <= nm; m++) if (mbuf[m] == p) { freed[m]++; if (n != size) wrongfree++; if (freed[m] == 1) { memset(p, 0xdd, size); free(p); mbuf[m] = NULL; } return; }
    wrongfree++;
}
static size_t big(long long v) { return v >= 0 ? (size_t) v : v == -1 ? SIZE_MAX : v == -2 ? SIZE_MAX - 1 : v == -3 ? SIZE_MAX - 2 : v == -4 ? (size_t) 1 << 63 : SIZE_MAX - (size_t) (-v); }
static char *dup_data(int d) { char *p = malloc(size ? size : 1); memcpy(p, data[d], size); return p; }
static struct cork_buffer *mkbuf(int d) { struct cork_buffer *b = cork_buffer_new(); cork_buffer_set(b, data[d], size); return b; }
int main(int argc, char **argv)
{
    int i, j, m; vf_init();
    ns = atoi(argv[1]); nm = atoi(argv[2]); size = atoi(argv[3]);
    for (i = 4; i < argc; i++) { data[i - 3] = malloc(size + 1); for (size_t q = 0; q < size; q++) { unsigned x; sscanf(argv[i] + 2 * q, "%2x", &x); data[i - 3][q] = x; } }
    sl = calloc(ns + 1, sizeof *sl); st = calloc(ns + 1, sizeof(int)); orig = calloc(ns + 1, sizeof(char *)); root = calloc(ns + 1, sizeof(int));
    mb = calloc(nm + 1, sizeof *mb); h = calloc(nm + 1, sizeof(int)); mlive = calloc(nm + 1, sizeof(int)); mbuf = calloc(nm + 1, sizeof(char *)); freed = calloc(nm + 1, sizeof(int));
    acct_install();
    acct_warm();
    base = acct_blocks;
    while (vf_next()) {
        int rc = 0, extra = 0, dest = 0, isnull = 0;
        memset(freed, 0, (nm + 1) * sizeof(int)); wrongfree = 0;
        cork_error_clear();
        if (vf_is("reset")) {
            for (i = 1; i <= ns; i++) if (st[i]) { cork_slice_finish(&sl[i]); st[i] = 0; root[i] = 0; }
            for (m = 1; m <= nm; m++) { while (h[m] > 0) { cork_managed_buffer_unref(mb[m]); h[m]--; } mbuf[m] = NULL; mb[m] = NULL; }
            for (i = 1; i <= ns; i++) { free(orig[i]); orig[i] = NULL; }
            memset(freed, 0, (nm + 1) * sizeof(int));
            base = acct_blocks;
            J("{\"r\":[],\"s\":[");
            goto state;
        } else if (vf_is("static")) { i = vf_int(); cork_slice_init_static(&sl[i], data[vf_int()], size); st[i] = 1;
        } else if (vf_is("once")) { i = vf_int(); orig[i] = dup_data(vf_int()); root[i] = i; cork_slice_init_copy_once(&sl[i], orig[i], size); st[i] = 1;
        } else if (vf_is("mnew")) {
            m = vf_int(); int k = vf_int(), d = vf_int();
            char *p = dup_data(d);
            if (k == 1) { mbuf[m] = p; mb[m] = cork_managed_buffer_new(p, size, freer); }
            else { mb[m] = cork_managed_buffer_new_copy(p, size); memset(p, 0xcc, size); free(p); }
            h[m] = 1;
        } else if (vf_is("mbuf")) { m = vf_int(); mb[m] = cork_buffer_to_managed_buffer(mkbuf(vf_int())); h[m] = 1;
        } else if (vf_is("bufslice")) { i = vf_int(); m = vf_int(); rc = cork_buffer_to_slice(mkbuf(vf_int()), &sl[i]); st[i] = 1; h[m] = 0;
        } else if (vf_is("mref")) { m = vf_int(); if (cork_managed_buffer_ref(mb[m]) != mb[m]) extra = 9; h[m]++;
        } else if (vf_is("munref")) { m = vf_int(); h[m]--; cork_managed_buffer_unref(mb[m]);
        } else if (vf_is("msl") || vf_is("mslo")) {
            dest = i = vf_int(); m = vf_int(); size_t o = big(vf_int()), l = big(vf_int());
            rc = vf_is("msl") ? cork_managed_buffer_slice(&sl[i], mb[m], o, l) : cork_managed_buffer_slice_offset(&sl[i], mb[m], o);
        } else if (vf_is("msln") || vf_is("mslon")) {
            dest = i = vf_int(); size_t o = big(vf_int()), l = big(vf_int());
            rc = vf_is("msln") ? cork_managed_buffer_slice(&sl[i], NULL, o, l) : cork_managed_buffer_slice_offset(&sl[i], NULL, o);
        } else if (!strncmp(vf_op, "copy", 4) || !strncmp(vf_op, "lcopy", 5)) {
            dest = i = vf_int(); struct cork_slice *d = &sl[i]; const struct cork_slice *s = NULL; j = 0;
            if (vf_op[strlen(vf_op) - 1] != 'n') s = &sl[j = vf_int()];
            size_t o = big(vf_int()), l = big(vf_int());
            if (vf_is("copy") || vf_is("copyn")) rc = cork_slice_copy(d, s, o, l);
            else if (vf_is("copyo") || vf_is("copyon")) rc = cork_slice_copy_offset(d, s, o);
            else if (vf_is("lcopy") || vf_is("lcopyn")) rc = cork_slice_light_copy(d, s, o, l);
            else if (vf_is("lcopyo") || vf_is("lcopyon")) rc = cork_slice_light_copy_offset(d, s, o);
            else if (vf_is("copyf")) rc = cork_slice_copy_fast(d, s, o, l);
            else if (vf_is("lcopyf")) rc = cork_slice_light_copy_fast(d, s, o, l);
            else if (vf_is("copyof")) rc = cork_slice_copy_offset_fast(d, s, o);
            else if (vf_is("lcopyof")) rc = cork_slice_light_copy_offset_fast(d, s, o);
            else VF_DIE("op %s", vf_op);
            if (rc == 0 && vf_op[0] == 'l') root[i] = root[j];
            else if (rc == 0 && root[j]) {
                /* the caller may drop its buffer once nothing uses it any more */
                int o = root[j], used = 0; root[j] = 0;
                for (int q = 1; q <= ns; q++) if (root[q] == o) used = 1;
                if (!used) { memset(orig[o], 0xcc, size); free(orig[o]); orig[o] = NULL; }
            }
        } else if (vf_is("slice")) { i = vf_int(); size_t o = big(vf_int()), l = big(vf_int()); rc = cork_slice_slice(&sl[i], o, l);
        } else if (vf_is("slicef")) { i = vf_int(); size_t o = big(vf_int()), l = big(vf_int()); rc = cork_slice_slice_fast(&sl[i], o, l);
        } else if (vf_is("sliceo")) { i = vf_int(); rc = cork_slice_slice_offset(&sl[i], big(vf_int()));
        } else if (vf_is("sliceof")) { i = vf_int(); rc = cork_slice_slice_offset_fast(&sl[i], big(vf_int()));
        } else if (vf_is("slicen")) rc = cork_slice_slice(NULL, big(vf_int()), 0);
        else if (vf_is("sliceon")) rc = cork_slice_slice_offset(NULL, big(vf_int()));
        else if (vf_is("advn")) rc = cork_slice_advance_checked(NULL, big(vf_int())) == NULL ? -1 : 0;
        else if (vf_is("adv") || vf_is("advf")) {
            i = vf_int(); const void *old = sl[i].buf; size_t o = big(vf_int());
            const void *p = vf_is("adv") ? cork_slice_advance_checked(&sl[i], o) : cork_slice_advance(&sl[i], o);
            if (p == NULL) rc = -1; else extra = p == old ? 1 : 8;
        } else if (vf_is("finish")) {
            i = vf_int(); cork_slice_finish(&sl[i]); st[i] = 0; root[i] = 0;
            extra = cork_slice_is_empty(&sl[i]) && sl[i].size == 0;
            cork_slice_finish(&sl[i]);                 /* finishing an empty slice does nothing */
            if (orig[i]) { memset(orig[i], 0xcc, size); free(orig[i]); orig[i] = NULL; }
        } else if (vf_is("eq")) { i = vf_int(); j = vf_int(); extra = cork_slice_equal(&sl[i], &sl[j]); }
        else VF_DIE("op %s", vf_op);
        if (dest) {
            if (rc == 0) st[dest] = 1;
            else { extra = cork_slice_is_empty(&sl[dest]) && sl[dest].size == 0; cork_slice_finish(&sl[dest]); }
        }
        int err = cork_error_occurred() ? (cork_error_code() == (cork_error) (CORK_SLICE_ERROR + CORK_SLICE_INVALID_SLICE) && *cork_error_message() ? 1 : 2) : 0;
        J("{\"r\":[[%d,%d],[", rc, err);
        for (m = 1; m <= nm; m++) J(m > 1 ? ",%d" : "%d", freed[m] + 100 * wrongfree);
        J("],%d],\"s\":[", extra);
state:
        J("[");
        bool idle = true;
        for (i = 1; i <= ns; i++) {
            J(i > 1 ? ",[" : "[");
            if (!st[i]) J("-1]");
            else {
                idle = false; J("%lld", (long long) sl[i].size);
                for (size_t q = 0; q < sl[i].size && q < 100000; q++) J(",%u", ((const unsigned char *) sl[i].buf)[q]);
                J("]");
            }
        }
        for (m = 1; m <= nm; m++) if (h[m] > 0) idle = false;
        J("],%ld]}", (idle ? acct_blocks - base : 0) + acct_bad * 1000); J_end();
    }
    return 0;
}
