#include "vf.h"
#include <libcork/core.h>
#include <libcork/ds.h>
/* argv: raw N | ptr | str | typed */
static int kind; static size_t es;
static struct cork_raw_array ra[2];
static struct cork_string_array *sa(int i) { return (struct cork_string_array *) &ra[i]; }
typedef cork_array(int) int_array;
#define TA(i) ((int_array *) &ra[i])
static unsigned char pat(int v, size_t j) { return (unsigned char) (j == 0 ? v : j == 1 ? v >> 8 : (v * 31 + j * 7)); }
static void put(void *p, int v) { for (size_t j = 0; j < es; j++) ((unsigned char *) p)[j] = pat(v, j); }
static int get(const void *p)
{
    const unsigned char *b = p; int v = es == 1 ? b[0] : b[0] | (b[1] << 8);
    for (size_t j = 0; j < es; j++) if (b[j] != pat(v, j)) return -1;
    return v;
}
static void freeint(void *p) { free(p); }
static void *box(int v) { int *p = malloc(sizeof *p); *p = v; return p; }
static void init1(int i)
{
    if (kind == 0) cork_raw_array_init(&ra[i], es);
    else if (kind == 1) cork_pointer_array_init(&ra[i], freeint);
    else if (kind == 2) cork_string_array_init(sa(i));
    else cork_array_init(TA(i));
}
static void done1(int i) { if (kind == 3) cork_array_done(TA(i)); else cork_raw_array_done(&ra[i]); }
static int failat, copied, badud;
static int copy_cb(void *ud, void *d, const void *s)
{
    if (ud != &copied) badud = 1;
    if (copied++ == failat) { cork_error_set_printf(1234, "x"); return -1; }
    if (kind == 0) memcpy(d, s, es);
    else if (kind == 1) *(void **) d = box(**(int *const *) s);
    else if (kind == 2) *(const char **) d = cork_strdup(*(const char *const *) s);
    else *(int *) d = *(const int *) s;
    return 0;
}
static void app(int i, int v, bool g)
{
    char b[32]; snprintf(b, sizeof b, "%d", v);
    switch (kind) {
      case 0: put(cork_raw_array_append(&ra[i]), v); break;
      case 1: *(void **) cork_raw_array_append(&ra[i]) = box(v); break;
      case 2: if (g) cork_array_append(sa(i), cork_strdup(b)); else cork_string_array_append(sa(i), b); break;
      case 3: if (g) *cork_array_append_get(TA(i)) = v; else cork_array_append(TA(i), v); break;
    }
}
static int at(int i, size_t p)
{
    switch (kind) {
      case 0: if ((char *) cork_raw_array_elements(&ra[i]) + p * es != cork_raw_array_at(&ra[i], p)) return -2; return get(cork_raw_array_at(&ra[i], p));
      case 1: { int *q = *(int **) cork_raw_array_at(&ra[i], p); return q ? *q : -3; }
      case 2: { const char *q = cork_array_at(sa(i), p); return q ? atoi(q) : -3; }
      default: if (cork_array_elements(TA(i)) != (int *) cork_raw_array_elements(&ra[i])) return -4; return cork_array_at(TA(i), p);
    }
}
int main(int argc, char **argv)
{
    bool up = false; int k, a, b, c;
    vf_init();
    kind = !strcmp(argv[1], "raw") ? 0 : !strcmp(argv[1], "ptr") ? 1 : !strcmp(argv[1], "str") ? 2 : 3;
    es = kind == 0 ? (size_t) atoi(argv[2]) : kind == 3 ? sizeof(int) : sizeof(void *);
    while (vf_next()) {
        int r = 0;
        if (vf_is("reset")) { for (k = 0; k < 2; k++) { if (up) done1(k); init1(k); } up = true; }
        else if (vf_is("app") || vf_is("apg")) { a = vf_int() - 1; b = vf_int(); app(a, b, vf_is("apg")); }
        else if (vf_is("fill")) { a = vf_int() - 1; b = vf_int(); c = vf_int(); for (k = 0; k < b; k++) app(a, (c + k) % 250, k & 1); }
        else if (vf_is("rmr")) { a = vf_int() - 1; b = vf_int(); c = vf_int(); if (kind == 3) cork_array_remove_range(TA(a), b, c); else cork_raw_array_remove_range(&ra[a], b, c); }
        else if (vf_is("rm")) { a = vf_int() - 1; b = vf_int(); if (kind == 3) cork_array_remove(TA(a), b); else cork_raw_array_remove(&ra[a], b); }
        else if (vf_is("clear")) { a = vf_int() - 1; if (kind == 3) cork_array_clear(TA(a)); else cork_raw_array_clear(&ra[a]); }
        else if (vf_is("ens")) { a = vf_int() - 1; b = vf_int(); if (kind == 3) cork_array_ensure_size(TA(a), b); else cork_raw_array_ensure_size(&ra[a], b); }
        else if (vf_is("set")) {
            a = vf_int() - 1; b = vf_int(); c = vf_int(); void *p = cork_raw_array_at(&ra[a], b);
            if (kind == 0) put(p, c); else if (kind == 1) { free(*(void **) p); *(void **) p = box(c); }
            else if (kind == 2) { char t[32]; snprintf(t, 32, "%d", c); cork_strfree(*(const char **) p); *(const char **) p = cork_strdup(t); }
            else cork_array_at(TA(a), b) = c;
        } else if (vf_is("copy")) {
            a = vf_int() - 1; failat = vf_int(); copied = 0;
            struct cork_raw_array *d = &ra[1 - a], *s = &ra[a];
            if (kind == 2 && failat < 0) cork_string_array_copy(sa(1 - a), sa(a));
            else if (failat == -1 && kind != 1) r = kind == 3 ? cork_array_copy(TA(1 - a), TA(a), NULL, NULL) : cork_raw_array_copy(d, s, NULL, NULL);
            else r = cork_raw_array_copy(d, s, copy_cb, &copied);
            if (r != 0) {
                r = (r == -1 && cork_error_code() == 1234) ? 1 : 99;
                cork_error_clear();
                cork_raw_array_clear(d);
            }
            if (badud) r = 98;
        } else if (vf_is("renew")) { a = vf_int() - 1; done1(a); init1(a); }
        else VF_DIE("op %s", vf_op);
        J("{\"r\":%d,\"s\":[", r);
        for (k = 0; k < 2; k++) {
            size_t n = kind == 3 ? cork_array_size(TA(k)) : cork_raw_array_size(&ra[k]);
            J(k ? ",[[" : "[[");
            for (size_t p = 0; p < n && p < 100000; p++) J(p ? ",%d" : "%d", at(k, p));
            J("],%zu,%d]", n, kind == 3 ? cork_array_is_empty(TA(k)) : cork_raw_array_is_empty(&ra[k]));
        }
        if ((kind == 0 && cork_raw_array_element_size(&ra[0]) != es) || (kind == 3 && cork_array_element_size(TA(0)) != sizeof(int))) J(",0");
        J("]}"); J_end();
    }
    return 0;
}
