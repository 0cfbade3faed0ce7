#include "vf.h"
#include <libcork/core.h>
static void fill(struct cork_ip *a, unsigned version, const void *b)
{
    if (version == 4) { if (b) cork_ip_from_ipv4(a, b); } else cork_ip_from_ipv6(a, b);
}
static void *exact(const char *s) { size_t n = strlen(s) + 1; char *r = malloc(n); memcpy(r, s, n); return r; }
static char *print(int kind, const struct cork_ip *a)
{
    size_t n = kind == 4 ? CORK_IPV4_STRING_LENGTH : kind == 6 ? CORK_IPV6_STRING_LENGTH : CORK_IP_STRING_LENGTH;
    char *d = malloc(n); memset(d, 'Z', n);
    if (kind == 4) cork_ipv4_to_raw_string(&a->ip.v4, d);
    else if (kind == 6) cork_ipv6_to_raw_string(&a->ip.v6, d);
    else cork_ip_to_raw_string(a, d);
    if (memchr(d, 0, n) == NULL) VF_BAD("not terminated");
    return d;
}
static int parse(int kind, struct cork_ip *a, const char *s)
{
    int rc;
    if (kind == 4) { rc = cork_ipv4_init(&a->ip.v4, s); if (rc == 0) a->version = 4; }
    else if (kind == 6) { rc = cork_ipv6_init(&a->ip.v6, s); if (rc == 0) a->version = 6; }
    else rc = cork_ip_init(a, s);
    return rc;
}
static int same(int kind, const struct cork_ip *a, const struct cork_ip *b)
{
    int r, r2;
    if (kind == 4) { r = cork_ipv4_equal(&a->ip.v4, &b->ip.v4); r2 = cork_ipv4_equal_(&b->ip.v4, &a->ip.v4); }
    else if (kind == 6) { r = cork_ipv6_equal(&a->ip.v6, &b->ip.v6); r2 = cork_ipv6_equal_(&b->ip.v6, &a->ip.v6); }
    else { r = cork_ip_equal(a, b); r2 = cork_ip_equal_(b, a); }
    return r == r2 ? r : -1;
}
int main(void)
{
    vf_init();
    while (vf_next()) {
        struct cork_ip *a = malloc(sizeof *a), *b = malloc(sizeof *b);
        cork_error_clear();
        if (vf_is("reset")) { J("{\"r\":[],\"s\":0}"); J_end(); }
        else if (vf_is("parse")) {
            int kind = vf_int(); char *s = vf_str(NULL);
            for (size_t i = 0; i < sizeof *a; i++) ((char *) a)[i] = 0xa5 + 7 * i;
            a->version = 77; *b = *a;
            int rc = parse(kind, a, s);
            if (rc == 0) { J("{\"r\":[0,%u,", a->version); J_bytes(&a->ip, a->version == 4 ? 4 : 16); J("],\"s\":0}"); }
            else {
                int ok = rc == -1 && cork_error_occurred() && cork_error_code() == CORK_PARSE_ERROR && strlen(cork_error_message()) > 0;
                int unchanged = memcmp(a, b, sizeof *a) == 0;
                J("{\"r\":[%d,%d,[]],\"s\":0}", ok ? -1 : -2, unchanged ? 0 : 99);
            }
            J_end(); free(s);
        } else if (vf_is("print")) {
            int kind = vf_int(), v = vf_int(); char *p = vf_str(NULL); fill(a, v, p);
            char *t = print(kind, a); J("{\"r\":"); J_bytes(t, strlen(t)); J(",\"s\":0}"); J_end(); free(t); free(p);
        } else if (vf_is("round")) {
            int kind = vf_int(), v = vf_int(); char *p = vf_str(NULL); fill(a, v, p);
            char *t = print(kind, a), *e = exact(t); memset(b, 0x5a, sizeof *b);
            int rc = parse(kind, b, e);
            J("{\"r\":["); J_bytes(t, strlen(t)); J(",%d,%d],\"s\":0}", rc, same(kind, a, b)); J_end(); free(t); free(e); free(p);
        } else if (vf_is("equal")) {
            int kind = vf_int(), v = vf_int(); char *p = vf_str(NULL); int v2 = vf_int(); char *p2 = vf_str(NULL);
            memset(a, 1, sizeof *a); memset(b, 2, sizeof *b);
            fill(a, v, p); fill(b, v2, p2);
            J("{\"r\":%d,\"s\":0}", same(kind, a, b)); J_end(); free(p); free(p2);
        } else if (vf_is("copy")) {
            int how = vf_int(), v = vf_int(); size_t n; char *p = vf_str(&n), *q = malloc(n); memcpy(q, p, n); free(p);
            memset(a, 1, sizeof *a); a->version = v;
            if (how == 0) { if (v == 4) cork_ipv4_copy(&a->ip.v4, q); else cork_ipv6_copy(&a->ip.v6, q); }
            else if (how == 1) fill(a, v, q);
            else if (v == 4) cork_ip_from_ipv4_(a, q); else cork_ip_from_ipv6_(a, q);
            memset(q, 0xee, n); free(q);
            J("{\"r\":[%u,", a->version); J_bytes(&a->ip, v == 4 ? 4 : 16); J("],\"s\":0}"); J_end();
        } else if (vf_is("nets")) {
            int kind = vf_int(), v = vf_int(); char *p = vf_str(NULL); fill(a, v, p); int n = vf_int();
            *b = *a;
            J("{\"r\":[");
            for (int i = 0; i < n; i++) {
                unsigned pre = (unsigned) vf_int(); bool r;
                if (kind == 4) r = cork_ipv4_is_valid_network(&a->ip.v4, pre);
                else if (kind == 6) r = cork_ipv6_is_valid_network(&a->ip.v6, pre);
                else r = cork_ip_is_valid_network(a, pre);
                J("%s%d", i ? "," : "", r);
            }
            if (!same(0, a, b)) VF_BAD("address changed");
            J("],\"s\":0}"); J_end(); free(p);
        } else VF_DIE("op %s", vf_op);
        free(a); free(b);
    }
    return 0;
}
