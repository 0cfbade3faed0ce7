#include "vf.h"
#include <libcork/core.h>
#ifdef WANT_NATIVE
#if CORK_U128_HAVE_U128 != WANT_NATIVE
#error "not the implementation asked for"
#endif
#endif
static void bytes(unsigned char *b, size_t want) { size_t n; char *p = vf_str(&n); if (n != want) VF_DIE("%s: %zu bytes", vf_op, n); memcpy(b, p, n); free(p); }
static uint64_t be(const unsigned char *b, int n) { uint64_t x = 0; while (n--) x = x << 8 | *b++; return x; }
static cork_u128 val(void)
{
    unsigned char b[16]; bytes(b, 16);
    static int k;
    return k++ & 1 ? cork_u128_from_64(be(b, 8), be(b + 8, 8)) : cork_u128_from_32(be(b, 4), be(b + 4, 4), be(b + 8, 4), be(b + 12, 4));
}
static void text(const char *t, const char *buf, size_t cap)
{
    if (t < buf || t >= buf + cap || memchr(t, 0, buf + cap - t) == NULL) VF_BAD("text outside its buffer");
    J("{\"r\":"); J_bytes(t, strlen(t));
}
static void cmp(cork_u128 a, cork_u128 b)
{
    J("[%d,%d,%d,%d,%d,%d]", cork_u128_eq(a, b), cork_u128_ne(a, b), cork_u128_lt(a, b), cork_u128_le(a, b), cork_u128_gt(a, b), cork_u128_ge(a, b));
}
int main(void)
{
    vf_init();
    cork_u128 v = cork_u128_zero();
    if (sizeof v != 16) VF_DIE("size");
    while (vf_next()) {
        if (vf_is("reset") || vf_is("zero")) { v = cork_u128_zero(); J("{\"r\":0"); }
        else if (vf_is("load") || vf_is("loadp")) {
            int k = vf_int(); unsigned char b[16]; bytes(b, 16);
            if (k == 0) v = cork_u128_from_32(be(b, 4), be(b + 4, 4), be(b + 8, 4), be(b + 12, 4));
            else if (k == 1) v = cork_u128_from_64(be(b, 8), be(b + 8, 8));
            else if (k == 2) for (int i = 0; i < 16; i++) cork_u128_be8(v, i) = b[i];
            else if (k == 3) for (int i = 0; i < 8; i++) cork_u128_be16(v, i) = be(b + 2 * i, 2);
            else if (k == 4) for (int i = 0; i < 4; i++) cork_u128_be32(v, i) = be(b + 4 * i, 4);
            else if (k == 5) for (int i = 0; i < 2; i++) cork_u128_be64(v, i) = be(b + 8 * i, 8);
            /* big-endian bytes in memory, converted; little-endian bytes in memory are the host's own */
            else if (k == 6) { memcpy(&v, b, 16); CORK_UINT128_BIG_TO_HOST_IN_PLACE(v); }
            else { for (int i = 0; i < 16; i++) ((unsigned char *) &v)[i] = b[15 - i]; v = CORK_UINT128_LITTLE_TO_HOST(v); }
            J("{\"r\":0");
        }
        else if (vf_is("add")) { cork_u128 w = val(); v = cork_u128_add(v, w); J("{\"r\":0"); }
        else if (vf_is("sub")) { cork_u128 w = val(); v = cork_u128_sub(v, w); J("{\"r\":0"); }
        else if (vf_is("rsub")) { cork_u128 w = val(); v = cork_u128_sub(w, v); J("{\"r\":0"); }
        else if (vf_is("shl")) { v = cork_u128_shl(v, vf_int()); J("{\"r\":0"); }
        else if (vf_is("shr")) { v = cork_u128_shr(v, vf_int()); J("{\"r\":0"); }
        else if (vf_is("swap")) {
            switch (vf_int()) {
                case 0: v = CORK_SWAP_UINT128(v); break;
                case 1: CORK_SWAP_IN_PLACE_UINT128(v); break;
                case 2: v = CORK_UINT128_BIG_TO_HOST(v); break;
                case 3: CORK_UINT128_BIG_TO_HOST_IN_PLACE(v); break;
                case 4: v = CORK_UINT128_HOST_TO_BIG(v); break;
                case 5: CORK_UINT128_HOST_TO_BIG_IN_PLACE(v); break;
                default: { cork_u128 a[2] = {v, cork_u128_zero()}; int i = 0; v = CORK_SWAP_UINT128(*(a + i)); }
            }
            J("{\"r\":0");
        } else if (vf_is("keep")) {
            switch (vf_int()) {
                case 0: v = CORK_UINT128_LITTLE_TO_HOST(v); break;
                case 1: CORK_UINT128_LITTLE_TO_HOST_IN_PLACE(v); break;
                case 2: v = CORK_UINT128_HOST_TO_LITTLE(v); break;
                default: CORK_UINT128_HOST_TO_LITTLE_IN_PLACE(v);
            }
            J("{\"r\":0");
        } else if (vf_is("put")) {
            int w = vf_int(), i = vf_int(); unsigned char b[8]; bytes(b, w);
            if (w == 1) cork_u128_be8(v, i) = b[0];
            else if (w == 2) cork_u128_be16(v, i) = be(b, 2);
            else if (w == 4) cork_u128_be32(v, i) = be(b, 4);
            else cork_u128_be64(v, i) = be(b, 8);
            J("{\"r\":0");
        } else if (vf_is("get")) {
            int w = vf_int(), i = vf_int();
            uint64_t x = w == 1 ? cork_u128_be8(v, i) : w == 2 ? cork_u128_be16(v, i) : w == 4 ? cork_u128_be32(v, i) : cork_u128_be64(v, i);
            J("{\"r\":["); while (w--) J("%d%s", (int) (x >> 8 * w & 255), w ? "," : "]");
        } else if (vf_is("cmp")) { cork_u128 w = val(); J("{\"r\":["); cmp(v, w); J(","); cmp(w, v); J("]"); }
        else if (vf_is("dec")) { char *b = malloc(CORK_U128_DECIMAL_LENGTH); memset(b, 'z', CORK_U128_DECIMAL_LENGTH); text(cork_u128_to_decimal(b, v), b, CORK_U128_DECIMAL_LENGTH); free(b); }
        else if (vf_is("hex") || vf_is("pad")) {
            char *b = malloc(CORK_U128_HEX_LENGTH); memset(b, 'z', CORK_U128_HEX_LENGTH);
            text(vf_is("hex") ? cork_u128_to_hex(b, v) : cork_u128_to_padded_hex(b, v), b, CORK_U128_HEX_LENGTH); free(b);
        } else VF_DIE("op %s", vf_op);
        unsigned char o[16];
        memcpy(o, &v, 16);                  /* "stored in host-endian order" */
        for (int i = 0; i < 8; i++) { unsigned char t = o[i]; o[i] = o[15 - i]; o[15 - i] = t; }
        J(",\"s\":"); J_bytes(o, 16); J("}"); J_end();
    }
    return 0;
}
