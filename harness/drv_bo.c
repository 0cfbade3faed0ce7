#include "vf.h"
#include <libcork/core.h>
/* The result r of conversion e, and that it stays together in a larger expression and (for swaps) is no wider than its type. */
#define USE(T, e) do { r = e; if ((T) (e * 3) != (T) (r * 3) || (T) (7 - e) != (T) (7 - r) || (T) ~e != (T) ~r || (e ^ 0 ? 1 : 0) != (r != 0) || (big && (unsigned long long) e != r)) broken = 1; } while (0)
static int broken;
/* The forms of expression a macro's argument takes: each has the value of x (32-bit and 16-bit ones also from wider types). */
#define FORMS(W, T, WIDE, x, form, M) \
    switch (form) { \
        case 0: USE(T, M(x)); break; \
        case 1: { T a[2] = {0, x}; int i = 0; USE(T, M(a[i + 1])); break; } \
        case 2: { T h = x & (T) 0xf0f0f0f0f0f0f0f0ULL, l = x & (T) 0x0f0f0f0f0f0f0f0fULL; USE(T, M(h | l)); break; } \
        case 3: { T h = x & (T) 0xff00ff00ff00ff00ULL, l = x & (T) 0x00ff00ff00ff00ffULL; USE(T, M(h + l)); break; } \
        case 4: { T z = 0; USE(T, M(form == 5 ? z : x)); break; } \
        case 5: { WIDE w = (WIDE) x << 8; if (sizeof(WIDE) > sizeof(T)) USE(T, M(w >> 8)); else USE(T, M(x)); break; } \
        case 6: { WIDE w = ((WIDE) x << (sizeof(WIDE) > sizeof(T) ? 8 * sizeof(T) : 0)) | (sizeof(WIDE) > sizeof(T) ? 0x1234 : 0); USE(T, M(w >> (sizeof(WIDE) > sizeof(T) ? 8 * sizeof(T) : 0))); break; } \
        case 7: { T m = (T) 0xa5a5a5a5a5a5a5a5ULL, y = x ^ m; USE(T, M(y ^ m)); break; } \
        case 8: { T d = x - 3; USE(T, M(d - (T) -3)); break; } \
        case 9: { struct { T f; } s = {x}, *p = &s; USE(T, M(p->f)); break; } \
        case 10: { T t = 0; USE(T, M((t = x, t))); break; } \
        case 11: { struct { T a; T b; } __attribute__((packed)) s = {x, 0}; USE(T, M(s.a)); break; } \
        default: USE(T, M((T) x)); \
    }
#define KINDS(W, T, WIDE) \
static T conv##W(T x, int big, int from, int place, int form) \
{ \
    T r = 0; \
    if (place) { \
        T a[3] = {77, x, 99}, *p = a + 1; \
        if (form & 1) { if (big == 2) CORK_SWAP_IN_PLACE_UINT##W(*p); else if (big && from) CORK_UINT##W##_BIG_TO_HOST_IN_PLACE(*p); else if (big) CORK_UINT##W##_HOST_TO_BIG_IN_PLACE(*p); else if (from) CORK_UINT##W##_LITTLE_TO_HOST_IN_PLACE(*p); else CORK_UINT##W##_HOST_TO_LITTLE_IN_PLACE(*p); } \
        else { if (big == 2) CORK_SWAP_IN_PLACE_UINT##W(a[1]); else if (big && from) CORK_UINT##W##_BIG_TO_HOST_IN_PLACE(a[1]); else if (big) CORK_UINT##W##_HOST_TO_BIG_IN_PLACE(a[1]); else if (from) CORK_UINT##W##_LITTLE_TO_HOST_IN_PLACE(a[1]); else CORK_UINT##W##_HOST_TO_LITTLE_IN_PLACE(a[1]); } \
        if (a[0] != 77 || a[2] != 99) VF_BAD("neighbours changed"); \
        return a[1]; \
    } \
    if (big == 2) FORMS(W, T, WIDE, x, form, CORK_SWAP_UINT##W) \
    else if (big && from) FORMS(W, T, WIDE, x, form, CORK_UINT##W##_BIG_TO_HOST) \
    else if (big) FORMS(W, T, WIDE, x, form, CORK_UINT##W##_HOST_TO_BIG) \
    else if (from) FORMS(W, T, WIDE, x, form, CORK_UINT##W##_LITTLE_TO_HOST) \
    else FORMS(W, T, WIDE, x, form, CORK_UINT##W##_HOST_TO_LITTLE) \
    return r; \
}
KINDS(16, uint16_t, uint32_t)
KINDS(32, uint32_t, uint64_t)
KINDS(64, uint64_t, uint64_t)
/* converts the integer in memory at m (n bytes) as the host reads it */
static void conv(unsigned char *m, size_t n, int big, int from, int place, int form)
{
    if (n == 2) { uint16_t x; memcpy(&x, m, n); x = conv16(x, big, from, place, form); memcpy(m, &x, n); }
    else if (n == 4) { uint32_t x; memcpy(&x, m, n); x = conv32(x, big, from, place, form); memcpy(m, &x, n); }
    else if (n == 8) { uint64_t x; memcpy(&x, m, n); x = conv64(x, big, from, place, form); memcpy(m, &x, n); }
    else VF_DIE("%zu bytes", n);
}
static void flip(unsigned char *m, size_t n) { for (size_t i = 0; i < n / 2; i++) { unsigned char t = m[i]; m[i] = m[n - 1 - i]; m[n - 1 - i] = t; } }
static int isbig(void) { char *s = vf_str(NULL); int b = *s == 'b'; free(s); return b; }
int main(void)
{
    vf_init();
    unsigned char m[8] = {0}; size_t n = 2;           /* the register, as the (little-endian) host stores it */
    while (vf_next()) {
        if (vf_is("reset")) { memset(m, 0, 8); n = 2; J("{\"r\":[]"); }
        else if (vf_is("load") || vf_is("from")) {
            int big = 0; if (vf_is("from")) big = isbig();
            unsigned char *p = (unsigned char *) vf_str(&n);
            memcpy(m, p, n); free(p);
            if (vf_is("load")) flip(m, n); else { int place = vf_int(); conv(m, n, big, 1, place, vf_int()); }
            flip(m, n); J("{\"r\":"); J_bytes(m, n); flip(m, n);
        } else if (vf_is("swap")) { int place = vf_int(); conv(m, n, 2, 0, place, vf_int()); flip(m, n); J("{\"r\":"); J_bytes(m, n); flip(m, n); }
        else if (vf_is("to") || vf_is("back")) { int big = isbig(), place = vf_int(); conv(m, n, big, vf_is("back"), place, vf_int()); flip(m, n); J("{\"r\":"); J_bytes(m, n); flip(m, n); }
        else if (vf_is("image")) { unsigned char c[8]; memcpy(c, m, 8); int big = isbig(), place = vf_int(); conv(c, n, big, 0, place, vf_int()); J("{\"r\":"); J_bytes(c, n); }
        else if (vf_is("names")) {
            int ok = CORK_HOST_ENDIANNESS != CORK_OTHER_ENDIANNESS && CORK_BIG_ENDIAN != CORK_LITTLE_ENDIAN && CORK_OTHER_ENDIANNESS == (CORK_HOST_ENDIANNESS == CORK_BIG_ENDIAN ? CORK_LITTLE_ENDIAN : CORK_BIG_ENDIAN)
                && strcmp(CORK_OTHER_ENDIANNESS_NAME, strcmp(CORK_HOST_ENDIANNESS_NAME, "big") ? "big" : "little") == 0 && strcmp(CORK_HOST_ENDIANNESS_NAME, CORK_HOST_ENDIANNESS == CORK_BIG_ENDIAN ? "big" : "little") == 0;
            J("{\"r\":\"%s\"", ok ? CORK_HOST_ENDIANNESS_NAME : "inconsistent");
        } else VF_DIE("op %s", vf_op);
        if (broken) VF_BAD("a conversion does not stay together in a larger expression"); flip(m, n); J(",\"s\":"); J_bytes(m, n); flip(m, n); J("}"); J_end();
    }
    return 0;
}
