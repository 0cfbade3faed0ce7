#include "vf.h"
#include <libcork/core.h>
#include <libcork/ds.h>
#include <fcntl.h>
#include <sys/wait.h>
static uint32_t be32(const unsigned char *b) { return (uint32_t) b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3]; }
static uint32_t seed32(void) { size_t n; unsigned char *p = (unsigned char *) vf_str(&n); if (n != 4) VF_DIE("seed"); uint32_t s = be32(p); free(p); return s; }
static cork_big_hash seed128(void)
{
    size_t n; unsigned char *p = (unsigned char *) vf_str(&n); if (n != 16) VF_DIE("seed");
    cork_big_hash h = CORK_BIG_HASH_INIT(); h.u128 = cork_u128_from_32(be32(p), be32(p + 4), be32(p + 8), be32(p + 12)); free(p); return h;
}
static void J32(uint32_t h) { J("[%u,%u,%u,%u]", h >> 24, h >> 16 & 255, h >> 8 & 255, h & 255); }
static void J128(cork_big_hash h) { J("["); for (int i = 0; i < 16; i++) J("%s%d", i ? "," : "", cork_u128_be8(h.u128, i)); J("]"); }
static unsigned junk = 12345;
/* the data at an alignment, ending exactly at the end of its block (mode 0), or with other bytes around it */
static unsigned char *block;
static const void *place(const char *d, size_t n, int align, int mode)
{
    size_t pad = mode ? 40 : 0;
    block = malloc(align + n + pad + (align + n + pad == 0));
    for (size_t i = 0; i < align + n + pad; i++) block[i] = (junk = junk * 1103515245 + 12345) >> 16;
    memcpy(block + align, d, n);
    return block + align;
}
#define VAR(T) do { T v; memcpy(&v, d, n); unsigned b0 = n; s = cork_stable_hash_variable(seed, v); b = cork_big_hash_variable(bs, v); f = cork_hash_variable(seed, v); if (sizeof v != b0) VF_DIE("size"); } while (0)
struct three { uint32_t a, b, c; };
struct odd { unsigned char a[7]; };
cork_uid_define_named(uid_a, "uid"); cork_uid_define_named(uid_b, "uid");
int main(int argc, char **argv)
{
    vf_init();
    while (vf_next()) {
        if (vf_is("reset")) J("{\"r\":[]");
        else if (vf_is("stable") || vf_is("fast")) {
            uint32_t seed = seed32(); size_t n; char *d = vf_str(&n); int al = vf_int(), mode = vf_int();
            const void *p = place(d, n, al, mode);
            if (vf_is("stable")) { uint32_t h = cork_stable_hash_buffer(seed, p, n); J("{\"r\":"); J32(h); }
            else { uint32_t h = cork_hash_buffer(seed, p, n); free(block); int al2 = vf_int(); p = place(d, n, al2, !mode); uint32_t g = cork_hash_buffer(seed, p, n), k = cork_hash_buffer(seed, p, n); J("{\"r\":%d", h == g && g == k); }
            free(block); free(d);
        } else if (vf_is("big")) {
            cork_big_hash seed = seed128(); size_t n; char *d = vf_str(&n); int al = vf_int();
            const void *p = place(d, n, al, vf_int());
            cork_big_hash h = cork_big_hash_buffer(seed, p, n); J("{\"r\":"); J128(h); free(block); free(d);
        } else if (vf_is("macros")) {
            cork_big_hash seed = seed128(), x, y; uint32_t h; size_t n; char *d = vf_str(&n); int al = vf_int();
            const void *p = place(d, n, al, vf_int());
            uint32_t s32 = cork_u128_be32(seed.u128, 3); unsigned int len = n;
            cork_murmur_hash_x86_32(s32, p, len, &h); cork_murmur_hash_x86_128(seed, p, len, &x); cork_murmur_hash_x64_128(seed, p, len, &y);
            J("{\"r\":["); J32(h); J(","); J128(x); J(","); J128(y); J("]"); free(block); free(d);
        } else if (vf_is("chain") || vf_is("bigchain")) {
            uint32_t h = 0; cork_big_hash b; int big = vf_is("bigchain");
            if (big) b = seed128(); else h = seed32();
            int k = vf_int();
            while (k--) { size_t n; char *d = vf_str(&n); const void *p = place(d, n, k % 9, k & 1); if (big) b = cork_big_hash_buffer(b, p, n); else h = cork_stable_hash_buffer(h, p, n); free(block); free(d); }
            J("{\"r\":"); if (big) J128(b); else J32(h);
        } else if (vf_is("var")) {
            uint32_t seed = seed32(), s, f; size_t n; char *d = vf_str(&n); cork_big_hash bs = CORK_BIG_HASH_INIT(), b; int k = vf_int(); bs.u128 = cork_u128_from_32(0, 0, 0, seed);
            if (n == 1 && k == 0) VAR(uint8_t); else if (n == 1) VAR(char);
            else if (n == 2 && k == 0) VAR(uint16_t); else if (n == 2) VAR(struct { char a[2]; });
            else if (n == 4 && k == 0) VAR(uint32_t); else if (n == 4 && k == 1) VAR(float); else if (n == 4) VAR(int);
            else if (n == 8 && k == 0) VAR(uint64_t); else if (n == 8 && k == 1) VAR(double); else if (n == 8) VAR(void *);
            else if (n == 7) VAR(struct odd); else if (n == 12) VAR(struct three); else if (n == 16 && k == 0) VAR(cork_u128); else if (n == 16) VAR(cork_big_hash);
            else if (n == 20) VAR(struct { struct three t; uint32_t a[2]; }); else if (n == 33) VAR(struct { char a[33]; });
            else VF_DIE("no type of %zu bytes", n);
            const void *p = place(d, n, 1, 1);
            J("{\"r\":["); J32(s); J(","); J128(b); J(",%d]", f == cork_hash_buffer(seed, p, n)); free(block); free(d);
        } else if (vf_is("equal")) { cork_big_hash x = seed128(), y = seed128(); int e = cork_big_hash_equal(x, y), g = cork_big_hash_equal(y, x); J("{\"r\":%d", e == g ? e : -1); }
        else if (vf_is("values")) {
            /* an entry put under one copy of a string is found under another, at whatever alignment and with whatever follows its end */
            int k = vf_int(), ok = 1; struct cork_hash_table *t = cork_string_hash_table_new(0, 0);
            char **ks = calloc(k, sizeof(char *)); bool isnew; void *ov; void *okey;
            for (int i = 0; i < k; i++) { ks[i] = vf_str(NULL); cork_hash_table_put(t, ks[i], (void *) (intptr_t) (i + 1), &isnew, &okey, &ov); }
            for (int i = 0; i < k; i++) {
                size_t n = strlen(ks[i]); char *p = (char *) place(ks[i], n + 1, (i + k) % 16, i & 1);
                struct cork_hash_table_entry *e = cork_hash_table_get_entry(t, p);
                ok = ok && e && strcmp(e->key, p) == 0 && cork_hash_table_get_entry(t, ks[i]) == e && cork_hash_table_get_entry_hash(t, e->hash, p) == e && cork_hash_table_get(t, p) == e->value;
                free(block);
            }
            cork_hash_table_free(t);
            t = cork_pointer_hash_table_new(0, 0);
            for (int i = 0; i < k; i++) cork_hash_table_put(t, ks[i], ks[i], NULL, NULL, NULL);
            for (int i = 0; i < k; i++) ok = ok && cork_hash_table_get(t, ks[i]) == ks[i];
            ok = ok && cork_hash_table_size(t) == (size_t) k && cork_hash_table_get(t, &ok) == NULL;
            cork_hash_table_free(t);
            for (int i = 0; i < k; i++) free(ks[i]);
            free(ks);
            cork_uid u = uid_a, n = CORK_UID_NONE;
            ok = ok && cork_uid_equal(u, uid_a) && !cork_uid_equal(uid_a, uid_b) && !cork_uid_equal(u, n) && cork_uid_equal(n, CORK_UID_NONE) && cork_uid_hash(u) == cork_uid_hash(uid_a) && strcmp(cork_uid_name(u), "uid") == 0;
            J("{\"r\":%d", ok);
        } else if (vf_is("tool")) {
            char *kind = vf_str(NULL), *s = vf_str(NULL); int k = vf_int(), pf[2]; char **av = calloc(k + 2, sizeof(char *));
            av[0] = "cork-hash"; for (int i = 0; i < k; i++) av[i + 1] = vf_str(NULL);
            if (pipe(pf)) VF_DIE("pipe");
            pid_t pid = fork();
            if (pid == 0) { dup2(pf[1], 1); close(pf[0]); close(pf[1]); close(2); open("/dev/null", 1); execv(argv[1], av); _exit(97); }
            close(pf[1]);
            char out[4096]; size_t n = 0; ssize_t rc; int st;
            while (n < sizeof out - 1 && (rc = read(pf[0], out + n, sizeof out - 1 - n)) > 0) n += rc;
            out[n] = 0; close(pf[0]); waitpid(pid, &st, 0);
            int ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
            if (WIFSIGNALED(st) || WEXITSTATUS(st) >= 97) J("{\"r\":[%d,[]]", st);
            else if (*kind == 'f' && ok) J("{\"r\":[0,[%d]]", n == 11 && memcmp(out, "0x", 2) == 0 && strspn(out + 2, "0123456789abcdef") == 8 && out[10] == '\n');
            else { J("{\"r\":[%d,", !ok); J_bytes(out, n); J("]"); }
            free(kind); free(s); for (int i = 0; i < k; i++) free(av[i + 1]); free(av);
        } else VF_DIE("op %s", vf_op);
        J(",\"s\":0}"); J_end();
    }
    return 0;
}
