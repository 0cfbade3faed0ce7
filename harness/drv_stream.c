#define _GNU_SOURCE 1
#include "vf.h"
#include "acct.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <libcork/core.h>
#include <libcork/ds.h>
/* Producers and consumers of streams against a scripted operating system:
 * open, read, write and close are linked to the functions below (--wrap), and
 * FILEs are fopencookie streams.  Answers with the history of everything that
 * crossed either boundary.  The bytes of a stream are those of a fixed pattern,
 * so data is reported as [offset, length] (offset -1: not those bytes). */
#define PAT (4 << 20)
static unsigned char *pat; static char *ev; static size_t evn; static int nev;
static void E(const char *f, ...) { va_list ap; if (nev > 20000) VF_BAD("too many events"); va_start(ap, f); if (nev++) ev[evn++] = ','; evn += vsprintf(ev + evn, f, ap); va_end(ap); }
static long at(const void *b, size_t n, long expect)
{
    if (n == 0 || memcmp(b, pat + expect, n) == 0) return expect;
    void *p = memmem(pat, PAT, b, n); return p ? (unsigned char *) p - pat : -1;
}
static long script[4000]; static int ns, si; static long fed, wrote;
static int fake = -1, openintr, openerr, closeerr; static bool live;
static void load_script(void) { ns = vf_int(); if (ns > 4000) VF_DIE("script"); for (int i = 0; i < ns; i++) script[i] = vf_int(); si = 0; fed = wrote = 0; }
ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t); int __real_close(int); int __real_open(const char *, int, ...);
static ssize_t feed(void *b, size_t n)
{
    if (si >= ns) { E("{\"op\":\"read\",\"a\":[0,0],\"r\":[]}"); return 0; }
    long k = script[si];
    if (k == 0) { si++; E("{\"op\":\"read\",\"a\":[-1,%d],\"r\":[]}", EINTR); errno = EINTR; return -1; }
    if (k < 0) { E("{\"op\":\"read\",\"a\":[-1,%ld],\"r\":[]}", -k); errno = -k; return -1; }
    if ((size_t) k > n) { script[si] -= n; k = n; } else si++;
    memcpy(b, pat + fed, k);
    E("{\"op\":\"read\",\"a\":[%ld,%ld],\"r\":[]}", k, fed);
    fed += k; return k;
}
static ssize_t drain(const void *b, size_t n)
{
    long k = si < ns ? script[si] : (long) n;
    if (k == 0) { si++; E("{\"op\":\"write\",\"a\":[%ld,%zu,-1,%d],\"r\":[]}", at(b, n, wrote), n, EINTR); errno = EINTR; return -1; }
    if (k < 0) { E("{\"op\":\"write\",\"a\":[%ld,%zu,-1,%ld],\"r\":[]}", at(b, n, wrote), n, -k); errno = -k; return -1; }
    if (si < ns) { if ((size_t) k > n) { script[si] -= n; k = n; } else si++; }
    E("{\"op\":\"write\",\"a\":[%ld,%zu,%ld,0],\"r\":[]}", at(b, n, wrote), n, k);
    wrote += k; return k;
}
ssize_t __wrap_read(int fd, void *b, size_t n) { return live && fd == fake ? feed(b, n) : __real_read(fd, b, n); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { return live && fd == fake ? drain(b, n) : __real_write(fd, b, n); }
int __wrap_open(const char *p, int flags, ...)
{
    mode_t mode = 0;
    if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, unsigned); va_end(ap); }
    if (!live || strcmp(p, "/vf/fake") != 0) return __real_open(p, flags, mode);
    /* its owner can use a file that it creates, and nobody execute it */
    if ((flags & O_CREAT) && (mode & ~0066) != 0600) flags = -1;
    if (openintr > 0) { openintr--; errno = EINTR; E("{\"op\":\"open\",\"a\":[%d,%d],\"r\":[]}", flags, EINTR); return -1; }
    if (openerr) { errno = openerr; E("{\"op\":\"open\",\"a\":[%d,%d],\"r\":[]}", flags, openerr); return -1; }
    E("{\"op\":\"open\",\"a\":[%d,0],\"r\":[]}", flags);
    return fake;
}
int __wrap_open64(const char *p, int flags, ...) { return __wrap_open(p, flags); }
int __wrap_close(int fd)
{
    if (!live || fd != fake) return __real_close(fd);
    E("{\"op\":\"close\",\"a\":[%d],\"r\":[]}", closeerr);
    if (closeerr) { errno = closeerr; return -1; }
    return 0;
}
static ssize_t ck_read(void *c, char *b, size_t n) { return feed(b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { size_t t = 0; if (!live) return n; while (t < n) { ssize_t r = drain(b + t, n - t); if (r < 0) break; t += r; } return t; }
static int ck_close(void *c) { if (live) E("{\"op\":\"close\",\"a\":[0],\"r\":[]}"); return 0; }
/* a consumer that records, and fails once it has seen failat bytes or at the end */
static struct cork_stream_consumer rc_; static long failat, got; static int eofans, dataans; static long calls;
static int rdata(struct cork_stream_consumer *c, const void *b, size_t n, bool first)
{
    int ans = failat >= 0 && got + (long) n >= failat ? dataans : 0;
    E("{\"op\":\"data\",\"a\":[%ld,%zu,%d,%d],\"r\":[]}", at(b, n, got), n, first, ans);
    got += n;
    if (ans) cork_error_set_string(777, "consumer data");
    errno = ans ? EINTR : calls++ % 3 == 0 ? EIO : 0;          /* consumers may leave anything in errno */
    return ans;
}
static int reof(struct cork_stream_consumer *c)
{
    E("{\"op\":\"eof\",\"a\":[%d],\"r\":[]}", eofans);
    if (eofans) cork_error_set_string(778, "consumer eof");
    errno = EINTR;
    return eofans;
}
static void rfree(struct cork_stream_consumer *c) { E("{\"op\":\"cfree\",\"a\":[],\"r\":[]}"); }
static void done(const char *what, int rc, long blocks)
{
    unsigned code = cork_error_code();
    E("{\"op\":\"%s\",\"a\":[],\"r\":[%d,%u,%ld]}", what, rc != 0, rc ? code : 0, acct_blocks - blocks);
    cork_error_clear();
}
int main(void)
{
    vf_init(); acct_install(); acct_warm();
    pat = malloc(PAT); unsigned x = 12345; for (int i = 0; i < PAT; i++) { x = x * 1103515245u + 12345u; pat[i] = x >> 16; }
    ev = malloc(4 << 20); fake = memfd_create("vf", 0);
    rc_.data = rdata; rc_.eof = reof; rc_.free = rfree;
    while (vf_next()) {
        evn = nev = 0; long blocks = acct_blocks;
        if (vf_is("consume")) {
            int kind = vf_int(); openintr = vf_int(); openerr = vf_int(); failat = vf_int(); dataans = vf_int(); eofans = vf_int(); closeerr = vf_int(); load_script();
            got = 0; calls = 0; int rc;
            E("{\"op\":\"consume\",\"a\":[%d],\"r\":[]}", kind);
            if (kind == 1) {
                FILE *fp = fopencookie(NULL, "r", (cookie_io_functions_t) { ck_read, NULL, NULL, ck_close });
                live = true; errno = 0; rc = cork_consume_file(&rc_, fp); live = false;
                fclose(fp);
            } else { live = true; errno = 0; rc = kind == 0 ? cork_consume_fd(&rc_, fake) : cork_consume_file_from_path(&rc_, "/vf/fake", O_RDONLY); live = false; }
            done("return", rc, blocks);
        } else if (vf_is("consumer")) {
            int kind = vf_int(); openintr = vf_int(); openerr = vf_int(); int doeof = vf_int(); closeerr = vf_int(); load_script();
            struct cork_stream_consumer *c; FILE *fp = NULL; struct cork_buffer buf = CORK_BUFFER_INIT(); long at0 = 0; bool failed = false; int flags = O_WRONLY | O_APPEND;
            if (kind == 5) { kind = 2; flags = O_WRONLY | O_CREAT | O_TRUNC; }
            E("{\"op\":\"new\",\"a\":[%d,%d],\"r\":[]}", kind, flags);
            live = true;
            if (kind == 1 || kind == 4) { fp = fopencookie(NULL, "w", (cookie_io_functions_t) { NULL, ck_write, NULL, ck_close }); if (kind == 1) setvbuf(fp, NULL, _IONBF, 0); c = cork_file_consumer_new(fp); }
            else if (kind == 0) c = cork_fd_consumer_new(fake);
            else if (kind == 2) c = cork_file_from_path_consumer_new("/vf/fake", flags);
            else { cork_buffer_set(&buf, "before", 6); c = cork_buffer_to_stream_consumer(&buf); }
            E("{\"op\":\"made\",\"a\":[],\"r\":[%d,%u]}", c == NULL, c ? 0 : cork_error_code());
            if (c) {
                int nc = vf_int(), rc = 0; bool bad = false;
                for (int i = 0; i < nc && rc == 0; i++) {
                    long n = vf_int(); char *b = malloc(n + 1); memcpy(b, pat + at0, n);
                    E("{\"op\":\"send\",\"a\":[%ld,%ld],\"r\":[]}", at0, n);
                    errno = 0; rc = cork_stream_consumer_data(c, b, n, i == 0); unsigned code = cork_error_code();
                    memset(b, 0, n); free(b); at0 += n;
                    if (kind == 3) E("{\"op\":\"write\",\"a\":[%ld,%zu,%zu,0],\"r\":[]}", at0 - n, (size_t) n, buf.size == (size_t) at0 + 6 && memcmp(buf.buf, "before", 6) == 0 && memcmp((char *) buf.buf + 6, pat, at0) == 0 ? (size_t) n : (size_t) n + 1);
                    E("{\"op\":\"sent\",\"a\":[],\"r\":[%d,%u]}", rc != 0, rc ? code : 0);
                    if (rc) { bad = true; cork_error_clear(); }
                }
                failed = bad;
                if (doeof == 1 || (doeof == 2 && rc == 0)) {
                    E("{\"op\":\"end\",\"a\":[],\"r\":[]}");
                    errno = 0; rc = cork_stream_consumer_eof(c); unsigned code = cork_error_code();
                    E("{\"op\":\"ended\",\"a\":[],\"r\":[%d,%u]}", rc != 0, rc ? code : 0);
                    if (rc) cork_error_clear();
                }
                E("{\"op\":\"free\",\"a\":[],\"r\":[]}");
                cork_stream_consumer_free(c);
                if (fp && kind == 4 && !failed) { fflush(fp); E("{\"op\":\"sync\",\"a\":[],\"r\":[]}"); }
            }
            live = false;
            if (fp) fclose(fp);
            if (kind == 3) cork_buffer_done(&buf);
            cork_error_clear();
            E("{\"op\":\"over\",\"a\":[],\"r\":[%ld]}", acct_blocks - blocks);
        } else VF_DIE("op %s", vf_op);
        ev[evn] = 0;
        fprintf(vf_out, "{\"events\":[%s]}\n", ev);
    }
    fflush(vf_out); _exit(acct_bad ? 97 : 0);
}
