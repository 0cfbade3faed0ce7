#include "vf.h"
#include <libcork/core.h>
#include <libcork/ds.h>
#include <sys/time.h>
#include <time.h>
static void J_le(uint64_t v, int n) { J("["); for (int i = 0; i < n; i++) J("%s%d", i ? "," : "", (int) (v >> 8 * i & 255)); J("]"); }
static void zone(int off)
{
    char tz[64]; int o = -off;                 /* POSIX: west is positive */
    snprintf(tz, sizeof tz, "XYZ%s%d:%02d:%02d", o < 0 ? "-" : "+", abs(o) / 3600, abs(o) / 60 % 60, abs(o) % 60);
    setenv("TZ", tz, 1); tzset();
}
int main(void)
{
    vf_init();
    cork_timestamp ts = 0;
    while (vf_next()) {
        int isread = vf_is("read");
        cork_error_clear();
        if (vf_is("reset")) { ts = 0; J("{\"r\":[]"); }
        else if (vf_is("sec") || vf_is("gsec") || vf_is("msec") || vf_is("usec") || vf_is("nsec")) {
            uint64_t d = vf_int(), s = vf_int(), x = 0, sec = d * 86400 + s; size_t n;
            if (vf_is("gsec")) { unsigned char *p = (unsigned char *) vf_str(&n); for (int i = 3; i >= 0; i--) x = x << 8 | p[i]; free(p); }
            else if (!vf_is("sec")) x = vf_int();
            ts = 0x123456789abcdef0;
            if (vf_is("sec")) cork_timestamp_init_sec(&ts, sec);
            else if (vf_is("gsec")) cork_timestamp_init_gsec(&ts, sec, x);
            else if (vf_is("msec")) cork_timestamp_init_msec(&ts, sec, x);
            else if (vf_is("usec")) cork_timestamp_init_usec(&ts, sec, x);
            else cork_timestamp_init_nsec(&ts, sec, x);
            J("{\"r\":0");
            if (!vf_is("sec") && !vf_is("gsec")) { J(",\"a\":[%d,%d,%d,", (int) d, (int) s, (int) x); J_le(cork_timestamp_gsec(ts), 4); J("]"); }
        } else if (isread) {
            char *u = vf_str(NULL); uint64_t x = *u == 'm' ? cork_timestamp_msec(ts) : *u == 'u' ? cork_timestamp_usec(ts) : cork_timestamp_nsec(ts);
            J("{\"r\":%" PRIu64, x > 2000000000 ? 2000000000 : x); free(u);
        } else if (vf_is("format")) {
            int off = vf_int(); size_t n; char *p = vf_str(&n), *f = vf_str(NULL); struct cork_buffer b = CORK_BUFFER_INIT();
            zone(off);
            cork_buffer_append(&b, p, n);
            int utc = off == 0 && n % 2 == 0;
            if (utc) zone(7200 + 13);
            int rc = utc ? cork_timestamp_format_utc(ts, f, &b) : cork_timestamp_format_local(ts, f, &b);
            if (rc == 0) { J("{\"r\":[0,"); J_bytes(b.buf, b.size); J("]"); if (b.size && ((char *) b.buf)[b.size] != 0) VF_DIE("not terminated"); }
            else J("{\"r\":[%d,[]]", rc == -1 && cork_error_occurred() && b.size >= n && memcmp(b.buf, p, n) == 0 ? -1 : -2);
            cork_buffer_done(&b); free(p); free(f);
        } else if (vf_is("now")) {
            struct timeval t0, t1; cork_timestamp t;
            gettimeofday(&t0, NULL); cork_timestamp_init_now(&t); gettimeofday(&t1, NULL);
            uint64_t a = t0.tv_sec * 1000000ULL + t0.tv_usec, b = t1.tv_sec * 1000000ULL + t1.tv_usec, x = cork_timestamp_sec(t) * 1000000ULL + cork_timestamp_usec(t);
            J("{\"r\":%d", x + 1 >= a && x <= b + 1);        /* (unless the clock is set in between) */
        } else VF_DIE("op %s", vf_op);
        J(",\"s\":["); J_le(cork_timestamp_sec(ts), 4); J(","); J_le(cork_timestamp_gsec(ts), 4); J("]}"); J_end();
    }
    return 0;
}
