#include "vf.h"
#include <libcork/core.h>
#include <libcork/ds.h>
static struct cork_buffer b0, *b[2]; static bool placed[2], touched[2];
static char abuf[1 << 20];
static void vp(struct cork_buffer *d, bool app, const char *f, ...)
{
    va_list ap; va_start(ap, f);
    if (app) cork_buffer_append_vprintf(d, f, ap); else cork_buffer_vprintf(d, f, ap);
    va_end(ap);
}
#define PF(...) do { if (v) vp(b[i], app, __VA_ARGS__); else if (app) cork_buffer_append_printf(b[i], __VA_ARGS__); else cork_buffer_printf(b[i], __VA_ARGS__); } while (0)
static void fmt(int i, bool app, bool v, int k, const char *s, int n)
{
    switch (k) {
      case 1: PF("%s", s); break;
      case 2: PF("%d", n); break;
      case 3: PF("<%s|%5d>%%", s, n); break;
      case 4: { const char *volatile e = ""; PF(e, 0); break; }
      case 5: PF("%s%s", s, s); break;
      case 6: PF("%*s", n, s); break;
    }
}
static void lit(int i, bool app, int k)
{
    if (app) switch (k) { case 1: cork_buffer_append_literal(b[i], ""); break; case 2: cork_buffer_append_literal(b[i], "a"); break;
        case 3: cork_buffer_append_literal(b[i], "a\0b"); break; case 4: cork_buffer_append_literal(b[i], "hello world in a buf"); break; }
    else switch (k) { case 1: cork_buffer_set_literal(b[i], ""); break; case 2: cork_buffer_set_literal(b[i], "a"); break;
        case 3: cork_buffer_set_literal(b[i], "a\0b"); break; case 4: cork_buffer_set_literal(b[i], "hello world in a buf"); break; }
}
static void up(int i) { if (i == 0) { struct cork_buffer x = CORK_BUFFER_INIT(); b0 = x; b[0] = &b0; cork_buffer_init(b[0]); } else b[1] = cork_buffer_new(); placed[i] = touched[i] = false; }
static void down(int i) { if (i == 0) cork_buffer_done(b[0]); else cork_buffer_free(b[1]); }
static void bytes_a(char *o, const char *s, size_t n) { o += sprintf(o, "["); for (size_t j = 0; j < n; j++) o += sprintf(o, j ? ",%u" : "%u", (unsigned char) s[j]); strcpy(o, "]"); }
int main(int argc, char **argv)
{
    bool isup = false; vf_init();
    while (vf_next()) {
        int r = 0, i = 0, k; size_t n; char *s; char op[64]; abuf[0] = 0; strcpy(op, vf_op);
        if (vf_is("reset")) { for (k = 0; k < 2; k++) { if (isup) down(k); up(k); } isup = true; }
        else if (vf_is("eq")) r = cork_buffer_equal(b[0], b[1]);
        else if (vf_is("eqself")) { i = vf_int() - 1; r = cork_buffer_equal(b[i], b[i]); }
        else {
            i = vf_int() - 1; if (!vf_is("trunc")) touched[i] = true;
            if (vf_is("set") || vf_is("app") || vf_is("cons")) {
                s = vf_str(&n); char *t = malloc(n); memcpy(t, s, n); free(s);
                if (vf_is("set")) cork_buffer_set(b[i], t, n); else if (vf_is("app")) cork_buffer_append(b[i], t, n);
                else { struct cork_stream_consumer *c = cork_buffer_to_stream_consumer(b[i]);
                       if (cork_stream_consumer_data(c, t, n, true) != 0 || cork_stream_consumer_eof(c) != 0) r = 5;
                       cork_stream_consumer_free(c); }
                free(t); placed[i] = true;
            } else if (vf_is("sets") || vf_is("apps")) {
                s = vf_str(&n); if (vf_is("sets")) cork_buffer_set_string(b[i], s); else cork_buffer_append_string(b[i], s); free(s); placed[i] = true;
            } else if (vf_is("setl")) { lit(i, false, vf_int()); placed[i] = true;
            } else if (vf_is("appl")) { lit(i, true, vf_int()); placed[i] = true;
            } else if (vf_is("pf") || vf_is("vpf") || vf_is("apf") || vf_is("avpf")) {
                bool app = vf_op[0] == 'a', v = strstr(vf_op, "v") != NULL;
                k = vf_int(); s = vf_str(&n); fmt(i, app, v, k, s, vf_int()); free(s); placed[i] = true;
            } else if (vf_is("fit") || vf_is("fita")) {
                /* formatted (or plain) output of exactly the free capacity plus delta */
                long d = vf_int(); int how = vf_int(); long len = (long) b[i]->allocated_size - (vf_is("fita") ? (long) b[i]->size : 0) + d; bool app = vf_is("fita");
                if (len < 0) len = 0; if (len > 3000) len = 3000;
                s = malloc(len + 1); for (k = 0; k < len; k++) s[k] = 'a' + (k % 26); s[len] = 0;
                if (how == 0) { fmt(i, app, false, 1, s, 0); strcpy(op, app ? "apf" : "pf"); }
                else if (how == 1) { fmt(i, app, true, 1, s, 0); strcpy(op, app ? "avpf" : "vpf"); }
                else { if (app) cork_buffer_append(b[i], s, len); else cork_buffer_set(b[i], s, len); strcpy(op, app ? "app" : "set"); }
                char *o = abuf + sprintf(abuf, how < 2 ? "[%d,1," : "[%d,", i + 1);
                bytes_a(o, s, len); strcat(o, how < 2 ? ",0]" : "]"); free(s); placed[i] = true;
            } else if (vf_is("copy")) { cork_buffer_copy(b[i], b[1 - i]); placed[i] = true;
            } else if (vf_is("appc")) { cork_buffer_append_copy(b[i], b[1 - i]); placed[i] = true;
            } else if (vf_is("trunc")) cork_buffer_truncate(b[i], vf_int());
            else if (vf_is("ind")) { cork_buffer_append_indent(b[i], vf_int()); placed[i] = true; }
            else if (vf_is("clear")) cork_buffer_clear(b[i]);
            else if (vf_is("renew")) { down(i); up(i); }
            else if (vf_is("ens")) { n = vf_int(); touched[i] = placed[i]; cork_buffer_ensure_size(b[i], n); if (n) ((char *) b[i]->buf)[n - 1] = ((char *) b[i]->buf)[n - 1]; if (b[i]->allocated_size < n) r = 7; }
            else VF_DIE("op %s", vf_op);
        }
        J("{");
        if (abuf[0]) J("\"op\":\"%s\",\"a\":%s,", op, abuf);
        J("\"r\":%d,\"s\":[", r);
        for (k = 0; k < 2; k++) {
            const char *p = b[k]->buf; int bad = 0;
            if (placed[k] && p == NULL) bad = 2;
            if ((placed[k] || touched[k]) && p != NULL && p[b[k]->size] != 0) bad = 1;
            if (b[k]->size > b[k]->allocated_size) bad = 3;
            J(k ? ",[%zu," : "[%zu,", b[k]->size);
            for (n = 0; n < b[k]->size; n++) if (cork_buffer_byte(b[k], n) != (uint8_t) cork_buffer_char(b[k], n)) bad = 4;
            J_bytes(p, b[k]->size); J(",%d]", bad);
        }
        J("]}"); J_end();
    }
    return 0;
}
