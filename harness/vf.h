/* Shared helpers of the drivers: each reads one operation per line from stdin
 * ("op arg arg ...": decimal integers, or strings as x<hex>) and answers with
 * one JSON object per line: {"r": result, "s": observed state}. */
#ifndef VF_H
#define VF_H
#include <assert.h>
#include <errno.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static FILE *vf_out;
static char *vf_line;
static size_t vf_cap;
static char *vf_pos;
static char vf_op[64];

/* the library misbehaves in a way that no answer can express */
#define VF_BAD(...) do { fprintf(stderr, "the library: " __VA_ARGS__); fprintf(stderr, "\n"); _exit(97); } while (0)
#define VF_DIE(...) do { fprintf(stderr, "HARNESS-ERROR: " __VA_ARGS__); fprintf(stderr, "\n"); _exit(98); } while (0)

static void vf_init(void)
{
    int fd = dup(1);
    vf_out = fdopen(fd, "w");
    setvbuf(vf_out, NULL, _IOLBF, 1 << 16);
}

static bool vf_next(void)
{
    ssize_t n = getline(&vf_line, &vf_cap, stdin);
    if (n <= 0) return false;
    if (vf_line[n - 1] == '\n') vf_line[n - 1] = 0;
    vf_pos = vf_line;
    size_t i = 0;
    while (*vf_pos && *vf_pos != ' ' && i < sizeof(vf_op) - 1) vf_op[i++] = *vf_pos++;
    vf_op[i] = 0;
    return true;
}

static bool vf_is(const char *s) { return strcmp(vf_op, s) == 0; }

static bool vf_more(void) { while (*vf_pos == ' ') vf_pos++; return *vf_pos != 0; }

static long long vf_int(void)
{
    char *e;
    if (!vf_more()) VF_DIE("missing integer argument for %s", vf_op);
    long long v = strtoll(vf_pos, &e, 10);
    if (e == vf_pos) VF_DIE("bad integer argument for %s: %s", vf_op, vf_pos);
    vf_pos = e;
    return v;
}

static unsigned vf_hexv(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }

/* A string argument (either x<hex> or "n b1 .. bn", a counted sequence of byte
 * values); the result is an exactly-sized, NUL-terminated heap block. */
static char *vf_str(size_t *len)
{
    char *r;
    size_t n;
    if (!vf_more()) VF_DIE("missing string argument for %s", vf_op);
    if (*vf_pos == 'x') {
        vf_pos++;
        n = strspn(vf_pos, "0123456789abcdef") / 2;
        r = malloc(n + 1);
        for (size_t i = 0; i < n; i++) r[i] = vf_hexv(vf_pos[2 * i]) * 16 + vf_hexv(vf_pos[2 * i + 1]);
        vf_pos += 2 * n;
    } else {
        n = vf_int();
        r = malloc(n + 1);
        for (size_t i = 0; i < n; i++) r[i] = (char) vf_int();
    }
    r[n] = 0;
    if (len) *len = n;
    return r;
}

static void J(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vfprintf(vf_out, fmt, ap);
    va_end(ap);
}

/* a byte string as an array of byte values */
static void J_bytes(const void *p, size_t n)
{
    const unsigned char *b = p;
    fputc('[', vf_out);
    for (size_t i = 0; i < n; i++) fprintf(vf_out, i ? ",%u" : "%u", b[i]);
    fputc(']', vf_out);
}

static void J_end(void) { fputc('\n', vf_out); fflush(vf_out); }
#endif
