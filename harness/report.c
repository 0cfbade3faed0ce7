/* the executed program: tells what it was given on descriptor 9 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
extern char **environ;
static FILE *f;
static void q(const char *s, size_t n) { fputc('"', f); for (size_t i = 0; i < n; i++) { unsigned char c = s[i]; if (c == '"' || c == '\\' || c < 32) fprintf(f, "\\u%04x", c); else fputc(c, f); } fputc('"', f); }
static int cmp(const void *a, const void *b)
{
    const char *x = *(char **) a, *y = *(char **) b; size_t i = 0;
    for (;; i++) { int c = x[i] == '=' ? 0 : (unsigned char) x[i], d = y[i] == '=' ? 0 : (unsigned char) y[i]; if (c != d || c == 0) return c - d; }
}
int main(int argc, char **argv)
{
    int n = 0;
    if (!(f = fdopen(9, "w"))) _exit(99);
    fprintf(f, "[0,[");
    for (int i = 0; i < argc; i++) { if (i) fputc(',', f); q(argv[i], strlen(argv[i])); }
    fprintf(f, "],[");
    for (n = 0; environ && environ[n]; n++);
    qsort(environ, n, sizeof *environ, cmp);
    for (int i = 0; i < n; i++) { char *e = strchr(environ[i], '='); fprintf(f, i ? ",[" : "["); q(environ[i], e - environ[i]); fputc(',', f); q(e + 1, strlen(e + 1)); fputc(']', f); }
    fprintf(f, "],");
    char b[5000]; if (!getcwd(b, sizeof b)) strcpy(b, "?"); q(b, strlen(b));
    fprintf(f, "]"); fflush(f); _exit(0);
}
