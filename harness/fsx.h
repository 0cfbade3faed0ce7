/* Scratch trees: building, listing and clearing directory trees below one
 * scratch directory, and keeping the code under test inside it.  The driver
 * becomes an unprivileged user, and every call that changes the file system
 * (through the linker's --wrap) refuses paths outside of the scratch directory. */
#ifndef VF_FSX_H
#define VF_FSX_H
#define _XOPEN_SOURCE 700
#include "vf.h"
#include <dirent.h>
#include <fcntl.h>
#include <ftw.h>
#include <limits.h>
#include <sys/stat.h>
#include <sys/types.h>
static const char *fsx_base; static size_t fsx_lbase;
static int fsx_escapes, fsx_calls, fsx_refuse, fsx_refused, fsx_race = -1;   /* fsx_refuse: which modifying call fails */
int __real_mkdir(const char *, mode_t); int __real_rmdir(const char *); int __real_unlink(const char *);
static bool fsx_inside(const char *path)
{
    char tmp[PATH_MAX], real[PATH_MAX]; size_t l = strlen(path);
    if (l == 0 || l >= PATH_MAX) return true;                 /* the system refuses it */
    strcpy(tmp, path);
    while (l > 1 && tmp[l - 1] == '/') tmp[--l] = 0;
    char *s = strrchr(tmp, '/');
    const char *dir = s == NULL ? "." : s == tmp ? "/" : (*s = 0, tmp);
    const char *last = s == NULL ? tmp : s + 1;
    if (strcmp(last, "..") == 0) return false;
    if (!realpath(dir, real)) return true;                    /* nothing can be changed there */
    return strncmp(real, fsx_base, fsx_lbase) == 0 && (real[fsx_lbase] == 0 || real[fsx_lbase] == '/');
}
static bool fsx_gate(const char *path)
{
    int e = errno;
    if (!fsx_inside(path)) { fsx_escapes++; errno = EACCES; return false; }
    if (++fsx_calls == fsx_refuse) { fsx_refused = 1; errno = EACCES; return false; }
    errno = e;
    return true;
}
int __wrap_mkdir(const char *p, mode_t m)
{
    if (!fsx_gate(p)) return -1;
    if (fsx_race >= 0) { __real_mkdir(p, 0700); chmod(p, fsx_race); fsx_race = -1; }
    return __real_mkdir(p, m);
}
int __wrap_rmdir(const char *p) { return fsx_gate(p) ? __real_rmdir(p) : -1; }
int __wrap_unlink(const char *p) { return fsx_gate(p) ? __real_unlink(p) : -1; }
int __real_remove(const char *); int __wrap_remove(const char *p) { return fsx_gate(p) ? __real_remove(p) : -1; }
int __real_rename(const char *, const char *); int __wrap_rename(const char *p, const char *q) { return fsx_gate(p) && fsx_gate(q) ? __real_rename(p, q) : -1; }
int __real_unlinkat(int, const char *, int); int __wrap_unlinkat(int d, const char *p, int f) { if (d != AT_FDCWD) { if (++fsx_calls == fsx_refuse) { fsx_refused = 1; errno = EACCES; return -1; } return __real_unlinkat(d, p, f); } return fsx_gate(p) ? __real_unlinkat(d, p, f) : -1; }
static void fsx_init(const char *base)
{
    static char real[PATH_MAX];
    if (!realpath(base, real) || strlen(real) < 8) VF_DIE("base %s", base);
    fsx_base = real; fsx_lbase = strlen(real);
    if (chdir(fsx_base)) VF_DIE("chdir");
    if (getuid() == 0) {
        if (chown(fsx_base, 65534, 65534)) VF_DIE("chown");
        if (setgid(65534) || setuid(65534)) VF_DIE("cannot become an unprivileged user");
    }
}
/* our own view of the tree never goes through the wrappers */
static int fsx_count_, fsx_depth_;
static void fsx_each(const char *dir, int clear)
{
    struct stat me;
    if (lstat(dir, &me)) return;
    if (clear || (me.st_mode & 0500) != 0500) chmod(dir, 0700);
    DIR *d = opendir(dir); struct dirent *e;
    if (!d) VF_DIE("list %s", dir);
    while ((e = readdir(d))) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        char p[PATH_MAX]; struct stat st;
        snprintf(p, sizeof p, "%s/%s", dir, e->d_name);
        if (lstat(p, &st)) continue;
        fsx_count_++;
        if (S_ISDIR(st.st_mode)) { fsx_each(p, clear); if (clear && __real_rmdir(p)) VF_DIE("clear %s", p); }
        else if (clear && __real_unlink(p)) VF_DIE("clear %s", p);
    }
    closedir(d);
    if (!clear && (me.st_mode & 0500) != 0500) chmod(dir, me.st_mode & 07777);
}
static void fsx_clear(void) { umask(0); fsx_each(fsx_base, 1); chmod(fsx_base, 0755); }
static int fsx_count(void) { fsx_count_ = 0; fsx_each(fsx_base, 0); return fsx_count_; }
/* a counted list of names, as a path below the scratch directory (a fresh block); spelling as in the specification */
static char *fsx_comps(int sp)
{
    char b[PATH_MAX]; int n = vf_int(); b[0] = 0;
    if (sp == 1) { strcpy(b, fsx_base); if (n) strcat(b, "/"); }
    else if (sp == 2) strcpy(b, n ? "./" : ".");
    else if (n == 0) strcpy(b, ".");
    for (int i = 0; i < n; i++) {
        char *s = vf_str(NULL);
        if (i) strcat(b, sp == 3 ? "//" : sp == 5 ? "/./" : "/");
        strcat(b, s); free(s);
    }
    if (sp == 4) strcat(b, "/");
    return strdup(b);
}
static void fsx_put(const char *p, const char *t, int m, const char *target)
{
    char b[2 * PATH_MAX];
    if (!strcmp(t, "dir")) { if (__real_mkdir(p, 0700)) VF_DIE("put dir %s", p); }
    else if (!strcmp(t, "file")) { int fd = open(p, O_CREAT | O_EXCL | O_WRONLY, 0600); if (fd < 0 || write(fd, "data", 4) != 4) VF_DIE("put file %s", p); close(fd); if (chmod(p, m)) VF_DIE("chmod"); }
    else if (!strcmp(t, "fifo")) { if (mkfifo(p, 0600) || chmod(p, m)) VF_DIE("put fifo %s", p); }
    else if (!strcmp(t, "link")) { snprintf(b, sizeof b, "%s/%s", fsx_base, target); if (symlink(b, p)) VF_DIE("put link %s", p); }
    else VF_DIE("type %s", t);
}
/* one entry <<path, type, mode, target>>; directories get their mode from fsx_modes */
static struct { char *p; int m; } fsx_dirs[400]; static int fsx_ndirs;
static void fsx_entry(void)
{
    vf_int();
    char *p = fsx_comps(0), *t = vf_str(NULL); int m = vf_int(); char *l = fsx_comps(0);
    fsx_put(p, t, m, l);
    if (!strcmp(t, "dir")) { fsx_dirs[fsx_ndirs].p = strdup(p); fsx_dirs[fsx_ndirs++].m = m; }
    free(p); free(t); free(l);
}
static void fsx_modes(void) { while (fsx_ndirs) { fsx_ndirs--; if (chmod(fsx_dirs[fsx_ndirs].p, fsx_dirs[fsx_ndirs].m)) VF_DIE("chmod"); free(fsx_dirs[fsx_ndirs].p); } }
static void fsx_tree(void) { int n = vf_int(); for (int i = 0; i < n; i++) fsx_entry(); fsx_modes(); }
static void fsx_jcomps(const char *p)
{
    fputc('[', vf_out);
    bool first = true;
    while (*p) { size_t k = strcspn(p, "/"); if (k && !(k == 1 && *p == '.')) { fprintf(vf_out, first ? "\"%.*s\"" : ",\"%.*s\"", (int) k, p); first = false; } p += k; if (*p) p++; }
    fputc(']', vf_out);
}
static const char *fsx_type(mode_t m) { return S_ISDIR(m) ? "dir" : S_ISREG(m) ? "file" : S_ISLNK(m) ? "link" : S_ISFIFO(m) ? "fifo" : "other"; }
/* [path, type, mode, target] for each of the given paths that exists; false if there is nothing */
static bool fsx_node(const char *p, bool first)
{
    struct stat st; char b[PATH_MAX + 1]; ssize_t n;
    if (lstat(p, &st)) return false;
    strcpy(b, p);                                             /* not through links */
    for (char *s; (s = strrchr(b, '/'));) { struct stat up; *s = 0; if (lstat(b, &up) || !S_ISDIR(up.st_mode)) return false; }
    fprintf(vf_out, first ? "[" : ",["); fsx_jcomps(p); fprintf(vf_out, ",\"%s\",%d,", fsx_type(st.st_mode), S_ISLNK(st.st_mode) ? 0 : (int) (st.st_mode & 07777));
    if (S_ISLNK(st.st_mode) && (n = readlink(p, b, PATH_MAX)) > 0) { b[n] = 0; fsx_jcomps(strncmp(b, fsx_base, fsx_lbase) == 0 ? b + fsx_lbase : b); } else fprintf(vf_out, "[]");
    fprintf(vf_out, "]");
    return true;
}
#endif
