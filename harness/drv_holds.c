#define _GNU_SOURCE 1
#include "vf.h"
#include "acct.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <libcork/core.h>
#include <libcork/ds.h>
#include <libcork/os.h>
#include <libcork/threads.h>
#include <libcork/helpers/gc.h>
/* usage: drv_holds DIR N.  Objects of every kind, under an allocator that keeps
 * account; the library's own references to the C library's allocator are counted. */
static long foreign; static __thread int lib, inacct;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *); char *__real_strdup(const char *); char *__real_strndup(const char *, size_t);
#define NOTE() do { if (lib && !inacct) foreign++; } while (0)
void *__wrap_malloc(size_t n) { NOTE(); return __real_malloc(n); }
void *__wrap_calloc(size_t c, size_t n) { NOTE(); return __real_calloc(c, n); }
void *__wrap_realloc(void *p, size_t n) { NOTE(); return __real_realloc(p, n); }
void __wrap_free(void *p) { NOTE(); __real_free(p); }
char *__wrap_strdup(const char *s) { NOTE(); return __real_strdup(s); }
char *__wrap_strndup(const char *s, size_t n) { NOTE(); return __real_strndup(s, n); }
static void *h_xmalloc(const struct cork_alloc *a, size_t n) { inacct = 1; void *p = acct_xmalloc(a, n); inacct = 0; return p; }
static void h_free(const struct cork_alloc *a, void *p, size_t n) { inacct = 1; if (!p) acct_bad++; acct_free(a, p, n); inacct = 0; }
static void *h_xrealloc(const struct cork_alloc *a, void *p, size_t o, size_t n) { inacct = 1; void *q = acct_xrealloc(a, p, o, n); inacct = 0; return q; }
#define M 12
static struct { int kind; void *p, *q, *r; long n; struct cork_slice sl[4]; } ob[M + 1];
static char dir[400], big[3000]; static unsigned seed;
static unsigned rnd(unsigned n) { seed = seed * 1103515245u + 12345; return (seed >> 13) % n; }
static const char *word(void) { static char w[4][64]; static int k; k = (k + 1) % 4; snprintf(w[k], 64, "w%u-%.*s", rnd(40), (int) rnd(30), "abcdefghijklmnopqrstuvwxyzabcdefgh"); return w[k]; }
static const char *in(const char *s) { static char w[4][600]; static int k; k = (k + 1) % 4; snprintf(w[k], 600, "%s/%s", dir, s); return w[k]; }
static void strfree(void *p) { cork_strfree(p); }
static int nop_run(void *ud) { return 0; }
static int child_run(void *ud) { write(1, "some output\n", 12); return 0; }
struct node { struct node *a, *b; const char *s; };
_free_(node) { cork_strfree(((struct node *) obj)->s); }
_recurse_(node) { recurse(gc, ((struct node *) obj)->a, ud); recurse(gc, ((struct node *) obj)->b, ud); }
_gc_(node);
static struct node *node(struct node *a, struct node *b) { struct node *n = cork_gc_new(node); n->a = cork_gc_incref(a); n->b = cork_gc_incref(b); n->s = cork_strdup(word()); return n; }
static int each(struct cork_file *f, const char *n, void *ud) { bool e; (*(int *) ud)++; return cork_file_exists(f, &e); }
static int w_enter(struct cork_dir_walker *w, const char *f, const char *r, const char *b) { return strstr(b, "skip") ? CORK_SKIP_DIRECTORY : 0; }
static int w_file(struct cork_dir_walker *w, const char *f, const char *r, const char *b) { return 0; }
static int w_leave(struct cork_dir_walker *w, const char *f, const char *r, const char *b) { return 0; }
static enum cork_hash_table_map_result mapper(void *ud, struct cork_hash_table_entry *e) { return rnd(3) ? CORK_HASH_TABLE_MAP_CONTINUE : CORK_HASH_TABLE_MAP_DELETE; }
static void i_init(void *ud, void *v) { *(const char **) v = cork_strdup("element"); }
static void i_done(void *ud, void *v) { cork_strfree(*(const char **) v); }
static void slices(int i, struct cork_slice *from)
{
    for (int k = 0; k < 4; k++) {
        cork_slice_finish(&ob[i].sl[k]); cork_slice_clear(&ob[i].sl[k]);
        size_t o = rnd(8), l = rnd(8);
        switch (rnd(4)) {
            case 0: cork_slice_copy(&ob[i].sl[k], from, o, l); break;
            case 1: cork_slice_copy_offset(&ob[i].sl[k], from, o); break;
            case 2: if (from->size >= o + l) cork_slice_light_copy(&ob[i].sl[k], from, o, l); break;
            default: if (cork_slice_copy(&ob[i].sl[k], from, 0, from->size) == 0) { cork_slice_slice_offset(&ob[i].sl[k], o); cork_slice_slice(&ob[i].sl[k], l, o); }
        }
    }
    cork_error_clear();
}
static void unslice(int i) { for (int k = 0; k < 4; k++) { cork_slice_finish(&ob[i].sl[k]); cork_slice_clear(&ob[i].sl[k]); } }
static void fill(struct cork_buffer *b) { cork_buffer_set_string(b, word()); for (unsigned k = rnd(6); k; k--) cork_buffer_append(b, big, rnd(400)); }
enum { STR = 1, ARRAY, STRARRAY, PTRARRAY, IARRAY, SHASH, PHASH, RING, BITSET, BUFFER, MANAGED, MCOPY, BSLICE, BCONS, POOL, GC, PATH, PLIST, FLIST, FILE_, WALK, ENV, EXEC, SUBP, THREAD, FDCONS, FPCONS, STD, ERR, SCOPY, MAXKIND };
typedef cork_array(int) int_array; typedef cork_array(char *) ptr_array; typedef cork_array(const char *) i_array;
static void make(int i, int kind)
{
    ob[i].kind = kind; memset(ob[i].sl, 0, sizeof ob[i].sl);
    switch (kind) {
        case STR: ob[i].p = (void *) cork_strdup(word()); ob[i].q = (void *) cork_xstrndup(big, rnd(2000)); break;
        case ARRAY: ob[i].p = cork_new(int_array); cork_array_init((int_array *) ob[i].p); break;
        case STRARRAY: ob[i].p = cork_new(struct cork_string_array); cork_string_array_init(ob[i].p); break;
        case PTRARRAY: ob[i].p = cork_new(ptr_array); cork_pointer_array_init((ptr_array *) ob[i].p, strfree); break;
        case IARRAY: ob[i].p = cork_new(i_array); cork_array_init((i_array *) ob[i].p); cork_array_set_init((i_array *) ob[i].p, i_init); cork_array_set_done((i_array *) ob[i].p, i_done); break;
        case SHASH: ob[i].p = cork_string_hash_table_new(rnd(50), 0); cork_hash_table_set_free_key(ob[i].p, strfree); cork_hash_table_set_free_value(ob[i].p, strfree); break;
        case PHASH: ob[i].p = cork_pointer_hash_table_new(rnd(50), 0); break;
        case RING: ob[i].p = cork_ring_buffer_new(1 + rnd(9)); break;
        case BITSET: ob[i].n = rnd(300); ob[i].p = cork_bitset_new(ob[i].n); break;
        case BUFFER: case MANAGED: case BSLICE: case BCONS: ob[i].p = cork_buffer_new(); break;
        case MCOPY: ob[i].p = cork_managed_buffer_new_copy(big, rnd(100)); break;
        case POOL: ob[i].n = 0; ob[i].p = cork_mempool_new_size_ex(8 + rnd(60), 1024 + rnd(3000)); ob[i].q = NULL; break;
        case GC: cork_gc_init(); ob[i].p = node(NULL, NULL); break;
        case PATH: ob[i].p = cork_path_new(rnd(4) ? word() : NULL); break;
        case PLIST: ob[i].p = cork_path_list_new(rnd(3) ? "/a:/b/c::d" : dir); break;
        case FLIST: ob[i].p = cork_file_list_new_empty(); break;
        case FILE_: ob[i].p = cork_file_new(in("a/b/c")); break;
        case ENV: ob[i].p = rnd(2) ? cork_env_new() : cork_env_clone_current(); break;
        case EXEC: ob[i].p = cork_exec_new_with_params("prog", "one", "two", NULL); break;
        case SUBP: ob[i].p = cork_subprocess_group_new(); break;
        case THREAD: ob[i].n = 0; ob[i].p = cork_thread_new(word(), NULL, NULL, nop_run); break;
        case FDCONS: ob[i].n = open("/dev/null", O_WRONLY); ob[i].p = cork_fd_consumer_new(ob[i].n); break;
        case FPCONS: ob[i].p = cork_file_from_path_consumer_new("/dev/null", O_WRONLY); break;
        case STD: case ERR: case WALK: break;
        case SCOPY: cork_slice_init_copy_once(&ob[i].sl[0], big, rnd(500)); break;
    }
}
static void use(int i, int w)
{
    void *p = ob[i].p; size_t k; struct cork_buffer *b, *c; bool flag;
    seed = seed * 31 + w;
    switch (ob[i].kind) {
        case STR: cork_strfree(p); ob[i].p = (void *) cork_strndup(big, rnd(600)); break;
        case ARRAY: { int_array *a = p; switch (w % 4) { case 0: for (k = rnd(100); k; k--) cork_array_append(a, 7); break; case 1: cork_array_clear(a); break; case 2: cork_array_ensure_size(a, rnd(300)); break; default: if (cork_array_size(a)) cork_array_remove(a, rnd(cork_array_size(a))); } break; }
        case STRARRAY: { struct cork_string_array *a = p; if (w % 4 == 3) { struct cork_string_array t; cork_string_array_init(&t); cork_string_array_copy(&t, a); cork_string_array_copy(a, &t); cork_array_done(&t); } else if (w % 4 == 2) cork_array_clear(a); else for (k = rnd(30); k; k--) cork_string_array_append(a, word()); break; }
        case PTRARRAY: { ptr_array *a = p; if (w % 4 == 3) cork_array_clear(a); else if (w % 4 == 2 && cork_array_size(a)) cork_array_remove(a, rnd(cork_array_size(a))); else for (k = rnd(30); k; k--) cork_array_append(a, (char *) cork_strdup(word())); break; }
        case IARRAY: { i_array *a = p; if (w % 4 == 3) cork_array_clear(a); else if (w % 4 == 2 && cork_array_size(a) > 2) cork_array_remove_range(a, 1, 2); else for (k = rnd(30); k; k--) (void) cork_array_append_get(a); break; }
        case SHASH: case PHASH: {
            bool s = ob[i].kind == SHASH; void *ok, *ov;
            if (w % 5 == 0) cork_hash_table_clear(p);
            else if (w % 5 == 1) cork_hash_table_ensure_size(p, rnd(400));
            else if (w % 5 == 2) { struct cork_hash_table_entry *e; for (k = 0; k < 20; k++) { if (s) { const char *n = word(); e = cork_hash_table_get_or_create(p, (void *) n, &flag); if (flag) { e->key = (void *) cork_strdup(n); e->value = (void *) cork_strdup(n); } } else { e = cork_hash_table_get_or_create(p, big + rnd(90), &flag); e->value = p; } } }
            else if (w % 5 == 3 && !s) cork_hash_table_map(p, NULL, mapper);
            else for (k = 0; k < 40; k++) {
                if (rnd(3)) { if (s) { cork_hash_table_put(p, (void *) cork_strdup(word()), (void *) cork_strdup(word()), &flag, &ok, &ov); if (!flag) { if (ok) cork_strfree(ok); if (ov) cork_strfree(ov); } } else cork_hash_table_put(p, big + rnd(90), p, NULL, NULL, NULL); }
                else if (s) cork_hash_table_delete(p, word(), NULL, NULL); else cork_hash_table_delete(p, big + rnd(90), NULL, NULL);
            }
            break;
        }
        case RING: for (k = rnd(20); k; k--) if (rnd(2)) cork_ring_buffer_add(p, big); else { cork_ring_buffer_peek(p); cork_ring_buffer_pop(p); } break;
        case BITSET: for (k = 0; k < (size_t) ob[i].n; k += 1 + rnd(9)) cork_bitset_set((struct cork_bitset *) p, k, rnd(2)); if (w % 3 == 0) cork_bitset_clear(p); break;
        case BUFFER: case MANAGED: case BSLICE: case BCONS:
            if (ob[i].kind == MANAGED || ob[i].kind == BSLICE) {
                if (!p) { if (ob[i].kind == MANAGED) { struct cork_slice s; struct cork_managed_buffer *mb = ob[i].q; if (cork_managed_buffer_slice(&s, mb, 0, mb->size) == 0) { slices(i, &s); cork_slice_finish(&s); } if (w % 2) { cork_managed_buffer_ref(mb); cork_managed_buffer_unref(mb); } } else { struct cork_slice s; cork_slice_copy(&s, &ob[i].sl[0], 0, ob[i].sl[0].size); cork_slice_finish(&s); cork_slice_slice_offset(&ob[i].sl[0], rnd(3)); cork_error_clear(); } break; }
                if (w % 3 == 0) { if (ob[i].kind == MANAGED) ob[i].q = cork_buffer_to_managed_buffer(p); else cork_buffer_to_slice(p, &ob[i].sl[0]); ob[i].p = NULL; break; }
            }
            b = p;
            if (ob[i].kind == BCONS) { struct cork_stream_consumer *s = cork_buffer_to_stream_consumer(b); cork_stream_consumer_data(s, big, rnd(900), true); if (w % 2) { int fd = open("/proc/self/exe", O_RDONLY); if (w % 4 == 3) { if (ftruncate(fd, 0)) {} } close(fd); } cork_stream_consumer_eof(s); cork_stream_consumer_free(s); break; }
            switch (w % 8) {
                case 0: fill(b); break; case 1: cork_buffer_clear(b); break; case 2: cork_buffer_append_printf(b, "%s %d %.*s", word(), w, (int) rnd(2000), big); break; case 3: cork_buffer_truncate(b, rnd(100)); break;
                case 4: cork_buffer_append_hex_dump(b, 4, big, rnd(100)); cork_buffer_append_c_string(b, big, rnd(100)); break; case 5: cork_buffer_append_multiline(b, 2, "a\nb\nc", 5); cork_buffer_append_binary(b, 2, big, rnd(200)); break;
                case 6: c = cork_buffer_new(); fill(c); cork_buffer_copy(b, c); cork_buffer_append_copy(b, c); cork_buffer_equal(b, c); cork_buffer_free(c); break; default: cork_buffer_append_literal(b, "literal"); cork_buffer_printf(b, "%s", word());
            }
            break;
        case MCOPY: { struct cork_slice s; struct cork_managed_buffer *mb = p; if (mb->size && cork_managed_buffer_slice_offset(&s, mb, rnd(mb->size)) == 0) { slices(i, &s); cork_slice_finish(&s); } cork_error_clear(); break; }
        case POOL: { void **head = ob[i].q, *o; for (k = rnd(100); k; k--) if (rnd(3)) { o = cork_mempool_new_object(p); *(void **) o = head; head = o; } else if (head) { o = head; head = *(void **) o; cork_mempool_free_object(p, o); } ob[i].q = head; break; }
        case GC: { struct node *root = p; for (k = rnd(60); k; k--) { struct node *x = node(NULL, rnd(2) ? root->a : NULL), *y = node(x, root->b); if (rnd(2)) { x->a = cork_gc_incref(y); } cork_gc_decref(x); if (rnd(3)) { struct node *old = root->a; root->a = cork_gc_incref(y); if (old) cork_gc_decref(old); } cork_gc_decref(y); } break; }
        case PATH: { struct cork_path *a = p, *c2; switch (w % 8) { case 0: cork_path_append(a, word()); break; case 1: c2 = cork_path_clone(a); cork_path_append_path(a, c2); cork_path_free(c2); if (strlen(cork_path_get(a)) > 500) cork_path_set(a, "x"); break; case 2: c2 = cork_path_join(a, "more"); cork_path_free(c2); break; case 3: c2 = cork_path_dirname(a); cork_path_free(c2); c2 = cork_path_basename(a); cork_path_free(c2); break; case 4: cork_path_set_dirname(a); break; case 5: c2 = cork_path_absolute(a); if (c2) cork_path_free(c2); break; case 6: cork_path_set_absolute(a); break; default: c2 = cork_path_cwd(); if (c2) cork_path_free(c2); } cork_error_clear(); break; }
        case PLIST: { struct cork_file *f; if (w % 3 == 0) cork_path_list_add(p, cork_path_new(word())); else if (w % 3 == 1) { cork_path_list_to_string(p); cork_path_list_get(p, 0); } else { struct cork_file_list *fl; if ((f = cork_path_list_find_file(p, "file"))) cork_file_free(f); if ((fl = cork_path_list_find_files(p, "file"))) cork_file_list_free(fl); fl = cork_file_list_new(p); cork_file_list_free(fl); } cork_error_clear(); break; }
        case FLIST: if (w % 2) cork_file_list_add(p, cork_file_new(word())); else if (cork_file_list_size(p)) { bool e; cork_file_exists(cork_file_list_get(p, 0), &e); cork_error_clear(); } break;
        case FILE_: { enum cork_file_type t; int n = 0; struct cork_file *f; switch (w % 7) { case 0: cork_file_mkdir(p, 0755, CORK_FILE_RECURSIVE | CORK_FILE_PERMISSIVE); break; case 1: cork_file_mkdir(p, 0755, 0); break; case 2: cork_file_exists(p, &flag); cork_file_type(p, &t); break; case 3: f = cork_file_new(in("a")); cork_file_iterate_directory(f, each, &n); cork_file_free(f); break; case 4: f = cork_file_new(in("a")); cork_file_remove(f, CORK_FILE_RECURSIVE | (rnd(2) ? CORK_FILE_PERMISSIVE : 0)); cork_file_free(f); break; case 5: f = cork_file_new_from_path(cork_path_join(cork_file_path(p), "more")); cork_file_remove(f, 0); cork_file_free(f); break; default: cork_file_iterate_directory(p, each, &n); } cork_error_clear(); break; }
        case WALK: { struct cork_dir_walker wk = { w_enter, w_file, w_leave }; mkdir(in("a"), 0755); mkdir(in("a/skip"), 0755); close(open(in("a/f"), O_CREAT | O_WRONLY, 0644)); cork_walk_directory(rnd(4) ? dir : in("missing"), &wk); cork_error_clear(); break; }
        case ENV: switch (w % 5) { case 0: cork_env_add(p, word(), word()); break; case 1: cork_env_add(p, "same", word()); break; case 2: cork_env_add_printf(p, "fmt", "%s-%d", word(), w); break; case 3: cork_env_remove(p, rnd(2) ? "same" : word()); break; default: cork_env_get(p, "same"); } break;
        case EXEC: switch (w % 4) { case 0: cork_exec_add_param(p, word()); break; case 1: { struct cork_env *e = cork_env_new(); cork_env_add(e, "A", "B"); cork_exec_set_env(p, e); break; } case 2: cork_exec_set_cwd(p, word()); break; default: cork_exec_description(p); { char *arr[] = { "x", "y", NULL }; struct cork_exec *e = cork_exec_new_with_param_array("/bin/true", arr); cork_exec_free(e); } } break;
        case SUBP: { struct cork_subprocess_group *g = cork_subprocess_group_new(); int st; struct cork_buffer o; cork_buffer_init(&o); struct cork_stream_consumer *oc = cork_buffer_to_stream_consumer(&o); cork_subprocess_group_add(g, cork_subprocess_new(NULL, NULL, child_run, oc, NULL, &st)); if (w % 3) { cork_subprocess_group_start(g); if (w % 3 == 1) cork_subprocess_group_wait(g); else cork_subprocess_group_abort(g); } cork_subprocess_group_free(g); cork_stream_consumer_free(oc); cork_buffer_done(&o); if (w % 4 == 0) { struct cork_subprocess *s = cork_subprocess_new_exec(cork_exec_new_with_params("/bin/true", NULL), NULL, NULL, &st); if (w % 8) { cork_subprocess_start(s); cork_subprocess_wait(s); } cork_subprocess_free(s); } cork_error_clear(); break; }
        case THREAD: { struct cork_thread *t = cork_thread_new("run", NULL, NULL, nop_run); cork_thread_start(t); cork_thread_join(t); break; }
        case FDCONS: case FPCONS: cork_stream_consumer_data(p, big, rnd(800), false); if (w % 2) { int fd = open(in("a/f"), O_RDONLY); if (fd >= 0) { struct cork_buffer o; cork_buffer_init(&o); struct cork_stream_consumer *s = cork_buffer_to_stream_consumer(&o); cork_consume_fd(s, fd); cork_stream_consumer_free(s); cork_buffer_done(&o); close(fd); } } break;
        case STD: { struct cork_path *x; struct cork_path_list *l; if ((x = cork_path_home())) cork_path_free(x); if ((x = cork_path_user_cache_path())) cork_path_free(x); if ((x = cork_path_user_runtime_path())) cork_path_free(x); if ((l = cork_path_config_paths())) cork_path_list_free(l); if ((l = cork_path_data_paths())) cork_path_list_free(l); cork_error_clear(); break; }
        case ERR: switch (w % 4) { case 0: cork_error_set_printf(1, "%s", word()); break; case 1: cork_error_prefix_printf("%s: ", word()); break; case 2: cork_system_error_set_explicit(ENOENT); break; default: cork_error_clear(); } break;
        case SCOPY: { struct cork_slice s; if (!cork_slice_is_empty(&ob[i].sl[0]) && cork_slice_copy(&s, &ob[i].sl[0], 0, ob[i].sl[0].size) == 0) { slices(i, &s); cork_slice_finish(&s); } cork_error_clear(); break; }
    }
}
static void drop(int i)
{
    void *p = ob[i].p; bool flag;
    switch (ob[i].kind) {
        case STR: cork_strfree(p); if (ob[i].q) cork_strfree(ob[i].q); break;
        case ARRAY: cork_array_done((int_array *) p); cork_delete(int_array, p); break;
        case STRARRAY: cork_array_done((struct cork_string_array *) p); cork_delete(struct cork_string_array, p); break;
        case PTRARRAY: cork_array_done((ptr_array *) p); cork_delete(ptr_array, p); break;
        case IARRAY: cork_array_done((i_array *) p); cork_delete(i_array, p); break;
        case SHASH: case PHASH: cork_hash_table_free(p); break;
        case RING: cork_ring_buffer_free(p); break;
        case BITSET: cork_bitset_free(p); break;
        case MANAGED: if (!p) { unslice(i); cork_managed_buffer_unref(ob[i].q); } else cork_buffer_free(p); break;
        case BSLICE: if (!p) unslice(i); else cork_buffer_free(p); break;
        case BUFFER: case BCONS: cork_buffer_free(p); break;
        case MCOPY: cork_managed_buffer_unref(p); unslice(i); break;
        case POOL: { void **h = ob[i].q; while (h) { void *n = *h; cork_mempool_free_object(p, h); h = n; } cork_mempool_free(p); break; }
        case GC: cork_gc_decref(p); cork_gc_done(); break;
        case PATH: cork_path_free(p); break;
        case PLIST: cork_path_list_free(p); break;
        case FLIST: cork_file_list_free(p); break;
        case FILE_: cork_file_free(p); break;
        case ENV: cork_env_free(p); break;
        case EXEC: cork_exec_free(p); break;
        case SUBP: cork_subprocess_group_free(p); break;
        case THREAD: cork_thread_free(p); break;
        case FDCONS: cork_stream_consumer_eof(p); cork_stream_consumer_free(p); close(ob[i].n); break;
        case FPCONS: cork_stream_consumer_eof(p); cork_stream_consumer_free(p); break;
        case SCOPY: unslice(i); break;
    }
    (void) flag; memset(&ob[i], 0, sizeof ob[i]);
}
int main(int argc, char **argv)
{
    vf_init(); snprintf(dir, sizeof dir, "%s", argv[1]); int n = atoi(argv[2]); memset(big, 'q', sizeof big); big[100] = '\n';
    acct_install(); struct cork_alloc *a = (struct cork_alloc *) cork_allocator; cork_alloc_set_xmalloc(a, h_xmalloc); cork_alloc_set_xrealloc(a, h_xrealloc); cork_alloc_set_free(a, h_free);
    if (chdir(dir)) VF_DIE("chdir");
    acct_warm(); lib = 1; cork_env_get(NULL, "HOME"); lib = 0;
    long base = acct_blocks;
    while (vf_next()) {
        acct_bad = foreign = 0; bool any = false;
        if (vf_is("reset")) { lib = 1; for (int i = 1; i <= M; i++) if (ob[i].kind) drop(i); lib = 0; if (acct_blocks != base) { fprintf(stderr, "%ld blocks held\n", acct_blocks - base); fflush(vf_out); return 96; } seed = 1; fprintf(vf_out, "{\"r\":[],\"s\":[0]}\n"); continue; }
        int i = vf_int(), w = vf_is("drop") ? 0 : vf_int();
        lib = 1; if (vf_is("new")) make(i, w); else if (vf_is("use")) use(i, w); else drop(i); lib = 0;
        for (i = 1; i <= n; i++) any |= ob[i].kind != 0;
        fprintf(vf_out, "{\"r\":[%ld,%ld],\"s\":[%ld]}\n", acct_bad, foreign, any ? -1 : acct_blocks - base); fflush(vf_out);
    }
    fflush(vf_out); _exit(0);
}
