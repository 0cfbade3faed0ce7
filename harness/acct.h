/* An accounting allocator: counts live blocks/bytes and size mismatches. */
#ifndef VF_ACCT_H
#define VF_ACCT_H
#include "vf.h"
#include <libcork/core.h>
static long acct_blocks, acct_bytes, acct_bad;
static void (*acct_hook)(void *p, size_t n, int obtained);       /* optional observer */
static void acct_add(size_t n) { __atomic_add_fetch(&acct_blocks, 1, __ATOMIC_SEQ_CST); __atomic_add_fetch(&acct_bytes, (long) n, __ATOMIC_SEQ_CST); }
/* the recorded size lives in a header before the block */
static void *acct_xmalloc(const struct cork_alloc *a, size_t n)
{
    char *p = malloc(n + 16);
    if (!p) return NULL;
    *(size_t *) p = n; acct_add(n);
    if (acct_hook) acct_hook(p + 16, n, 1);
    return p + 16;
}
static void acct_free(const struct cork_alloc *a, void *p, size_t n)
{
    if (p == NULL) return;
    char *b = (char *) p - 16;
    if (*(size_t *) b != n) acct_bad++;
    if (acct_hook) acct_hook(p, n, 0);
    __atomic_sub_fetch(&acct_blocks, 1, __ATOMIC_SEQ_CST);
    __atomic_sub_fetch(&acct_bytes, (long) *(size_t *) b, __ATOMIC_SEQ_CST);
    free(b);
}
static void *acct_xrealloc(const struct cork_alloc *a, void *p, size_t o, size_t n)
{
    if (p != NULL && *(size_t *) ((char *) p - 16) != o) acct_bad++;
    void *q = acct_xmalloc(a, n);
    if (q && p) {
        size_t real = *(size_t *) ((char *) p - 16);
        memcpy(q, p, real < n ? real : n);
        acct_free(a, p, real);
    }
    return q;
}
static void acct_install(void)
{
    struct cork_alloc *a = cork_alloc_new_alloc(cork_allocator);
    cork_alloc_set_xmalloc(a, acct_xmalloc);
    cork_alloc_set_xrealloc(a, acct_xrealloc);
    cork_alloc_set_free(a, acct_free);
    cork_set_allocator(a);
}
/* let the library allocate what it keeps for good (this thread's error messages) */
static void acct_warm(void)
{
    char l[300]; memset(l, 'x', 299); l[299] = 0;
    for (int i = 0; i < 3; i++) { cork_error_set_printf(1, "warm %s", l); cork_error_prefix_string(l); cork_error_set_string(1, l); cork_error_clear(); }
}
#endif
