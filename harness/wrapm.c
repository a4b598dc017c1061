#define _GNU_SOURCE
#include "wrapm.h"
#include <errno.h>
#include <pthread.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);

int wm_ledger = 0, wm_junk = -1;
long wm_live, wm_bytes, wm_calls, wm_bad;
void *wm_bad_ptr;

static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
enum { EMPTY, LIVE, FREED };
typedef struct { void *p; size_t n; int st; } ent;
static ent *tab;
static size_t cap, used;

static ent *find(void *p)
{
    if (!cap) return 0;
    size_t i = (((uintptr_t) p >> 4) * 0x9E3779B97F4A7C15ull) >> 20 & (cap - 1);
    while (tab[i].st != EMPTY && tab[i].p != p) i = (i + 1) & (cap - 1);
    return &tab[i];
}
static void grow(void)
{
    ent *o = tab; size_t oc = cap;
    cap = cap ? 2 * cap : 1 << 16;
    tab = mmap(0, cap * sizeof(ent), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    used = 0;
    for (size_t i = 0; i < oc; i++) if (o[i].st == LIVE) { *find(o[i].p) = o[i]; used++; }
    if (o) munmap(o, oc * sizeof(ent));
}
static void add(void *p, size_t n)
{
    if (!p) return;
    pthread_mutex_lock(&mu);
    if (2 * (used + 1) > cap) grow();
    ent *e = find(p);
    if (e->st == EMPTY) used++;
    e->p = p; e->n = n; e->st = LIVE; wm_live++; wm_bytes += n; wm_calls++;
    pthread_mutex_unlock(&mu);
}
// 1: may be released; 0: must not
static int del(void *p)
{
    int ok = 1;
    pthread_mutex_lock(&mu);
    ent *e = find(p);
    if (e && e->st == LIVE) { e->st = FREED; wm_live--; wm_bytes -= e->n; if (wm_junk >= 0) memset(p, wm_junk ^ 0x5A, e->n); }
    else if (e && e->st == FREED) { if (wm_ledger) { wm_bad++; wm_bad_ptr = p; ok = 0; } }
    pthread_mutex_unlock(&mu);
    return ok;
}
int wm_is_live(const void *p) { pthread_mutex_lock(&mu); ent *e = find((void *) p); int r = e && e->st == LIVE; pthread_mutex_unlock(&mu); return r; }

static char *ar; static size_t ar_n, ar_used; static int ar_on, ar_prot;
void wm_arena_init(size_t n) { if (ar) return; ar = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); ar_n = n; }
void wm_arena_begin(void) { ar_on = 1; }
void wm_arena_end(void) { ar_on = 0; }
void wm_arena_protect(int on) { mprotect(ar, ar_n, on ? PROT_READ : PROT_READ | PROT_WRITE); ar_prot = on; }
void wm_arena_reset(void) { if (ar_prot) wm_arena_protect(0); memset(ar, 0, ar_used); ar_used = 0; ar_on = 0; }
size_t wm_arena_used(void) { return ar_used; }
int wm_in_arena(const void *p) { return ar && (char *) p >= ar && (char *) p < ar + ar_n; }
void *wm_arena_alloc(size_t n)       // size kept in the 16 bytes before the block
{
    size_t need = 16 + ((n + 15) & ~(size_t) 15);
    if (ar_used + need > ar_n) abort();
    char *b = ar + ar_used; ar_used += need; *(size_t *) b = n; return b + 16;
}
static size_t arena_size(void *p) { return *(size_t *) ((char *) p - 16); }

void *__wrap_malloc(size_t n)
{
    if (ar_on) return wm_arena_alloc(n);
    void *p = __real_malloc(n);
    if (p && wm_junk >= 0) memset(p, wm_junk, n);
    if (wm_ledger) add(p, n);
    return p;
}
void *__wrap_calloc(size_t a, size_t b)
{
    if (ar_on) { void *p = wm_arena_alloc(a * b); memset(p, 0, a * b); return p; }
    void *p = __real_calloc(a, b);
    if (wm_ledger) add(p, a * b);
    return p;
}
void __wrap_free(void *p)
{
    if (!p) return;
    if (wm_in_arena(p)) { if (ar_prot) { wm_bad++; wm_bad_ptr = p; } return; }
    if (del(p)) __real_free(p);
}
void *__wrap_realloc(void *p, size_t n)
{
    if (!p) return __wrap_malloc(n);
    if (wm_in_arena(p)) {
        if (ar_prot) { wm_bad++; wm_bad_ptr = p; }
        void *q = ar_on ? wm_arena_alloc(n) : __wrap_malloc(n); size_t o = arena_size(p); memcpy(q, p, o < n ? o : n); return q;
    }
    int known = wm_is_live(p);
    if (ar_on) {       // block from outside continued inside the arena
        void *q = wm_arena_alloc(n); size_t o = n; pthread_mutex_lock(&mu); ent *e = find(p); if (e && e->st == LIVE && e->n < o) o = e->n; pthread_mutex_unlock(&mu); memcpy(q, p, known ? o : 0); __wrap_free(p); return q;
    }
    if (known || wm_ledger) {
        size_t o = 0; pthread_mutex_lock(&mu); ent *e = find(p);
        int bad = e && e->st == FREED; if (e && e->st == LIVE) { o = e->n; e->st = FREED; wm_live--; wm_bytes -= o; }
        if (bad && wm_ledger) { wm_bad++; wm_bad_ptr = p; }
        pthread_mutex_unlock(&mu);
        if (bad) return __wrap_malloc(n);
        void *q = __real_realloc(p, n);
        if (n) add(q, n);
        if (q && wm_junk >= 0 && known && n > o) memset((char *) q + o, wm_junk, n - o);
        return q;
    }
    return __real_realloc(p, n);
}
void *__wrap_reallocarray(void *p, size_t a, size_t b) { return __wrap_realloc(p, a * b); }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = __wrap_malloc(n); return p ? memcpy(p, s, n) : p; }
void *__real_aligned_alloc(size_t, size_t);
void *__wrap_aligned_alloc(size_t a, size_t n)
{
    if (ar_on && a <= 16) return wm_arena_alloc(n);
    void *p = __real_aligned_alloc(a, n);
    if (p && wm_junk >= 0) memset(p, wm_junk, n);
    if (wm_ledger) add(p, n);
    return p;
}
int __wrap_posix_memalign(void **r, size_t a, size_t n) { void *p = __wrap_aligned_alloc(a, n); if (!p) return ENOMEM; *r = p; return 0; }
void *__wrap_memalign(size_t a, size_t n) { return __wrap_aligned_alloc(a, n); }
