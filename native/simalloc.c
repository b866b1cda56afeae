/* Simulated allocator linked behind the native code of fog (-Wl,--wrap): decides which requests fail, lays blocks
 * against inaccessible pages (before or after), fills them with garbage, quarantines freed blocks, counts what is alive. */
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

#define NB 4096
#define PAGE 4096UL

struct block { char *base; size_t map; char *p; size_t n; int state; int kind; };   /* state 1 alive, 2 freed */
static struct block T[NB];
static int nt;
static long requests, failed, bad;
static long fail_at = -1;      /* index of the request that fails */
static int forever;            /* and every later one */
static size_t limit;           /* requests above this size fail (0: none) */
static int placement;          /* 0: end of block against a guard page; 1: start of block */
static unsigned char garbage = 0xA5;
static int on;

void sim_begin(long at, int ever, size_t lim, int place, int fill)
{
    int m = 0;
    for (int i = 0; i < nt; i++) {
        if (T[i].state == 1 && T[i].kind == 1) T[m++] = T[i];     /* may belong to the run-time support of Cython */
        else munmap(T[i].base, T[i].map);
    }
    nt = m; requests = failed = bad = 0;
    fail_at = at; forever = ever; limit = lim; placement = place; garbage = (unsigned char)fill;
    on = 1;
}

/* what: 0 requests, 1 failed, 2 bad frees or damaged slack, 3 alive from malloc, 4 alive from PyMem, 5 allocated blocks, 6 bytes alive */
static long slack(struct block *b)
{
    long d = 0;
    char *lo = b->base + PAGE, *hi = b->base + b->map - PAGE;
    for (char *q = lo; q < hi; q++)
        if ((q < b->p || q >= b->p + b->n) && *(unsigned char *)q != 0xC3) d++;
    return d;
}

long sim_count(int what)
{
    long k = 0;
    switch (what) {
    case 0: return requests;
    case 1: return failed;
    case 2:
        k = bad;
        for (int i = 0; i < nt; i++) if (T[i].state == 1 && slack(&T[i])) k++;
        return k;
    case 3: case 4:
        for (int i = 0; i < nt; i++) if (T[i].state == 1 && T[i].kind == what - 3) k++;
        return k;
    case 5: return nt;
    case 6:
        for (int i = 0; i < nt; i++) if (T[i].state == 1) k += (long)T[i].n;
        return k;
    }
    return -1;
}

void sim_end(void) { on = 0; }

static struct block *find(void *p)
{
    for (int i = nt - 1; i >= 0; i--) if (T[i].p == p && T[i].state == 1) return &T[i];
    for (int i = nt - 1; i >= 0; i--) if (T[i].p == p) return &T[i];
    return NULL;
}

static void *get(size_t n, int kind, int zero)
{
    long k = requests++;
    if ((fail_at >= 0 && (k == fail_at || (forever && k > fail_at))) || (limit && n > limit) || nt >= NB || n > (1UL << 32)) {
        failed++;
        return NULL;
    }
    size_t body = (n + PAGE) / PAGE * PAGE;       /* at least one byte of room: zero-sized blocks are distinct */
    if (n && n % PAGE == 0) body = n;
    size_t map = body + 2 * PAGE;
    char *base = mmap(NULL, map, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == MAP_FAILED) { failed++; return NULL; }
    struct block *b = &T[nt++];
    b->base = base; b->map = map; b->n = n; b->state = 1; b->kind = kind;
    b->p = placement ? base + PAGE : base + PAGE + body - n;
    memset(base + PAGE, 0xC3, body);
    memset(b->p, zero ? 0 : garbage, n);
    mprotect(base, PAGE, PROT_NONE);
    mprotect(base + PAGE + body, PAGE, PROT_NONE);
    return b->p;
}

static int put(void *p)
{
    struct block *b = find(p);
    if (!b) return 0;
    if (b->state != 1) { bad++; return 1; }
    if (slack(b)) bad++;
    b->state = 2;
    mprotect(b->base, b->map, PROT_NONE);
    return 1;
}

static void *again(void *p, size_t n, int kind)
{
    struct block *b = find(p);
    void *q = get(n, kind, 0);
    if (!q) return NULL;
    b = find(p);
    memcpy(q, p, b->n < n ? b->n : n);
    put(p);
    return q;
}

void *__wrap_malloc(size_t n) { return on ? get(n, 0, 0) : malloc(n); }
void *__wrap_calloc(size_t a, size_t n) { return on ? get(a * n, 0, 1) : calloc(a, n); }
void *__wrap_realloc(void *p, size_t n)
{
    if (!p) return __wrap_malloc(n);
    if (!find(p)) return realloc(p, n);
    return again(p, n, 0);
}
void __wrap_free(void *p)
{
    if (!p) return;
    if (put(p)) return;
    if (on) { bad++; return; }                    /* not a block of this call */
    free(p);
}

#define PYMEM(PRE) \
    void *PRE##Malloc(size_t); void *PRE##Calloc(size_t, size_t); \
    void *PRE##Realloc(void *, size_t); void PRE##Free(void *); \
    void *__wrap_##PRE##Malloc(size_t n) { return on ? get(n, 1, 0) : PRE##Malloc(n); } \
    void *__wrap_##PRE##Calloc(size_t a, size_t n) { return on ? get(a * n, 1, 1) : PRE##Calloc(a, n); } \
    void *__wrap_##PRE##Realloc(void *p, size_t n) { \
        if (!p) return __wrap_##PRE##Malloc(n); \
        if (!find(p)) return PRE##Realloc(p, n); \
        return again(p, n, 1); } \
    void __wrap_##PRE##Free(void *p) { if (p && !put(p)) PRE##Free(p); }
PYMEM(PyMem_)
PYMEM(PyMem_Raw)
