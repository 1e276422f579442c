/* C03: the memory pool.  Live memory handed out never overlaps, lies inside a block and is
 * aligned; the caches hand out only what was given back, each item once. */
#include "vf.h"
#ifndef ROOM
#define ROOM 256
#endif
#ifndef VF_NATIVE
/* malloc delivers disjoint blocks; only headers and cached items are ever written through */
#define malloc vf_malloc
#define realloc vf_realloc
#define free vf_free
#define memset vf_memset
static void *vf_malloc(size_t n);
static void *vf_realloc(void *p, size_t n);
static void vf_free(void *p);
static void *vf_memset(void *p, int c, size_t n);
#endif
#include "core/mempool.c"
#ifndef VF_NATIVE
typedef struct { MemBlock h; char data[ROOM]; } Block;
static Block heap0, heap1, heap2, heap3, heap4, heap5;
static Block *const heap[6] = {&heap0, &heap1, &heap2, &heap3, &heap4, &heap5};
static size_t asked[6];
static bool freed[6];
static int nheap;
static void *vf_malloc(size_t n)
{
    __CPROVER_assume(nheap < 6);
    asked[nheap] = n;
    return heap[nheap++];
}
static void *vf_realloc(void *p, size_t n)
{
    for (int i = 0; i < 6; i++)
        if (p == heap[i])
            freed[i] = true;
    Block *b = vf_malloc(n);
    *b = *(Block *)p;
    return b;
}
static void vf_free(void *p)
{
    for (int i = 0; i < 6; i++)
        if (p == heap[i]) {
            __CPROVER_assert(i < nheap && !freed[i], "ENSURES a block is released once");
            freed[i] = true;
        }
}
static void *vf_memset(void *p, int c, size_t n)
{
    if (n == sizeof(MemPoolCache) * memCOUNT || n == sizeof(MemPool)) {
        for (size_t i = 0; i < memCOUNT; i++)
            if (n == sizeof(MemPool))
                ((MemPool *)p)->caches[i] = (MemPoolCache){0};
            else
                ((MemPoolCache *)p)[i] = (MemPoolCache){0};
    }
    else
        *(MemPoolCacheItem *)p = (MemPoolCacheItem){0};
    return p;
}
static size_t blocksize(void *p)
{
    for (int i = 0; i < 6; i++)
        if (p == heap[i])
            return asked[i];
    return 0;
}
#define ALLFREED() (freed[0] || nheap < 1) && (freed[1] || nheap < 2) && (freed[2] || nheap < 3) && (freed[3] || nheap < 4) && (freed[4] || nheap < 5)
#else
#define blocksize(p) SIZE_MAX
#define ALLFREED() true
#endif

#define AL 16
static size_t pad(size_t n) { return (n + AL - 1) / AL * AL; }
#ifdef VF_NATIVE
#define TOP 5000
#else
#define TOP (1ull << 40)
#endif
/* a chain of up to three blocks; cur is one of them, the ones after it are empty */
static MemBlock *blk[3];
static MemPool pool;
/* number of blocks, current block */
#ifndef CH
#define CH 21
#endif
#define NB (CH / 10)
#define AT (CH % 10)
static int nblk, at;
static void anypool(int SMALL)
{
    pool = newMemPool();
    nblk = NB;
    at = AT;
    for (int i = 0; i < nblk; i++) {
        size_t cap = vf_range(1024, TOP);
        if (SMALL)
            cap = 1024;
        blk[i] = malloc(sizeof(MemBlock) + cap);
        blk[i]->capacity = cap;
        blk[i]->size = i > at ? 0 : SMALL ? (VF_BOOL() ? cap : AL * vf_range(0, 1)) : vf_range(0, TOP) / AL * AL;
        REQUIRES(blk[i]->size <= cap);
        blk[i]->next = NULL;
        if (i)
            blk[i - 1]->next = blk[i];
    }
    if (nblk) {
        pool.first = blk[0];
        pool.cur = blk[at];
    }
}

/*@ fn=allocFromMemPool allocMemBlock alignTo remainingMem; kind=bounded; bound=up to 3 blocks in the pool, sizes up to 2^40; unwind=7; timeout=100; needreplay; cases=CH=0,10,20,21,30,31,32 */
void h_alloc(void)
{
    anypool(0);
    size_t n = vf_range(0, TOP), used[3], caps[3];
    for (int i = 0; i < nblk; i++)
        used[i] = blk[i]->size, caps[i] = blk[i]->capacity;
    char *p = allocFromMemPool(&pool, n);
    if (n == 0) {
        ENSURES(p == NULL, "nothing is allocated for size 0");
        return;
    }
    MemBlock *c = pool.cur;
    ENSURES(p >= c->data && (size_t)(p - c->data) % AL == 0 && (size_t)(p - c->data) + n <= c->capacity, "the memory lies aligned inside the current block");
    ENSURES(c->size <= c->capacity && c->size >= (size_t)(p - c->data) + n, "the memory is accounted as used");
    int k = nblk;
    for (int i = 0; i < nblk; i++)
        if (blk[i] == c)
            k = i;
    ENSURES(k == nblk || (k >= at && (size_t)(p - c->data) == used[k]), "the memory starts after what the block already handed out");
    ENSURES(k < nblk || p == c->data, "a new block is used from its start");
    for (int i = 0; i < nblk; i++)
        ENSURES((i == k || blk[i]->size == used[i]) && blk[i]->capacity == caps[i] && (i + 1 == nblk || blk[i]->next == blk[i + 1]), "no other block changes");
    ENSURES(pool.first == (nblk ? blk[0] : c), "the pool keeps its first block");
    ENSURES(k < nblk || nblk == 0 || blk[nblk - 1]->next == c, "a new block is linked, so that it is released with the pool");
    ENSURES(k < nblk || c->next == NULL, "the chain of blocks ends");
    ENSURES(k == nblk || k == nblk - 1 || c->next == blk[k + 1], "the current block stays in the chain");
    ENSURES(blocksize(c) >= sizeof(MemBlock) + c->capacity, "a block has the memory its capacity says");
#ifdef VF_NATIVE
    p[0] = 1, p[n - 1] = 2;
#endif
    REACH("alloc");
}

/* two successive allocations are disjoint */
/*@ fn=allocFromMemPool; kind=bounded; bound=up to 3 blocks in the pool, sizes up to 2^40; unwind=7; timeout=100; needreplay; cases=CH=0,10,20,21 */
void h_alloc2(void)
{
    anypool(0);
    size_t n = vf_range(1, TOP), m = vf_range(1, TOP);
    char *p = allocFromMemPool(&pool, n);
    char *q = allocFromMemPool(&pool, m);
    size_t i = vf_range(0, TOP), j = vf_range(0, TOP);
    REQUIRES(i < n && j < m);
    ENSURES(p + i != q + j, "live memory does not overlap");
    MemPoolStats st;
    getMemPoolStats(&pool, &st);
    size_t cap = 0, use = 0, cnt = 0;
    for (MemBlock *b = pool.first; b; b = b->next)
        cap += b->capacity, use += b->size, cnt++;
    ENSURES(st.totalAllocated == cap && st.totalUsed == use && st.numberOfBlocks == cnt, "the statistics add up the blocks");
    REACH("alloc2");
}

/* caches: what is given back is handed out again, once, and in between kept in a list */
#ifndef VF_NATIVE
/* allocFromMemPool by its contract: fresh, disjoint memory */
static struct { MemPoolCacheItem i; char d[16]; } it0, it1, it2, it3, it4, it5, it6, it7, it8;
void *spec_alloc(MemPool *p, size_t n)
{
    static int k;
    void *const f[] = {&it0, &it1, &it2, &it3, &it4, &it5, &it6, &it7, &it8};
    __CPROVER_assert(n == 32, "ENSURES the size asked for is passed on");
    return f[k++];
}
#endif
#ifndef ID
#define ID 0
#define K 2
#endif
/*@ fn=allocFromCacheOrPool freeMemToPoolCache; kind=bounded; bound=up to 3 items in each cache; unwind=7; timeout=100; needreplay; replace=allocFromMemPool:spec_alloc; cases=ID=0..2 K=0..3 */
void h_cache(void)
{
    pool = newMemPool();
    size_t n = 32;
    MemPoolCacheId id = ID, other = (id + 1) % memCOUNT;
    void *p[3], *q = allocFromCacheOrPool(&pool, other, n);
    int k = K;
    for (int i = 0; i < 3; i++) {
        p[i] = allocFromCacheOrPool(&pool, id, n);
        
    }
    freeMemToPoolCache(&pool, other, q, n);
    for (int i = 0; i < 3; i++)
        if (i < k)
            freeMemToPoolCache(&pool, id, p[i], n);
    ENSURES(pool.caches[id].count == (size_t)k, "the cache counts what it holds");
    void *r[4];
    for (int i = 0; i < 4; i++)
        r[i] = allocFromCacheOrPool(&pool, id, n);
    int a = vf_range(0, 3), b = vf_range(0, 3), c = vf_range(0, 2);
    REQUIRES(a != b);
    ENSURES(r[a] != r[b], "an item is handed out once");
    ENSURES(c < k || r[a] != p[c], "memory still in use is not handed out");
    ENSURES(r[a] != q, "a cache keeps to its own items");
    ENSURES(a >= k || r[a] == p[a], "returned memory is used again");
    ENSURES(pool.caches[id].count == 0, "the cache counts what it holds");
    ENSURES(allocFromCacheOrPool(&pool, other, n) == q, "the other cache still holds its item");
    REACH("cache");
}

#ifdef VF_NATIVE
#define TR 200
#else
#define TR 16
#endif
/*@ fn=allocTrackedMem reallocTrackedMem freeMemPool; kind=bounded; bound=three tracked allocations, sizes up to 16; unwind=7; timeout=100 */
void h_tracked(void)
{
    pool = newMemPool();
    size_t n[3], tot = 0;
    uint8_t *p[3];
    int w = vf_range(0, 2);
    size_t m = vf_range(1, TR);
    for (int i = 0; i < 3; i++) {
        n[i] = vf_range(1, TR);
        p[i] = allocTrackedMem(&pool, n[i]);
        for (int j = 0; j < i; j++)
            ENSURES(p[j] != p[i], "live memory does not overlap");
        p[i][0] = 10 + i;
        p[i][n[i] - 1] = 20 + i;
    }
    uint8_t first = p[w][0];
    p[w] = reallocTrackedMem(&pool, p[w], m);
    n[w] = m;
    ENSURES(p[w][0] == first, "growing keeps the contents");
    p[w][m - 1] = 7;
    int k = 0;
    TrackedMemoryItem *prev = NULL;
    for (TrackedMemoryItem *it = pool.trackedAllocations.first; it; prev = it, it = it->next, k++) {
        ENSURES(k < 3 && (uint8_t *)(it + 1) == p[k] && it->size == n[k], "every allocation is tracked");
        ENSURES(it->prev == prev, "the tracked allocations are linked both ways");
        tot += n[k];
    }
    ENSURES(k == 3 && pool.trackedAllocations.last == prev && pool.trackedAllocations.allocated == tot, "every allocation is tracked");
#ifndef VF_NATIVE
    for (int i = 0; i < 3; i++)
        ENSURES(blocksize(p[i] - sizeof(TrackedMemoryItem)) >= n[i] + sizeof(TrackedMemoryItem), "tracked memory has the size asked for");
#endif
    freeMemPool(&pool);
    ENSURES(ALLFREED(), "freeing the pool releases everything");
    ENSURES(!pool.first && !pool.cur && !pool.trackedAllocations.first && !pool.trackedAllocations.allocated, "a freed pool is empty");
    REACH("tracked");
}

/*@ fn=resetMemPool freeMemPool; kind=bounded; bound=up to 3 blocks; unwind=7; timeout=100; needreplay; cases=CH=0,20,21 */
void h_reset(void)
{
    anypool(1);
    MemPoolCacheId id = vf_range(0, memCOUNT - 1);
    size_t n = 32;
    void *p = allocFromCacheOrPool(&pool, id, n);
    freeMemToPoolCache(&pool, id, p, n);
    resetMemPool(&pool);
    ENSURES(pool.cur == pool.first, "a reset pool starts over");
    for (MemBlock *b = pool.first; b; b = b->next)
        ENSURES(b->size == 0, "a reset pool is empty");
    char *a = allocFromCacheOrPool(&pool, id, n), *b = allocFromMemPool(&pool, n), *c = allocFromCacheOrPool(&pool, id, n);
    ENSURES(a != b && a != c && b != c, "live memory does not overlap");
    freeMemPool(&pool);
    ENSURES(ALLFREED(), "freeing the pool releases everything");
    ENSURES(!pool.first && !pool.cur, "a freed pool is empty");
    REACH("reset");
}
