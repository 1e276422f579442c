/* C01: the compiler's hash tables are exact sets.
 * View: the set of keys held in occupied buckets.  Representation invariant wf():
 * every occupied bucket is reachable by linear probing from its home slot, keys are
 * distinct, size is the number of occupied buckets.  Home slots are arbitrary: the
 * hash of a key is (id, slot mod 7, slot mod 17), so every collision pattern occurs. */
#include "vf.h"
#include "core/htable.h"

typedef struct { uint32_t key, val; } Ent;
static bool same(const void *l, const void *r) { return ((const Ent *)l)->key == ((const Ent *)r)->key; }
#define OCC 0x80000000u
#ifdef VF_NATIVE
/* the concrete hash with the required residues */
static uint32_t mkhash(uint8_t id, uint8_t s7, uint8_t s17)
{
    for (uint32_t x = 0; x < 119; x++) {
        uint32_t h = x + 119u * id;
        if ((h | OCC) % 7 == s7 && (h | OCC) % 17 == s17)
            return h;
    }
    return 0;
}
static uint8_t slot(uint32_t h, uint8_t cap) { return h % cap; }
#else
/* modPrime is replaced by its contract (proved in primes.c: the remainder,
 * i.e. a fixed slot per hash and capacity): the slot is a field of the symbolic hash */
static uint32_t mkhash(uint8_t id, uint8_t s7, uint8_t s17) { return (uint32_t)id << 16 | (uint32_t)s17 << 8 | s7; }
static uint8_t slot(uint32_t h, uint8_t cap) { return cap == 7 ? (h & 7) : ((h >> 8) & 31); }
size_t spec_modPrime(size_t h, size_t p) { return p == 7 ? (h & 7) : ((h >> 8) & 31); }
void *memcpy(void *d, const void *s, size_t n)
{
    __CPROVER_assert(n == sizeof(Ent), "ENSURES an element is copied whole");
    *(Ent *)d = *(const Ent *)s;
    return d;
}
/* allocation: fresh, typed memory of the size asked for */
static Ent newE[17];
static uint32_t newH[17];
void *malloc(size_t n)
{
    __CPROVER_assert(n == sizeof(newE), "ENSURES growth allocates the new element array");
    return newE;
}
void *calloc(size_t n, size_t m)
{
    __CPROVER_assert(n * m == sizeof(newH), "ENSURES growth allocates the new hash array");
    for (int i = 0; i < 17; i++)
        newH[i] = 0;
    return newH;
}
void free(void *p) { }
#endif
static uint32_t anyhash(void)
{
    uint8_t id = vf_range(0, 3), a = vf_range(0, 6), b = vf_range(0, 16);
    return mkhash(id, a, b);
}
static bool wf(const HashTable *t, const uint32_t *hs, const Ent *e, uint8_t cap)
{
    uint8_t n = 0;
    bool ok = t->capacity == cap && t->hashes == hs && t->elems == e;
    for (uint8_t i = 0; i < cap; i++) {
        bool occ = (hs[i] & OCC) != 0;
        ok &= occ || hs[i] == 0;
        n += occ;
        uint8_t d = slot(hs[i], cap);
        for (uint8_t j = 0; j < cap; j++) {
            bool between = d <= i ? (d <= j && j < i) : (d <= j || j < i);
            ok &= !(occ && between) || (hs[j] & OCC);
            if (j < i)
                ok &= !(occ && (hs[j] & OCC)) || e[j].key != e[i].key;
        }
    }
    return ok && n == t->size && n < cap;
}
static bool holds(const uint32_t *hs, const Ent *e, uint8_t cap, uint32_t key, uint32_t hash, uint32_t val)
{
    bool r = false;
    for (uint8_t i = 0; i < cap; i++)
        r |= (hs[i] & OCC) && e[i].key == key && hs[i] == (hash | OCC) && e[i].val == val;
    return r;
}
static bool has(const uint32_t *hs, const Ent *e, uint8_t cap, uint32_t key)
{
    bool r = false;
    for (uint8_t i = 0; i < cap; i++)
        r |= (hs[i] & OCC) && e[i].key == key;
    return r;
}
#define CAP 7
/* an arbitrary well formed table: built by construction in native runs */
static void anytable(HashTable *t, uint32_t *hs, Ent *es, uint8_t maxsize)
{
    *t = (HashTable){.capacity = CAP, .hashes = hs, .elems = es};
#ifdef VF_NATIVE
    extern int vf_replaying(void);
    if (!vf_replaying()) {
        uint8_t n = vf_range(0, maxsize);
        memset(hs, 0, CAP * sizeof(*hs));
        for (uint8_t k = 0; k < n; k++) {
            uint32_t h = anyhash() | OCC;
            uint8_t i = h % CAP;
            while (hs[i])
                i = (i + 1) % CAP;
            hs[i] = h;
            es[i] = (Ent){100 + k, VF_U32()};
        }
        t->size = n;
        return;
    }
#endif
    for (int i = 0; i < CAP; i++) {
        bool occ = VF_BOOL();
        uint32_t h = anyhash();
        hs[i] = occ ? h | OCC : 0;
        es[i].key = VF_U32();
        es[i].val = VF_U32();
    }
    t->size = vf_range(0, CAP - 1);
    REQUIRES(t->size <= maxsize);
    REQUIRES(wf(t, hs, es, CAP));
}
/* equal keys have equal hashes: the caller's side of the contract */
static void consistent(const uint32_t *hs, const Ent *e, uint32_t key, uint32_t hash)
{
    for (uint8_t i = 0; i < CAP; i++)
        REQUIRES(!(hs[i] & OCC) || e[i].key != key || hs[i] == (hash | OCC));
}

/*@ fn=findInHashTable; kind=bounded; bound=capacity 7: every table state and every collision pattern; unwind=8; replace=modPrime:spec_modPrime; timeout=150; needreplay */
void h_find(void)
{
    HashTable t;
    uint32_t hs[CAP];
    Ent es[CAP];
    anytable(&t, hs, es, CAP - 1);
    uint32_t h = anyhash();
    Ent k = {VF_U32(), 0};
    consistent(hs, es, k.key, h);
    const Ent *p = findInHashTable(&t, &k, h, sizeof(Ent), same);
    ENSURES((p != NULL) == has(hs, es, CAP, k.key), "found exactly when present");
    ENSURES(p == NULL || (p >= es && p < es + CAP && p->key == k.key), "the element found has the key asked for");
    ENSURES(t.size <= CAP - 1 && t.capacity == CAP && t.hashes == hs && t.elems == (void *)es, "finding changes nothing");
    REACH("find");
}

/*@ fn=insertInHashTable needsRehash; kind=bounded; bound=capacity 7: every table state and every collision pattern; unwind=8; replace=modPrime:spec_modPrime; timeout=150; needreplay */
void h_insert(void)
{
    HashTable t;
    uint32_t hs[CAP];
    Ent es[CAP];
    anytable(&t, hs, es, 3);
    uint32_t h = anyhash();
    Ent k = {VF_U32(), VF_U32()};
    consistent(hs, es, k.key, h);
    bool present = has(hs, es, CAP, k.key);
    uint8_t w = vf_range(0, CAP - 1);
    bool wocc = hs[w] & OCC;
    Ent kept = es[w];
    uint32_t hk = hs[w];
    size_t before = t.size;
    bool added = insertInHashTable(&t, &k, h, sizeof(Ent), same);
    ENSURES(added == !present, "inserted exactly when it was absent");
    ENSURES(t.size == before + added, "size counts the elements");
    ENSURES(!wocc || holds(hs, es, CAP, kept.key, hk, kept.val), "every earlier element is kept unchanged");
    ENSURES(!added || holds(hs, es, CAP, k.key, h, k.val), "the new element is held");
    ENSURES(wf(&t, hs, es, CAP), "the table stays well formed");
    REACH("insert");
}

#define BIG 17
#ifndef LAY
#define LAY 0x55
#endif
/*@ fn=insertInHashTable rehashTable; unwind=8; unwindset=wf.0:18,wf.1:18,holds.0:18,has.0:18,calloc.0:18; replace=modPrime:spec_modPrime; timeout=250; needreplay; kind=bounded; bound=growth 7->17 from three bucket layouts of four elements, all hash values; cases=LAY=0x55; tcases=LAY=0x0f,0x78,0x55 */
void h_insert_grow(void)
{
    HashTable t;
#ifdef VF_NATIVE
    uint32_t *hs = malloc(CAP * sizeof(*hs));
    Ent *es = malloc(CAP * sizeof(*es));
#else
    uint32_t hs[CAP];
    Ent es[CAP];
#endif
    t = (HashTable){.capacity = CAP, .size = 4, .hashes = hs, .elems = es};
    for (uint8_t i = 0; i < CAP; i++) {
        hs[i] = 0;
        es[i] = (Ent){0, 0};
        if ((LAY >> i) & 1) {
            hs[i] = mkhash(vf_range(0, 3), i, vf_range(0, 16)) | OCC;
            es[i] = (Ent){i + 1, VF_U32()};
        }
    }
    uint32_t h = mkhash(vf_range(0, 3), 0, vf_range(0, 16));
    Ent k = {9, VF_U32()};
    uint8_t w = vf_range(0, CAP - 1);
    bool wocc = hs[w] & OCC;
    Ent kept = es[w];
    uint32_t hk = hs[w];
    bool added = insertInHashTable(&t, &k, h, sizeof(Ent), same);
    ENSURES(added && t.size == 5, "inserted and counted");
    if (t.capacity == BIG) {
        const uint32_t *nh = t.hashes;
        const Ent *ne = t.elems;
        ENSURES(!wocc || holds(nh, ne, BIG, kept.key, hk, kept.val), "every element survives growth unchanged");
        ENSURES(holds(nh, ne, BIG, k.key, h, k.val), "the new element survives growth");
        ENSURES(wf(&t, nh, ne, BIG), "the grown table is well formed");
        REACH("grown");
    }
    else
        ENSURES(t.capacity == CAP && t.size < CAP, "a table that does not grow keeps a free bucket");
}

#ifndef X
#define X 3
#endif
/*@ fn=removeFromHashTable; kind=bounded; bound=capacity 7: every table state and every collision pattern; unwind=8; replace=modPrime:spec_modPrime; timeout=200; needreplay; cases=X=0..6 */
void h_remove(void)
{
    HashTable t;
    uint32_t hs[CAP];
    Ent es[CAP];
    anytable(&t, hs, es, CAP - 1);
    uint8_t w = vf_range(0, CAP - 1);
    REQUIRES(X != w && (hs[X] & OCC));
    Ent gone = es[X], kept = es[w];
    uint32_t hk = hs[w];
    bool wocc = hs[w] & OCC;
    size_t before = t.size;
    removeFromHashTable(&t, &es[X], sizeof(Ent));
    ENSURES(!wocc || holds(hs, es, CAP, kept.key, hk, kept.val), "removing one element keeps every other");
    ENSURES(!has(hs, es, CAP, gone.key), "the removed element is gone");
    ENSURES(t.size == before - 1, "size counts the elements");
    ENSURES(wf(&t, hs, es, CAP), "the table stays well formed");
    REACH("remove");
}

static uint8_t seen[CAP];
static uint8_t stopAt;
static bool visit(void *ctx, const void *elem)
{
    const Ent *base = ctx;
    seen[(const Ent *)elem - base]++;
    return stopAt-- != 0;
}
/*@ fn=enumerateHashTable hashTableItNext hashTableItHasNext clearHashTable; kind=bounded; bound=capacity 7: every table state and every collision pattern; unwind=8; timeout=100; replace=modPrime:spec_modPrime */
void h_enumerate(void)
{
    HashTable t;
    uint32_t hs[CAP];
    Ent es[CAP];
    anytable(&t, hs, es, CAP - 1);
    for (uint8_t i = 0; i < CAP; i++)
        seen[i] = 0;
    stopAt = 255;
    enumerateHashTable(&t, es, visit, sizeof(Ent));
    uint8_t w = vf_range(0, CAP - 1);
    ENSURES(seen[w] == ((hs[w] & OCC) ? 1 : 0), "enumeration visits every element exactly once");
    HashtableIt it = newHashTableIt(&t, sizeof(Ent));
    uint8_t n = 0;
    for (uint8_t i = 0; i < CAP; i++) {
        bool more = hashTableItHasNext(&it);
        const Ent *p = hashTableItNext(&it);
        ENSURES(more == (p != NULL), "the iterator announces what it delivers");
        if (p)
            seen[p - es]++, n++;
    }
    ENSURES(n == t.size && seen[w] == ((hs[w] & OCC) ? 2 : 0), "iteration visits every element exactly once");
    clearHashTable(&t);
    ENSURES(t.size == 0 && hs[w] == 0 && wf(&t, hs, es, CAP), "a cleared table is empty");
    REACH("enumerate");
}

/* the same contract over long histories on large tables (native runs only: replay support, not proof) */
/*@ verify=0; nsecs=3; ncount=4000 */
void h_history(void)
{
    static Ent model[512];
    static bool in[512];
    uint32_t nkeys = vf_range(2, 512), spread = vf_range(1, 600), n = 0;
    uint32_t ops = vf_range(0, 2000);
    uint64_t seed = VF_U64();
    memset(in, 0, sizeof(in));
    HashTable t = newHashTable(sizeof(Ent));
    for (uint32_t i = 0; i < ops; i++) {
        seed = seed * 6364136223846793005ull + 1442695040888963407ull;
        uint32_t k = (seed >> 33) % nkeys, op = (seed >> 20) % 8, h = k % spread * 2654435761u;
        Ent e = {k, (uint32_t)i};
        Ent *p = findInHashTable(&t, &e, h, sizeof(Ent), same);
        ENSURES((p != NULL) == in[k] && (!p || (p->key == k && p->val == model[k].val)), "found exactly when present");
        if (op < 5) {
            bool added = insertInHashTable(&t, &e, h, sizeof(Ent), same);
            ENSURES(added == !in[k], "inserted exactly when it was absent");
            if (added)
                in[k] = true, model[k] = e, n++;
        }
        else if (p && (op < 6 || spread % 2)) {
            removeFromHashTable(&t, p, sizeof(Ent));
            in[k] = false, n--;
        }
        if (op == 7 && (seed >> 24) % 64 == 0) {
            clearHashTable(&t);
            memset(in, 0, sizeof(in));
            n = 0;
        }
        ENSURES(t.size == n, "size counts the elements");
    }
    uint32_t cnt = 0;
    HashtableIt it = newHashTableIt(&t, sizeof(Ent));
    for (Ent *p; (p = hashTableItNext(&it)); cnt++)
        ENSURES(in[p->key] && p->val == model[p->key].val, "iteration visits elements held");
    ENSURES(cnt == n, "iteration visits every element exactly once");
    freeHashTable(&t);
    REACH("history");
}
