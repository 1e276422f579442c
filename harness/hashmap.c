/* C16: HashMap on the C code generated for HashMap[u32,u32,Slot,Same].
 * View: the partial map key -> value of the occupied nodes.  Invariant wf(): node.hash is home+1,
 * every node is reachable from its home, no node is farther from home than its predecessor plus one
 * (lookups stop early on that), keys distinct, size exact, one bucket free. */
#include "vf.h"

typedef __typeof__(*(T_m_insert_0)0) Map;
typedef __typeof__(*((Map *)0)->_data) Node;
typedef struct __mem MemHdr;
#ifndef C
#define C 5
#endif
#ifndef N
#define N 4
#endif
/* the key operated on: keys are only compared and sliced to their home bucket, so one key per home bucket stands for all */
#ifndef H
#define H 0
#endif
#define HOME(k, c) (((k) & 63) % (c))
#ifndef VF_NATIVE
static void *freed;
void free(void *p) { freed = p; }
static Node pool[11];
static bool pooled;
void *malloc(uint64_t n)
{
    __CPROVER_assert(!pooled && n <= sizeof(pool), "ENSURES a resize allocates the new bucket array once");
    pooled = true;
    return pool;
}
void *memset(void *p, int32_t c, uint64_t n)
{
    __CPROVER_assert(c == 0, "ENSURES memory is cleared");
    if (p == (void *)pool && n > sizeof(Node)) {
        for (int i = 0; i < 11; i++)
            pool[i] = (Node){0};
    }
    else if (n == sizeof(Node))
        *(Node *)p = (Node){0};
    else {
        __CPROVER_assert(n == 4 || n == 8, "ENSURES a bucket is cleared whole");
        if (n == 4)
            *(uint32_t *)p = 0;
        else
            *(uint64_t *)p = 0;
    }
    return p;
}
#ifdef ENTRY_h_insert
/* contract of idealSize (h_ideal): 1..4 keys fit 5 buckets */
uint64_t spec_ideal(const Map *m, uint64_t n)
{
    __CPROVER_assert(n >= 1 && n <= (C == 5 ? 4 : 9), "ENSURES resizing is asked for the current size");
    return C;
}
#endif
#ifdef ENTRY_h_rehash

static uint32_t ghost_k, ghost_v, ghost_n, ghost_hits;
/* contract of insertInternal as rehash relies on it; h_insert proves the effect on the table */
bool spec_insert(Map *m, Node x, bool replace)
{
    __CPROVER_assert(m->_capacity == 11 && m->_data == pool && m->_size == ghost_n, "ENSURES elements go into the new array");
    __CPROVER_assert(ghost_n != 0 || pool[H].hash == 0, "ENSURES the new array starts empty");
    m->_size++;
    ghost_n++;
    if (x.key == ghost_k && x.value == ghost_v)
        ghost_hits++;
    return true;
}
#endif
#ifdef ENTRY_h_remove
uint64_t spec_ideal(const Map *m, uint64_t n)
{
    __CPROVER_assert(n <= 4, "ENSURES resizing is asked for the current size");
    return N > 1 ? 5 : n == 0 ? 1 : 5;
}
#endif
#endif
static bool wf(const Map *m, const Node *d, uint8_t cap)
{
    uint8_t n = 0;
    bool ok = m->_capacity == cap && m->_data == d;
    for (uint8_t i = 0; i < cap; i++) {
        bool occ = d[i].hash != 0;
        n += occ;
        uint8_t h = HOME(d[i].key, cap), p = i ? i - 1 : cap - 1;
        ok &= !occ || d[i].hash == (uint64_t)h + 1;
        uint8_t dist = i >= h ? i - h : cap - h + i;
        uint8_t hp = HOME(d[p].key, cap), dp = p >= hp ? p - hp : cap - hp + p;
        ok &= !occ || dist == 0 || (d[p].hash != 0 && dist <= dp + 1);
        for (uint8_t j = 0; j < i; j++)
            ok &= !(occ && d[j].hash) || d[j].key != d[i].key;
    }
    return ok && n == m->_size && (n < cap || cap <= 1 && n == 0);
}
static bool has(const Node *d, uint8_t cap, uint32_t k)
{
    bool r = false;
    for (uint8_t i = 0; i < cap; i++)
        r |= d[i].hash && d[i].key == k;
    return r;
}
static bool maps(const Node *d, uint8_t cap, uint32_t k, uint32_t v)
{
    bool r = false;
    for (uint8_t i = 0; i < cap; i++)
        r |= d[i].hash && d[i].key == k && d[i].value == v;
    return r;
}
typedef struct { MemHdr hdr; Map m; } Obj;
static Map *obj(Obj *o)
{
    o->hdr = (MemHdr){.refs = 5, .magic = 2930683566u, .dctor = NULL};
    return &o->m;
}
static void anymap(Map *m, Node *d, uint8_t cap, uint8_t maxsize)
{
    m->_data = d;
    m->_capacity = cap;
#ifdef VF_NATIVE
    extern int vf_replaying(void);
    if (!vf_replaying())
        vf_skip();
#endif
    for (uint8_t i = 0; i < cap; i++) {
        d[i].key = VF_U32();
        d[i].value = VF_U32();
        bool occ = VF_BOOL();
        d[i].hash = occ ? HOME(d[i].key, cap) + 1 : 0;
    }
    m->_size = vf_range(0, maxsize);
    REQUIRES(wf(m, d, cap));
}

#ifdef VF_NATIVE
#define BUCKETS(D, N) Node *D = malloc(sizeof(Node) * (N))
#else
#define BUCKETS(D, N) Node D[N]
#endif

/*@ fn=HashMap.contains HashMap.get HashMap.size; kind=bounded; bound=capacity 5, every map state and collision pattern; unwind=7; timeout=120 */
void h_lookup(void)
{
    Obj o;
    BUCKETS(d, C);
    Map *m = obj(&o);
    anymap(m, d, C, C - 1);
    uint32_t k = VF_U32(), dflt = VF_U32();
    bool in = m_contains(m, k);
    uint32_t v = m_get(m, k, dflt);
    uint64_t n = m_size(m);
    ENSURES(in == has(d, C, k), "contains exactly when present");
    ENSURES(in ? maps(d, C, k, v) : v == dflt, "get delivers the value mapped to the key");
    ENSURES(n == m->_size && wf(m, d, C), "lookups change nothing");
    REACH("lookup");
}
/*@ fn=HashMap.insert HashMap.insertInternal HashMap.probe; kind=bounded; bound=capacity 5, every map state and collision pattern; unwind=7; timeout=200; replace=~idealSize:spec_ideal; cases=H=0..4; tcases=C=11 H=0..10; tunwind=13 */
void h_insert(void)
{
    Obj o;
    BUCKETS(d, C);
    Map *m = obj(&o);
    anymap(m, d, C, C == 5 ? 3 : 8);
    uint64_t n0 = m->_size;
    uint32_t k = H, v = VF_U32(), w = VF_U32(), wv = VF_U32();
    bool repl = VF_BOOL();
    REQUIRES(w != k);
    bool in = has(d, C, k), was = maps(d, C, w, wv);
    uint32_t ov = VF_U32();
    bool old = maps(d, C, k, ov);
    bool added = m_insert(m, k, v, repl);
    const Node *e = m->_data;
    ENSURES(added == !in, "insert reports whether the key is new");
    ENSURES(m->_size == n0 + (in ? 0 : 1), "size counts the keys");
    ENSURES(!((!in || repl)) || maps(e, C, k, v), "the new value is stored");
    ENSURES(!in || repl || maps(e, C, k, ov) == old, "without replace the old value stays");
    ENSURES(maps(e, C, w, wv) == was, "every other key keeps its value");
    ENSURES(wf(m, e, C), "the map stays well formed");
    REACH("insert");
}
/*@ fn=HashMap.remove HashMap.probe HashMap.resizeLess; kind=bounded; bound=capacity 5, every map state and collision pattern; unwind=7; timeout=200; replace=~idealSize:spec_ideal; cases=H=0..4 N=1,4 */
void h_remove(void)
{
    Obj o;
    BUCKETS(d, C);
    Map *m = obj(&o);
    anymap(m, d, C, N);
    REQUIRES(N == 1 ? m->_size == 1 : m->_size > 1);
    uint64_t n0 = m->_size;
    uint32_t k = H, w = VF_U32(), wv = VF_U32();
    REQUIRES(w != k);
    bool in = has(d, C, k), was = maps(d, C, w, wv);
    m_remove(m, k);
    const Node *e = m->_data;
    uint8_t cap = m->_capacity;
    ENSURES(cap == C || (cap < C && N == 1), "a map shrinks only when it empties");
    ENSURES(m->_size == n0 - (in ? 1 : 0), "size counts the keys");
    if (cap == C) {
        ENSURES(!has(e, C, k), "the removed key is gone");
        ENSURES(maps(e, C, w, wv) == was, "every other key keeps its value");
        ENSURES(wf(m, e, C), "the map stays well formed");
        REACH("remove");
    }
    else
        ENSURES(m->_size == 0 && cap == 1 && e[0].hash == 0, "an emptied map is empty");
}

#ifdef G_idealSize
/*@ fn=HashMap.idealSize; unwind=28; timeout=200; nsecs=1 */
void h_ideal(void)
{
    Map m = {0};
    uint64_t n = vf_range(0, 1ull << 26);
    uint64_t c = G_idealSize(&m, n);
    ENSURES(c > n, "the capacity chosen for n keys leaves a free bucket");
    ENSURES(n > 4 || n == 0 || c == 5, "1 to 4 keys get 5 buckets");
    ENSURES(n != 0 || c == 1, "no keys get one bucket");
    ENSURES(n < 5 || n > 9 || c == 11, "5 to 9 keys get 11 buckets");
    REACH("ideal");
}
#endif

#if defined(G_rehash) && defined(ENTRY_h_rehash)
/*@ fn=HashMap.rehash; kind=bounded; bound=from 5 to 11 buckets, every map state; unwind=12; timeout=100; replace=~insertInternal:spec_insert; native=0 */
void h_rehash(void)
{
    Obj o;
    BUCKETS(d, C);
    Map *m = obj(&o);
    anymap(m, d, C, C);
    uint64_t n = m->_size;

    uint8_t w = vf_range(0, C - 1);
    bool occ = d[w].hash != 0;
    ghost_k = d[w].key;
    ghost_v = d[w].value;
    G_rehash(m, 11);
    ENSURES(m->_data == pool && m->_capacity == 11, "the new bucket array is in place");
    ENSURES(ghost_n == n, "as many elements are carried over as there were");
    ENSURES(!occ || ghost_hits == 1, "every element is carried over exactly once, unchanged");
    ENSURES(freed == (void *)d, "the old bucket array is freed");
    REACH("rehash");
}
#endif
#ifdef VF_NATIVE
/* long histories through growth and shrinking (native runs only: replay support, not proof) */
/*@ verify=0; nsecs=4; ncount=3000 */
void h_history(void)
{
    static uint32_t model[256];
    static bool in[256];
    uint32_t nkeys = vf_range(2, 256), ops = vf_range(0, 1500), n = 0;
    uint64_t seed = VF_U64();
    for (int i = 0; i < 256; i++)
        in[i] = false;
    Map *m = m_new();
#define M() (__smart_ptr_get(m))
    for (uint32_t i = 0; i < ops; i++) {
        seed = seed * 6364136223846793005ull + 1442695040888963407ull;
        uint32_t k = (seed >> 33) % nkeys, op = (seed >> 20) % 16, v = (uint32_t)(seed >> 8);
        ENSURES(m_contains(M(), k) == in[k], "contains exactly when present");
        ENSURES(m_get(M(), k, 7) == (in[k] ? model[k] : 7), "get delivers the value mapped to the key");
        if (op < 8) {
            bool repl = op < 6;
            ENSURES(m_insert(M(), k, v, repl) == !in[k], "insert reports whether the key is new");
            if (!in[k] || repl)
                model[k] = v;
            n += !in[k];
            in[k] = true;
        }
        else if (op < 15 || (seed >> 24) % 32) {
            m_remove(M(), k);
            n -= in[k];
            in[k] = false;
        }
        else {
            m_clear(M());
            for (int j = 0; j < 256; j++)
                in[j] = false;
            n = 0;
        }
        ENSURES(m_size(M()) == n, "size counts the keys");
    }
    uint64_t sum = 0;
    for (uint32_t k = 0; k < 256; k++)
        if (in[k])
            sum += (uint64_t)k * 3 + model[k];
    ENSURES(m_sum(M()) == sum, "iteration visits every key with its value exactly once");
    for (uint32_t k = 0; k < nkeys; k++) {
        if (in[k])
            m_remove(M(), k), n--;
        ENSURES(m_size(M()) == n && !m_contains(M(), k), "removing one key removes just that key");
    }
    m_clear(m);
    REACH("history");
}
#endif
