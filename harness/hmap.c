/* C01 (second table): core/hmap.c, the table the memory manager keeps its variables in.
 * Representation: slot i holds home+1 (0 when free) and the element; every element sits
 * at its home or further along, with no free slot and no element nearer to its own home
 * (than the probe is to this one's) in between; keys are distinct. */
#include "vf.h"
#ifndef VF_NATIVE
#define memcpy hm_memcpy
#define memset hm_memset
#define calloc hm_calloc
#define free hm_free
#endif
typedef struct __attribute__((packed)) { uint8_t key, val; } Ent;
typedef struct __attribute__((packed)) { uint64_t h; Ent e; } Slot;
#ifndef VF_NATIVE
static Slot big[11];
static void *hm_memcpy(void *d, const void *s, size_t n)
{
    if (n == sizeof(Slot))
        *(Slot *)d = *(const Slot *)s;
    else if (n == sizeof(Ent))
        *(Ent *)d = *(const Ent *)s;
    else {
        __CPROVER_assert(n == sizeof(uint64_t), "ENSURES a slot, an element or a tag is copied");
        *(uint64_t *)d = *(const uint64_t *)s;
    }
    return d;
}
static void *hm_memset(void *d, int c, size_t n)
{
    __CPROVER_assert(n == sizeof(Slot) && c == 0, "ENSURES a whole slot is cleared");
    *(Slot *)d = (Slot){0};
    return d;
}
static void *hm_calloc(size_t n, size_t m)
{
    __CPROVER_assert(n == 11 && m == sizeof(Slot), "ENSURES growth allocates the new slots");
    for (int i = 0; i < 11; i++)
        big[i] = (Slot){0};
    return big;
}
static void hm_free(void *p) { }
#endif
#include "core/hmap.c"
#ifndef CAP
#define CAP 4
#endif

static uint64_t homes[8];   /* the hash function: any, but a function of the key */
static HashCode hashf(const void *p) { return homes[((const Ent *)p)->key & 7]; }
static bool eqf(const void *a, const void *b) { return ((const Ent *)a)->key == ((const Ent *)b)->key; }

static bool wf2(const Hmap *m, const Slot *s, uint8_t cap, uint8_t most)
{
    uint8_t n = 0;
    bool ok = m->nslots == cap && m->data == s && m->elemSize == sizeof(Ent);
    for (uint8_t i = 0; i < cap; i++) {
        n += s[i].h != 0;
        if (!s[i].h)
            continue;
        ok &= s[i].e.key < 8;
        uint64_t home = homes[s[i].e.key & 7] % cap;
        ok &= s[i].h == home + 1;
        for (uint8_t j = 0; j < cap; j++) {
            ok &= j >= i || !s[j].h || s[j].e.key != s[i].e.key;
            uint8_t dij = (i + cap - home) % cap, dj = (j + cap - home) % cap;
            if (dj < dij)   /* j is on the way from home to i */
                ok &= s[j].h && (j + cap - (s[j].h - 1)) % cap >= dj;
        }
    }
    return ok && n == m->nitems && n <= most;
}
static bool wf(const Hmap *m, const Slot *s, uint8_t cap) { return wf2(m, s, cap, cap - 1); }
static const Slot *slotof(const Slot *s, uint8_t cap, uint64_t key)
{
    const Slot *r = NULL;
    for (uint8_t i = 0; i < cap; i++)
        if (s[i].h && s[i].e.key == key)
            r = &s[i];
    return r;
}

static Slot sp0, sp1;
static void anymap(Hmap *m, Slot *s, uint8_t lo, uint8_t hi)
{
    for (int i = 0; i < 8; i++)
        homes[i] = vf_range(0, CAP - 1);
    *m = (Hmap){.nslots = CAP, .elemSize = sizeof(Ent), .hash = hashf, .equal = eqf, .data = s, .sspace0 = &sp0, .sspace1 = &sp1};
#ifdef VF_NATIVE
    extern int vf_replaying(void);
    if (!vf_replaying()) {
        memset(s, 0, CAP * sizeof(*s));
        uint8_t n = vf_range(lo, hi), used = 0;
        while (m->nitems < n) {
            uint64_t k = vf_range(0, 7);
            if (used >> k & 1)
                continue;
            used |= 1 << k;
            hmapPutInternal(m, &(Ent){k, VF_U8()});
        }
        return;
    }
#endif
    for (int i = 0; i < CAP; i++) {
        s[i].h = vf_range(0, CAP);
        s[i].e.key = vf_range(0, 7);
        s[i].e.val = VF_U8();
    }
    m->nitems = vf_range(lo, hi);
    REQUIRES(wf(m, s, CAP));
}

/*@ fn=hmapGet hmapProbe hmapItem; kind=bounded; bound=4 slots: every table state, every hash function; unwind=9; timeout=150 */
void h_hget(void)
{
    Hmap m;
    Slot s[CAP];
    anymap(&m, s, 0, CAP - 1);
    Ent k = {vf_range(0, 7), 0};
    const Slot *in = slotof(s, CAP, k.key);
    const Ent *r = hmapGet(&m, &k);
    ENSURES(in ? r == &in->e : r == NULL, "a key is found exactly when it is there");
    REACH("hget");
}

static uint64_t grown;
void spec_rehash(Hmap *self, uint64_t n) { grown = n; }
/*@ fn=hmapPut hmapPutInternal hmapIdealSize hmapResizeMore; kind=bounded; bound=4 slots: every table state, every hash function; unwind=9; unwindset=hmapIdealSize.0:25; timeout=150; replace=hmapRehash:spec_rehash; native=0; tcases=CAP=5 */
void h_hput(void)
{
    Hmap m;
    Slot s[CAP];
    anymap(&m, s, 0, CAP - 1);
    Ent k = {vf_range(0, 7), VF_U8()};
    uint64_t w = vf_range(0, 7);
    const Slot *ws = slotof(s, CAP, w);
    Ent kept = ws ? ws->e : (Ent){0};
    uint64_t before = m.nitems;
    bool present = slotof(s, CAP, k.key) != NULL;
    grown = 0;
    HmapStatus st = hmapPut(&m, &k);
    ENSURES(st.s == !present, "put reports whether the key is new");
    ENSURES(m.nitems == before + !present, "the elements are counted");
    const Slot *now = slotof(s, CAP, k.key);
    ENSURES(now && now->e.val == k.val, "the element put is held");
    now = slotof(s, CAP, w);
    ENSURES(w == k.key || (ws ? now && now->e.val == kept.val : !now), "every other element is kept and none appears");
    ENSURES(grown ? grown > m.nitems && grown > CAP : m.nitems < CAP, "a free slot remains, growing if need be");
    ENSURES(wf2(&m, s, CAP, CAP), "the map stays well formed");
    REACH("hput");
}

/* growing re-inserts: hmapPut is replaced by a recorder, so any number of elements can be re-inserted */
static uint64_t put_n, put_slots, put_items;
static uint8_t put_seen[8];
HmapStatus spec_put(Hmap *self, void *data)
{
    const Ent *e = data;
    put_slots = self->nslots, put_items = self->nitems;
    put_n++;
    put_seen[e->key & 7] += e->key < 8;
    self->nitems++;
    return (HmapStatus){NULL, true};
}
/*@ fn=hmapRehash; kind=bounded; bound=4 slots: every table state, into 11 slots; unwind=9; unwindset=hm_calloc.0:12; timeout=100; native=0; replace=hmapPut:spec_put; needreplay=0 */
void h_hrehash(void)
{
#ifndef VF_NATIVE
    Hmap m;
    Slot s[CAP];
    anymap(&m, s, 0, CAP - 1);
    m.nitems = vf_range(0, CAP);   /* a full table grows too: the count is not relied upon */
    uint64_t w = vf_range(0, 7), all = 0;
    bool had = slotof(s, CAP, w) != NULL;
    for (int i = 0; i < CAP; i++)
        all += s[i].h != 0;
    hmapRehash(&m, 11);
    ENSURES(m.nslots == 11 && m.data == big, "the new slots are used");
    ENSURES(put_n == all && (put_seen[w] == (had ? 1 : 0)), "every element is put again, once");
    ENSURES(all == 0 || put_slots == 11, "the elements are put into the new slots");
    ENSURES(m.nitems == all, "the elements are counted anew");
    REACH("hrehash");
#endif
}

#ifndef X
#define X 0
#endif
/*@ fn=hmapRemove; kind=bounded; bound=4 slots: every table state every hash function; unwind=9; unwindset=hmapIdealSize.0:25,hmapRemove.0:6,hmapRemove.1:6; timeout=200; replace=hmapRehash:spec_rehash; native=0; cases=X=0..3; tcases=CAP=5 X=0..4 */
void h_hremove(void)
{
    Hmap m;
    Slot s[CAP];
    anymap(&m, s, 1, CAP - 1);
    bool own = VF_BOOL();   /* callers also pass the element inside the table */
    Ent k = {vf_range(0, 7), 0};
    REQUIRES(s[X].h && s[X].e.key == k.key);
    uint64_t key = k.key, w = vf_range(0, 7);
    const Slot *ws = slotof(s, CAP, w), *ks = slotof(s, CAP, key);
    bool present = ks != NULL;
    Ent kept = ws ? ws->e : (Ent){0};
    bool had = ws != NULL;
    uint64_t before = m.nitems;
    grown = 0;
    hmapRemove(&m, own && present ? (void *)&ks->e : &k);
    ENSURES(!slotof(s, CAP, key), "the removed element is gone");
    ws = slotof(s, CAP, w);
    ENSURES(w == key || (had ? ws && ws->e.val == kept.val : !ws), "removing one element keeps every other");
    ENSURES(m.nitems == before - present, "the elements are counted");
    ENSURES(!grown || grown > m.nitems, "a shrunk map keeps a free slot");
    ENSURES(wf(&m, s, CAP), "the map stays well formed");
    REACH("hremove");
}

/*@ fn=hmapNext hmapIterator; kind=bounded; bound=4 slots: every table state; unwind=9; timeout=100 */
void h_hnext(void)
{
    Hmap m;
    Slot s[CAP];
    anymap(&m, s, 0, CAP - 1);
    HmapIterator it = hmapIterator(&m);
    uint8_t n = 0, seen = 0;
    for (int i = 0; i <= CAP; i++) {
        const Ent *e = hmapNext(&it);
        if (e) {
            ENSURES(!((seen >> e->key) & 1) && slotof(s, CAP, e->key) && &slotof(s, CAP, e->key)->e == e, "an element held is visited once");
            seen |= 1 << e->key;
            n++;
        }
    }
    ENSURES(n == m.nitems, "iteration visits every element");
    REACH("hnext");
}

/* long histories (native runs only) */
/*@ verify=0; nsecs=2; ncount=3000 */
void h_hhistory(void)
{
#ifdef VF_NATIVE
    static bool in[8];
    static uint8_t val[8];
    memset(in, 0, sizeof(in));
    uint64_t n = 0, ops = vf_range(0, 200), spread = vf_range(1, 54);
    for (int i = 0; i < 8; i++)
        homes[i] = vf_range(0, 1000) % spread;
    Hmap m = hmapCreate(sizeof(Ent), hashf, eqf);
    uint64_t seed = VF_U64();
    for (uint64_t i = 0; i < ops; i++) {
        seed = seed * 6364136223846793005ull + 1442695040888963407ull;
        Ent e = {(seed >> 33) & 7, (uint8_t)i};
        Ent *p = hmapGet(&m, &e);
        ENSURES((p != NULL) == in[e.key] && (!p || p->val == val[e.key]), "a key is found exactly when it is there");
        if ((seed >> 20) % 8 < 5) {
            ENSURES(hmapPut(&m, &e).s == !in[e.key], "put reports whether the key is new");
            n += !in[e.key];
            in[e.key] = true, val[e.key] = i;
        }
        else {
            hmapRemove(&m, p && (seed >> 40) % 2 ? (void *)p : &e);
            n -= in[e.key];
            in[e.key] = false;
        }
        ENSURES(m.nitems == n && m.nitems < m.nslots, "the elements are counted");
    }
    HmapIterator it = hmapIterator(&m);
    for (Ent *e; (e = hmapNext(&it)); n--)
        ENSURES(in[e->key] && e->val == val[e->key], "iteration visits elements held");
    ENSURES(n == 0, "iteration visits every element");
    hmapDestroy(&m);
    REACH("hhistory");
#endif
}
