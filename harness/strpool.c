/* C02: names are interned: equal texts give the same pointer, different texts different ones.
 * The hash table is replaced by its contract (C01): a set searched with the comparison
 * callback; every pooled text is offered to the callback, as if all hashes collided. */
#include "vf.h"
#ifndef VF_NATIVE
/* the pool allocates fresh memory (C03), texts are short */
#define memcpy sp_memcpy
static void *sp_memcpy(void *d, const void *s, size_t n)
{
    for (size_t i = 0; i < n; i++)
        ((char *)d)[i] = ((const char *)s)[i];
    return d;
}
#define free(p) ((void)(p))
#define strlen sp_strlen
static size_t sp_strlen(const char *s)
{
    size_t n = 0;
    while (s[n])
        n++;
    return n;
}
#define strncmp sp_strncmp
static int sp_strncmp(const char *a, const char *b, size_t n)
{
    for (size_t i = 0; i < n; i++)
        if (a[i] != b[i])
            return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
        else if (!a[i])
            return 0;
    return 0;
}
#define strcmp(a, b) sp_strncmp(a, b, 100)
#endif
#include "core/strpool.c"

#ifndef VF_NATIVE
#define N 2
static char *held[N + 2];
static int nheld;
static uint32_t hfind, hins;
static char f0[16], f1[16], f2[16], f3[16], f4[16], f5[16];
static char *const fresh[] = {f0, f1, f2, f3, f4, f5};
static int nfresh;
void *spec_alloc(struct MemPool *p, size_t n)
{
    __CPROVER_assert(n <= 16 && nfresh < 6, "ENSURES the text fits the memory asked for");
    return fresh[nfresh++];
}
void *spec_malloc(size_t n)
{
    __CPROVER_assert(n <= 16 && nfresh < 6, "ENSURES the text fits the memory asked for");
    return fresh[nfresh++];
}
/* all hashes collide */
uint32_t spec_hash(uint32_t h, const void *p, size_t n) { return 0; }

void *spec_find(const HashTable *t, const void *elem, HashCode h, size_t sz, bool (*eq)(const void *, const void *))
{
    hfind = h;
    int r = -1;
    for (int i = 0; i < N + 1; i++)
        if (i < nheld && eq(&held[i], elem))
            r = i;
    return r < 0 ? NULL : &held[r];
}
bool spec_insert(HashTable *t, const void *elem, HashCode h, size_t sz, bool (*eq)(const void *, const void *))
{
    hins = h;
    __CPROVER_assert(hins == hfind, "ENSURES a text is inserted under the hash it is searched with");
    for (int i = 0; i < N + 1; i++)
        __CPROVER_assert(i >= nheld || !eq(&held[i], elem), "ENSURES a text searched and not found is inserted");
    held[nheld++] = *(char *const *)elem;
    return true;
}
#endif
#ifndef LEN
#define LEN 3
#endif
static size_t text(char *s)
{
    size_t n = vf_range(0, LEN);
    for (size_t i = 0; i < LEN; i++) {
        s[i] = vf_range(1, 255);
        if (i >= n)
            s[i] = 0;
    }
    s[LEN] = 0;
    return n;
}
static bool same(const char *a, const char *b)
{
    bool r = true;
    for (int i = 0; i <= LEN; i++)
        if (r && a[i] != b[i])
            return false;
        else if (a[i] == 0)
            return true;
    return r;
}
/*@ fn=makeStringSized makeString compareStrFind; kind=bounded; bound=texts up to 3 characters, 2 texts pooled before, all hashes colliding; unwind=6; timeout=150; replace=findInHashTable:spec_find,insertInHashTable:spec_insert,allocFromMemPool:spec_alloc,hashRawBytes:spec_hash,mallocOrDie:spec_malloc; native=0 */
void h_intern(void)
{
#ifndef VF_NATIVE
    static char t0[LEN + 1], t1[LEN + 1], s[LEN + 1];
    char *const t[] = {t0, t1};
    MemPool mp = newMemPool();
    StrPool p = {.mem_pool = &mp};
    nheld = vf_range(0, N);
    for (int i = 0; i < N; i++) {
        text(t[i]);
        held[i] = t[i];
        for (int j = 0; j < i; j++)
            REQUIRES(i >= nheld || !same(t[i], t[j]));
    }
    size_t n = text(s);
    int k = -1, before = nheld;
    for (int i = 0; i < N; i++)
        if (i < nheld && same(t[i], s))
            k = i;
    const char *r = VF_BOOL() ? makeString(&p, s) : makeStringSized(&p, s, n);
    ENSURES(same(r, s), "the interned text is the text asked for");
    if (k >= 0)
        ENSURES(r == t[k] && nheld == before, "an equal text gives the pointer handed out before");
    else {
        ENSURES(r != s && nheld == before + 1 && held[before] == r, "a new text is copied and kept");
        for (int i = 0; i < N; i++)
            ENSURES(r != t[i], "different texts give different pointers");
    }
    ENSURES(makeString(&p, s) == r, "asking again gives the same pointer");
    REACH("intern");
#endif
}
/* part of a longer text, as the lexer asks for */
/*@ fn=makeStringSized; kind=bounded; bound=texts up to 3 characters, one pooled before; unwind=6; timeout=100; replace=findInHashTable:spec_find,insertInHashTable:spec_insert,allocFromMemPool:spec_alloc,hashRawBytes:spec_hash,mallocOrDie:spec_malloc; native=0 */
void h_part(void)
{
#ifndef VF_NATIVE
    static char t[LEN + 1], s[LEN + 1];
    MemPool mp = newMemPool();
    StrPool p = {.mem_pool = &mp};
    text(t);
    held[0] = t, nheld = 1;
    size_t n = text(s), m = vf_range(0, LEN);
    REQUIRES(m <= n);
    const char *r = makeStringSized(&p, s, m);
    bool pre = true;
    for (size_t i = 0; i < LEN; i++)
        pre &= i >= m || t[i] == s[i];
    pre = pre && t[m] == 0;
    ENSURES((r == t) == pre, "an equal text gives the pointer handed out before, any other text not");
    ENSURES(r[m] == 0, "the interned text ends where asked");
    for (size_t i = 0; i < LEN; i++)
        ENSURES(i >= m || r[i] == s[i], "the interned text is the text asked for");
    REACH("part");
#endif
}
/*@ fn=makeTrimmedString makeStringConcat_ joinPath_; kind=bounded; bound=texts up to 3 characters; unwind=12; timeout=150; replace=findInHashTable:spec_find,insertInHashTable:spec_insert,allocFromMemPool:spec_alloc,hashRawBytes:spec_hash,mallocOrDie:spec_malloc; native=0 */
void h_derive(void)
{
#ifndef VF_NATIVE
    static char a[LEN + 1], b[LEN + 1];
    MemPool mp = newMemPool();
    StrPool p = {.mem_pool = &mp};
    nheld = 0;
    size_t n = text(a), m = text(b);
    const char *r = makeStringConcat(&p, a, b);
    size_t w = vf_range(0, LEN - 1);
    ENSURES((w >= n || r[w] == a[w]) && (w >= m || r[n + w] == b[w]) && r[n + m] == 0, "the texts are joined");
    r = joinPath(&p, a, b);
    size_t sl = n && a[n - 1] != '/';
    ENSURES((w >= n || r[w] == a[w]) && (w >= m || r[n + sl + w] == b[w]) && r[n + sl + m] == 0 && (!sl || r[n] == '/'), "path parts are joined with one separator");
    REACH("derive");
#endif
}
/* the real pool and table, long texts, many names (native runs) */
/*@ verify=0; ncount=300; nsecs=6 */
void h_pool(void)
{
#ifdef VF_NATIVE
    MemPool mp = newMemPool();
    StrPool p = newStrPool(&mp);
    static char txt[600][64];
    static const char *got[600];
    uint64_t seed = VF_U64(), n = vf_range(1, 600), letters = vf_range(1, 26), lens = vf_range(1, 60);
    for (uint64_t i = 0; i < n; i++) {
        seed = seed * 6364136223846793005ull + 1442695040888963407ull;
        uint64_t len = (seed >> 40) % lens;
        for (uint64_t j = 0; j < len; j++) {
            seed = seed * 6364136223846793005ull + 1442695040888963407ull;
            txt[i][j] = 'a' + (seed >> 33) % letters;
        }
        txt[i][len] = 0;
        got[i] = makeString(&p, txt[i]);
        ENSURES(got[i] != txt[i] && !strcmp(got[i], txt[i]), "the interned text is the text asked for");
        for (uint64_t j = 0; j < i; j++)
            ENSURES((got[i] == got[j]) == !strcmp(txt[i], txt[j]), "equal texts and only those give the same pointer");
    }
    const char *x = makeAnonymousVariable(&p, "_x"), *y = makeAnonymousVariable(&p, "_x"), *z = makeAnonymousVariable(&p, NULL), *u = makeAnonymousVariable(&p, NULL);
    ENSURES(x != y && x != z && y != z && z != u && strncmp(x, "_x", 2) == 0, "generated names are all different");
    char big[700], big2[700];
    size_t bl = vf_range(0, 600);
    memset(big, 'q', bl);
    big[bl] = 0;
    const char *c = makeStringConcat(&p, "a", big, "z");
    ENSURES(c[0] == 'a' && strlen(c) == bl + 2 && c[bl + 1] == 'z' && !memcmp(c + 1, big, bl), "the texts are joined");
    sprintf(big2, "-%s=%d", big, 5);
    ENSURES(makeStringf(&p, "-%s=%d", big, 5) == makeString(&p, big2), "a formatted text is interned like any other");
    sprintf(big2, "  \t%s  ", "abc");
    ENSURES(makeTrimmedString(&p, big2) == makeString(&p, "abc"), "a trimmed text is interned like any other");
    freeStrPool(&p);
    freeMemPool(&mp);
    REACH("pool");
#endif
}
/* names of which one is the beginning of the other, with equal hashes */
/*@ verify=0; ncount=1 */
void h_collide(void)
{
#ifdef VF_NATIVE
    static const char *pair[][2] = {{"abIuLoQ", "a"}, {"nbwC4X4", "n"}, {"valeAKGqO", "val"}};
    for (int i = 0; i < 3; i++)
        for (int k = 0; k < 2; k++) {
            MemPool mp = newMemPool();
            StrPool p = newStrPool(&mp);
            const char *l = makeString(&p, pair[i][k]), *s = makeString(&p, pair[i][!k]);
            ENSURES(l != s && !strcmp(l, pair[i][k]) && !strcmp(s, pair[i][!k]), "different texts give different pointers");
            freeStrPool(&p);
            freeMemPool(&mp);
        }
    REACH("collide");
#endif
}
/* a large program: many generated names, with and without a prefix */
/*@ verify=0; ncount=1; nsecs=15 */
void h_generated(void)
{
#ifdef VF_NATIVE
    enum { NN = 300000 };
    static const char *got[NN];
    MemPool mp = newMemPool();
    StrPool p = newStrPool(&mp);
    uint64_t sum = 0;
    for (int i = 0; i < NN; i++) {
        size_t before = p.hash_table.size;
        got[i] = makeAnonymousVariable(&p, i % 5 ? "_rv" : NULL);
        ENSURES(p.hash_table.size == before + 1, "generated names are all different");
    }
    freeStrPool(&p);
    freeMemPool(&mp);
    REACH("generated");
#endif
}
