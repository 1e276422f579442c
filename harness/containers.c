/* C04: growable arrays and string builders hold exactly the sequence built. */
#include "vf.h"
#ifndef ES
#define ES 8
#endif
#if ES == 24
typedef struct { uint64_t a, b, c; } E;
static E any(void) { return (E){VF_U64(), VF_U64(), VF_U64()}; }
static bool eq(E x, E y) { return x.a == y.a && x.b == y.b && x.c == y.c; }
#elif ES == 8
typedef struct { uint64_t a; } E;
static E any(void) { return (E){VF_U64()}; }
static bool eq(E x, E y) { return x.a == y.a; }
#else
typedef struct { uint8_t a; } E;
static E any(void) { return (E){VF_U8()}; }
static bool eq(E x, E y) { return x.a == y.a; }
#endif
#ifndef VF_NATIVE
/* memory: malloc and realloc deliver fresh typed blocks; asked() is the size they were given */
#define memcpy vf_memcpy
#define memmove vf_memmove
#define realloc vf_realloc
#define malloc vf_malloc
#define free(p) ((void)(p))
#ifdef TEXT
typedef char Unit;
#else
typedef E Unit;
#endif
static Unit u0[64], u1[64], u2[64], u3[64], u4[64];
static size_t got[5];
static int ngot;
static void *vf_malloc(size_t n)
{
    Unit *const u[] = {u0, u1, u2, u3, u4};
    __CPROVER_assert(n <= sizeof(u0) && ngot < 5, "ENSURES a sensible amount of memory is asked for");
    got[ngot] = n;
    return u[ngot++];
}
static size_t asked(const void *p)
{
    const Unit *const u[] = {u0, u1, u2, u3, u4};
    for (int i = 0; i < 5; i++)
        if (p == u[i])
            return got[i];
    return 0;
}
static void copyunits(Unit *d, const Unit *s, size_t n)
{
    for (size_t i = 0; i < n; i++)
        d[i] = s[i];
}
static void *vf_memcpy(void *d, const void *s, size_t n)
{
    __CPROVER_assert(n % sizeof(Unit) == 0, "ENSURES whole elements are copied");
    copyunits(d, s, n / sizeof(Unit));
    return d;
}
static void *vf_memmove(void *d, const void *s, size_t n) { return vf_memcpy(d, s, n); }
static void *vf_realloc(void *p, size_t n)
{
    size_t o = asked(p);
    Unit *q = vf_malloc(n);
    copyunits(q, p, (o < n ? o : n) / sizeof(Unit));
    return q;
}
#else
#define asked(p) SIZE_MAX
#endif
#include "core/array.c"
#include "core/sb.c"
#ifndef SZ
#define SZ 3
#endif
static DynArray anyarray(uint8_t cap)
{
    DynArray a = {.elemSize = ES, .capacity = cap, .elems = malloc(cap * ES)};
    a.size = SZ;
    for (int i = 0; i < cap; i++)
        ((E *)a.elems)[i] = any();
    return a;
}
/*@ fn=pushOnDynArrayExplicit growDynArray popDynArray; kind=bounded; bound=capacity 3, element sizes 1, 8 and 24: every state; unwind=22; cases=ES=1,8,24 SZ=0..3; timeout=100; needreplay */
void h_push(void)
{
    DynArray a = anyarray(3);
    size_t before = a.size;
    E x = any(), kept = {0};
    size_t w = vf_range(0, 2);
    if (w < before)
        kept = ((E *)a.elems)[w];
    E *r = pushOnDynArrayExplicit(&a, &x, ES);
    E *es = a.elems;
    ENSURES(a.size == before + 1 && a.size <= a.capacity && a.elemSize == ES, "one element more, within the capacity");
    ENSURES(r == &es[before], "the place of the new element is delivered");
    ENSURES(eq(es[before], x), "the element is the last");
    ENSURES(w >= before || eq(es[w], kept), "the other elements are kept");
    ENSURES(a.capacity * ES <= asked(a.elems), "the capacity is the memory there is");
#ifdef VF_NATIVE
    es[a.capacity - 1] = x;
#endif
    E *p = popDynArray(&a);
    ENSURES(p == &es[before] && a.size == before, "the last element is popped");
    a.size = 0;
    ENSURES(popDynArray(&a) == NULL && a.size == 0, "nothing is popped from an empty array");
    freeDynArray(&a);
    ENSURES(a.size == 0 && a.capacity == 0 && a.elems == NULL, "a freed array is empty");
    REACH("push");
}
/*@ fn=copyDynArray newDynArrayWithSize newDynArrayFromDataExplicit; kind=bounded; bound=capacity 3, element size 8: every state; unwind=22; timeout=100; needreplay; cases=SZ=0..3 */
void h_copy(void)
{
    DynArray a = anyarray(3), b = anyarray(3);
    size_t na = a.size = vf_range(0, 3), nb = b.size, w = vf_range(0, 2);
    E ka = ((E *)a.elems)[w], kb = ((E *)b.elems)[w];
    copyDynArray(&a, &b);
    ENSURES(a.size == na + nb && b.size == nb && a.size <= a.capacity && a.capacity * ES <= asked(a.elems), "all elements are appended, within the memory");
    ENSURES(w >= na || eq(((E *)a.elems)[w], ka), "the elements before are kept");
    ENSURES(w >= nb || eq(((E *)a.elems)[na + w], kb), "the elements are appended in order");
    DynArray c = newDynArrayFromDataExplicit(b.elems, nb, ES);
    ENSURES(c.size == nb && c.capacity >= nb && c.elemSize == ES && c.capacity * ES <= asked(c.elems) && (w >= nb || eq(((E *)c.elems)[w], kb)), "an array made from data holds the data");
    REACH("copy");
}
/*@ fn=resizeDynArrayExplicit newDynArray; kind=bounded; bound=capacity 3, element size 8: every state, new sizes to 20; unwind=22; timeout=100; needreplay; cases=SZ=0..3 */
void h_resize(void)
{
    DynArray a = anyarray(3);
    size_t na = a.size, n = vf_range(0, 20), w = vf_range(0, 2);
    E ka = ((E *)a.elems)[w];
    resizeDynArrayExplicit(&a, n);
    ENSURES(a.size == n && n <= a.capacity && a.capacity * ES <= asked(a.elems), "resized, within the memory");
    ENSURES(w >= na || w >= n || eq(((E *)a.elems)[w], ka), "resizing keeps the elements");
    DynArray d = newDynArray(ES);
    ENSURES(d.size == 0 && d.elemSize == ES && d.capacity * ES <= asked(d.elems), "a new array is empty");
    REACH("resize");
}

/* string builder: size <= capacity, capacity + 1 bytes, terminated */
static StringBuilder anybuilder(uint8_t cap)
{
    StringBuilder sb = {.capacity = cap, .data = malloc(cap + 1)};
    sb.size = SZ;
    vf_bytes(sb.data, cap);
    sb.data[sb.size] = '\0';
    return sb;
}
/*@ fn=stringBuilderAppendCstr0 stringBuilderGrow; kind=bounded; bound=capacity 4, up to 9 bytes appended: every state and text; unwind=20; timeout=100; needreplay; cases=TEXT=1 SZ=0..4 */
void h_append(void)
{
    StringBuilder sb = anybuilder(4);
    if (VF_BOOL()) {
        free(sb.data);
        sb = (StringBuilder){0};
    }
    char t[9], kept = 0;
    vf_bytes(t, 9);
    size_t n = vf_range(0, 9), before = sb.size, w = vf_range(0, 3), v = vf_range(0, 8);
    if (w < before)
        kept = sb.data[w];
    stringBuilderAppendCstr0(&sb, t, n);
    ENSURES(sb.size == before + n && sb.size <= sb.capacity, "the text is appended within the capacity");
    ENSURES(sb.data[sb.size] == '\0', "the text is terminated");
    ENSURES(w >= before || sb.data[w] == kept, "the text before is kept");
    ENSURES(v >= n || sb.data[before + v] == t[v], "the bytes appended are the ones given");
    ENSURES(sb.capacity + 1 <= asked(sb.data), "the capacity is the memory there is");
#ifdef VF_NATIVE
    sb.data[sb.capacity] = 0;
#endif
    size_t s = sb.size;
    stringBuilderAppendBool(&sb, n & 1);
    ENSURES(sb.size == s + 5 - (n & 1) && sb.data[s] == (n & 1 ? 't' : 'f') && sb.data[sb.size - 1] == 'e' && !sb.data[sb.size], "a bool is appended as true or false");
    char *data = sb.data, *r = stringBuilderRelease(&sb);
    ENSURES(r == data && sb.data == NULL && sb.size == 0 && sb.capacity == 0, "released text leaves an empty builder");
    REACH("append");
}

/*@ fn=wcharToStr stringBuilderAppendChar; unwind=12; timeout=60; needreplay */
void h_wchar(void)
{
    uint32_t c = vf_range(0, 0x10FFFF);
    Stack_str_8 s = wcharToStr(c);
    uint8_t e[5] = {0}, n;
    if (c < 0x80)
        e[0] = c, n = 1;
    else if (c < 0x800)
        e[0] = 0xC0 + c / 64, e[1] = 0x80 + c % 64, n = 2;
    else if (c < 0x10000)
        e[0] = 0xE0 + c / 4096, e[1] = 0x80 + c / 64 % 64, e[2] = 0x80 + c % 64, n = 3;
    else
        e[0] = 0xF0 + c / 262144, e[1] = 0x80 + c / 4096 % 64, e[2] = 0x80 + c / 64 % 64, e[3] = 0x80 + c % 64, n = 4;
    ENSURES(s.str[5] == n, "the length of the encoding");
    for (int i = 0; i < 5; i++)
        ENSURES((uint8_t)s.str[i] == (i < n ? e[i] : 0), "a code point is encoded in UTF-8");
    REACH("wchar");
}
/* numbers: native samples (the decimal text comes from sprintf) */
/*@ verify=0; ncount=20000 */
void h_numbers(void)
{
#ifdef VF_NATIVE
    char want[64];
    StringBuilder sb = {0};
    stringBuilderInit(&sb);
    int64_t i = VF_I64() >> vf_range(0, 63);
    uint64_t u = VF_U64() >> vf_range(0, 63);
    double d = (double)(int64_t)vf_range(0, 2000000) / 64;
    stringBuilderAppendInt(&sb, i);
    stringBuilderAppendChar(&sb, ' ');
    stringBuilderAppendUInt(&sb, u);
    stringBuilderAppendChar(&sb, ' ');
    stringBuilderAppendFloat(&sb, d);
    snprintf(want, sizeof(want), "%lld %llu %g", (long long)i, (unsigned long long)u, d);
    ENSURES(strcmp(sb.data, want) == 0 && sb.size == strlen(want), "numbers are appended as their decimal text");
    stringBuilderDeinit(&sb);
    REACH("numbers");
#endif
}
