/* C18: string views, String and buffered streams of the runtime, on the C generated from builtins.cxy. */
#include "vf.h"
typedef T_v_trim_0 View;
typedef __typeof__(*(T_s_append_0)0) Str;
typedef __typeof__(*(T_b_append_0)0) Snk;

#ifndef VF_NATIVE
int32_t isspace(int32_t c) { return c == ' ' || (c >= 9 && c <= 13); }
void *memmove(void *d, const void *s, uint64_t n)
{
    char *a = d;
    const char *b = s;
    if (!__CPROVER_same_object(a, b) || __CPROVER_POINTER_OFFSET(a) < __CPROVER_POINTER_OFFSET(b)) {
        for (uint64_t i = 0; i < n; i++)
            a[i] = b[i];
    }
    else
        for (uint64_t i = n; i > 0; i--)
            a[i - 1] = b[i - 1];
    return d;
}
void *memcpy(void *d, const void *s, uint64_t n)
{
    for (uint64_t i = 0; i < n; i++)
        ((char *)d)[i] = ((const char *)s)[i];
    return d;
}
int32_t memcmp(const void *a, const void *b, uint64_t n)
{
    for (uint64_t i = 0; i < n; i++) {
        uint8_t x = ((const uint8_t *)a)[i], y = ((const uint8_t *)b)[i];
        if (x != y)
            return x < y ? -1 : 1;
    }
    return 0;
}
#endif
#define SP(c) ((c) == ' ' || ((c) >= 9 && (c) <= 13))
#ifndef N
#define N 4
#endif
#ifdef VF_NATIVE
#undef N
#define N 200
#define ALPHA() (VF_BOOL() ? (char)VF_U8() : "ab \t"[VF_U8() % 4])
#else
#define ALPHA() ((char)VF_U8())
#endif
static char A[N + 2], B[N + 2], Z[N + 2];
static int anytext(char *s, int max)
{
    int n = (int)vf_range(0, max);
    for (int i = 0; i < max; i++)
        if (i < n)
            s[i] = ALPHA();
    s[n] = 0;
    return n;
}
/*@ fn=__string.trimLeft __string.trimRight __string.trim; kind=bounded; bound=views of up to 4 bytes, all contents; unwind=7; ncount=4000 */
void h_trim(void)
{
    int n = anytext(A, N), a = 0, b = n;
    while (a < n && SP(A[a]))
        a++;
    while (b > 0 && SP(A[b - 1]))
        b--;
    View v = {.s = A, ._size = (uint64_t)n}, l = v_triml(v), r = v_trimr(v), t = v_trim(v);
    ENSURES(l.s == A + a && l._size == (uint64_t)(n - a), "trimLeft drops exactly the leading space");
    ENSURES(r.s == A && r._size == (uint64_t)b, "trimRight drops exactly the trailing space");
    ENSURES(a == n ? t._size == 0 : t.s == A + a && t._size == (uint64_t)(b - a), "trim drops both");
    REACH("trim");
}
static int cmp(const char *a, int n, const char *b, int m)
{
    if (n != m)
        return n < m ? -1 : 1;
    for (int i = 0; i < n; i++)
        if (a[i] != b[i])
            return (uint8_t)a[i] < (uint8_t)b[i] ? -1 : 1;
    return 0;
}
/*@ fn=__string.compare __string.op==; kind=bounded; bound=views of up to 4 bytes, all contents; unwind=7; ncount=4000 */
void h_compare(void)
{
    int n = anytext(A, N), m = VF_BOOL() ? anytext(B, N) : n, c;
    if (VF_BOOL()) {
        m = n;
        int at = (int)vf_range(0, N);
        char x = ALPHA();
        for (int i = 0; i < n; i++)
            B[i] = i == at ? x : A[i];
    }
    c = cmp(A, n, B, m);
    View v = {.s = A, ._size = (uint64_t)n}, w = {.s = B, ._size = (uint64_t)m};
    ENSURES(v_eq(v, w) == (c == 0) && v_ne(v, w) == (c != 0), "views are equal exactly when their text is");
    ENSURES(v_lt(v, w) == (c < 0) && v_gt(v, w) == (c > 0), "views are ordered by length and then by bytes");
    ENSURES(v_le(v, w) == (c <= 0) && v_ge(v, w) == (c >= 0), "or-equal comparisons agree with that order");
    REACH("compare");
}
static bool at(const char *s, int n, int i, const char *p, int m)
{
    if (i + m > n)
        return false;
    for (int k = 0; k < m; k++)
        if (s[i + k] != p[k])
            return false;
    return true;
}
/*@ fn=__string.find __string.rfind __string.startswith __string.endswith __string.substr; kind=bounded; bound=text of up to 4 and part of up to 3 bytes, all contents; unwind=7; ncount=4000; timeout=200 */
void h_find(void)
{
    int n = anytext(A, N), m = anytext(B, 3), f = -1, l = -1;
    for (int i = 0; i <= n; i++)
        if (at(A, n, i, B, m)) {
            if (f < 0)
                f = i;
            l = i;
        }
    View v = {.s = A, ._size = (uint64_t)n}, w = {.s = B, ._size = (uint64_t)m};
    if (m > 0) {
        ENSURES(v_find(v, w) == f, "find delivers the first occurrence");
        ENSURES(v_rfind(v, w) == l, "rfind delivers the last occurrence");
    }
    ENSURES(v_starts(v, w) == at(A, n, 0, B, m), "startswith compares the beginning");
    ENSURES(v_ends(v, w) == (m <= n && at(A, n, n - m, B, m)), "endswith compares the end");
    REACH("find");
}
/*@ fn=__string.indexOf __string.rIndexOf __string.substr; kind=bounded; bound=views of up to 4 bytes, all contents; unwind=7; ncount=4000 */
void h_index(void)
{
    int n = anytext(A, N), f = -1, l = -1;
    char c = ALPHA();
    for (int i = 0; i < n; i++)
        if (A[i] == c) {
            if (f < 0)
                f = i;
            l = i;
        }
    View v = {.s = A, ._size = (uint64_t)n};
    ENSURES(v_index(v, c) == f, "indexOf delivers the first position");
    ENSURES(v_rindex(v, c) == l, "rIndexOf delivers the last position");
    uint64_t a = vf_range(0, N), k = vf_range(0, N);
    REQUIRES(a <= (uint64_t)n && k <= n - a);
    View s = v_sub(v, a, (int64_t)k), e = v_sub(v, a, -1);
    ENSURES(s.s == A + a && s._size == k, "substr delivers the part asked for");
    ENSURES(e.s == A + a && e._size == n - a, "substr without a count goes to the end");
    REACH("index");
}

/* ---- String ---------------------------------------------------------- */
#ifdef VF_NATIVE
#define CAP 400
#else
#define CAP 40
#endif
/* a String in any state its operations can leave it in: no buffer, or a buffer of capacity+1 bytes */
#ifndef HAS
#define HAS VF_BOOL()
#endif
#ifndef HOW
#define HOW ((int)vf_range(0, 2))
#endif
static Str *anystr(int max, char *copy, int *n)
{
    Str *s = s_new();
    *n = 0;
    if (HAS) {
        int cap = VF_BOOL() ? 16 : 17;
        s->_data = malloc(CAP + 1 + 60);
        s->_capacity = cap;
        *n = (int)vf_range(0, max);
        for (int i = 0; i < max; i++)
            if (i < *n)
                s->_data[i] = copy[i] = ALPHA();
        s->_data[*n] = 0;
        s->_size = (uint64_t)*n;
    }
    return s;
}
static bool holds(const Str *s, const char *x, int n)
{
    bool ok = s->_size == (uint64_t)n;
    if (!ok)
        return false;
    for (int i = 0; i < n; i++)
        ok &= s->_data[i] == x[i];
    if (s->_data)
        ok &= s->_data[n] == 0 && s->_size <= s->_capacity;
    return ok && (n == 0 || s->_data != NULL);
}
#define CALL(S, X) (__smart_ptr_get(S), X)
static char X[CAP + 64];
/*@ fn=String.append String.grow; kind=bounded; bound=appending up to 3 bytes to a String of up to 17 bytes, all contents; unwind=42; checks=mem; strictmem; cases=N0=-1,0,3,15,16,17; timeout=200; ncount=3000 */
void h_append(void)
{
#ifndef N0
#define N0 3
#endif
    Str *s = s_new();
    int n = N0 < 0 ? 0 : N0, m;
#ifdef VF_NATIVE
    n = (int)vf_range(0, 200);
#endif
    if (N0 >= 0 || n) {
        int cap = n > 16 ? n : 16;
        s->_data = malloc(cap + 1);
        s->_capacity = cap;
        for (int i = 0; i < n; i++)
            s->_data[i] = X[i] = ALPHA();
        s->_data[n] = 0;
        s->_size = n;
    }
    m = anytext(B, 3);
    s_append(CALL(s, s), B, m);
    for (int i = 0; i < 3; i++)
        if (i < m)
            X[n + i] = B[i];
    ENSURES(s->_size == (uint64_t)(n + m), "append adds its bytes");
    ENSURES(holds(s, X, n + m), "append keeps the text, adds the new bytes at the end and a NUL after them");
    REACH("append");
}
/*@ fn=String.trimLeft String.trimRight String.trim; kind=bounded; bound=Strings of up to 3 bytes, all contents; unwind=7; cases=HOW=0..2 HAS=0,1; ncount=3000 */
void h_strim(void)
{
    int n, a = 0, b, how = HOW;
    Str *s = anystr(3, X, &n);
    b = n;
    if (how != 1)
        while (a < n && SP(X[a]))
            a++;
    if (how != 0)
        while (b > a && SP(X[b - 1]))
            b--;
    if (how == 0)
        s_triml(CALL(s, s));
    else if (how == 1)
        s_trimr(CALL(s, s));
    else
        s_trim(CALL(s, s));
    ENSURES(holds(s, X + a, b - a), "trimming a String leaves exactly the text between the spaces, NUL terminated");
    REACH("strim");
}
/*@ fn=String.compare String.indexOf String.rIndexOf String.hash; kind=bounded; bound=Strings of up to 3 bytes, all contents; unwind=7; ncount=3000; timeout=200 */
void h_scompare(void)
{
    int n, m, f = -1, l = -1;
    Str *s = anystr(3, X, &n), *t = anystr(3, Z, &m);
    bool eq = n == m;
    for (int i = 0; i < n; i++)
        eq = eq && X[i] == Z[i];
    ENSURES(s_eq(CALL(s, s), CALL(t, t)) == eq && s_ne(CALL(s, s), CALL(t, t)) == !eq, "Strings are equal exactly when their text is");
    bool lt = s_lt(CALL(s, s), CALL(t, t)), gt = s_gt(CALL(s, s), CALL(t, t));
    ENSURES(lt + gt + eq == 1, "exactly one of less, equal and greater holds");
    ENSURES(n >= m || lt, "a shorter String comes first");
    ENSURES(s_lt(CALL(t, t), CALL(s, s)) == gt, "greater is less the other way round");
    ENSURES(!eq || s_hash(CALL(s, s)) == s_hash(CALL(t, t)), "equal Strings hash equally");
    char c = ALPHA();
    for (int i = 0; i < n; i++)
        if (X[i] == c) {
            if (f < 0)
                f = i;
            l = i;
        }
    ENSURES(s_index(CALL(s, s), c) == f, "String.indexOf delivers the first position");
    ENSURES(s_rindex(CALL(s, s), c) == l, "String.rIndexOf delivers the last position");
    REACH("scompare");
}
/*@ fn=String.clear String.reserve String.resize; kind=bounded; bound=Strings of up to 3 bytes; unwind=22; checks=mem; strictmem; ncount=3000 */
void h_sroom(void)
{
    int n;
    Str *s = anystr(3, X, &n);
    uint64_t want = vf_range(0, 40);
    s_reserve(CALL(s, s), want);
    ENSURES(s->_data && s->_capacity >= n + want && s->_size == (uint64_t)n, "reserve makes room for that many more bytes");
    for (int i = 0; i < n; i++)
        ENSURES(s->_data[i] == X[i], "reserve keeps the text");
    s->_data[s->_capacity] = 1;
    uint64_t sz = vf_range(0, 40);
    REQUIRES(sz <= s->_capacity);
    s_resize(CALL(s, s), sz);
    ENSURES(s->_size == sz && s->_data[sz] == 0, "resize sets the size and terminates the text there");
    s_clear(CALL(s, s));
    ENSURES(s->_size == 0 && s->_data == NULL && s->_capacity == 0, "clear empties the String");
    REACH("sroom");
}
/* every code point, against the definition of UTF-8 */
/*@ fn=OutputStream.appendChar; unwind=22; ncount=20000 */
void h_utf8(void)
{
    uint32_t c = (uint32_t)vf_range(0, 0x10FFFF);
    Str *s = s_new();
    uint8_t e[4];
    int n = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
    if (n == 1)
        e[0] = c;
    else {
        uint32_t r = c;
        for (int i = n - 1; i > 0; i--) {
            e[i] = 0x80 + r % 64;
            r /= 64;
        }
        e[0] = (n == 2 ? 0xC0 : n == 3 ? 0xE0 : 0xF0) + r;
    }
    s_char(CALL(s, s), (wchar_t)c);
    ENSURES(s->_size == (uint64_t)n, "a code point takes as many bytes as UTF-8 says");
    bool ok = true;
    for (int i = 0; i < n; i++)
        ok &= (uint8_t)s->_data[i] == e[i];
    ENSURES(ok && s->_data[n] == 0, "a code point is appended as its UTF-8 encoding");
    REACH("utf8");
}
/* ---- buffered stream -------------------------------------------------- */
static char out[256];
static int nout;
static bool ok77 = true;
int64_t write(int32_t fd, const void *p, uint64_t n)
{
    ok77 &= fd == 77;
#ifdef VF_NATIVE
    if (fd != 77)
        return 0;
#endif
    for (uint64_t i = 0; i < n; i++)
        out[nout++] = ((const char *)p)[i];
    return n;
}
/*@ fn=BufferedOutputStream.append BufferedOutputStream.sync; kind=bounded; bound=any fill of a buffer of 4 bytes, two further writes of up to 6 bytes and a sync, all contents; unwind=9; checks=mem; strictmem; timeout=200; ncount=5000 */
void h_buffer(void)
{
    char want[32];
    int k = 0;
    Snk *s = b_new(4);
    nout = 0;
    ok77 = true;
    s->_size = vf_range(0, 3);
    for (int i = 0; i < 3; i++)
        if (i < (int)s->_size)
            s->_buffer[i] = want[k++] = ALPHA();
    for (int w = 0; w < 2; w++) {
        char d[6];
        uint64_t n = vf_range(0, 6);
        for (int i = 0; i < 6; i++) {
            d[i] = ALPHA();
            if (i < (int)n)
                want[k++] = d[i];
        }
        b_append(CALL(s, s), d, n);
        ENSURES(s->_size < 4, "the buffer never fills up");
    }
    b_sync(CALL(s, s));
    bool ok = nout == k && s->_size == 0 && ok77;
    ENSURES(nout == k, "after a sync exactly the bytes written have been delivered");
    for (int i = 0; i < k; i++)
        ok &= out[i] == want[i];
    ENSURES(ok, "bytes are delivered in the order they were written");
    REACH("buffer");
}
/*@ fn=OutputStream.appendSignedInt; verify=0; ncount=20000 */
void h_print(void)
{
#ifdef VF_NATIVE
    extern int snprintf(char *, unsigned long, const char *, ...);
    Str *s = s_new();
    char b[256];
    uint64_t x = VF_U64() >> vf_range(0, 63);
    if (VF_BOOL())
        x = -x;
    p_i8(CALL(s, s), (int8_t)x);
    s_char(CALL(s, s), ' ');
    p_u8(CALL(s, s), (uint8_t)x);
    s_char(CALL(s, s), ' ');
    p_i32(CALL(s, s), (int32_t)x);
    s_char(CALL(s, s), ' ');
    p_u32(CALL(s, s), (uint32_t)x);
    s_char(CALL(s, s), ' ');
    p_i64(CALL(s, s), (int64_t)x);
    s_char(CALL(s, s), ' ');
    p_u64(CALL(s, s), x);
    s_char(CALL(s, s), ' ');
    p_bool(CALL(s, s), x & 1);
    View v = {.s = "abcdef", ._size = x & 3};
    p_view(CALL(s, s), v);
    int n = snprintf(b, sizeof b, "%d %u %d %u %ld %lu %s%.*s", (int8_t)x, (uint8_t)x, (int32_t)x, (uint32_t)x, (int64_t)x, x, x & 1 ? "true" : "false", (int)(x & 3), "abcdef");
    ENSURES(holds(s, b, n), "values are printed in decimal as what they are");
    REACH("print");
#endif
}
