/* C20: the runtime's hash functions are FNV-1a over the bytes of the value, byte swapping reverses bytes. */
#include "vf.h"
#define P 16777619u
static uint32_t step(uint32_t h, uint8_t b) { return (h ^ b) * P; }
static uint32_t spec(uint32_t h, uint64_t x, int n)
{
    for (int i = 0; i < n; i++)
        h = step(h, (uint8_t)(x >> (8 * i)));
    return h;
}
#ifndef VF_NATIVE
int32_t toupper(int32_t c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
#endif
/*@ fn=__bswap16 __bswap32 __bswap64; unwind=9 */
void h_bswap(void)
{
    uint16_t a = VF_U16();
    uint32_t b = VF_U32();
    uint64_t c = VF_U64(), r = 0, q = 0;
    for (int i = 0; i < 8; i++)
        r = r << 8 | ((c >> (8 * i)) & 255);
    for (int i = 0; i < 4; i++)
        q = q << 8 | ((b >> (8 * i)) & 255);
    ENSURES(w_bs16(a) == (uint16_t)(a << 8 | a >> 8), "16 bit swap reverses the bytes");
    ENSURES(w_bs32(b) == q, "32 bit swap reverses the bytes");
    ENSURES(w_bs64(c) == r, "64 bit swap reverses the bytes");
    ENSURES(w_bs64(w_bs64(c)) == c && w_bs32(w_bs32(b)) == b && w_bs16(w_bs16(a)) == a, "swapping twice is the identity");
    REACH("bswap");
}
/*@ fn=hash_fnv1a_uint8 hash_fnv1a_uint16 hash_fnv1a_uint32 hash_fnv1a_uint64; unwind=9; solver=z3 */
void h_ints(void)
{
    uint32_t h = VF_U32();
    uint64_t x = VF_U64();
    ENSURES(w_h8(h, (uint8_t)x) == step(h, (uint8_t)x), "a byte is mixed in and multiplied by the FNV prime");
    ENSURES(w_h16(h, (uint16_t)x) == spec(h, (uint16_t)x, 2), "16 bits are hashed low byte first");
    ENSURES(w_h32(h, (uint32_t)x) == spec(h, (uint32_t)x, 4), "32 bits are hashed low byte first");
    ENSURES(w_h64(h, x) == spec(h, x, 8), "64 bits are hashed low byte first");
    REACH("ints");
}
/*@ fn=hash; unwind=9; solver=z3 */
void h_generic(void)
{
    uint64_t x = VF_U64();
    ENSURES(w_hi8((int8_t)x) == spec(P, (uint8_t)x, 1) && w_hu8((uint8_t)x) == spec(P, (uint8_t)x, 1), "hash of an 8 bit integer");
    ENSURES(w_hi16((int16_t)x) == spec(P, (uint16_t)x, 2), "hash of a 16 bit integer");
    ENSURES(w_hi32((int32_t)x) == spec(P, (uint32_t)x, 4) && w_hu32((uint32_t)x) == spec(P, (uint32_t)x, 4), "hash of a 32 bit integer");
    ENSURES(w_hi64((int64_t)x) == spec(P, x, 8), "hash of a 64 bit integer");
    REACH("generic");
}
#ifndef L
#define L 3
#endif
#ifdef VF_NATIVE
#undef L
#define L 130
#define LEN() ((int)vf_range(0, 700))
#define CAP 704
#else
#define LEN() L
#define CAP (L + 1)
#endif
/* lengths across the 8 bit index boundary, all contents */
/*@ fn=hash_fnv1a_string hash_fnv1a_n_string hash_fnv1a_bytes hash_fnv1a_string_n_igc hash_fnv1a_string_igc __string.hash; unwind=310; solver=z3; kind=bounded; bound=lengths 0,1,2,3,7 (0..12 thorough) with all contents and seeds, 130 (127..131, 255..258 thorough) with a fixed text and all seeds; cases=L=0,1,2,3,7,130; tcases=L=0..12,127..131,255..258; timeout=100 */
void h_text(void)
{
    char s[CAP];
    uint32_t h = VF_U32(), want = h, wantc = h;
    int n = LEN();
    for (int i = 0; i < n; i++) {
        s[i] = L > 100 && n > 100 ? (char)(1 + i * 7 % 250) : (char)VF_U8();
        REQUIRES(s[i] != 0);
        want = step(want, (uint8_t)s[i]);
        wantc = step(wantc, (uint8_t)toupper(s[i]));
    }
    s[n] = 0;
    ENSURES(w_hstr(h, s) == want, "a string is hashed over all its characters");
    ENSURES(w_hnstr(h, s, n) == want, "a counted string is hashed over all its characters");
    ENSURES(w_hbytes(h, s, n) == want, "a buffer is hashed over all its bytes");
    ENSURES(w_hcase(h, s, n) == wantc, "a counted string is hashed without regard to case");
    ENSURES(w_hcasez(h, s) == wantc, "a string is hashed without regard to case");
    T_w_hview_0 v = {.s = s, ._size = (uint64_t)n};
    want = P;
    for (int i = 0; i < n; i++)
        want = step(want, (uint8_t)s[i]);
    ENSURES(w_hview(v) == want && w_hlit(s) == want, "equal text hashes equally as view and as literal");
    REACH("text");
}
/*@ fn=hash_fnv1a_n_string hash_fnv1a_bytes hash_fnv1a_string_n_igc __string.hash; unwind=10; solver=z3; kind=bounded; bound=lengths 1,2,3,5 (1..9 thorough), all contents (NUL bytes included) and seeds; cases=L=1,2,3,5; tcases=L=1..9; timeout=100 */
void h_counted(void)
{
    char s[CAP];
    uint32_t h = VF_U32(), want = h, wantc = h, wantv = P;
    int n = LEN();
    for (int i = 0; i < n; i++) {
        s[i] = (char)VF_U8();
        want = step(want, (uint8_t)s[i]);
        wantc = step(wantc, (uint8_t)toupper(s[i]));
        wantv = step(wantv, (uint8_t)s[i]);
    }
    s[n] = (char)VF_U8();
    ENSURES(w_hnstr(h, s, n) == want, "a counted string is hashed over all its bytes, NUL or not");
    ENSURES(w_hbytes(h, s, n) == want, "a buffer is hashed over all its bytes, NUL or not");
    ENSURES(w_hcase(h, s, n) == wantc, "a counted string with NULs is hashed without regard to case");
    T_w_hview_0 v = {.s = s, ._size = (uint64_t)n};
    ENSURES(w_hview(v) == wantv, "a view is hashed over all its bytes, NUL or not");
    REACH("counted");
}
