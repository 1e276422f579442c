/* C06: escapes, characters and strings from source text to generated C. */
#include "vf.h"
#include <ctype.h>
#include "core/log.h"
static int is_digit(int c) { return c >= '0' && c <= '9'; }
static int is_hex(int c) { return is_digit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
#undef isdigit
#undef isxdigit
#define isdigit(c) is_digit((c))
#define isxdigit(c) is_hex((c))
#include "core/utils.c"
#ifndef N
#define N 4
#endif
static uint8_t in[N + 1];
static void bytes(void)
{
    for (unsigned i = 0; i < N; i++)
        in[i] = VF_U8();
    in[N] = 0;
}
static int hexval(int c) { return is_digit(c) ? c - '0' : (c | 32) - 'a' + 10; }
/* the language: an escape at p (n bytes available) denotes *v and has the length returned, 0 if it is none */
static size_t escape(const uint8_t *p, size_t len, uint32_t *v)
{
    static const char from[] = "ntvrab$\"'\\", to[] = "\n\t\v\r\a\b$\"'\\";
    if (len < 2)
        return 0;
    for (unsigned i = 0; i < 10; i++)
        if (p[1] == (uint8_t)from[i]) {
            *v = (uint8_t)to[i];
            return 2;
        }
    if (p[1] == 'x') {
        if (len < 3 || !is_hex(p[2]))
            return 0;
        *v = hexval(p[2]);
        if (len < 4 || !is_hex(p[3]))
            return 3;
        *v = *v * 16 + hexval(p[3]);
        return 4;
    }
    size_t i = 1;
    uint32_t o = 0;
    for (; i < 4 && i < len && p[i] >= '0' && p[i] <= '7'; i++)
        o = o * 8 + (p[i] - '0');
    if (i == 1 || o > 255)
        return 0;
    *v = o;
    return i;
}

/*@ fn=convertEscapeSeq,convertStrToCharOrd,convertStrToUtf32,countLeadingZeros; kind=bounded; bound=texts of up to 5 bytes (no escape or character is longer); unwind=12; cases=N=0..5 */
void h_escape(void)
{
    bytes();
    uint32_t got = 0, want = 0;
    size_t used = convertEscapeSeq((char *)in, N, &got);
#if N > 0
    if (in[0] == '\\') {
        size_t len = escape(in, N, &want);
        ENSURES(used == len, "the length of the escape");
        ENSURES(!len || got == want, "the value of the escape");
    } else if (in[0] < 0x80)
        ENSURES(used == 1 && got == in[0], "an ASCII character is itself");
    else {
        uint32_t lead = in[0], need = lead >= 0xc0 && lead < 0xe0 ? 2 : lead >= 0xe0 && lead < 0xf0 ? 3 : lead >= 0xf0 && lead < 0xf8 ? 4 : 0;
        bool ok = need && need <= N;
        want = need == 2 ? lead & 31 : need == 3 ? lead & 15 : lead & 7;
        for (unsigned i = 1; i < 4; i++)
            if (ok && i < need) {
                if (in[i] < 0x80 || in[i] > 0xbf)
                    ok = false;
                want = want * 64 + (in[i] & 63);
            }
        ENSURES(used == (ok ? need : 0), "the length of the UTF-8 sequence");
        ENSURES(!ok || got == want, "its code point");
    }
#else
    ENSURES(used == 0, "nothing is no character");
#endif
    REACH("escape");
}

/*@ fn=escapeString; kind=bounded; bound=string literals of up to 6 bytes; unwind=14; cases=N=0,1,3,5; tcases=N=0..6 */
void h_string(void)
{
    bytes();
    uint8_t want[N + 2];
    size_t m = 0;
    for (size_t i = 0; i < N;) {
        uint32_t v = 0;
        size_t len = in[i] == '\\' ? escape(in + i, N - i, &v) : 0;
        want[m++] = len ? (uint8_t)v : in[i];
        i += len ? len : 1;
    }
    /* room for the text and its terminator, nothing more (getStringLiteral) */
    char *out = malloc(N + 1);
    size_t got = escapeString((char *)in, N, out, N);
    ENSURES(got == m, "its length");
    for (size_t i = 0; i < N; i++)
        if (i < m)
            ENSURES((uint8_t)out[i] == want[i], "every character, with its escapes replaced");
    ENSURES(out[m] == 0, "terminated");
    free(out);
    REACH("string");
}
