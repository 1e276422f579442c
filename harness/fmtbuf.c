/* C06: what the generator writes arrives in the generated file unchanged. */
#include "vf.h"
#include "core/log.h"
#include "core/format.c"
#ifndef N
#define N 4
#endif
static FormatState st;
static unsigned size0;
static char before[4];
static void given(size_t capacity, size_t size)
{
    st = (FormatState){0};
    size0 = size;
    if (capacity) {
        FormatBuf *b = malloc(sizeof(FormatBuf) + capacity);
        b->capacity = capacity, b->size = size, b->next = NULL;
        vf_bytes(before, 4);
        for (unsigned i = 0; i < size; i++)
            b->data[i] = before[i];
        st.firstBuf = st.currentBuf = b;
    }
}
static void expect(const uint8_t *want, unsigned m)
{
    char *s = formatStateToString(&st);
    for (unsigned i = 0; i < size0; i++)
        ENSURES(s[i] == before[i], "what was there stays");
    for (unsigned i = 0; i < m; i++)
        ENSURES((uint8_t)s[size0 + i] == want[i], "then exactly what was written");
    ENSURES(s[size0 + m] == 0, "and nothing else");
}

#ifndef CAP
#define CAP 0
#endif
#ifndef SIZE
#define SIZE 0
#endif
/*@ fn=append,write,reserveBuf,advanceBuf,formatStateToString; kind=bounded; bound=texts of up to 4 bytes, buffers with no room, exactly enough and some; unwind=12; cases=N=1,4 CAP=0,4,8 SIZE=0,4 */
void h_append(void)
{
    given(CAP, CAP ? SIZE : 0);
    uint8_t t[N];
    vf_bytes(t, N);
    append(&st, (char *)t, N);
    expect(t, N);
    REACH("append");
}

#ifndef LEN
#define LEN 1
#endif
/*@ fn=printUtf8; kind=bounded; bound=every code point, by length of its encoding; unwind=12; cases=LEN=1,2,3,4 */
void h_utf8(void)
{
    given(CAP, CAP ? SIZE : 0);
    uint32_t c = VF_U32();
    bool esc = VF_BOOL();
    static const uint32_t lo[] = {0, 0, 0x80, 0x800, 0x10000}, hi[] = {0, 0x7f, 0x7ff, 0xffff, 0x10ffff};
    REQUIRES(c >= lo[LEN] && c <= hi[LEN]);
    uint8_t w[5];
    static const char from[] = "\n\t\v\r\a\b\"\\", to[] = "ntvrab\"\\";
#if LEN == 1
    for (unsigned i = 0; i < 8; i++)
        if (esc && c == (uint8_t)from[i]) {
            printUtf8(&st, (uint8_t)from[i], true);
            w[0] = '\\', w[1] = to[i];
            expect(w, 2);
            REACH("escaped");
            return;
        }
    REQUIRES(c || !esc);
    w[0] = c;
#elif LEN == 2
    w[0] = 0xc0 | c >> 6, w[1] = 0x80 | (c & 63);
#elif LEN == 3
    w[0] = 0xe0 | c >> 12, w[1] = 0x80 | (c >> 6 & 63), w[2] = 0x80 | (c & 63);
#else
    w[0] = 0xf0 | c >> 18, w[1] = 0x80 | (c >> 12 & 63), w[2] = 0x80 | (c >> 6 & 63), w[3] = 0x80 | (c & 63);
#endif
    printUtf8(&st, c, esc);
    expect(w, LEN);
    REACH("utf8");
}
