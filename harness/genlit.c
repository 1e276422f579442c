/* C06: the C text generated for a literal has the value of the literal. */
#include "vf.h"
#include <stdarg.h>
#include <stdio.h>
#include "core/log.h"
#include "lang/frontend/ast.h"
#include "lang/frontend/flag.h"
#include "lang/frontend/ttable.h"
#include "lang/frontend/visitor.h"
#ifndef N
#define N 3
#endif
/* what is generated: pieces of text, characters and numbers */
static char out[8 * N + 16];
static unsigned m, pieces;
static const char *fmt;
static FormatArg arg;
static void put(const char *s)
{
    while (*s)
        out[m++] = *s++;
}
static void vf_format(FormatState *state, const char *f, const FormatArg *args)
{
    pieces++;
    fmt = f;
    if (args)
        arg = args[0];
    if (f[0] == '{' && f[1] == 's' && f[2] == '}' && !f[3])
        put(args[0].s);
    else if (f[0] != '{' && f[1] != '{')
        put(f);
}
/* printUtf8 as proved in h_utf8 for ASCII */
static void vf_printUtf8(FormatState *state, uint32_t c, bool escaped)
{
    ENSURES(c < 0x80, "an ASCII character");
    static const char from[] = "\n\t\v\r\a\b\"\\", to[] = "ntvrab\"\\";
    if (escaped)
        for (unsigned i = 0; i < 8; i++)
            if (c == (uint8_t)from[i]) {
                out[m++] = '\\', out[m++] = to[i];
                return;
            }
    out[m++] = (char)c;
}
static double floated;
static int octal(char *p, unsigned v)
{
    p[0] = '\\', p[1] = '0' + v / 64, p[2] = '0' + v / 8 % 8, p[3] = '0' + v % 8, p[4] = 0;
    return 4;
}
static int vf_octal(char *p, size_t size, const char *f, unsigned v)
{
    ENSURES(size >= 5 && f[0] == '\\' && f[1] == '%' && f[2] == '0' && f[3] == '3' && f[4] == 'o' && !f[5], "three octal digits");
    return octal(p, v);
}
static int vf_float(char *p, size_t size, const char *f, double d)
{
    ENSURES(size >= 25 && f[0] == '%' && f[1] == '.' && f[2] == '1' && ((f[3] >= '6' && f[4] == 'e') || (f[3] >= '7' && f[4] == 'g')) && !f[5], "17 significant digits identify a double");
    floated = d;
    p[0] = 'F', p[1] = 0;
    return 1;
}
#define vf_snprintf(p, size, f, v) _Generic((v) + 0, double : vf_float, default : vf_octal)(p, size, f, v)
#define format vf_format
#define printUtf8 vf_printUtf8
#define snprintf(...) vf_snprintf(__VA_ARGS__)
#include "lang/backend/c/generate.c"
static CodegenContext ctx;
static ConstAstVisitor V;
static AstNode node;
static Type type;
static void given(void)
{
    m = pieces = 0, fmt = NULL;
    V = (ConstAstVisitor){.context = &ctx};
    node = (AstNode){.type = &type};
}

/*@ fn=visitStringLit; kind=bounded; bound=strings of up to 4 bytes; unwind=40; cases=N=0,1,3; tcases=N=0..4 */
void h_str(void)
{
    given();
    static uint8_t s[N + 1];
    for (unsigned i = 0; i < N; i++) {
        s[i] = VF_U8();
        REQUIRES(s[i]);
    }
    s[N] = 0;
    node.stringLiteral.value = (char *)s;
    visitStringLit(&V, &node);
    /* read it as C does */
    ENSURES(out[0] == '"', "a string");
    unsigned i = 1;
    for (unsigned k = 0; k < N; k++) {
        uint8_t c = out[i];
        ENSURES(c != '"' && c >= 32 && c < 127, "printable C source");
        if (c == '\\') {
            c = out[i + 1];
            if (c >= '0' && c <= '7') {
                unsigned v = 0, d = 0;
                for (; d < 3 && out[i + 1] >= '0' && out[i + 1] <= '7'; d++, i++)
                    v = v * 8 + (out[i + 1] - '0');
                c = v, i++;
            } else {
                static const char from[] = "ntvrab\"\\", to[] = "\n\t\v\r\a\b\"\\";
                bool known = false;
                for (unsigned e = 0; e < 8; e++)
                    if (c == (uint8_t)from[e] && !known)
                        c = to[e], known = true;
                ENSURES(known, "an escape of C");
                i += 2;
            }
        } else
            i++;
        ENSURES(c == s[k], "every character of the text");
    }
    ENSURES(out[i] == '"' && i + 1 == m, "and nothing else");
    REACH("str");
}

/*@ fn=visitCharLit; unwind=20 */
void h_chr(void)
{
    given();
    uint32_t c = VF_U32();
    REQUIRES(c <= 0x10ffff);
    node.charLiteral.value = c;
    visitCharLit(&V, &node);
    ENSURES(pieces == 1, "one piece of text");
    if (fmt[0] == '{')
        ENSURES(!strcmp(fmt, "{i64}") && arg.i64 == c, "the value of the character");
    else
        ENSURES(!strcmp(fmt, "'{cE}'") && arg.c == c && c < 0x80 && c != '\'', "a C character literal of that character");
    REACH("chr");
}

#ifndef ID
#define ID prtI64
#endif
/*@ fn=visitIntegerLit; unwind=60; cases=ID=prtU8,prtU64,prtI8,prtI64,prtF64 */
void h_int(void)
{
    given();
    type = (Type){.tag = typPrimitive, .primitive.id = ID};
    node.intLiteral.isNegative = VF_BOOL();
    node.intLiteral.uValue = VF_U64();
    REQUIRES(!node.intLiteral.isNegative || node.intLiteral.value <= 0);
    visitIntegerLit(&V, &node);
    ENSURES(pieces == 1, "one piece of text");
    if (fmt[0] == '(')
        ENSURES(!strcmp(fmt, "(-9223372036854775807 - 1)") && node.intLiteral.isNegative && node.intLiteral.value == INT64_MIN, "the least i64");
    else if (node.intLiteral.isNegative)
        ENSURES(!strcmp(fmt, "{i64}") && arg.i64 == node.intLiteral.value && arg.i64 != INT64_MIN, "a negative value");
    else
        ENSURES((!strcmp(fmt, "{u64}u") || (!strcmp(fmt, "{u64}") && (ID == prtF64 || ID == prtI8 || ID == prtI64))) && arg.u64 == node.intLiteral.uValue, "a value, unsigned if its type is");
    REACH("int");
}

/*@ fn=visitFloatLit; unwind=20 */
void h_flt(void)
{
    given();
    double d = VF_F64();
    REQUIRES(d == d && d - d == 0);
    node.floatLiteral.value = d;
    visitFloatLit(&V, &node);
    ENSURES(pieces == 1 && m == 1 && out[0] == 'F' && floated == d, "the value in full");
    REACH("flt");
}
