/* C06: tokens are exactly what the source text spells. */
#include "vf.h"
#include <ctype.h>
#include <errno.h>
#include <inttypes.h>
#include "core/log.h"
#include "core/htable.h"
#include "core/hash.h"
#include "core/utils.h"
#include "core/alloc.h"
/* the C locale, whatever the platform's tables look like */
static int is_space(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static int is_digit(int c) { return c >= '0' && c <= '9'; }
static int is_alpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static int is_hex(int c) { return is_digit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static int is_punct(int c) { return c > 32 && c < 127 && !is_digit(c) && !is_alpha(c); }
#undef isspace
#undef isdigit
#undef isalpha
#undef isalnum
#undef isxdigit
#undef ispunct
#define isspace(c) is_space((c))
#define isdigit(c) is_digit((c))
#define isalpha(c) is_alpha((c))
#define isalnum(c) (is_alpha((c)) || is_digit((c)))
#define isxdigit(c) is_hex((c))
#define ispunct(c) is_punct((c))

#ifndef N
#define N 5
#endif
#ifndef J
#define J 0
#endif
#ifndef SEG
#define SEG 0
#endif
#ifndef K
#define K 0
#endif
/* the text is exactly N characters; the first one is fixed where its kind decides the token */
static char text[N + 1];
enum { n = N };
/* contracts of the functions the lexer calls */
static unsigned errors;
static void vf_logError(Log *log, const FileLoc *loc, cstring fmt, const FormatArg *args) { errors++; }
static int vf_errno;
static bool overflow;
static const char *num_at;
static int num_base;
static uintmax_t vf_strtoumax(const char *p, char **end, int base)
{
    num_at = p, num_base = base;
    uintmax_t v = 0;
    for (; *p; p++) {
        int d = is_digit(*p) ? *p - '0' : is_alpha(*p) ? (*p | 32) - 'a' + 10 : 99;
        if (d >= base)
            break;
        v = v * base + d;
    }
    if (overflow) {
        vf_errno = ERANGE;
        return UINTMAX_MAX;
    }
    return v;
}
static double float_val;
static double vf_strtod(const char *p, char **end)
{
    num_at = p;
    return float_val;
}
static const char *esc_at;
static size_t esc_n, esc_used;
static u32 esc_val;
static size_t vf_convertEscapeSeq(const char *p, size_t len, u32 *res)
{
    esc_at = p, esc_n = len;
    *res = esc_val;
    return esc_used;
}
static bool is_keyword;
static const char *key_at;
static size_t key_len;
static void *vf_findInHashTable(const HashTable *t, const void *e, u32 hash, size_t size, bool (*cmp)(const void *, const void *));
static u32 vf_hashRawBytes(u32 h, const void *p, size_t len)
{
    ENSURES(p == key_at || !key_at, "the hash is over the name");
    key_at = p, key_len = len;
    return 7;
}
#undef errno
#define errno vf_errno
#define logError vf_logError
#define strtoumax vf_strtoumax
#define strtod vf_strtod
#define convertEscapeSeq vf_convertEscapeSeq
#define findInHashTable vf_findInHashTable
#define hashRawBytes vf_hashRawBytes
#define readFile vf_readFile
static char *vf_readFile(const char *name, size_t *size);
#include "lang/frontend/lexer.c"
static Keyword found = {.tag = tokWhile};
static void *vf_findInHashTable(const HashTable *t, const void *e, u32 hash, size_t size, bool (*cmp)(const void *, const void *))
{
    const Keyword *k = e;
    ENSURES(k->name == key_at && k->len == key_len && hash == 7 && size == sizeof(Keyword) && cmp == compareKeywords, "the name looked up is the name hashed");
    return is_keyword ? &found : NULL;
}
static char other[4];
static char *vf_readFile(const char *name, size_t *size)
{
    *size = 2;
    return other;
}

static Lexer L;
static LexerBuffer B;
static void given(const char *start)
{
    errors = 0, vf_errno = 0, overflow = false, num_at = key_at = esc_at = NULL, is_keyword = false;
    for (size_t i = 0; i < N; i++) {
        if (*start) {
            text[i] = *start++;
            continue;
        }
        text[i] = (char)VF_U8();
        REQUIRES(text[i] != 0);
    }
    text[N] = 0;
    B = (LexerBuffer){.fileName = "f", .fileData = text, .fileSize = n, .filePos = {.row = 1, .col = 1}};
    L = (Lexer){.buffer = &B};
}
static int at(size_t i) { return i < n ? (unsigned char)text[i] : -1; }
/* where the i-th character is */
static bool pos_is(const FilePos *p, size_t k)
{
    uint32_t row = 1, col = 1;
    for (size_t i = 0; i < N; i++)
        if (i < k) {
            if (at(i) == '\n')
                row++, col = 1;
            else
                col++;
        }
    return p->byteOffset == k && p->row == row && p->col == col;
}
static void is(const Token *t, TokenTag tag, size_t from, size_t to)
{
    ENSURES(t->tag == tag, "the kind of token");
    ENSURES(pos_is(&t->fileLoc.begin, from), "it starts where the text starts");
    ENSURES(pos_is(&t->fileLoc.end, to), "and ends where it ends");
    ENSURES(pos_is(&L.buffer->filePos, to), "lexing goes on behind it");
    ENSURES(t->buffer == &B, "in its buffer");
}
static bool punct_end(int c) { return c == -1 || (c != '_' && (is_space(c) || is_punct(c))); }

/*@ fn=advanceLexer,acceptChar,skipChar,makeToken; kind=bounded; bound=operators followed by up to 3 arbitrary characters; unwind=8; unwindset=h_punct.0:70; cases=N=3 K=0..29; tcases=N=2,3,4 K=0..29 */
void h_punct(void)
{
    static const char *const first[] = {"(", ")", "[", "]", "{", "}", ".", ",", ":", ";", "#", "`", "@", "?", "!", "~", "+", "-", "*", "%", "&", "|", "^", "<", ">", "=", "/=", "/x", "/-", "/ "};
    given(first[K]);
    static const struct { char s[4]; uint8_t len; TokenTag t; } P[] = {
        {"(", 1, tokLParen}, {")", 1, tokRParen}, {"[", 1, tokLBracket}, {"]", 1, tokRBracket}, {"{", 1, tokLBrace}, {"}", 1, tokRBrace},
        {".", 1, tokDot}, {"..", 2, tokDotDot}, {"...", 3, tokElipsis}, {".[", 2, tokIndexExpr}, {",", 1, tokComma}, {":", 1, tokColon},
        {";", 1, tokSemicolon}, {"#", 1, tokHash}, {"#{", 2, tokSubstitutue}, {"#.", 2, tokAstMacroAccess}, {"##", 2, tokDefine},
        {"`", 1, tokQuote}, {"@", 1, tokAt}, {"?", 1, tokQuestion}, {"!", 1, tokLNot}, {"!=", 2, tokNotEqual}, {"!:", 2, tokBangColon},
        {"~", 1, tokBNot}, {"+", 1, tokPlus}, {"++", 2, tokPlusPlus}, {"+=", 2, tokPlusEqual}, {"-", 1, tokMinus}, {"--", 2, tokMinusMinus},
        {"-=", 2, tokMinusEqual}, {"->", 2, tokThinArrow}, {"*", 1, tokMult}, {"*=", 2, tokMultEqual}, {"%", 1, tokMod}, {"%=", 2, tokModEqual},
        {"&", 1, tokBAnd}, {"&&", 2, tokLAnd}, {"&=", 2, tokBAndEqual}, {"&.", 2, tokBAndDot}, {"|", 1, tokBOr}, {"||", 2, tokLOr},
        {"|=", 2, tokBOrEqual}, {"^", 1, tokBXor}, {"^=", 2, tokBXorEqual}, {"<", 1, tokLess}, {"<=", 2, tokLessEqual}, {"<<", 2, tokShl},
        {"<<=", 3, tokShlEqual}, {">", 1, tokGreater}, {">=", 2, tokGreaterEqual}, {">>", 2, tokShr}, {">>=", 3, tokShrEqual},
        {"=", 1, tokAssign}, {"==", 2, tokEqual}, {"=>", 2, tokFatArrow}, {"/", 1, tokDiv}, {"/=", 2, tokDivEqual}};
    size_t best = 0;
    TokenTag tag = tokError;
    for (unsigned i = 0; i < sizeof(P) / sizeof(P[0]); i++) {
        size_t l = P[i].len;
        if (l > best && at(0) == P[i].s[0] && (l < 2 || at(1) == P[i].s[1]) && (l < 3 || at(2) == P[i].s[2]))
            best = l, tag = P[i].t;
    }
    REQUIRES(best > 0);
    bool dot = VF_BOOL();
    L.flags = dot ? lxMaybeNotFloat : lxNone;
    Token t = advanceLexer(&L);
    is(&t, tag, 0, best);
    ENSURES(!errors, "no error");
    ENSURES(!!(L.flags & lxMaybeNotFloat) == (tag == tokDot || (dot && at(0) == '.')), "only the digits behind a dot are no float");
    REACH("punct");
}

/*@ fn=skipMultiLineComment,acceptChar,skipChar; kind=bounded; bound=comments of up to 7 characters; unwind=10; cases=N=2,3,5,7 */
void h_block(void)
{
    given("");
    size_t i = 0, nest = 1;
    for (size_t k = 0; k < N; k++)
        if (i < n && nest) {
            if (at(i) == '/' && at(i + 1) == '*')
                nest++, i += 2;
            else if (at(i) == '*' && at(i + 1) == '/')
                nest--, i += 2;
            else
                i++;
        }
    bool closed = skipMultiLineComment(&L);
    ENSURES(closed == (nest == 0), "comments nest");
    ENSURES(pos_is(&B.filePos, i), "it ends behind its last character");
#if N >= 5
    if (closed && i == 5)
        REACH("closed");
#endif
    REACH("block");
}

/*@ fn=skipSingleLineComment; kind=bounded; bound=comments of up to 6 characters; unwind=9; cases=N=1,6 */
void h_line(void)
{
    given("");
    size_t i = 0;
    for (size_t k = 0; k < N && at(k) != '\n'; k++)
        i++;
    skipSingleLineComment(&L);
    ENSURES(pos_is(&B.filePos, i), "it ends in front of the end of the line");
    REACH("line");
}

/*@ fn=skipSpaces; kind=bounded; bound=up to 6 characters; unwind=9; cases=N=1,6 */
void h_space(void)
{
    given("");
    size_t i = 0;
    for (size_t k = 0; k < N && is_space(at(k)); k++)
        i++;
    skipSpaces(&L);
    ENSURES(pos_is(&B.filePos, i), "exactly the white space is skipped");
    REACH("space");
}

static unsigned skipped;
static bool closes;
static void to(size_t k)
{
    while (L.buffer->filePos.byteOffset < k)
        skipChar(&L);
}
#ifndef CLOSES
#define CLOSES 0
#endif
/* contracts of the skip functions (h_block, h_line, h_space) on the fixed texts below */
void vf_skipSpaces(Lexer *l)
{
    while (at(B.filePos.byteOffset) == ' ')
        to(B.filePos.byteOffset + 1);
}
void vf_skipSingleLineComment(Lexer *l)
{
    ENSURES(B.filePos.byteOffset == 3 && text[2] == '/', "the comment starts behind its mark");
    skipped |= 1;
    to(5);
}
bool vf_skipMultiLineComment(Lexer *l)
{
    ENSURES(B.filePos.byteOffset == 3 && text[2] == '*', "the comment starts behind its mark");
    skipped |= 2;
    to(closes ? 5 : 7);
    return closes;
}
#ifndef TEXT
#define TEXT 0
#endif
/*@ fn=advanceLexer; kind=bounded; bound=four arrangements of comments, white space and a token; unwind=10; cases=N=7 TEXT=0..3 CLOSES=0,1; replace=skipSpaces:vf_skipSpaces,skipSingleLineComment:vf_skipSingleLineComment,skipMultiLineComment:vf_skipMultiLineComment; native=0 */
void h_comment(void)
{
    given(TEXT == 0 ? " //ab ;" : TEXT == 1 ? " /*ab;," : TEXT == 2 ? " /*ab  " : " //ab  ");
    skipped = 0;
    closes = CLOSES;
    Token t = advanceLexer(&L);
    ENSURES(skipped == (TEXT == 0 || TEXT == 3 ? 1 : 2), "the comment is skipped");
    if ((TEXT == 1 || TEXT == 2) && !closes) {
        ENSURES(errors == 1, "an open comment is reported");
        is(&t, tokError, 1, 7);
    } else {
        ENSURES(!errors, "no error");
        if (TEXT == 0)
            is(&t, tokSemicolon, 6, 7);
        else if (TEXT == 1)
            is(&t, tokSemicolon, 5, 6);
        else
            is(&t, tokEoF, 7, 7);
    }
    REACH("comment");
}

/*@ fn=advanceLexer,makeIntLiteral,makeFloatLiteral,skipUntilSpaceOrPunctuation; kind=bounded; bound=numbers of up to 5 characters including what follows; unwind=9; cases=N=5 K=0..6; tcases=N=4..7 K=0..6 */
void h_number(void)
{
    static const char *const starts[] = {"0", "7", "0b", "0o", "0x", "1.", "0.5e"};
    given(starts[K]);
    L.flags = VF_BOOL() ? lxMaybeNotFloat : lxNone;
    float_val = VF_F64();
    overflow = VF_BOOL();
    bool member = L.flags & lxMaybeNotFloat;
    int base = at(0) != '0' ? 10 : at(1) == 'x' ? 16 : at(1) == 'o' ? 8 : at(1) == 'b' ? 2 : 10;
    size_t start = base == 10 ? 0 : 2, i = start;
    uintmax_t v = 0;
    for (size_t k = 0; k < N; k++) {
        int c = at(i), d = is_digit(c) ? c - '0' : is_hex(c) ? (c | 32) - 'a' + 10 : 99;
        if (d < base)
            v = v * base + d, i++;
        else
            break;
    }
    bool isfloat = false, bad = false;
    size_t end = i;
    if (base == 10) {
        if (at(i) == '.' && at(i + 1) != '.' && at(i + 1) != '[' && !member) {
            isfloat = true;
            end = i + 1;
            for (size_t k = 0; k < N && is_digit(at(end)); k++)
                end++;
            if (at(end) == 'e') {
                end++;
                if (at(end) == '+' || at(end) == '-')
                    end++;
                for (size_t k = 0; k < N && is_digit(at(end)); k++)
                    end++;
            }
        }
    } else {
        for (size_t k = 0; k < N && !punct_end(at(end)); k++)
            end++;
        bad = end != i || i == start;
    }
    Token t = advanceLexer(&L);
    if (isfloat) {
        is(&t, tokFloatLiteral, 0, end);
        ENSURES(num_at == text, "the digits are read from the start of the token");
        ENSURES(!errors && (t.fVal == float_val || float_val != float_val), "its value");
#if K < 2 || K > 4
        REACH("float");
#endif
    } else if (bad || overflow) {
        is(&t, tokError, 0, end);
        ENSURES(errors == 1, "an impossible number is reported");
        REACH("bad");
    } else {
        is(&t, tokIntLiteral, 0, end);
        ENSURES(num_at == text + start && num_base == base, "the digits behind the prefix are read in its base");
        ENSURES(!errors && t.iVal == v, "its value");
        REACH("int");
    }
}

/*@ fn=advanceLexer; kind=bounded; bound=names of up to 5 characters including what follows; unwind=8; cases=N=5 K=0..3 */
void h_name(void)
{
    static const char *const starts[] = {"_", "a", "f", "Z", "F"};
    given(starts[K]);
    REQUIRES(!(at(0) == 'f' && at(1) == '"'));
    is_keyword = VF_BOOL();
    size_t e = 1;
    for (size_t k = 0; k < N; k++)
        if (at(e) == '_' || is_alpha(at(e)) || is_digit(at(e)))
            e++;
    Token t = advanceLexer(&L);
    is(&t, is_keyword ? tokWhile : tokIdent, 0, e);
    ENSURES(key_at == text && key_len == e && !errors, "the whole name is looked up");
    REACH("name");
}

/*@ fn=compareKeywords; kind=bounded; bound=names of up to 4 characters; unwind=8 */
void h_keyword(void)
{
    static char a[4], b[4];
    vf_bytes(a, 4), vf_bytes(b, 4);
    Keyword l = {a, vf_range(0, 4), tokIdent}, r = {b, vf_range(0, 4), tokIf};
    bool eq = l.len == r.len;
    for (unsigned i = 0; i < 4; i++)
        if (i < l.len && a[i] != b[i])
            eq = false;
    ENSURES(compareKeywords(&l, &r) == eq, "keywords are equal when length and text are");
    REACH("keyword");
}

/*@ fn=advanceLexer; kind=bounded; bound=character literals of up to 6 bytes including what follows; unwind=9; cases=N=1,2,4,6 */
void h_char(void)
{
    given("'");
    esc_val = VF_U32(), esc_used = VF_U8();
    size_t e = 1;
    for (size_t k = 0; k < N; k++)
        if (at(e) != '\'' && at(e) != '\n' && at(e) != -1)
            e += at(e) == '\\' ? 2 : 1;
    bool closed = at(e) == '\'';
    Token t = advanceLexer(&L);
    if (closed && e > 1 && esc_used == e - 1) {
        ENSURES(t.tag == tokCharLiteral && t.cVal == esc_val && !errors, "the value of the character");
        ENSURES(esc_at == text + 1 && esc_n == e - 1, "of exactly the text between the quotes");
        ENSURES(pos_is(&L.buffer->filePos, e + 1), "lexing goes on behind it");
#if N > 2
        REACH("char");
#endif
    } else {
        ENSURES(t.tag == tokError && errors == 1, "anything else is reported");
        REACH("bad");
    }
}

/*@ fn=advanceLexer; kind=bounded; bound=string literals of up to 5 bytes including what follows; unwind=9; cases=N=2,5; tcases=N=2..7; tunwind=11 */
void h_string(void)
{
    given("\"");
    REQUIRES(at(1) != '"' || at(2) != '"');
    L.flags = VF_BOOL() ? lxContinueStringExpr : lxNone;
    u32 before = L.flags;
    size_t e = 1;
    bool open = true;
    for (size_t k = 0; k < N; k++)
        if (e < n && open) {
            if (at(e) == '"')
                open = false;
            else if (at(e) == '\\')
                e += 2;
            else if (at(e) == '\n') {
                if (at(e + 1) != '\\')
                    break;
                e += 2;
            } else
                e++;
        }
    Token t = advanceLexer(&L);
    if (open) {
        ENSURES(t.tag == tokError && errors == 1, "an open string is reported");
        REACH("open");
    } else {
        is(&t, tokStringLiteral, 0, e + 1);
        ENSURES(!errors && L.flags == before, "a string inside a format string leaves it open");
        REACH("string");
    }
}

/*@ fn=multilineString,advanceLexer; kind=bounded; bound=raw strings of up to 8 bytes; unwind=13; cases=N=4,6,8 */
void h_raw(void)
{
    given("\"\"\"");
    size_t e = 3;
    bool open = true;
    for (size_t k = 0; k < N; k++)
        if (e < n && open) {
            if (at(e) == '"' && at(e + 1) == '"' && at(e + 2) == '"')
                open = false;
            else
                e++;
        }
    Token t = advanceLexer(&L);
    if (open) {
        ENSURES(t.tag == tokError && errors == 1, "an open string is reported");
        REACH("open");
    } else {
        ENSURES(t.tag == tokStringLiteral && !errors, "a string");
        ENSURES(pos_is(&t.fileLoc.begin, 2) && pos_is(&t.fileLoc.end, e + 1), "of the text between the quotes");
        ENSURES(pos_is(&L.buffer->filePos, e + 3), "lexing goes on behind it");
#if N > 5
        REACH("raw");
#endif
    }
}

/*@ fn=advanceLexer; kind=bounded; bound=format string segments of up to 5 bytes; unwind=9; cases=N=5 SEG=0,1; tcases=N=2..6 SEG=0,1 */
void h_format(void)
{
    /* the first part starts at the quote, the next ones at the brace that ends the value before */
    given(SEG ? "}" : "\"");
    L.flags = SEG ? lxContinueStringExpr : lxEnterStringExpr;
    size_t e = 1;
    int how = 0; /* 1 closed, 2 a value follows */
    for (size_t k = 0; k < N; k++)
        if (e < n && !how) {
            if (at(e) == '"')
                how = 1;
            else if (at(e) == '\\')
                e += 2;
            else if (at(e) == '\n') {
                if (at(e + 1) != '\\')
                    break;
                e += 2;
            } else if (at(e) == '$' && at(e + 1) == '{')
                how = 2;
            else
                e++;
        }
    Token t = advanceLexer(&L);
    if (!how) {
        ENSURES(t.tag == tokError && errors == 1, "an open string is reported");
        REACH("open");
    } else {
        ENSURES(t.tag == tokStringLiteral && !errors && t.buffer == &B, "a part of the string");
        ENSURES(pos_is(&t.fileLoc.begin, 0) && pos_is(&t.fileLoc.end, e + 1), "exactly the text in front of the value");
        ENSURES(pos_is(&L.buffer->filePos, e + how), "lexing goes on behind it");
        ENSURES(L.flags == (how == 1 ? lxExitStringExpr : (lxContinueStringExpr | lxReturnLStrFmt)), "the end or a value follows (h_follow)");
        if (how == 1)
            REACH("end");
        REACH("format");
    }
}

/*@ fn=advanceLexer; kind=bounded; bound=2 characters; unwind=8; cases=N=2 K=0,1 */
void h_follow(void)
{
    given("");
    L.flags = K ? lxExitStringExpr : (lxContinueStringExpr | lxReturnLStrFmt);
    Token t = advanceLexer(&L);
    ENSURES(t.tag == (K ? tokRString : tokLStrFmt), "the end of the string or a value");
    is(&t, t.tag, 0, 0);
    ENSURES(L.flags == (K ? lxNone : lxContinueStringExpr) && !errors, "once");
    REACH("follow");
}

/*@ fn=advanceLexer; kind=bounded; bound=up to 4 characters; unwind=8; cases=N=4 */
void h_enter(void)
{
    given("f\"");
    L.flags = VF_BOOL() ? lxContinueStringExpr : lxNone;
    u32 before = L.flags;
    Token t = advanceLexer(&L);
    if (before)
        ENSURES(t.tag == tokError && errors == 1, "format strings do not nest");
    else {
        is(&t, tokLString, 0, 1);
        ENSURES(L.flags == lxEnterStringExpr && !errors, "a format string starts");
    }
    REACH("enter");
}

/*@ fn=advanceLexer; kind=bounded; bound=7 characters that start no token and 2 more; unwind=8; cases=N=3 K=0..6 */
void h_invalid(void)
{
    static const char *const starts[] = {"\x80", "\xff", "$", "\\", "\x7f", "\1", "\xe9"};
    given(starts[K]);
    Token t = advanceLexer(&L);
    is(&t, tokError, 0, 1);
    ENSURES(errors == 1, "any other character is reported");
    REACH("invalid");
}

/*@ fn=lexerPush,popBuffer,advanceLexer; kind=bounded; bound=five texts of 2 characters included in front of five others; unwind=8; cases=N=2 K=0..4 J=0..4 */
void h_include(void)
{
    static const char *const texts[] = {",;", ", ", " ;", "  ", "\n,"};
    given(texts[J]);
    other[0] = texts[K][0], other[1] = texts[K][1], other[2] = 0;
    TokenTag want[5];
    unsigned m = 0;
    for (unsigned i = 0; i < 4; i++) {
        char c = i < 2 ? other[i] : text[i - 2];
        if (!is_space(c))
            want[m++] = c == ';' ? tokSemicolon : tokComma;
    }
    want[m++] = tokEoF;
    LexerBuffer *first = malloc(sizeof *first);
    *first = B;
    L.buffer = first;
    lexerPush(&L, "g");
    for (unsigned i = 0; i < m; i++) {
        Token t = advanceLexer(&L);
        ENSURES(t.tag == want[i], "the included file first, then the rest, then the end");
    }
    ENSURES(L.buffer == first && L.cleanup && !L.cleanup->prev, "the included buffer is kept for cleanup");
    ENSURES(!errors, "no error");
    REACH("include");
}
