/* C10: casting a literal at compile time gives the value the cast has at run time. */
#include "vf.h"
#include "core/log.h"
#include "lang/frontend/ast.h"
#include "lang/frontend/flag.h"
#include "lang/frontend/ttable.h"
#include "lang/middle/eval/literal.c"
#include "lang/middle/sema/cast.c"
typedef __int128 I;
#ifndef TO
#define TO prtI8
#endif
#ifndef FROM
#define FROM 0
#endif
static Type target, own = {.tag = typPrimitive, .primitive.id = prtI64};
#ifndef SHAPE
#define SHAPE 0
#endif
static AstNode operand, group, node, ty;
static TypingContext ctx;
#define INTS(f) f(U8, uint8_t) f(U16, uint16_t) f(U32, uint32_t) f(U64, uint64_t) f(I8, int8_t) f(I16, int16_t) f(I32, int32_t) f(I64, int64_t)
/* FROM 0 integer, 1 negative integer, 2 character, 3 bool, 4 float */
static void given(void)
{
    operand = (AstNode){0};
    if (FROM == 0)
        operand.tag = astIntegerLit, operand.intLiteral.uValue = VF_U64();
    else if (FROM == 1) {
        operand.tag = astIntegerLit, operand.intLiteral.isNegative = true, operand.intLiteral.value = VF_I64();
        REQUIRES(operand.intLiteral.value < 0);
    } else if (FROM == 2) {
        operand.tag = astCharLit, operand.charLiteral.value = VF_U32();
        REQUIRES(operand.charLiteral.value <= 0x10ffff);
    } else if (FROM == 3)
        operand.tag = astBoolLit, operand.boolLiteral.value = VF_BOOL();
    else
        operand.tag = astFloatLit, operand.floatLiteral.value = VF_F64();
    target = (Type){.tag = typPrimitive, .primitive.id = TO};
    ty = (AstNode){.tag = astPrimitiveType, .type = &target};
    group = (AstNode){.tag = astGroupExpr, .groupExpr.expr = &operand};
    operand.type = group.type = &own;
#if SHAPE == 1
    node = (AstNode){.tag = astTypedExpr, .type = &target, .castExpr = {.to = &ty, .expr = &group}};
#else
    node = (AstNode){.tag = astCastExpr, .type = &target, .castExpr = {.to = &ty, .expr = &operand}};
#endif
}
static I exact(const AstNode *x)
{
    return x->tag == astCharLit ? (I)x->charLiteral.value : x->tag == astBoolLit ? (I)x->boolLiteral.value
         : x->intLiteral.isNegative ? (I)x->intLiteral.value : (I)x->intLiteral.uValue;
}

/*@ fn=castLiteral,castIntegerLiteral; unwind=4; cases=SHAPE=1 FROM=0,1,2 TO=prtU8,prtU64,prtI8,prtI32,prtI64; tcases=SHAPE=0,1 FROM=0..3 TO=prtU8,prtU16,prtU32,prtU64,prtI8,prtI16,prtI32,prtI64 */
void h_int(void)
{
    given();
    I v = exact(&operand), want = 0;
    switch (TO) {
#define f(N, T) case prt##N: want = (T)v; break;
    INTS(f)
#undef f
    }
    castLiteral(&ctx, &node);
    ENSURES(node.tag == astIntegerLit && exact(&node) == want && node.type == &target, "the literal has the value of the cast");
    ENSURES(node.intLiteral.isNegative == (want < 0), "and its sign");
    REACH("int");
}

/*@ fn=castLiteral,castIntegerLiteral; unwind=4; cases=FROM=4 TO=prtU8,prtU64,prtI32; tcases=FROM=4 TO=prtU8,prtU16,prtU32,prtU64,prtI8,prtI16,prtI32,prtI64 */
void h_trunc(void)
{
    given();
    double d = operand.floatLiteral.value;
    I want = 0;
    switch (TO) {
#define f(N, T) case prt##N: REQUIRES(d > -9.3e18 && d < 1.9e19); REQUIRES((I)d == (T)(I)d); want = (T)(I)d; break;
    INTS(f)
#undef f
    }
    castLiteral(&ctx, &node);
    ENSURES(node.tag == astIntegerLit && exact(&node) == want, "a float truncates");
    REACH("trunc");
}

/*@ fn=castLiteral; unwind=4; cases=SHAPE=0 FROM=0,1,2,4 TO=prtF32,prtF64; tcases=SHAPE=0,1 FROM=0,1,2,4 TO=prtF32,prtF64 */
void h_float(void)
{
    given();
    double d = FROM == 4 ? operand.floatLiteral.value : FROM == 1 ? (double)operand.intLiteral.value
             : FROM == 0 ? (double)operand.intLiteral.uValue : (double)operand.charLiteral.value;
    REQUIRES(d == d);
    castLiteral(&ctx, &node);
    double want = TO == prtF32 ? (double)(float)d : d;
    ENSURES(node.tag == astFloatLit && node.floatLiteral.value == want, "the float nearest to the value");
    REACH("float");
}

/*@ fn=castLiteral; unwind=4; cases=FROM=0,2 TO=prtChar,prtCChar */
void h_char(void)
{
    given();
    I v = exact(&operand);
    REQUIRES(v <= 0x10ffff);
    castLiteral(&ctx, &node);
    ENSURES(node.tag == astCharLit && node.charLiteral.value == (TO == prtCChar ? (uint8_t)v : v), "the character with that code");
    REACH("char");
}

/* operands that are no literals by then stay for run time */
/*@ fn=castLiteral; unwind=4 */
void h_later(void)
{
    given();
    AstNode un = {.tag = astUnaryExpr, .unaryExpr = {.op = opMinus, .isPrefix = true, .operand = &operand}};
    node.castExpr.expr = &un;
    AstNode keep = node;
    castLiteral(&ctx, &node);
    ENSURES(node.tag == keep.tag && node.castExpr.expr == &un && node.castExpr.to == &ty, "the cast stays");
    REACH("later");
}
