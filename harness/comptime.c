/* C10: compile time evaluation of literals gives the exact value.
 * Oracle: the mathematical value of the operands and of the result (in 128 bits). */
#include "vf.h"
#include "core/log.h"
#include "core/strpool.h"
#include "lang/frontend/ast.h"
#include "lang/frontend/flag.h"
#include "lang/frontend/strings.h"
#include "lang/frontend/ttable.h"
#include "lang/frontend/visitor.h"
static int errors;
#define logError(...) (errors++)
#define logWarning(...) ((void)0)
#undef unreachable
#define unreachable(...) { ENSURES(false, "no operand makes the evaluator give up"); __builtin_unreachable(); }
#ifdef PRE
#include "lang/middle/preprocess/preprocessor.h"
#include "lang/middle/eval/literal.c"
#include "lang/middle/preprocess/evaluate.c"
static PreprocessorContext ctx;
#define EVAL_BINARY(N) preprocessorEvalBinaryExpr(&ctx, N)
#define EVAL_UNARY(N) preprocessorEvalUnaryExpr(&ctx, N)
#else
#include "lang/middle/eval/eval.h"
static EvalContext ctx;
static AstVisitor visitor;
/* operands are values already */
static bool vf_evaluate(AstVisitor *v, AstNode *n) { return true; }
static const Type *vf_evalType(EvalContext *c, AstNode *n) { return NULL; }
#define evaluate vf_evaluate
#define evalType vf_evalType
#undef getAstVisitorContext
#define getAstVisitorContext(V) (&ctx)
#include "lang/middle/eval/literal.c"
#include "lang/middle/eval/binary.c"
#include "lang/middle/eval/unary.c"
#define EVAL_BINARY(N) evalBinaryExpr(&visitor, N)
#define EVAL_UNARY(N) evalUnaryExpr(&visitor, N)
#endif
typedef __int128 I;
static AstNode l, r, n;
#ifndef KINDS
#define KINDS 00
#endif
/* kind 0 integer, 1 negative integer, 2 character, 3 bool */
static void lit(AstNode *x, int kind)
{
    *x = (AstNode){0};
    if (kind == 0) {
        x->tag = astIntegerLit;
        x->intLiteral.uValue = VF_U64();
    } else if (kind == 1) {
        x->tag = astIntegerLit;
        x->intLiteral.isNegative = true;
        x->intLiteral.value = VF_I64();
        REQUIRES(x->intLiteral.value < 0);
    } else if (kind == 2) {
        x->tag = astCharLit;
        x->charLiteral.value = VF_U32();
        REQUIRES(x->charLiteral.value <= 0x10ffff);
    } else {
        x->tag = astBoolLit;
        x->boolLiteral.value = VF_BOOL();
    }
}
static void setint(AstNode *x, I v)
{
    *x = (AstNode){.tag = astIntegerLit, .intLiteral = {.isNegative = v < 0, .value = (int64_t)v}};
}
static I value(const AstNode *x)
{
    switch (x->tag) {
    case astIntegerLit: return x->intLiteral.isNegative ? (I)x->intLiteral.value : (I)x->intLiteral.uValue;
    case astCharLit: return x->charLiteral.value;
    case astBoolLit: return x->boolLiteral.value;
    default: return -((I)1 << 100);
    }
}
static I apply(Operator op)
{
    n = (AstNode){.tag = astBinaryExpr, .binaryExpr = {.op = op, .lhs = &l, .rhs = &r}};
    errors = 0;
    EVAL_BINARY(&n);
    return value(&n);
}
static void operands(void) { lit(&l, KINDS / 10); lit(&r, KINDS % 10); }
static bool fits(I v) { return v >= INT64_MIN && v <= (I)UINT64_MAX; }
#define CHARS (l.tag == astCharLit && (r.tag == astCharLit || r.tag == astBoolLit))
#define BOOLS (l.tag == astBoolLit && r.tag == astBoolLit)
/* characters combined with characters make a character, bools a bool */
static bool inkind(I v) { return BOOLS ? v == 0 || v == 1 : CHARS ? v >= 0 && v <= 0x10ffff : fits(v); }
static bool kindok(void) { return n.tag == (BOOLS ? astBoolLit : CHARS ? astCharLit : astIntegerLit); }
static bool normal(void) { return n.tag != astIntegerLit || n.intLiteral.isNegative == (value(&n) < 0 && n.intLiteral.value < 0); }

/*@ fn=evalAddOperation,nodeGetIntegralLiteral,nodeSetIntegralLiteral,evalBinaryExpr; unwind=3; cases=KINDS=00,01,10,22,30; tcases=KINDS=00,01,10,11,22,02,30,13 */
void h_add(void)
{
    operands();
    I want = value(&l) + value(&r);
    REQUIRES(inkind(want));
    ENSURES(apply(opAdd) == want && kindok() && normal() && errors == 0, "a sum is the exact sum");
    REACH("add");
}

/*@ fn=evalSubOperation; unwind=3; cases=KINDS=00,01,10,22,30; tcases=KINDS=00,01,10,11,22,02,30,13 */
void h_sub(void)
{
    operands();
    I want = value(&l) - value(&r);
    REQUIRES(inkind(want));
    ENSURES(apply(opSub) == want && kindok() && normal() && errors == 0, "a difference is the exact difference");
    REACH("sub");
}

#ifndef BY
#define BY 3
#endif
/*@ fn=evalMulOperation; unwind=3; cases=BY=0,3,4294967296,-1 KINDS=00,10; tcases=BY=0,1,2,3,7,10,255,1000,65536,4294967296,4611686018427387904,-1,-2,-3,-10,-65536 KINDS=00,10,20 */
void h_mul_by(void)
{
    lit(&l, KINDS / 10);
    setint(&r, BY);
    I want = value(&l) * (I)BY;
    REQUIRES(fits(want));
    ENSURES(apply(opMul) == want && normal() && errors == 0, "a product is the exact product");
    setint(&l, BY);
    REACH("mul");
}

/*@ fn=evalMulOperation; unwind=3; cases=KINDS=00,11,22; tcases=KINDS=00,01,10,11,22 */
void h_mul_small(void)
{
    operands();
    I want = value(&l) * value(&r);
    REQUIRES(value(&l) > -64 && value(&l) < 64 && value(&r) > -64 && value(&r) < 64);
    REQUIRES(inkind(want));
    ENSURES(apply(opMul) == want && kindok() && normal() && errors == 0, "a product is the exact product");
    REACH("mul small");
}

/* the quotient truncates towards zero, the remainder has the sign of the dividend */
/*@ fn=evalDivOperation,evalModOperation; unwind=3; cases=BY=2,3,-1 KINDS=00,10; tcases=BY=1,2,3,7,10,65536,4294967296,-1,-2,-3,-10 KINDS=00,10 */
void h_div_by(void)
{
    lit(&l, KINDS / 10);
    setint(&r, BY);
    I a = value(&l), b = BY;
    AstNode keep = l;
    I q = apply(opDiv);
    REQUIRES(!(a == INT64_MIN && b == -1) || q == (I)1 << 63);
    ENSURES(errors == 0 && normal(), "dividing by a number other than zero is no error");
    l = keep;
    I m = apply(opMod);
    ENSURES(errors == 0 && normal(), "a remainder by a number other than zero is no error");
    if (fits(q) && a - (a < 0 ? -1 : 1) * (m < 0 ? -m : m) == q * b)
        ENSURES((m < 0 ? -m : m) < (b < 0 ? -b : b), "the remainder is smaller than the divisor");
    else
        ENSURES((a / b < INT64_MIN), "dividend = quotient * divisor + remainder, truncating towards zero");
    REACH("div");
}

/*@ fn=evalDivOperation,evalModOperation; unwind=3; cases=KINDS=00,11,22; tcases=KINDS=00,01,10,11,22 */
void h_div_small(void)
{
    operands();
    I a = value(&l), b = value(&r);
    REQUIRES(a > -128 && a < 128 && b > -128 && b < 128);
    I q = apply(opDiv);
    if (b == 0) {
        ENSURES(errors == 1 && n.tag == astError, "dividing by zero is reported");
        ENSURES((apply(opMod), errors == 1 && n.tag == astError), "a remainder by zero is reported");
#if KINDS != 1 && KINDS != 11
        REACH("div zero");
#endif
        return;
    }
    ENSURES(q == (int)a / (int)b && kindok() && normal(), "a quotient truncates");
    ENSURES(apply(opMod) == (int)a % (int)b && kindok() && normal(), "a remainder has the sign of the dividend");
    REACH("div small");
}

/*@ fn=checkIntegerDivision; unwind=3; cases=KINDS=00,10,20 */
void h_div_zero(void)
{
    lit(&l, KINDS / 10);
    setint(&r, 0);
    ENSURES((apply(opDiv), errors == 1 && n.tag == astError), "dividing by zero is reported");
    ENSURES((apply(opMod), errors == 1 && n.tag == astError), "a remainder by zero is reported");
    REACH("zero");
}

/*@ fn=evalBAndOperation,evalBOrOperation,evalBXorOperation; unwind=3; cases=KINDS=00,01,10,22,33; tcases=KINDS=00,01,10,11,22,02,33,30 */
void h_bits(void)
{
    operands();
    I a = value(&l), b = value(&r);
    if (inkind(a & b))
        ENSURES(apply(opBAnd) == (a & b) && kindok() && normal() && errors == 0, "and works on every bit");
    if (inkind(a | b))
        ENSURES(apply(opBOr) == (a | b) && kindok() && normal() && errors == 0, "or works on every bit");
    if (inkind(a ^ b))
        ENSURES(apply(opBXor) == (a ^ b) && kindok() && normal() && errors == 0, "xor works on every bit");
    REACH("bits");
}

/*@ fn=evalShlOperation,evalShrOperation,checkShiftOperation; unwind=3; cases=KINDS=00,10; tcases=KINDS=00,10,01,20 */
void h_shift(void)
{
    operands();
    I a = value(&l), c = value(&r);
    AstNode keep = l;
    I right = apply(opShr);
    if (c < 0 || c > 63) {
        ENSURES(errors == 1 && n.tag == astError, "shifting by more than the width is reported");
        ENSURES((apply(opShl), errors == 1 && n.tag == astError), "shifting by more than the width is reported");
#if KINDS != 0 && KINDS != 10
        REACH("count");
#endif
        return;
    }
    ENSURES(right == a >> (int)c && normal() && errors == 0, "a right shift keeps the sign");
    l = keep;
    I want = a * ((I)1 << (int)c);
    REQUIRES(fits(want));
    ENSURES(apply(opShl) == want && normal() && errors == 0, "a left shift multiplies by a power of two");
#if KINDS != 1
    REACH("shift");
#endif
}

#define COMPARE(OP, REL)                                                                          \
    ENSURES(apply(OP) == (a REL b) && n.tag == astBoolLit && errors == 0, "comparing gives " #REL);
/*@ fn=evalEqOperation,evalNeOperation,evalLtOperation,evalGtOperation,evalLeqOperation,evalGeqOperation; unwind=3; cases=KINDS=00,01,10,22,33; tcases=KINDS=00,01,10,11,22,02,33,30 */
void h_compare(void)
{
    operands();
    I a = value(&l), b = value(&r);
    COMPARE(opEq, ==)
    COMPARE(opNe, !=)
    COMPARE(opLt, <)
    COMPARE(opGt, >)
    COMPARE(opLeq, <=)
    COMPARE(opGeq, >=)
    REACH("compare");
}

/*@ fn=evalLAndOperation,evalLOrOperation; unwind=3; cases=KINDS=00,10,33; tcases=KINDS=00,01,10,22,33,30,03 */
void h_logic(void)
{
    operands();
    bool a = value(&l) != 0, b = value(&r) != 0;
    ENSURES(apply(opLAnd) == (a && b) && n.tag == astBoolLit && errors == 0, "and");
    ENSURES(apply(opLOr) == (a || b) && n.tag == astBoolLit && errors == 0, "or");
    REACH("logic");
}

static I unary(Operator op)
{
    n = (AstNode){.tag = astUnaryExpr, .unaryExpr = {.op = op, .isPrefix = true, .operand = &r}};
    errors = 0;
    EVAL_UNARY(&n);
    return value(&n);
}
/*@ fn=evalPrefixMinusOperation,evalPrefixPlusOperation,evalBitNotOperation,evalLogicNotOperation,evalBooleanCast,nodeSetIntegerLiteral; unwind=3; cases=KINDS=0,1 */
void h_unary(void)
{
    lit(&r, KINDS);
    I v = value(&r);
    if (fits(-v))
        ENSURES(unary(opMinus) == -v && n.tag == astIntegerLit && normal() && errors == 0, "minus negates");
    ENSURES(unary(opPlus) == v && n.tag == astIntegerLit && normal() && errors == 0, "plus keeps");
    if (fits(~v))
        ENSURES(unary(opCompl) == ~v && n.tag == astIntegerLit && normal() && errors == 0, "~ flips every bit");
    ENSURES(unary(opNot) == (v == 0) && n.tag == astBoolLit && errors == 0, "! is true for zero only");
    REACH("unary");
}

/*@ fn=evalLogicNotOperation,evalBooleanCast; unwind=3; cases=KINDS=2,3 */
void h_not(void)
{
    lit(&r, KINDS);
    I v = value(&r);
    ENSURES(unary(opNot) == (v == 0) && n.tag == astBoolLit && errors == 0, "! is true for zero only");
    REACH("not");
}

/* floats: the result of the same operation on doubles */
static double dbl(AstNode *x, int kind)
{
    if (kind == 4) {
        *x = (AstNode){.tag = astFloatLit, .floatLiteral.value = VF_F64()};
        REQUIRES(x->floatLiteral.value == x->floatLiteral.value);
        return x->floatLiteral.value;
    }
    lit(x, kind);
    return kind == 0 ? (double)x->intLiteral.uValue : kind == 1 ? (double)x->intLiteral.value
         : kind == 2 ? (double)x->charLiteral.value : (double)x->boolLiteral.value;
}
static bool same(double a, double b) { return a == b || (a != a && b != b); }
/*@ fn=evalLAndOperation,evalLOrOperation; unwind=3; cases=KINDS=44,43,34; tcases=KINDS=44,43,34,40,04,14,24 */
void h_logic_float(void)
{
    double a = dbl(&l, KINDS / 10), b = dbl(&r, KINDS % 10);
    apply(opLAnd);
    ENSURES(n.tag == astBoolLit && n.boolLiteral.value == (a != 0 && b != 0) && errors == 0, "and");
    apply(opLOr);
    ENSURES(n.tag == astBoolLit && n.boolLiteral.value == (a != 0 || b != 0) && errors == 0, "or");
    REACH("logic");
}

/*@ fn=nodeGetNumericLiteral,nodeSetNumericLiteral; unwind=3; cases=KINDS=44; tcases=KINDS=44,40,04,14,24,34; timeout=300 */
void h_float(void)
{
    double a = dbl(&l, KINDS / 10), b = dbl(&r, KINDS % 10);
    apply(opAdd);
    ENSURES(n.tag == astFloatLit && same(n.floatLiteral.value, a + b), "a float sum is the sum of doubles");
    REACH("float");
}

/*@ fn=nodeGetNumericLiteral,nodeSetNumericLiteral; unwind=3; cases=KINDS=44; tcases=KINDS=44,40,04; timeout=300 */
void h_float_sub(void)
{
    double a = dbl(&l, KINDS / 10), b = dbl(&r, KINDS % 10);
    apply(opSub);
    ENSURES(n.tag == astFloatLit && same(n.floatLiteral.value, a - b), "a float difference");
    REACH("float");
}

/* mixed operands: the other one is converted to a double first */
/*@ fn=nodeGetNumericLiteral,nodeSetNumericLiteral; unwind=3; cases=KINDS=0,1,2,3 */
void h_float_mixed(void)
{
    double a = dbl(&l, KINDS);
    r = (AstNode){.tag = astFloatLit, .floatLiteral.value = 0.0};
    apply(opAdd);
    ENSURES(n.tag == astFloatLit && n.floatLiteral.value == a, "adding 0.0 converts to float");
    AstNode t = l;
    l = r;
    r = t;
    apply(opAdd);
    ENSURES(n.tag == astFloatLit && n.floatLiteral.value == a, "adding to 0.0 converts to float");
    REACH("mixed");
}

/*@ fn=evalEqOperation,evalNeOperation,evalLtOperation,evalGtOperation,evalLeqOperation,evalGeqOperation; unwind=3; cases=KINDS=44,40,14; tcases=KINDS=44,40,04,14,24,34 */
void h_float_compare(void)
{
    double a = dbl(&l, KINDS / 10), b = dbl(&r, KINDS % 10);
    COMPARE(opEq, ==)
    COMPARE(opNe, !=)
    COMPARE(opLt, <)
    COMPARE(opGt, >)
    COMPARE(opLeq, <=)
    COMPARE(opGeq, >=)
    REACH("float");
}

#ifndef FBY
#define FBY 2.0
#endif
/*@ fn=evalMulOperation,evalDivOperation; unwind=3; cases=FBY=2.0; tcases=FBY=2.0,-0.5,3.0 */
void h_float_mul(void)
{
    double a = dbl(&l, 4), b = FBY;
    r = (AstNode){.tag = astFloatLit, .floatLiteral.value = b};
    apply(opMul);
    ENSURES(n.tag == astFloatLit && same(n.floatLiteral.value, a * b), "a float product");
    apply(opDiv);
    ENSURES(n.tag == astFloatLit && same(n.floatLiteral.value, a / b), "a float quotient");
    REACH("float mul");
}

/*@ fn=evalPrefixMinusOperation,evalPrefixPlusOperation; unwind=3 */
void h_float_unary(void)
{
    double b = dbl(&r, 4);
    unary(opMinus);
    ENSURES(n.tag == astFloatLit && n.floatLiteral.value == -b && errors == 0, "minus negates a float");
    unary(opPlus);
    ENSURES(n.tag == astFloatLit && n.floatLiteral.value == b && errors == 0, "plus keeps a float");
    REACH("float unary");
}
