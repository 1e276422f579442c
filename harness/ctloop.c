/* C10: a compile time loop runs its body once for each value of its range, in order. */
#include "vf.h"
#include "core/log.h"
#include "lang/frontend/ast.h"
#include "lang/frontend/flag.h"
#include "lang/frontend/strings.h"
#include "lang/frontend/visitor.h"
#include "lang/middle/eval/eval.h"
#ifndef N
#define N 3
#endif
static EvalContext ctx;
static AstVisitor visitor;
static AstNode variable, range, body, loop, rs, re, rst, clone0, clone1, clone2, clone3, lit0, lit1, lit2, lit3;
static AstNode *const clones[] = {&clone0, &clone1, &clone2, &clone3}, *const lits[] = {&lit0, &lit1, &lit2, &lit3};
static int nclones, nlits, nseen;
static int64_t seen0[4];
static AstNode *seenNode[4];
static Type some = {.tag = typPrimitive};
static AstNode *vf_clone(MemPool *p, const AstNode *b)
{
    ENSURES(nclones < 4, "one copy of the body per value");
    REQUIRES(nclones < 4);
    AstNode *c = clones[nclones++];
    *c = *b;
    return c;
}
static AstNode *vf_makeAstNode(MemPool *p, const FileLoc *loc, const AstNode *init)
{
    ENSURES(nlits < 4, "one literal per value");
    REQUIRES(nlits < 4);
    AstNode *c = lits[nlits++];
    *c = *init;
    return c;
}
/* the body is evaluated: this is what it sees as the loop variable */
static const Type *vf_evalType(EvalContext *c, AstNode *b)
{
    ENSURES(nseen < 4, "the body runs once per value");
    REQUIRES(nseen < 4);
    AstNode *v = variable.varDecl.init;
    seenNode[nseen] = v;
    seen0[nseen++] = v->intLiteral.value;
    if (v->tag == astIntegerLit)
        ENSURES(v->intLiteral.isNegative == (v->intLiteral.value < 0), "sign of the value");
    return &some;
}
static AstNode *vf_insert(AstNodeList *l, AstNode *x)
{
    if (l->first == NULL)
        l->first = x;
    else
        l->last->next = x;
    return l->last = x;
}
#define deepCloneAstNode vf_clone
#define makeAstNode vf_makeAstNode
#define evalType vf_evalType
#define insertAstNode vf_insert
#define isNoopNodeAfterEval(X) false
#define findAttribute(...) NULL
#undef getAstVisitorContext
#define getAstVisitorContext(V) (&ctx)
#include "lang/middle/eval/for.c"

static void setint(AstNode *x, int64_t v) { *x = (AstNode){.tag = astIntegerLit, .intLiteral = {.isNegative = v < 0, .value = v}}; }
static void setup(void)
{
    nclones = nlits = nseen = 0;
    variable = (AstNode){.tag = astVarDecl};
    body = (AstNode){.tag = astExprStmt};
    loop = (AstNode){.tag = astForStmt, .forStmt = {.var = &variable, .range = &range, .body = &body}};
}
#ifndef STEP
#define STEP 0
#endif
#ifndef DOWN
#define DOWN 0
#endif
/*@ fn=evalForStmtWithRange; kind=bounded; bound=up to 3 iterations, all starts, ends and steps; unwind=6; cases=STEP=0,1 DOWN=0,1 */
void h_range(void)
{
    setup();
    int64_t a = VF_I64(), b = VF_I64(), s = STEP ? VF_I64() : 1;
    REQUIRES(a > -1000000000000 && a < 1000000000000 && b > -1000000000000 && b < 1000000000000 && s != 0 && s > -1000000000000 && s < 1000000000000);
    setint(&rs, a);
    setint(&re, b);
    setint(&rst, s);
    range = (AstNode){.tag = astRangeExpr, .rangeExpr = {.start = &rs, .end = &re, .step = STEP ? &rst : NULL, .down = DOWN}};
    int64_t by = DOWN ? -s : s, v = a;
    int want = 0;
    for (int i = 0; i < 4; i++)
        if (by > 0 ? v < b : v > b) {
            want++;
            v += by;
        }
    REQUIRES(want <= 3);
    AstNodeList out = {NULL};
    ENSURES(evalForStmtWithRange(&visitor, &loop, &out), "the loop is evaluated");
    ENSURES(nseen == want, "once per value of the range");
    for (int i = 0; i < 3; i++)
        if (i < want)
            ENSURES(seen0[i] == a + i * by, "in order");
    AstNode *o = out.first;
    for (int i = 0; i < 3; i++)
        if (i < want) {
            ENSURES(o == clones[i], "the copies of the body follow each other");
            o = o->next;
        }
    ENSURES(o == NULL, "and nothing else");
    REACH("range");
}

/*@ fn=evalExprForStmtArray,evalExprForStmtIterable; kind=bounded; bound=up to 3 elements; unwind=6; cases=N=0..3 STEP=0,1 */
void h_elements(void)
{
    setup();
    AstNode *const e[] = {&rs, &re, &rst};
    for (int i = 0; i < N; i++) {
        setint(e[i], VF_I64());
        e[i]->next = i + 1 < N ? e[i + 1] : NULL;
    }
    AstNodeList out = {NULL};
    bool ok;
#if STEP
    range = (AstNode){.tag = astArrayExpr, .arrayExpr = {.elements = N ? &rs : NULL, .len = N}};
    ok = evalExprForStmtArray(&visitor, &loop, &out);
#else
    range = (AstNode){.tag = astComptimeOnly, .next = N ? &rs : NULL};
    ok = evalExprForStmtIterable(&visitor, &loop, &out);
#endif
    ENSURES(ok && nseen == N, "once per element");
    for (int i = 0; i < N; i++)
        ENSURES(seenNode[i] == e[i], "in order");
    REACH("elements");
}
