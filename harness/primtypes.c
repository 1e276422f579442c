/* C07: implicit conversion, promotion and ranges of the built-in number types.
 * Oracle: the declarative table below (width, signedness, class per type). */
#include "vf.h"
#include "lang/frontend/flag.h"
#include "lang/frontend/ttable.h"
#include "lang/frontend/types.h"

enum { C_BOOL, C_CHAR, C_UINT, C_SINT, C_FLT };
/* Bool Char CChar U8 U16 U32 U64 I8 I16 I32 I64 F32 F64, by name, not by order */
static int cls(PrtId t)
{
    switch (t) {
    case prtBool: return C_BOOL;
    case prtChar: case prtCChar: return C_CHAR;
    case prtU8: case prtU16: case prtU32: case prtU64: return C_UINT;
    case prtI8: case prtI16: case prtI32: case prtI64: return C_SINT;
    default: return C_FLT;
    }
}
static unsigned width(PrtId t)
{
    switch (t) {
    case prtBool: case prtCChar: case prtU8: case prtI8: return 1;
    case prtU16: case prtI16: return 2;
    case prtChar: case prtU32: case prtI32: case prtF32: return 4;
    default: return 8;
    }
}
static bool isInt(PrtId t) { return cls(t) == C_UINT || cls(t) == C_SINT; }
/* the 13 built-ins, listed here so that the enum's own order is irrelevant */
static const PrtId all[13] = {prtBool, prtChar, prtCChar, prtU8, prtU16, prtU32, prtU64,
                              prtI8, prtI16, prtI32, prtI64, prtF32, prtF64};
static Type prims[prtCOUNT];
static TypeTable table;
static void setup(void)
{
    ENSURES(prtCOUNT == 13, "every built-in type is covered by this specification");
    for (int i = 0; i < prtCOUNT; i++) {
        prims[i] = (Type){.tag = typPrimitive, .size = width(i), .primitive.id = i};
        table.primitiveTypes[i] = &prims[i];
    }
}
static PrtId pick(void) { return all[vf_range(0, 12)]; }
static void prim(Type *t, PrtId id) { *t = (Type){.tag = typPrimitive, .size = width(id), .primitive.id = id}; }

/* the type as the checker meets it: plain, behind a const wrapper or an alias */
#ifndef KIND
#define KIND 0
#endif
#ifndef DRESS
#define DRESS 0
#endif
static const Type *dress(Type *w, const Type *t)
{
#if DRESS == 1
    *w = (Type){.tag = typWrapped, .flags = flgConst, .wrapped.target = t};
    return w;
#elif DRESS == 2
    *w = (Type){.tag = typAlias, .alias.aliased = t};
    return w;
#else
    return t;
#endif
}
#define IS(p, i) ((p) != NULL && (p)->tag == typPrimitive && (p)->primitive.id == (i) && (p)->size == width(i))

/*@ fn=getPrimitiveTypeSizeFromTag isIntegerType isIntegralType isSignedType isSignedIntegerType isUnsignedType isFloatType isNumericType isBooleanType isCharacterType; unwind=3; unwindset=setup.0:14; cases=DRESS=0..2 */
void h_classify(void)
{
    PrtId t = pick();
    Type w, p;
    prim(&p, t);
    const Type *ty = dress(&w, &p);
    int c = cls(t);
    ENSURES(getPrimitiveTypeSizeFromTag(t) == width(t), "size of a built-in type");
    ENSURES(isIntegerType(ty) == isInt(t), "integer class");
    ENSURES(isIntegralType(ty) == (c != C_FLT), "integral class");
    ENSURES(isUnsignedType(ty) == (c == C_UINT), "unsigned class");
    ENSURES(isSignedType(ty) == (c == C_SINT || c == C_FLT), "signed class");
    ENSURES(isSignedIntegerType(ty) == (c == C_SINT), "signed integer class");
    ENSURES(isFloatType(ty) == (c == C_FLT), "float class");
    ENSURES(isNumericType(ty) == (c != C_BOOL), "numeric class");
    ENSURES(isBooleanType(ty) == (c == C_BOOL), "boolean class");
    ENSURES(isCharacterType(ty) == (c == C_CHAR), "character class");
    REACH("classify");
}

/*@ fn=isTypeAssignableFrom; unwind=3; unwindset=setup.0:14; cases=DRESS=0..2 */
void h_assign(void)
{
    PrtId to = pick(), from = pick();
    Type wf, pt, pf;
    prim(&pt, to);
    prim(&pf, from);
    bool got = to == from ? isTypeAssignableFrom(&pt, dress(&wf, &pt)) : isTypeAssignableFrom(&pt, dress(&wf, &pf));
    if (to == from)
        ENSURES(got, "a value is assignable to its own type");
    else if (cls(to) == C_SINT)
        ENSURES(got == (isInt(from) && (cls(from) == C_UINT ? width(to) > width(from) : width(to) >= width(from))),
                "a signed integer accepts exactly the integers whose every value fits");
    else if (cls(to) == C_UINT)
        ENSURES(got == (isInt(from) && width(to) >= width(from)), "an unsigned integer accepts integers that are not wider");
    else if (cls(to) == C_FLT)
        ENSURES(got == (isInt(from) || cls(from) == C_FLT), "a float accepts numbers only");
    else if (cls(to) == C_CHAR)
        ENSURES(got == (cls(from) == C_CHAR), "a character accepts characters only");
    else
        ENSURES(!got, "a bool accepts bool only");
    REACH("assign");
}

/*@ fn=isTypeAssignableFrom; unwind=3; unwindset=setup.0:14; cases=DRESS=0..2 */
void h_assign_enum(void)
{
    PrtId to = pick(), base = pick();
    REQUIRES(isInt(base));
    Type pt, pb, w;
    prim(&pt, to);
    prim(&pb, base);
    Type en = {.tag = typEnum, .tEnum.base = to == base ? &pt : &pb};
    ENSURES(isTypeAssignableFrom(&pt, dress(&w, &en)) == (to == base || isTypeAssignableFrom(&pt, &pb)),
            "an enum converts like its base type");
    REACH("enum");
}

/*@ fn=isTypeAssignableFrom; unwind=3; unwindset=setup.0:14; cases=KIND=0..13 */
void h_assign_other(void)
{
    static const TTag tags[] = {typVoid, typNull, typString, typPointer, typOpaque, typFunc, typTuple,
                                typStruct, typClass, typInterface, typUnion, typArray, typModule, typGeneric};
    PrtId to = pick();
    Type pt;
    prim(&pt, to);
    Type target = {.tag = typVoid};
    Type from = {.tag = tags[KIND]};
    /* arbitrary payload: whatever the other kinds of type keep there */
    from.primitive.id = (PrtId)VF_U32();
    if (from.tag == typPointer)
        from.pointer.pointed = &target;
    ENSURES(!isTypeAssignableFrom(&pt, &from), "a built-in value type accepts no other kind of type");
    REACH("other");
}

/*@ fn=promoteType; unwind=3; unwindset=setup.0:14; cases=DRESS=0..2 */
void h_promote(void)
{
    setup();
    PrtId l = pick(), r = pick();
    Type wl, wr, pl, pr;
    prim(&pl, l);
    prim(&pr, r);
    const Type *left = dress(&wl, &pl), *right = l == r ? dress(&wr, &pl) : dress(&wr, &pr);
    const Type *p = promoteType(&table, left, right);
    if (p)
        p = unwrapType(resolveType(p), NULL);
    bool bothInt = isInt(l) && isInt(r);
    bool num = cls(l) >= C_UINT && cls(r) >= C_UINT;
    if (l == r)
        ENSURES(IS(p, l), "equal types promote to themselves");
    else if (bothInt)
        ENSURES(IS(p, width(l) >= width(r) ? l : r), "two integers promote to the wider");
    else if (num && cls(l) == C_FLT && cls(r) == C_FLT)
        ENSURES(IS(p, prtF64), "two floats promote to the wider");
    else if (num)
        ENSURES(IS(p, cls(l) == C_FLT ? l : r), "an integer and a float promote to the float");
    else if ((l == prtChar && isInt(r)) || (r == prtChar && isInt(l))) {
        PrtId i = isInt(l) ? l : r;
        ENSURES(IS(p, width(i) >= 4 ? i : prtU32), "a wide character and an integer promote to at least 32 bits");
    }
    else if (l == prtBool || r == prtBool || r == prtCChar || l == prtCChar)
        ENSURES(p == NULL, "a bool or byte character never mixes with another type");
    if (p && cls(l) != C_FLT && cls(r) != C_FLT)
        ENSURES(p->size >= width(l) && p->size >= width(r), "promotion never narrows an operand");
    REACH("promote");
}

/*@ fn=getIntegerTypeMinMax; unwind=3; unwindset=setup.0:14; cases=DRESS=0..1 */
void h_minmax(void)
{
    PrtId t = pick();
    REQUIRES(cls(t) != C_FLT);
    Type w, p;
    prim(&p, t);
    IntMinMax m = getIntegerTypeMinMax(dress(&w, &p));
    unsigned bits = width(t) * 8;
    if (t == prtBool)
        ENSURES(m.f == 0 && m.s == 1, "bool range");
    else if (cls(t) == C_SINT)
        ENSURES(m.f == INT64_MIN >> (64 - bits) && m.s == (uint64_t)INT64_MAX >> (64 - bits), "signed range");
    else
        ENSURES(m.f == 0 && m.s == UINT64_MAX >> (64 - bits), "unsigned range");
    REACH("minmax");
}

/*@ fn=isPrimitiveTypeBigger; unwind=3; unwindset=setup.0:14; cases=DRESS=0..1 */
void h_bigger(void)
{
    PrtId l = pick(), r = pick();
    Type wl, wr, pl, pr;
    prim(&pl, l);
    prim(&pr, r);
    REQUIRES(l != prtBool && r != prtBool);
    bool fl = cls(l) == C_FLT, fr = cls(r) == C_FLT;
    ENSURES(isPrimitiveTypeBigger(dress(&wl, &pl), dress(&wr, &pr)) == (fl == fr ? width(l) > width(r) : fl), "size order with floats above integers");
    REACH("bigger");
}

/*@ fn=getIntegerTypeForLiteral; unwind=3; unwindset=setup.0:14;  */
void h_literal_type(void)
{
    setup();
    int64_t v = VF_I64();
    const Type *t = getIntegerTypeForLiteral(&table, v);
    ENSURES(t->tag == typPrimitive && cls(t->primitive.id) == C_SINT, "a literal gets a signed type");
    unsigned bits = width(t->primitive.id) * 8;
    ENSURES(v >= INT64_MIN >> (64 - bits) && v <= INT64_MAX >> (64 - bits), "the literal fits its type");
    if (bits > 8)
        ENSURES(v < INT64_MIN >> (64 - bits / 2) || v > INT64_MAX >> (64 - bits / 2), "the type is the smallest that fits");
    REACH("literal");
}

/*@ fn=isIntegerTypeInRange; unwind=3; unwindset=setup.0:14;  */
void h_case_range(void)
{
    PrtId t = pick();
    Type p;
    prim(&p, t);
    REQUIRES(isInt(t));
    int64_t v = VF_I64();
    unsigned bits = width(t) * 8;
    bool in = cls(t) == C_SINT ? v >= INT64_MIN >> (64 - bits) && v <= INT64_MAX >> (64 - bits)
                               : v >= 0 && (uint64_t)v <= UINT64_MAX >> (64 - bits);
    ENSURES(isIntegerTypeInRange(&p, v, v) == in, "a case label is accepted exactly when the type can hold it");
    REACH("case");
}
