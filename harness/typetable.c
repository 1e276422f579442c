/* C08: structural identity of types. The type table's own source is included, so that its static
 * functions can be called; the hash table and the pool below stand for their contracts (C01, C02). */
#include "vf.h"
#include <stdlib.h>
#include <string.h>
#include "lang/frontend/ttable.c"
#ifndef SH
#define SH 0
#endif
#ifndef NL
#define NL 2
#endif
#ifndef NR
#define NR 2
#endif
#ifndef QL
#define QL 0
#endif

/* deterministic hashes; any other would do */
#define MIX(h) ((h) << 5 | (h) >> 27)
HashCode hashInit() { return 5381; }
HashCode hashUint8(HashCode h, uint8_t v) { return MIX(h) ^ v; }
HashCode hashUint16(HashCode h, uint16_t v) { return MIX(h) ^ v; }
HashCode hashUint32(HashCode h, uint32_t v) { return MIX(h) ^ v; }
HashCode hashUint64(HashCode h, uint64_t v) { return MIX(h) ^ (HashCode)v ^ MIX((HashCode)(v >> 32)); }
HashCode hashStr(HashCode h, const char *s) { return MIX(h) ^ (unsigned char)s[0]; }
HashCode hashPtr(HashCode h, const void *p) { return hashUint64(h, (uint64_t)(uintptr_t)p); }

/* contract of the hash table, as a spy: it tells what it was asked for and answers "found" or not as the harness says */
static Type asked, stored;
static const Type *answer, *inserted;
static HashCode askedHash, insertedHash;
static int finds, inserts;
static bool ownCompare;
static bool compareTypesWrapper(const void *left, const void *right);
HashTable newHashTable(size_t n) { (void)n; return (HashTable){0}; }
void freeHashTable(HashTable *t) { (void)t; }
void *findInHashTable(const HashTable *t, const void *e, HashCode h, size_t n, bool (*cmp)(const void *, const void *))
{
    (void)t;
    asked = **(const Type **)e;
    askedHash = h;
    ownCompare = cmp == compareTypesWrapper && n == sizeof(Type *);
    finds++;
    return answer ? (void *)&answer : NULL;
}
bool insertInHashTable(HashTable *t, const void *e, HashCode h, size_t n, bool (*cmp)(const void *, const void *))
{
    (void)t;
    inserted = *(const Type **)e;
    stored = *inserted;
    insertedHash = h;
    ownCompare = ownCompare && cmp == compareTypesWrapper && n == sizeof(Type *);
    inserts++;
    return true;
}
void removeFromHashTable(HashTable *t, void *e, size_t n) { (void)t, (void)e, (void)n; }
static Type fresh;
static const Type *kept[2];
static UnionMember keptU[2];
void *allocFromMemPool(MemPool *p, size_t n) { (void)p; return n == sizeof(Type) ? (void *)&fresh : n == sizeof(kept) ? (void *)kept : (void *)keptU; }
static HashCode token;
static int hashed;
HashCode spec_hash(HashCode h, const Type *type) { (void)h, (void)type; hashed++; return token; }
static TypeTable table;

/* the parts two types of one shape differ in */
typedef struct { PrtId a, b, c, d; uint64_t len, flags; const char *name, *ns; } Parts;
static uint64_t pickflags(void) { return vf_range(0, 1) ? flgConst : flgNone; }
static Parts parts(int right)
{
    Parts p;
    p.a = vf_range(0, prtCOUNT - 1);
    p.b = vf_range(0, prtCOUNT - 1);
    p.c = vf_range(0, prtCOUNT - 1);
    p.d = vf_range(0, prtCOUNT - 1);
    p.len = VF_U64();
#ifdef FL
    p.flags = (FL >> right & 1) ? flgConst : flgNone;
#else
    p.flags = pickflags();
#endif
    p.name = vf_range(0, 1) ? "Apple" : "Berry";
    p.ns = vf_range(0, 1) ? "North" : "South";
    return p;
}
static const Type *prim(Type *t, PrtId id)
{
    *t = (Type){.tag = typPrimitive, .primitive.id = id};
    return t;
}
/* the type with these parts; n members where the shape has a list */
typedef struct { Type a, b, c, d, w, v; const Type *m[3]; UnionMember u[3]; } Room;
#define IS(...) (*t = (Type){__VA_ARGS__}, t)
static const Type *build(Room *o, Type *t, const Parts *p, int n)
{
    const Type *a = prim(&o->a, p->a), *b = prim(&o->b, p->b), *c = prim(&o->c, p->c), *d = prim(&o->d, p->d);
    o->m[0] = a, o->m[1] = b, o->m[2] = c;
    o->u[0] = (UnionMember){a}, o->u[1] = (UnionMember){b}, o->u[2] = (UnionMember){c};
#if SH == 0
    return IS(.tag = typPointer, .flags = p->flags, .pointer.pointed = a);
#elif SH == 1
    return IS(.tag = typReference, .flags = p->flags, .reference.referred = a);
#elif SH == 2
    return IS(.tag = typOptional, .flags = p->flags, .optional.target = a);
#elif SH == 3
    return IS(.tag = typArray, .flags = p->flags, .array = {.elementType = a, .len = p->len});
#elif SH == 4
    return IS(.tag = typMap, .flags = p->flags, .map = {a, b});
#elif SH == 5
    return IS(.tag = typInfo, .info.target = a);
#elif SH == 6
    return IS(.tag = typResult, .result.target = a);
#elif SH == 7
    return IS(.tag = typTuple, .flags = p->flags, .tuple = {.members = o->m, .count = n});
#elif SH == 8
    return IS(.tag = typUnion, .flags = p->flags, .tUnion = {.members = o->u, .count = n});
#elif SH == 9
    return IS(.tag = typFunc, .flags = p->flags, .func = {.params = o->m, .paramsCount = n, .retType = d});
#elif SH == 10
    return IS(.tag = typFunc, .name = p->name, .func = {.params = o->m, .paramsCount = n, .retType = d});
#elif SH == 11
    o->w = (Type){.tag = typPointer, .flags = p->flags, .pointer.pointed = a};
    return IS(.tag = typPointer, .pointer.pointed = &o->w);
#elif SH == 12
    o->w = (Type){.tag = typArray, .array = {.elementType = a, .len = p->len}};
    return IS(.tag = typPointer, .flags = p->flags, .pointer.pointed = &o->w);
#elif SH == 13
    o->w = (Type){.tag = typPointer, .flags = p->flags, .pointer.pointed = a};
    return IS(.tag = typArray, .array = {.elementType = &o->w, .len = p->len});
#elif SH == 14
    return IS(.tag = typAlias, .name = "Alias", .flags = p->flags, .alias.aliased = a);
#elif SH == 15
    return IS(.tag = typWrapped, .flags = p->flags, .wrapped.target = a);
#elif SH == 16
    o->w = (Type){.tag = typWrapped, .flags = p->flags, .wrapped.target = a};
    return IS(.tag = typTuple, .tuple = {.members = (o->m[0] = &o->w, o->m), .count = 2});
#elif SH == 17
    return IS(.tag = typStruct, .name = p->name, .ns = p->ns, .flags = p->flags);
#elif SH == 18
    return IS(.tag = typClass, .name = p->name, .ns = p->ns, .flags = p->flags);
#elif SH == 19
    return IS(.tag = typInterface, .name = p->name, .ns = p->ns, .flags = p->flags);
#elif SH == 20
    return IS(.tag = typEnum, .name = p->name, .ns = p->ns, .flags = p->flags);
#elif SH == 21
    return IS(.tag = typOpaque, .name = p->name, .flags = p->flags);
#elif SH == 22
    return a;
#elif SH == 23
    o->w = (Type){.tag = typFunc, .func = {.params = o->m, .paramsCount = n, .retType = d}};
    return IS(.tag = typPointer, .flags = p->flags, .pointer.pointed = &o->w);
#elif SH == 24
    o->w = (Type){.tag = typStruct, .name = "Gen", .ns = p->ns};
    return IS(.tag = typApplied, .applied = {.from = &o->w, .args = o->m, .argsCount = n, .totalArgsCount = n});
#elif SH == 25
    o->w = (Type){.tag = typStruct, .name = p->name, .ns = p->ns};
    o->v = (Type){.tag = typThis, ._this.that = &o->w};
    return IS(.tag = typPointer, .pointer.pointed = &o->v);
#endif
}
static bool list(const Parts *l, const Parts *r) { return NL == NR && (NL < 1 || l->a == r->a) && (NL < 2 || l->b == r->b) && (NL < 3 || l->c == r->c); }
/* what makes two types of the shape the same type */
static bool same(const Parts *l, const Parts *r)
{
    bool a = l->a == r->a, b = l->b == r->b, d = l->d == r->d, len = l->len == r->len, fl = l->flags == r->flags, nm = l->name[0] == r->name[0], ns = l->ns[0] == r->ns[0];
    switch (SH) {
    case 0: case 1: case 2: case 11: case 14: case 15: return a && fl;
    case 3: return a && len && fl;
    case 4: return a && b && fl;
    case 5: case 6: case 22: return a;
    case 16: return a && b && fl;
    case 7: case 8: return list(l, r) && fl;
    case 9: return list(l, r) && d && fl;
    case 10: return list(l, r) && d && nm;
    case 12: case 13: return a && len && fl;
    case 17: case 18: case 19: case 20: return nm && ns && fl;
    case 21: return nm && fl;
    case 23: return list(l, r) && d && fl;
    case 24: return list(l, r) && ns;
    }
    return false;
}
static Room lo, ro;
static Type lt, rt;
/*@ fn=compareTypes hashType unwrapType; unwind=5; cases=SH=0..6,11..22 FL=0..3 */
void h_same(void)
{
    Parts l = parts(0), r = parts(1);
    const Type *x = build(&lo, &lt, &l, 2), *y = build(&ro, &rt, &r, 2);
    ENSURES(compareTypes(x, y) == same(&l, &r), "two types are the same exactly when all their parts are");
    ENSURES(compareTypes(y, x) == same(&l, &r), "being the same type is symmetric");
    ENSURES(compareTypes(x, x), "a type is the same as itself");
    if (same(&l, &r))
        ENSURES(hashType(hashInit(), x) == hashType(hashInit(), y), "the same type hashes to the same value");
    REACH("same");
}
/*@ fn=compareTypes hashType compareManyTypes compareUnionMembers; unwind=5; cases=SH=7,8,9,10,23,24 NL=0..3 NR=0..3 */
void h_list(void)
{
    Parts l = parts(0), r = parts(1);
    const Type *x = build(&lo, &lt, &l, NL), *y = build(&ro, &rt, &r, NR);
    ENSURES(compareTypes(x, y) == same(&l, &r), "lists of types are the same exactly when they have the same length and members in the same order");
    if (NL == NR && same(&l, &r))
        ENSURES(hashType(hashInit(), x) == hashType(hashInit(), y), "the same type hashes to the same value");
    REACH("list");
}
/* one list of 16 elements, the callee is its contract: an answer per element */
#define LONG 16
static Type el[LONG], er[LONG];
static bool eq[LONG];
bool spec_compare(const Type *l, const Type *r)
{
    bool known = false, e = false;
    for (int i = 0; i < LONG; i++)
        if (l == &el[i] && r == &er[i])
            known = true, e = eq[i];
    ENSURES(known, "elements are compared with those at the same place");
    return e;
}
/*@ fn=compareManyTypes compareUnionMembers copyTypes; kind=bounded; bound=lists of up to 16 types; unwind=18; replace=compareTypes:spec_compare; cases=N=0..16 */
void h_long(void)
{
#ifndef N
#define N 16
#endif
    static const Type *l[LONG], *r[LONG];
    static UnionMember ul[LONG], ur[LONG];
    bool all = true;
    for (int i = 0; i < LONG; i++) {
        l[i] = &el[i], r[i] = &er[i], ul[i].type = &el[i], ur[i].type = &er[i];
        eq[i] = VF_BOOL();
        prim(&el[i], prtI32), prim(&er[i], eq[i] ? prtI32 : prtI64);
        if (i < N)
            all = all && eq[i];
    }
    ENSURES(compareManyTypes(l, r, N) == all, "a list is the same when every element is");
    ENSURES(compareUnionMembers(ul, ur, N) == all, "a union is the same when every member is");
    REACH("long");
}
#ifndef T1
#define T1 typVoid
#endif
/*@ fn=compareTypes; unwind=40; cases=T1=typError,typAuto,typVoid,typNull,typInfo,typPrimitive,typString,typPointer,typReference,typOptional,typArray,typMap,typAlias,typUnion,typUntaggedUnion,typOpaque,typTuple,typFunc,typEnum,typModule,typStruct,typClass,typInterface,typGeneric,typApplied,typException,typResult */
void h_kinds(void)
{
    static Type x, y;
    uint64_t fl = pickflags(), fr = pickflags();
    for (int k = typError; k <= typResult; k++) {
        if (k == T1 || k == typWrapped || k == typThis || k == typContainer || k == typLiteral)
            continue;
        x = (Type){.tag = T1, .flags = fl};
        y = (Type){.tag = k, .flags = fr};
        ENSURES(!compareTypes(&x, &y), "types of different kinds are different");
    }
    REACH("kinds");
}
#ifndef MK
#define MK 0
#endif
/*@ fn=make*Type getOrInsertType flattenWrappedType; unwind=4; replace=hashType:spec_hash; cases=MK=0..15 HIT=0,1 */
void h_make(void)
{
#ifndef HIT
#define HIT 0
#endif
    static Type a, b, w, old, init;
    static const Type *m[2];
    static UnionMember u[2];
    static AstNode decl;
    PrtId pa = vf_range(0, prtCOUNT - 1), pb = vf_range(0, prtCOUNT - 1);
    prim(&a, pa), prim(&b, pb);
    m[0] = &a, m[1] = &b;
    u[0] = (UnionMember){&a}, u[1] = (UnionMember){&b};
    uint64_t fl = pickflags(), len = VF_U64();
    finds = inserts = hashed = 0;
    token = VF_U32();
    answer = HIT ? &old : NULL;
    memset(&table, 0, sizeof(table));
    table.currentNamespace = "North";
    table.typeCount = len;
    old = (Type){.tag = typVoid};
    w = (Type){.tag = typWrapped, .flags = flgConst, .wrapped.target = &a};
    const Type *r = NULL;
    TTag tag = typError;
    bool parts = false;
    switch (MK) {
    case 0: r = makePointerType(&table, &a, fl), tag = typPointer, parts = asked.pointer.pointed == &a && asked.flags == fl; break;
    case 1: r = makePointerType(&table, &w, fl), tag = typPointer, parts = asked.pointer.pointed == &a && asked.flags == (fl | flgConst); break;
    case 2: r = makeReferenceType(&table, &a, fl), tag = typReference, parts = asked.reference.referred == &a && asked.flags == fl; break;
    case 3: r = makeOptionalType(&table, &a, fl), tag = typOptional, parts = asked.optional.target == &a && asked.flags == fl; break;
    case 4: r = makeArrayType(&table, &a, len), tag = typArray, parts = asked.array.elementType == &a && asked.array.len == len; break;
    case 5: r = makeMapType(&table, &a, &b), tag = typMap, parts = asked.map.key == &a && asked.map.value == &b; break;
    case 6: r = makeTypeInfo(&table, &a), tag = typInfo, parts = asked.info.target == &a; break;
    case 7: r = makeResultType(&table, &a), tag = typResult, parts = asked.result.target == &a; break;
    case 8: r = makeAliasType(&table, &a, "Alias", fl), tag = typAlias, parts = asked.alias.aliased == &a && asked.flags == fl && asked.name[1] == 'l'; break;
    case 9: r = makeTupleType(&table, m, 2, fl), tag = typTuple, parts = asked.tuple.count == 2 && asked.tuple.members == m && asked.flags == fl; break;
    case 10: r = makeUnionType(&table, u, 2, fl), tag = typUnion, parts = asked.tUnion.count == 2 && asked.tUnion.members == u && asked.flags == fl; break;
    case 11:
        init = (Type){.tag = typFunc, .flags = fl, .name = "f", .func = {.params = m, .paramsCount = 2, .retType = &b}};
        r = makeFuncType(&table, &init), tag = typFunc, parts = asked.func.paramsCount == 2 && asked.func.params == m && asked.func.retType == &b && asked.flags == fl && asked.name[0] == 'f';
        break;
    case 12: r = makeOpaqueTypeWithFlags(&table, "Op", &decl, fl), tag = typOpaque, parts = asked.opaque.decl == &decl && asked.flags == fl && asked.name[0] == 'O'; break;
    case 13: r = makeThisType(&table, "Me", fl), tag = typThis, parts = asked.flags == fl && asked.name[0] == 'M'; break;
    case 14: r = makeWrappedType(&table, &a, flgConst), tag = typWrapped, parts = asked.wrapped.target == &a && asked.flags == flgConst; break;
    case 15:
        init = (Type){.tag = typApplied, .applied = {.from = &b, .args = m, .argsCount = 2, .totalArgsCount = 2}};
        r = makeAppliedType(&table, &init).s, tag = typApplied, parts = asked.applied.from == &b && asked.applied.args == m && asked.applied.totalArgsCount == 2;
        break;
    }
    ENSURES(finds == 1 && ownCompare && asked.tag == tag && parts && asked.ns && asked.ns[0] == 'N', "the table is asked for the type with exactly these parts");
#ifdef VF_NATIVE
    token = askedHash, hashed = 1;
#endif
    ENSURES(askedHash == token && hashed == 1, "under the hash of that type");
    if (HIT) {
        ENSURES(r == &old && inserts == 0, "a type made before is used again");
    }
    else {
        ENSURES(inserts == 1 && r == inserted && r != &old && insertedHash == askedHash && stored.tag == tag, "a new type is entered under its hash and returned");
        ENSURES(r->index == len && table.typeCount == len + 1, "each new type has its own number");
        if (MK == 9)
            ENSURES(r->tuple.members == kept && kept[0] == &a && kept[1] == &b, "the table keeps its own copy of the members");
        if (MK == 10)
            ENSURES(r->tUnion.members == keptU && keptU[0].type == &a && keptU[1].type == &b, "the table keeps its own copy of the members");
        if (MK == 11)
            ENSURES(r->func.params == kept && kept[0] == &a && kept[1] == &b, "the table keeps its own copy of the parameters");
        if (MK == 15)
            ENSURES(r->applied.args == kept && kept[0] == &a && kept[1] == &b, "the table keeps its own copy of the arguments");
    }
    REACH("make");
}
