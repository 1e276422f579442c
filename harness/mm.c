/* C14: memory managed by compiled programs, on the C generated by the compiler under test.
 * malloc and free are the harness's own: they count live objects and refuse to release anything that is not live. */
#include "vf.h"
#undef malloc
#undef free
#undef realloc
static int nlive;
struct ObjM { struct __mem m; struct Obj o; };
struct PairM { struct __mem m; struct Pair o; };
struct BadM { struct __mem m; struct Bad o; };
void *malloc(size_t);
void free(void *);
void *vf_malloc(uint64_t n)
{
    /* typed blocks keep the verifier's memory model small; any other size is an untyped block */
    void *p;
    if (n == sizeof(struct ObjM))
        p = malloc(sizeof(struct ObjM));
    else if (n == sizeof(struct PairM))
        p = malloc(sizeof(struct PairM));
    else if (n == sizeof(struct BadM))
        p = malloc(sizeof(struct BadM));
    else
        p = malloc(n);
    REQUIRES(p != NULL);
    nlive++;
    return p;
}
void vf_free(void *p)
{
    if (p != NULL)
        nlive--;
    free(p); /* the verifier (natively the address sanitizer) rejects anything that is not live */
}
void *realloc(void *, size_t);
void *vf_realloc(void *p, uint64_t n)
{
#ifdef VF_CBMC
    if (p == NULL && n == 8 * sizeof(struct CallTrace)) {
        nlive++;
        return malloc(8 * sizeof(struct CallTrace));
    }
#endif
    return p == NULL ? vf_malloc(n) : realloc(p, n);
}
#ifndef VF_NATIVE
void vf_grow(struct StackTrace *t) { (void)t; }
void vf_push(struct StackTrace *t, const char *m, const char *c, const char *f, const char *p, uint64_t l) { (void)t; (void)m; (void)c; (void)f; (void)p; (void)l; }
#endif
#define FRESH() (nlive = 0)
#define DONE(TEXT)                                                                                                      \
    ENSURES(nlive == 0, "every object is released when its last owner goes: " TEXT);                                   \
    REACH(TEXT)
#ifndef K
#define PICK REQUIRES(1)
#elif K == 9
#define PICK REQUIRES(k < 0 || k > 5)
#else
#define PICK k = K
#endif
#define ARGS                                                                                                            \
    int32_t a = VF_I32(), k = VF_I32();                                                                                 \
    PICK;                                                                                                               \
    FRESH()
#define U(x) ((uint32_t)(x))
#define RUN(f, E, TEXT)                                                                                                 \
    {                                                                                                                   \
        ARGS;                                                                                                           \
        ENSURES(U(f(a, k)) == U(E), "value after " TEXT);                                                           \
        DONE(TEXT);                                                                                                     \
    }
#define RUN1(f, E, TEXT)                                                                                                \
    {                                                                                                                   \
        int32_t a = VF_I32();                                                                                           \
        FRESH();                                                                                                        \
        ENSURES(U(f(a)) == U(E), "value after " TEXT);                                                              \
        DONE(TEXT);                                                                                                     \
    }
/*@ fn=local variable; checks=mem; strictmem; unwind=3 */
void h_local(void) RUN1(m_local, a, "a local variable")
/*@ fn=copy of a variable; checks=mem; strictmem; unwind=3 */
void h_copy(void) RUN1(m_copy, U(a) + 1, "a copy of a variable")
/*@ fn=assignment, self assignment; checks=mem; strictmem; unwind=3 */
void h_assign(void) RUN(m_assign, k > 3 ? k : a, "assignment")
/*@ fn=argument; checks=mem; strictmem; unwind=3 */
void h_param(void) RUN1(m_param, U(a) * 2, "passing an argument")
/*@ fn=temporary argument; checks=mem; strictmem; unwind=3 */
void h_temp(void) RUN1(m_temp, U(a) * 2, "passing a temporary")
/*@ fn=early return; checks=mem; strictmem; unwind=3 */
void h_early(void) RUN(m_early, k == 0 ? 1 : k == 1 ? a : k == 2 ? U(3) + U(k) : U(k), "early returns")
/*@ fn=returned object; checks=mem; strictmem; unwind=3 */
void h_ret(void)
{
    ARGS;
    struct Obj *o = m_ret(a, k);
    ENSURES(nlive == 1 && o->v == (k == 0 ? a : k), "the returned object alone survives the call");
    __smart_ptr_drop(o);
    DONE("returning an object");
}
/*@ fn=loop, break, continue, return; checks=mem; strictmem; unwind=5; kind=bounded; bound=3 rounds */
void h_loop(void)
{
    int64_t n = VF_I64(), brk = VF_I64(), skip = VF_I64(), ret = VF_I64();
    REQUIRES(n <= 3);
    FRESH();
    int32_t s = 0, r = m_loop(n, brk, skip, ret);
    bool out = 0;
    for (int64_t i = 0; i < n; i++) {
        if (i == skip)
            continue;
        if (i == brk)
            break;
        if (i == ret) {
            out = 1;
            break;
        }
        s = s * 2 + 3;
    }
    ENSURES(r == (out ? 3 : s), "value after a loop with break, continue and return");
    DONE("loops");
}
/*@ fn=members; checks=mem; strictmem; unwind=3 */
void h_field(void)
{
    ARGS;
    uint32_t pa = k > 0 ? k : a;
    ENSURES(U(m_field(a, k)) == (pa + U(k)) * 2 + pa + U(a), "value after assigning one member to another");
    DONE("members");
}
/*@ fn=members; checks=mem; strictmem; unwind=3 */
void h_field2(void) RUN(m_field2, U(a) + (k > 5 ? 7 : k), "assigning a member")
/*@ fn=structs; checks=mem; strictmem; unwind=3 */
void h_struct(void)
{
    ARGS;
    uint32_t c = k == 1 ? k : a, b = k == 2 ? 0 : a;
    ENSURES(U(m_struct(a, k)) == c + b, "value after copying structs");
    DONE("structs");
}
/*@ fn=struct returned; checks=mem; strictmem; unwind=3 */
void h_structret(void) RUN1(m_structret, U(a) * 2, "returning a struct")
/*@ fn=derived class; checks=mem; strictmem; unwind=3 */
void h_sub(void) RUN1(m_sub, a, "a derived object held by a base variable")
/*@ fn=null; checks=mem; strictmem; unwind=3 */
void h_null(void) RUN1(m_null, a == 1 ? 1 : 0, "null")
/*@ fn=ternary; checks=mem; strictmem; unwind=3 */
void h_tern(void) RUN(m_tern, k == 0 ? a : k, "a ternary")
/*@ fn=tuples; checks=mem; strictmem; unwind=3 */
void h_tuple(void) RUN(m_tuple, k == 2 ? U(k) * 2 + U(a) : U(a) * 2 + U(k), "tuples")
/*@ fn=v = f(v); checks=mem; strictmem; unwind=3 */
void h_chain(void) RUN(m_chain, U(k == 1 ? U(a) + 1 : a) * 3, "a variable assigned from a call on itself")
/*@ fn=raise, catch; checks=mem; strictmem; unwind=3 */
void h_catch(void) RUN(m_catch, U(a) + (k == 1 || k == 2 ? 100 : U(a) * 2 + k), "raise and catch")
/*@ fn=exception passed on; replace=~StackTrace_push:vf_push,~StackTrace_grow:vf_grow; checks=mem; strictmem; unwind=3; tier=quick; kind=bounded; bound=k in 0..2; cases=K=0..2 */
void h_rethrow(void) RUN(m_rethrown, k == 1 ? 100 : U(a) * 2, "an exception passed on")
/*@ fn=exception passed on; replace=~StackTrace_push:vf_push,~StackTrace_grow:vf_grow; checks=mem; strictmem; unwind=3; tier=thorough; timeout=300 */
void h_rethrow_all(void) RUN(m_rethrown, k == 1 ? 100 : U(a) * 2, "an exception passed on")
/*@ fn=move; checks=mem; strictmem; unwind=3 */
void h_move(void) RUN(m_move, U(a) + (k == 1 ? k : a), "moving")
/*@ fn=switch; checks=mem; strictmem; unwind=3 */
void h_switch(void) RUN(m_switch, k == 0 ? 4 : k == 1 ? U(a) + 1 : a, "assignment in a switch")
/*@ fn=while, switch in a loop; checks=mem; strictmem; unwind=5; kind=bounded; bound=3 rounds */
void h_while(void)
{
    ARGS;
    REQUIRES(a <= 3);
    int32_t o = k, i = 0;
    while (i < a) {
        int32_t p = i++;
        if (p == k)
            continue;
        o = p;
        if (i == 2 && o == k - 1)
            break;
    }
    REQUIRES(k > -2147483647);
    ENSURES(m_while(a, k) == o, "value after while with break from a switch");
    DONE("while");
}
/*@ fn=assigned parameter; checks=mem; strictmem; unwind=3 */
void h_params(void) RUN(m_params, U(a) + (k == 1 ? 1 : k == 2 ? 0 : U(a)), "assigning a parameter")
/*@ fn=late initialisation; checks=mem; strictmem; unwind=3 */
void h_later(void) RUN(m_later, k == 1 ? a : k, "late initialisation")
/*@ fn=union; checks=mem; strictmem; unwind=3 */
void h_union(void) RUN(m_union, k == 1 ? U(k) + a : U(a) * 2, "unions")
/*@ fn=defer; checks=mem; strictmem; unwind=3 */
void h_defer(void) RUN(m_defer, k == 2 ? 7 : a, "defer")
/*@ fn=deinit; checks=mem; strictmem; unwind=3 */
void h_deinit(void)
{
    int32_t a = VF_I32();
    FRESH();
    m_reset();
    m_deinit(a);
    if (a == 1)
        ENSURES(m_trace() == 12 || m_trace() == 21, "each of two objects is finalized exactly once");
    else if (a == 2)
        ENSURES(m_trace() == 13 || m_trace() == 31, "each of two objects is finalized exactly once (assigned copy)");
    else
        ENSURES(m_trace() == 1, "an object with two owners is finalized exactly once");
    DONE("objects with deinit");
}
/*@ fn=struct copy and destructor; checks=mem; strictmem; unwind=3 */
void h_own(void)
{
    ARGS;
    m_reset();
    uint32_t e = k == 1 ? 21 : k == 2 ? 3 : 1;
    ENSURES(U(m_own(a, k)) == e + a, "structs are copied with their copy method");
    ENSURES(m_trace() == (k == 1 ? 777 : k == 2 ? 7777 : 77), "every struct value is destroyed exactly once");
    DONE("structs with copy and destructor");
}
/*@ fn=optional of a class; checks=mem; strictmem; unwind=3 */
void h_optional(void) RUN(m_optional, a > 3 ? 1 : k, "optionals")
/*@ fn=block; checks=mem; strictmem; unwind=3 */
void h_block(void) RUN(m_block, k == 1 ? k : a, "a nested block")
/*@ fn=maybe moved; checks=mem; strictmem; unwind=3 */
void h_maybe(void) RUN(m_maybe, k == 1 ? a : 0, "a variable moved on one branch only")
/*@ fn=moves on some branches; checks=mem; strictmem; unwind=3 */
void h_move_else(void) RUN(m_move_else, k == 1 ? U(a) : k == 2 ? U(a) + 1 : U(a) + 2, "moves on some branches")
/*@ fn=moves in a switch; checks=mem; strictmem; unwind=3 */
void h_move_switch(void) RUN(m_move_switch, k == 0 ? U(a) : k == 1 ? U(a) + 1 : k == 2 ? U(a) + 2 : 3, "moves in a switch")
/*@ fn=move in a loop; checks=mem; strictmem; unwind=4; kind=bounded; bound=3 rounds */
void h_move_loop(void)
{
    int64_t n = VF_I64(), k = VF_I64();
    REQUIRES(n <= 3);
    uint32_t e = 0;
    FRESH();
    for (int64_t i = 0; i < n; i++)
        e = i == k ? e + U(i) : e * 2 + U(i);
    ENSURES(U(m_move_loop(n, k)) == e, "value after moving in a loop");
    DONE("moving in a loop");
}
/*@ fn=move of a member; checks=mem; strictmem; unwind=3 */
void h_move_member(void) RUN(m_move_member, k == 1 ? U(a) + 1 : U(a) * 2, "moving a member")
/*@ fn=move into a member; checks=mem; strictmem; unwind=3 */
void h_move_field(void) RUN(m_move_field, k == 2 ? 8 : U(a) + 3, "moving into members")
/*@ fn=assignment after a move; checks=mem; strictmem; unwind=3 */
void h_move_back(void) RUN(m_move_back, k == 1 ? U(a) + 1 : U(a) * 2, "assigning a variable moved away")
/*@ fn=returning what was moved; checks=mem; strictmem; unwind=3 */
void h_move_ret(void) RUN(m_moved_ret, a, "returning a moved object")
/*@ fn=late assignment; checks=mem; strictmem; unwind=3 */
void h_late2(void) RUN(m_late, k == 0 ? U(a) : k == 1 ? 7u : U(-1), "a variable assigned on some branches")
/*@ fn=match; checks=mem; strictmem; unwind=3 */
void h_match(void) RUN(m_match, k == 1 ? U(a) + 5 : U(a) + 1, "a match on a union")
/*@ fn=nested tuples; checks=mem; strictmem; unwind=3 */
void h_nestedt(void) RUN(m_array, k == 1 ? U(a) : U(a) + U(k), "copies of nested tuples")
/*@ fn=moves of a parameter; checks=mem; strictmem; unwind=3 */
void h_move_par(void) RUN(m_move_par, k == 1 ? U(a) : k == 2 ? U(a) + 1 : 0, "a parameter moved on some branches")
/*@ fn=move and assign in a loop; checks=mem; strictmem; unwind=4; kind=bounded; bound=3 rounds */
void h_move_reloop(void)
{
    int64_t n = VF_I64(), k = VF_I64();
    REQUIRES(n <= 3);
    uint32_t e = 0, v = 1;
    FRESH();
    for (int64_t i = 0; i < n; i++) {
        e = e * 2 + v;
        v = U(i);
        if (i == k)
            break;
    }
    ENSURES(U(m_move_reloop(n, k)) == e * 2 + v, "value after moving and assigning in a loop");
    DONE("moving and assigning in a loop");
}
/*@ fn=assign in a loop after a move; checks=mem; strictmem; unwind=4; kind=bounded; bound=3 rounds */
void h_move_first(void)
{
    int64_t n = VF_I64(), k = VF_I64();
    REQUIRES(n <= 3);
    uint32_t e = 7;
    FRESH();
    for (int64_t i = 0; i < n; i++)
        e += i != k;
    ENSURES(U(m_move_first(n, k)) == e, "value after assigning in a loop what was moved away");
    DONE("assigning in a loop what was moved away");
}
/*@ fn=selected arguments; checks=mem; strictmem; unwind=3 */
void h_sel_arg(void) RUN(m_sel_arg, U(k == 1 ? a : k) + (k == 2 ? 2u : 3u), "passing a selected object")
/*@ fn=selected values; checks=mem; strictmem; unwind=3 */
void h_sel_keep(void)
    RUN(m_sel_keep, k == 1 ? U(a) * 2 + 8 : k == 2 ? U(a) * 3 + 5 : k == 3 ? U(a) * 2 + 9 : 17, "keeping a selected object")
/*@ fn=returning a selected object; checks=mem; strictmem; unwind=3 */
void h_sel_ret(void) RUN(m_sel_ret, k == 1 || k == 2 ? U(a) : 9, "returning a selected object")
/*@ fn=conditions on objects; checks=mem; strictmem; unwind=3 */
void h_cond(void) RUN(m_cond, k == 1 && a != 3 ? U(a) : 1, "a variable set conditionally")
/*@ fn=nested loops; checks=mem; strictmem; unwind=4; kind=bounded; bound=2 rounds each */
void h_nested(void)
{
    int64_t n = VF_I64(), m = VF_I64();
    REQUIRES(n <= 2 && m <= 2);
    FRESH();
    int32_t o = 0;
    for (int64_t i = 0; i < n; i++) {
        int32_t p = 1;
        for (int64_t j = 0; j < m; j++) {
            if (j == i)
                continue;
            if (i == 1) {
                o = 2;
                break;
            }
            p = 2;
        }
        o = p;
    }
    ENSURES(m_nested(n, m) == o, "value after nested loops");
    DONE("nested loops");
}

/*@ fn=method of a temporary; checks=mem; strictmem; unwind=3 */
void h_tmpmethod(void) RUN1(m_tmpmethod, a, "a method call on a temporary")
/*@ fn=member of a temporary; checks=mem; strictmem; unwind=3 */
void h_tmpstruct(void) RUN1(m_tmpstruct, a, "reading a member of a temporary struct")
/*@ fn=discarded result; checks=mem; strictmem; unwind=3 */
void h_tmpdiscard(void) RUN1(m_tmpdiscard, a, "a discarded call result")
/* ---- the runtime's reference counts ---- */
static int finalized;
static void *finalized_ptr;
static void finalizer(void *p)
{
    finalized++;
    finalized_ptr = p;
}
#define MEM(p) ((struct __mem *)((uint8_t *)(p) - sizeof(struct __mem)))
/*@ fn=__smart_ptr_alloc; checks=mem; strictmem; unwind=3 */
void h_sp_alloc(void)
{
    uint64_t n = vf_range(0, 4096);
    bool fin = VF_BOOL();
    FRESH();
    finalized = 0;
    uint8_t *p = __smart_ptr_alloc(n, fin ? finalizer : NULL);
    ENSURES(p != NULL && nlive == 1, "a new object is one live block");
    if (n > 0) {
        p[0] = 1;
        p[n - 1] = 2; /* inside the block, or the verifier's bounds obligation fails */
    }
    ENSURES(__smart_ptr_drop(p), "the only owner's drop releases the object");
    ENSURES(finalized == (fin ? 1 : 0) && (!fin || finalized_ptr == p), "the finalizer runs once, on the object");
    DONE("a new object");
}
/*@ fn=__smart_ptr_get __smart_ptr_drop; checks=mem; strictmem; unwind=3 */
void h_sp_count(void)
{
    uint32_t refs = VF_U32();
    REQUIRES(refs > 0 && refs < 0xffffffffu);
    FRESH();
    finalized = 0;
    void *p = __smart_ptr_alloc(8, finalizer);
    MEM(p)->refs = refs;
    ENSURES(__smart_ptr_get(p) == p && MEM(p)->refs == refs + 1, "get adds exactly one owner and returns the object");
    ENSURES(!__smart_ptr_drop(p) && MEM(p)->refs == refs && finalized == 0 && nlive == 1, "drop takes back exactly one owner, the object lives on");
    bool gone = __smart_ptr_drop(p);
    ENSURES(!gone == (refs != 1) && finalized == (refs == 1) && nlive == (refs != 1), "the object is finalized and released exactly when the last owner goes");
    REACH("count");
}
/*@ fn=__smart_ptr_get __smart_ptr_drop; checks=mem; strictmem; unwind=3 */
void h_sp_null(void)
{
    FRESH();
    ENSURES(__smart_ptr_get(NULL) == NULL && !__smart_ptr_drop(NULL) && nlive == 0, "null has no owners");
    REACH("null");
}
/*@ fn=__smart_ptr_alloc (two objects); checks=mem; strictmem; unwind=3 */
void h_sp_two(void)
{
    FRESH();
    finalized = 0;
    uint64_t *p = __smart_ptr_alloc(8, finalizer), *q = __smart_ptr_alloc(8, finalizer), x = VF_U64();
    ENSURES(p != q && nlive == 2, "objects are distinct");
    *p = x;
    *q = ~x;
    __smart_ptr_get(p);
    __smart_ptr_drop(q);
    ENSURES(finalized_ptr == q && finalized == 1 && *p == x && MEM(p)->refs == 2 && nlive == 1, "owners of one object do not touch another");
    __smart_ptr_drop(p);
    __smart_ptr_drop(p);
    DONE("two objects");
}
