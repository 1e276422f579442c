/* C13: values of user defined types, on the C generated by the compiler under test. */
#include "vf.h"
#ifndef K
#define K 0
#endif
#ifndef J
#define J 0
#endif

/*@ fn=virtual dispatch, inheritance (Dog); unwind=2; cases=K=0..8 */
void h_dog(void)
{
    int32_t v = VF_I32(), t = VF_I32();
    int32_t e[9] = {2, v + 5, t, v * 3, 200 + v + 6, t * 10 + v, 4, 2 + v * 3, v + 11};
    ENSURES(v_dog(v, t, K) == e[K], "an object passed as its base runs its own overrides, the inherited methods otherwise, on its own members");
    REACH("dog");
}
/*@ fn=virtual dispatch, inheritance (Cat); unwind=2; cases=K=0..7 */
void h_cat(void)
{
    int32_t v = VF_I32(), w = v + 1;
    int32_t e[8] = {1, w - 5, 9, w * 3, 100 + w - 6, 3, w - 8, 9};
    ENSURES(v_cat(v, K) == e[K], "an object passed as its base runs its own overrides, the inherited methods otherwise, on its own members");
    REACH("cat");
}
/*@ fn=virtual dispatch by dynamic type; unwind=2 */
void h_pick(void)
{
    int32_t v = VF_I32(), t = VF_I32(), k = VF_I32();
    ENSURES(v_pick(v, t, k) == (k == 1 ? 100 + (v + 1 - t) + 9 : 200 + v + t + t), "the method that runs depends on the object assigned, not on the declared type");
    ENSURES(v_alias(v, t) == v + 1 + t, "class variables refer to the same object");
    REACH("pick");
}
/*@ fn=fields over three levels of inheritance, linked objects; unwind=4 */
void h_leaf(void)
{
    int32_t v = VF_I32(), w = VF_I32(), c = VF_I32();
    ENSURES(v_leaf(v, w) == (v * 3 + w * 5 + 9) * 7 + v + w, "every inherited member exists once");
    ENSURES(v_chain(v, w, c) == v * 9 + (w + 1) * 3 + c, "members that refer to other objects");
    REACH("leaf");
}
/*@ fn=structs by value and by reference; unwind=2 */
void h_pass(void)
{
    int32_t a = VF_I32(), b = VF_I32(), k = VF_I32();
    ENSURES(s_pass(a, b, k) == (k == 0 ? (99 + b) * 1000 + a : (55 + b) * 1000 + 55), "a struct passed by value is a copy, one passed by reference the original");
    ENSURES(s_copy(a, b) == (a + 1) * 1000 + 400 + (a + 5) * 10 + b, "assigning a struct copies it, members left out take their defaults");
    REACH("pass");
}
/*@ fn=overloaded operators; unwind=2; cases=K=0..9 */
void h_ops(void)
{
    int32_t a = VF_I32(), b = VF_I32();
    int32_t e[10] = {a * 3 + b, b * 3 + 7, a * 2 + b * 3, a == 3 && a == b, a < 3, (a + 3) * 3 + b + a, (a - 3) * 3 + b - a, a * 6 * 3 + b * 6, a - 9, a != 0};
    ENSURES(s_ops(a, b, K) == e[K], "an overloaded operator calls its function with the operands in order");
    REACH("ops");
}
/*@ fn=nested structs, tuples and arrays as members; unwind=4 */
void h_wide(void)
{
    int32_t a = VF_I32(), b = VF_I32();
    ENSURES(s_wide(a, b) == 10 + a * 2 + 12 + 20 + 40 - 1 + b * 6 + a * 7 + 56 + a * 9 + 9, "a copy of a struct has its own nested struct, tuple and array members");
    ENSURES(t_array(a, b) == a * 2 + 6 + 12 + b * 5 + a * 6 + b * 7 + 5, "array literals inside arrays and tuples");
    REACH("wide");
}
/*@ fn=tuples; unwind=2 */
void h_tuple(void)
{
    int32_t v = VF_I32(), k = VF_I32();
    int64_t w = VF_I64(), e;
    e = k == 0 || k == 3 ? v : k == 1 || k == 4 ? (uint8_t)v : k == 2 || k == 5 ? w : 1 + w;
    ENSURES(t_tuple(v, w, k) == e, "tuples keep each member with its own type, also when taken apart");
    REACH("tuple");
}
/*@ fn=enums; unwind=2 */
void h_enum(void)
{
    int32_t k = VF_I32();
    int64_t e = k == 0 ? 0 : k == 1 ? 5 : k == 2 ? 6 : k == 3 ? 100 : k == 4 ? 101 : k == 5 ? -3 : k == 6 ? -2 : k == 7 ? -1 : 2147483647;
    ENSURES(e_val(k) == e, "an enum option without a value follows the one before");
    ENSURES(e_switch(k) == (k == 0 ? 10 : k == 1 ? 20 : k == 2 ? 30 : 40), "a switch over an enum picks the option");
    REACH("enum");
}
/*@ fn=unions; unwind=2 */
void h_union(void)
{
    int32_t x = VF_I32(), k = (int32_t)vf_range(0, 3);
    double y = VF_F64();
    REQUIRES(y == y);
    ENSURES(u_is(x, y, k) == (k == 0 ? 1 : k == 1 ? 2 : k == 2 ? 4 : 8), "a union tells the type of the value assigned last, and only that");
    ENSURES(u_match(x, y, k) == (k == 0 ? x : k == 1 ? 1 : k == 2 ? -7 : (uint8_t)x + 1000), "match picks the case of the type held and gives its value");
    ENSURES(u_cast(x, y, k) == (k == 0 ? x : k == 3 ? (uint8_t)x : 5), "a union cast to the type it holds gives the value");
    REACH("union");
}
/*@ fn=optionals; unwind=2 */
void h_opt(void)
{
    int32_t a = VF_I32(), b = VF_I32(), k = VF_I32();
    ENSURES(o_use(a, k) == (k == 0 ? -1 : a), "an optional holds nothing or the value given");
    ENSURES(o_set(a, b, k) == (k == 1 ? a + 1 : b), "an optional assigned a value holds it");
    REACH("opt");
}
/*@ fn=overload resolution, default arguments; unwind=2 */
void h_over(void)
{
    int32_t a = VF_I32(), b = VF_I32(), c = VF_I32(), k = VF_I32();
    ENSURES(f_over(a, k) == (k == 0 ? 1 : k == 1 ? 2 : k == 2 ? 3 : k == 3 ? 4 + a - 3 : 5), "a call runs the overload of its argument types");
    int32_t e = a * 5 + (k == 0 ? -70 : b * 3 + (k == 1 ? -100 : c));
    if (k >= 5 && k <= 7)
        e = k == 5 ? 721 : k == 6 ? a * 7 + 700 : a * 7 + b * 5 + 500;
    if (k == 8)
        e = (a + b * 2 + 9) * 3 + a + 21;
    ENSURES(f_dflt(a, b, c, k) == e, "missing arguments take their defaults");
    REACH("over");
}
/*@ fn=generic functions and structs; unwind=2 */
void h_gen(void)
{
    int64_t a = VF_I64(), b = VF_I64();
    int32_t k = VF_I32();
    uint8_t q = VF_U8();
    int64_t e = a > b ? a : b;
    if (k == 1)
        e = (uint8_t)a > (uint8_t)b ? (uint8_t)a : (uint8_t)b;
    else if (k == 2)
        e = (int16_t)a > (int16_t)b ? (int16_t)a : (int16_t)b;
    else if (k != 0)
        e = (uint64_t)a > (uint64_t)b ? a : b;
    ENSURES(f_gen(a, b, k) == e, "each instance of a generic function works on its own type");
    ENSURES(f_box(a, q, k) == (k == 0 ? a : k == 1 ? q : k == 2 ? 0 : (a + 2) * 2 + 3), "each instance of a generic struct has members of its own type");
    REACH("gen");
}
/*@ fn=lambdas, pointers, globals; unwind=2 */
void h_fun(void)
{
    int32_t a = VF_I32(), b = VF_I32(), k = VF_I32();
    ENSURES(f_lambda(a, b, k) == (k == 0 ? a * 4 - b : a + b + k), "a function passed as an argument gets its arguments in order and sees what it captured");
    ENSURES(f_ptr(a, b, k) == (k == 0 ? b * 3 + a : k == 1 ? 16 : b + 5), "writes through a pointer change the variable referred to");
    ENSURES(f_global(a) == a + 2, "a global variable keeps what was assigned");
    REACH("fun");
}
/*@ fn=mutual recursion; unwind=9; kind=bounded; bound=depth at most 7 */
void h_rec(void)
{
    uint32_t n = (uint32_t)vf_range(0, 7);
    ENSURES(!rec_even(n) == (n % 2 == 1), "mutually recursive functions");
    REACH("rec");
}
/*@ fn=optional parameters and members; unwind=2; cases=K=0..5 */
void h_oarg(void)
{
    int32_t a = VF_I32();
    int64_t e[6] = {(int32_t)(a + 1), -1, a, 4, a, 5};
    ENSURES(o_arg(a, K) == e[K], "an optional argument holds the value passed, null or its default nothing");
    REACH("oarg");
}
/*@ fn=optional parameters and members; unwind=2; cases=K=0..3 J=0..2 */
void h_omem(void)
{
    int32_t a = VF_I32();
    int32_t e[4][3] = {{a, 9, 3}, {-2, a, 8}, {6, -3, 3}, {a, -3, 3}};
    ENSURES(o_mem(a, K, J) == e[K][J], "an optional member holds the value given, nothing for null, and its default if omitted");
    REACH("omem");
}
/*@ fn=defaults of optional and union members; unwind=2; cases=K=0..4 */
void h_mdef(void)
{
    int32_t a = VF_I32();
    int32_t e[5] = {8, a, a + 6, a, 2};
    ENSURES(m_def(a, K) == e[K], "omitted members take their declared defaults");
    REACH("mdef");
}
/*@ fn=conditions of structs and optionals; unwind=2 */
void h_truthy(void)
{
    int32_t a = VF_I32(), k = VF_I32();
    ENSURES(t_truthy(a, k) == (k == 0 ? (a != 0 ? 1 : 2) : k == 1 ? a : -1), "a struct as condition runs its truth operator, an optional is true when it holds a value");
    REACH("truthy");
}
/*@ fn=union members and aliases; unwind=2; cases=K=0..4 */
void h_umem(void)
{
    int32_t a = VF_I32();
    double b = VF_F64();
    int32_t f = b > 0.0 ? 1 : 2, e[5] = {a + 2, f, a > 3 ? 3 : 4, f, a + 2};
    ENSURES(u_mem(a, b, K) == e[K], "a union member reports and yields what was assigned last, a copy keeps its own");
    REACH("umem");
}
/*@ fn=union members and aliases; unwind=2 */
void h_ualias(void)
{
    int32_t a = VF_I32(), k = VF_I32();
    ENSURES(u_alias(a, k) == (k == 1 ? 2 : a), "an alias stands for its union, assigning one variable leaves its copy alone");
    REACH("ualias");
}
/*@ fn=anonymous structs, spread tuples; unwind=2; cases=K=0..3 */
void h_anon(void)
{
    int32_t a = VF_I32(), c = VF_I32();
    int64_t b = VF_I64();
    double d = VF_F64();
    REQUIRES(d == d);
    int32_t e[4] = {a, 1, 7, a * 2 + 1};
    ENSURES(an(a, d, K) == e[K], "members of structs without a name go by their names");
#if K < 3
    int64_t s = K == 1 ? (int64_t)c * 100 + b * 10 + a : (int64_t)a * 100 + b * 10 + c;
    ENSURES(spread(a, b, c, K) == s, "a spread tuple passes its members as arguments in order");
#endif
    REACH("anon");
}
/*@ fn=overloaded methods, promotion, variadic functions; unwind=2; cases=K=0..10 */
void h_mover(void)
{
    int32_t v = VF_I32(), a = VF_I32();
    int32_t e[11] = {v + a, v * 100 + a * 10 + 4, v + 1000, a > 2 ? v : -v, 1, 3, 4, 5, a, (a * 10 + v) * 10 + 3, 6};
    ENSURES(m_over(v, a, K) == e[K], "a call runs the overload of its argument types, variadic arguments arrive in order");
    REACH("mover");
}
/*@ fn=virtual calls through members, tuples, optionals, operators of classes; unwind=2; cases=K=0..9 */
void h_sub(void)
{
    int32_t a = VF_I32(), b = VF_I32();
    int32_t e[10] = {b * 2 * 10 + b - a, b * 4 + 5, b - 3, a + 2 + b, a * 3 + (b == 0 ? a : 2), a == b, a * b + 2, b > 0 ? 3 + b : 6, (a + b) * 10 + a - b, b > 3 ? 12 : -1};
    ENSURES(v_sub(a, b, K) == e[K], "the override of the object runs however it is reached, operators of a class see its members");
    REACH("sub");
}
