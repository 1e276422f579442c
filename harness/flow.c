/* C19: control flow of compiled programs, on the C generated by the compiler under test. */
#include "vf.h"
#ifndef K
#define K 0
#endif
#define TICK(k) (t = t * 10 + (k))
#define NONE 0
static uint64_t m16(uint64_t s, uint64_t i) { return s * 16 + i; }

/*@ fn=if else */
void h_if(void)
{
    int32_t a = VF_I32(), b = VF_I32();
    ENSURES(f_if(a, b) == (a < b ? 1 : a == b ? 2 : 3), "if, else if and else pick exactly the branch of the first true condition");
    REACH("if");
}
/*@ fn=&& || ! ?: */
void h_short(void)
{
    bool a = VF_BOOL(), b = VF_BOOL(), c = VF_BOOL();
    uint64_t p = 0, t = 0;
    bool r = f_short(&p, a, b, c), e;
    TICK(1);
    e = a;
    if (e) {
        TICK(2);
        e = b;
    }
    if (!e) {
        TICK(3);
        e = c;
    }
    ENSURES(!r == !e && p == t, "a && b || c evaluates its operands left to right, only as far as needed");
    p = t = 0;
    r = f_short2(&p, a, b, c);
    TICK(1);
    e = a;
    if (!e) {
        TICK(2);
        e = b;
    }
    if (e) {
        TICK(3);
        e = !c;
    }
    ENSURES(!r == !e && p == t, "(a || b) && !c evaluates its operands left to right, only as far as needed");
    p = t = 0;
    r = f_tern(&p, a, b, c);
    TICK(1);
    if (a) {
        TICK(2);
        e = b;
    }
    else {
        TICK(3);
        e = c;
    }
    ENSURES(!r == !e && p == t, "the ternary evaluates its condition and exactly the chosen operand");
    REACH("short");
}
#ifndef ROUNDS
#define ROUNDS 5
#endif
#ifdef VF_NATIVE
#undef ROUNDS
#define ROUNDS 40
#endif
/*@ fn=for range; kind=bounded; bound=ranges of up to 5 values anywhere; unwind=8; tcases=ROUNDS=9; tunwind=12 */
void h_range(void)
{
    uint64_t a = vf_range(0, 1ull << 40), n = vf_range(0, ROUNDS), s = 0;
    for (uint64_t i = 0; i < n; i++)
        s = m16(s, a + i);
    ENSURES(f_range(a, a + n) == s, "for (i: a..b) visits a, a+1 ... b-1 in order");
    REACH("range");
}
/*@ fn=for range; kind=bounded; bound=up to 5 rounds from anywhere; unwind=8; tcases=ROUNDS=9; tunwind=12 */
void h_range3(void)
{
    int64_t c = (int64_t)vf_range(0, 1ull << 40) - (1ll << 39), d = c + (int64_t)vf_range(0, ROUNDS * 3 + 4) - 4, x = 0;
    for (int64_t i = c; i < d; i += 3)
        x = (int64_t)m16(x, i);
    ENSURES(f_range3(c, d) == x, "range(a, b, 3) visits a, a+3 ... below b");
    REACH("range3");
}
/*@ fn=for range; kind=bounded; bound=up to 5 rounds from anywhere; unwind=8; tcases=ROUNDS=9; tunwind=12 */
void h_down(void)
{
    int64_t c = (int64_t)vf_range(0, 1ull << 40) - (1ll << 39), d = c - (int64_t)vf_range(0, ROUNDS * 2 + 4) + 4, x = 0;
    for (int64_t i = c; i > d; i -= 2)
        x = (int64_t)m16(x, i);
    ENSURES(f_neg(c, d) == x, "range(a, b, -2) visits a, a-2 ... above b");
    REACH("down");
}
/*@ fn=for range; kind=bounded; bound=up to 5 rounds from anywhere; unwind=8; tcases=ROUNDS=9; tunwind=12 */
void h_down2(void)
{
    int64_t c = (int64_t)vf_range(0, 1ull << 40) - (1ll << 39), d = c - (int64_t)vf_range(0, ROUNDS * 2 + 4) + 4, x = 0;
    for (int64_t i = c; i > d; i -= 2)
        x = (int64_t)m16(x, i);
    ENSURES(f_down(c, d) == x, "a descending range visits a, a-2 ... above b");
    REACH("down2");
}
/*@ fn=for range #for; unwind=7 */
void h_lit(void)
{
    uint64_t k = VF_U64(), x = 0;
    for (int64_t i = -2; i < 3; i++)
        x = m16(x, (uint64_t)i);
    x = m16(m16(m16(m16(m16(x, 7), 4), 1), 0), 1);
    ENSURES((uint64_t)f_lit((int64_t)k) == x + k, "literal ranges at run time and compile time visit every value in order");
    REACH("lit");
}
/*@ fn=while break continue; kind=bounded; bound=up to 7 rounds; unwind=10 */
void h_while(void)
{
    uint32_t n = vf_range(0, 7), brk = VF_U32(), skip = VF_U32();
    uint64_t s = 0;
    for (uint32_t i = 1; i <= n; i++) {
        if (i == skip)
            continue;
        if (i == brk)
            break;
        s = m16(s, i);
    }
    ENSURES(f_while(n, brk, skip) == s, "break leaves the while loop, continue starts its next round");
    REACH("while");
}
/*@ fn=for break continue; kind=bounded; bound=up to 3 x 3 rounds; unwind=5 */
void h_nested(void)
{
    uint64_t n = vf_range(0, 3), m = vf_range(0, 3), brk = VF_U64(), skip = VF_U64(), s = 0;
    for (uint64_t i = 0; i < n; i++) {
        for (uint64_t j = 0; j < m; j++) {
            if (j == skip)
                continue;
            if (i + j == brk)
                break;
            s = m16(s, i * 4 + j);
        }
        s = m16(s, 15);
    }
    ENSURES(f_nested(n, m, brk, skip) == s, "break and continue concern the innermost loop only");
    REACH("nested");
}
/*@ fn=switch case default */
void h_switch(void)
{
    int32_t x = VF_I32(), r;
    if (x == 1)
        r = 11;
    else if (x == 2 || x == 3 || x == -1)
        r = 21;
    else if (x >= 5 && x <= 8)
        r = 31;
    else if (x == -4)
        r = 40;
    else if (x == 20 || x == -2147483647)
        r = 60;
    else if (x == 21)
        r = 1;
    else if (x == 300)
        r = 71;
    else
        r = 51;
    ENSURES(f_switch(x) == r, "a switch runs exactly the body of the label, list or range its value matches, or default");
    uint8_t u = VF_U8();
    int64_t y = (int64_t)VF_U64();
    r = 7;
    if (u == 0 || u == 255)
        r = 10;
    else if (u >= 200 && u <= 220)
        r = 100 + (y == 4294967297ll ? 20 : y >= -9000000000000000000ll && y <= -5 ? 21 : 7);
    ENSURES(f_switch2(u, y) == r, "nested switches over u8 and i64 match the labels of their type's full range");
    REACH("switch");
}
/*@ fn=switch break continue; kind=bounded; bound=up to 7 rounds; unwind=9 */
void h_swbreak(void)
{
    uint32_t n = vf_range(0, 7), a = VF_U32(), b = VF_U32();
    uint64_t s = 0, done = 0;
    uint32_t i = 0;
    while (i < n) {
        i++;
        if (i == 1) {
            if (a == 1)
                break;
        }
        else if (i == 2 || i == 3) {
            if (a == i)
                continue;
        }
        else if (i == 4) {
            for (int j = 0; j < 3; j++) {
                if (j == 1 && b == 1)
                    break;
                if (j != 1 && b == 2)
                    continue;
                s = s * 8 + 7;
            }
            if (b == 3)
                break;
        }
        else if (a == i) {
            done = 1;
            break;
        }
        s = s * 8 + i;
    }
    if (!done)
        s = s * 8 + 5;
    ENSURES(f_swbreak(n, a, b) == s, "break and continue inside a switch concern the enclosing loop");
    REACH("swbreak");
}
/*@ fn=enum switch cast */
void h_enum(void)
{
    int32_t c = VF_I32();
    ENSURES(f_enum(c) == (c == 1 ? 200 : c == 2 ? 6 : 100), "enum members have their declared or next value and select their case");
    REACH("enum");
}
/*@ fn=defer return */
void h_defer(void)
{
    int32_t a = VF_I32();
    uint64_t p = 0, t = 0;
    f_defer(&p, a);
    if (a == 0)
        TICK(1);
    else {
        TICK(3);
        if (a != 1) {
            if (a != 9) {
                TICK(5);
                TICK(4);
            }
            TICK(6);
        }
        TICK(2);
        TICK(1);
    }
    ENSURES(p == t, "deferred statements run once on every way out of their scope, last one first, and only when reached");
    REACH("defer");
}
/*@ fn=defer break continue return; kind=bounded; bound=up to 4 rounds; unwind=7 */
void h_deferloop(void)
{
    uint64_t n = vf_range(0, 4), brk = VF_U64(), skip = VF_U64(), ret = VF_U64(), p = 0, t = 0, gone = 0;
    f_defer_loop(&p, n, brk, skip, ret);
    for (uint64_t i = 0; i < n; i++) {
        if (i == skip) {
            TICK(1);
            continue;
        }
        if (i == brk) {
            TICK(1);
            break;
        }
        if (i == ret) {
            TICK(1);
            gone = 1;
            break;
        }
        TICK(2);
        TICK(1);
    }
    if (!gone)
        TICK(3);
    ENSURES(p == t, "a defer in a loop runs once per round, also when the round ends by break, continue or return");
    REACH("deferloop");
}
/*@ fn=defer in nested scopes, break continue return; kind=bounded; bound=up to 2 outer and 2 inner rounds; unwind=5 */
void h_defernest(void)
{
    uint64_t n = vf_range(0, 2), m = vf_range(0, 2), brk = VF_U64(), skip = VF_U64(), ret = VF_U64(), p = 0, t = 0, r = 0;
    uint64_t got = f_defer_nest(&p, n, m, brk, skip, ret);
    for (uint64_t i = 0; i < n && !r; i++) {
        bool out = 0;
        if (i == skip) {
            TICK(3);
            if (m == ret) {
                TICK(2);
                r = 9;
                break;
            }
            if (m == skip || m == brk) {
                TICK(2);
                if (m == skip)
                    continue;
                break;
            }
        }
        for (uint64_t j = 1; j <= m; j++) {
            if (j == brk) {
                TICK(4);
                break;
            }
            if (j == skip) {
                TICK(4);
                continue;
            }
            TICK(j == 1 ? 5 : 6);
            if (i == ret) {
                TICK(4);
                if (j == 1) {
                    r = 8;
                    break;
                }
                continue;
            }
            if (j == 1 && i == brk) {
                TICK(4);
                break;
            }
            TICK(7);
            TICK(4);
        }
        if (!r)
            TICK(8);
        TICK(2);
    }
    TICK(1);
    ENSURES(p == t && got == r, "deferred statements of every scope that is left run once, innermost and last first, also when a return, break or continue leaves several scopes");
    REACH("defernest");
}
/*@ fn=match; unwind=6 */
void h_match(void)
{
    int32_t a = VF_I32(), k = VF_I32();
    REQUIRES(a != 2147483647);
    int32_t e = k == 1 ? (int32_t)(uint8_t)a + 2 : k == 2 ? (a == 5 ? 3 : 4) : a + 1;
    ENSURES(f_match(a, k) == e, "match runs the case of the type the union holds, with its value");
    int32_t s = 0;
    for (int i = 0; i < 4; i++) {
        if (k != 2 && k != 3) {
            if (i == 2)
                break;
        }
        else if (k == 2)
            s += 3;
        else if (i == 1)
            continue;
        s = s * 4 + 1;
    }
    ENSURES(f_matchl(k) == s, "type lists, break and continue in match concern the enclosing loop");
    REACH("match");
}
#ifndef VF_NATIVE
void spec_grow(struct StackTrace *t)
{
    if (t->calls == NULL) {
        t->calls = malloc(4 * sizeof(*t->calls));
        t->capacity = 4;
    }
}
#endif
/*@ fn=raise catch yield; unwind=3; replace=~StackTrace_grow:spec_grow */
void h_catch(void)
{
    int32_t a = VF_I32();
    REQUIRES(a != 2147483647);
    uint64_t p = 0, t = 0;
    int32_t r = f_catch(&p, a);
    TICK(1);
    if (a != 0 && a != 1) {
        TICK(2);
        TICK(4);
    }
    TICK(3);
    if (a == 0 || a == 1)
        TICK(5);
    TICK(6);
    ENSURES(p == t, "an exception leaves every function up to the nearest catch, runs the deferred statements and the handler once");
    ENSURES(r == (a == 0 || a == 1 ? 77 : a + 1), "catch yields its value exactly when something was raised");
    p = 0;
    ENSURES(f_catchd(&p, a) == (a == 0 || a == 1 ? 55 : a + 1), "a default catch value is used exactly when something was raised");
    REACH("catch");
}
/*@ fn=exception of a method; unwind=3; replace=~StackTrace_grow:spec_grow */
void h_xmember(void)
{
    int32_t a = VF_I32(), b = VF_I32();
    ENSURES(x_member(a, b) == (a > b ? -1 : b - a), "the default of a catch is used exactly when the method raised");
    REACH("xmember");
}
/*@ fn=exception out of a loop; unwind=6; kind=bounded; bound=at most 4 rounds; replace=~StackTrace_grow:spec_grow */
void h_xloop(void)
{
    int32_t a = vf_range(0, 4), b = VF_I32();
    ENSURES(x_looped(a, b) == (b >= 0 && b < a ? -7 : a * (a + 1) / 2), "an exception ends the loop it is raised in");
    REACH("xloop");
}
/*@ fn=raise, return and yield in catch; cases=K=0..4; unwind=3; replace=~StackTrace_grow:spec_grow */
void h_xcatch(void)
{
    int32_t a = VF_I32(), b = VF_I32(), e, r;
    uint64_t p = 0, t = 0;
#if K == 0
    r = x_changed(&p, a), e = a < 0 ? 4 : a * 2;
#elif K == 1
    r = x_return(&p, a), e = a < 0 ? -9 : a * 2;
#elif K == 2
    r = x_cond(&p, a, b), e = a >= 0 ? a * 2 + 1000 : b > 1 ? 5 : 1007;
#elif K == 3
    r = x_code(&p, a), e = a < 0 ? a : a * 2;
#else
    r = x_twice(&p, a, b), e = a < 0 || b < 0 ? 99 : a * 2 - b * 2;
#endif
    if (a >= 0)
        TICK(2);
    TICK(1);
    if (K < 2 && a < 0)
        TICK(3);
    if (K == 1 && a >= 0)
        TICK(4);
    if (K == 4 && a >= 0) {
        if (b >= 0)
            TICK(2);
        TICK(1);
    }
    if (K == 4)
        TICK(6);
    ENSURES(r == e, "a handler decides the value: it yields one, returns, raises again or reads what was raised");
    ENSURES(p == t, "an exception runs the deferred statements on its way and the handler once, nothing else");
    REACH("xcatch");
}
/*@ fn=break and continue in catch; kind=bounded; bound=loop of 4 rounds; unwind=5; cases=K=0..1; replace=~StackTrace_grow:spec_grow */
void h_xloops(void)
{
    int32_t a = VF_I32(), n = 0;
    uint64_t p = 0, t = 0;
    REQUIRES(a >= -100 && a <= 100);
    for (int i = 0; i < 4; i++) {
        if (K == 0 ? a - i < 0 : i - a < 0) {
            n += 1;
            if (K == 0)
                break;
            continue;
        }
        TICK(5);
        n += 10;
    }
    ENSURES((K == 0 ? x_break(&p, a) : x_cont(&p, a)) == n, "break and continue in a handler act on the loop around it");
    ENSURES(p == t, "the function that did not raise runs to its end");
    REACH("xloops");
}
/* operands that need something evaluated first: still only when they are selected */
#define TK(k) (t = t * 10 + (k))
/*@ fn=lazy operands of && */
void h_land(void)
{
    int32_t a = VF_I32();
    uint64_t p = 0, t = 0;
    bool e = (TK(1), a > 0) && (TK(2), a > 4) && ((TK(3), true) || (TK(4), a == 1));
    ENSURES(l_and(&p, a) == e && p == t, "arguments within an operand of && or || are evaluated exactly when the operand is");
    REACH("land");
}
/*@ fn=lazy operands of || */
void h_lor(void)
{
    int32_t a = VF_I32();
    uint64_t p = 0, t = 0;
    bool e = a == 1 || (TK(2), a == 4) || (a > 6 && (TK(3), a == 9));
    ENSURES(l_or(&p, a) == e && p == t, "arguments within an operand of || are evaluated exactly when the operand is");
    REACH("lor");
}
/*@ fn=lazy operands of ?: */
void h_lsel(void)
{
    int32_t a = VF_I32();
    uint64_t p = 0, t = 0;
    int32_t x = a == 1 ? (TK(1), 5) : a == 2 ? 6 : (TK(2), a);
    x = a > 3 ? (TK(4), (int32_t)((uint32_t)x + 1u)) : x;
    ENSURES(l_sel(&p, a) == x && p == t, "arguments within an operand of ?: are evaluated exactly when the operand is selected");
    REACH("lsel");
}
/*@ fn=lazy else if */
void h_lelif(void)
{
    int32_t a = VF_I32();
    uint64_t p = 0;
    ENSURES(l_elif(&p, a) == (a > 0 && a < 5 ? a : 5), "the branch of the first true condition");
    ENSURES(p == (a == 1 ? 0 : a == 2 ? 2 : a == 3 ? 23 : 234), "a condition is evaluated exactly when those before it are false");
    REACH("lelif");
}
/*@ fn=null checks before use; unwind=3 */
void h_lnil(void)
{
    int32_t a = VF_I32();
    ENSURES(l_nil(a) == (a == 3 ? 1 : a == 0 || a > 5 ? 2 : 3), "a null check guards what follows it");
    REACH("lnil");
}
/*@ fn=lazy loop condition; unwind=5 */
void h_lwhile(void)
{
    int32_t n = VF_I32(), i = 0;
    uint64_t p = 0, t = 0;
    while (i < 3 && (TK(1), i < n)) {
        i++;
        if (i == 2 || (TK(2), i == 7))
            continue;
        TK(3);
    }
    ENSURES(l_while(&p, n) == i && p == t, "a loop condition is evaluated before every round");
    REACH("lwhile");
}
/*@ fn=raising operands; unwind=3; replace=~StackTrace_grow:spec_grow */
void h_lraise(void)
{
    int32_t a = VF_I32();
    uint64_t p = 0, t = 0;
    REQUIRES(a < 1000000);
#define CHK(x) (TK2(x), (x) * 2)
#define TK2(x) ((x) < 0 ? TK(1) : (TK(2), TK(1)))
    int32_t e;
    if (a > 5 && CHK(a - 8) == 2)
        e = a - 8 < 0 ? -7 : 1;
    else if (a > 5 && a - 8 < 0)
        e = -7;
    else if (a == 3)
        TK(1), e = -7;
    else if (a == 2)
        e = 2;
    else if (a < 0)
        TK(1), e = -7;
    else
        e = CHK(a) == 8 ? 4 : a;
    ENSURES(l_raises(&p, a) == e && p == t, "an operand raises exactly when it is evaluated");
    REACH("lraise");
}
/*@ fn=catching operands; unwind=3; replace=~StackTrace_grow:spec_grow */
void h_lcatch(void)
{
    int32_t a = VF_I32();
    uint64_t p = 0, t = 0;
    bool x = a > 3 && (TK2(a - 5), a < 5);
    int32_t y = a < 3 ? (TK2(a), a < 0 ? 3 : a * 2) : 4;
    ENSURES(l_catch(&p, a) == (x ? y + 100 : y) && p == t, "a catch within an operand is evaluated exactly when the operand is");
    REACH("lcatch");
}
#ifndef VF_NATIVE
struct OutputStream *spec_put(struct OutputStream *s, int32_t v) { (void)v; return s; }
#endif
/*@ fn=catch in a string; unwind=3; replace=~StackTrace_grow:spec_grow,~OutputStream_op__lshiftI_i32E:spec_put */
void h_xfstr(void)
{
    int32_t a = VF_I32();
    uint64_t p = 0;
    ENSURES(x_fstr(&p, a) == (int32_t)((a < 0 ? 7u : (uint32_t)a * 2) * 16 + (a > 3 ? 1 : (uint32_t)a)), "an expression within a formatted string has its value, exceptions included");
    REACH("xfstr");
}
/*@ fn=catch discard; unwind=3; replace=~StackTrace_grow:spec_grow */
void h_xdiscard(void)
{
    int32_t a = VF_I32();
    uint64_t p = 0;
    ENSURES(x_discard(&p, a) == (a < 0 ? 8 : 58), "a discarded exception goes on after the call");
    REACH("xdiscard");
}
/*@ fn=conditions of every type; unwind=3 */
void h_cond(void)
{
    double f = VF_F64();
    uint32_t c = VF_U32();
    int64_t a = VF_I64();
    bool b = VF_BOOL();
    ENSURES(f_cond(f, c, a, b) == (f != 0.0 ? 1 : 0) + (c != 0 ? 2 : 0) + (a != 0 ? 4 : 0) + (b ? 8 : 0) + (a != 0 ? 16 : 0), "a condition holds for every value but zero, null and false");
    REACH("cond");
}
/*@ fn=Optional */
void h_opt(void)
{
    int32_t a = VF_I32();
    ENSURES(f_optuse(a) == (a > 5 ? a : -1), "an optional holds a value exactly when one was returned");
    ENSURES(f_optor(a) == (a > 5 ? a : 9), "|| on an optional gives its value or the default");
    REACH("opt");
}
/*@ fn=closures */
void h_clos(void)
{
    int32_t a = VF_I32(), k = VF_I32();
    REQUIRES(a > -100000000 && a < 100000000 && k > -100000000 && k < 100000000);
    ENSURES(f_clos(a, k) == 4 * a + 2 + 2 * k, "a closure sees the variables it captured");
    REACH("clos");
}
/*@ fn=recursion; kind=bounded; bound=n up to 13; unwind=16 */
void h_fact(void)
{
    uint32_t n = vf_range(0, 13), e = 1;
    for (uint32_t i = 2; i <= n; i++)
        e *= i;
    ENSURES(f_fact(n) == e, "recursive calls have variables of their own");
    REACH("fact");
}
/*@ fn=tuples arrays structs; unwind=6 */
void h_data(void)
{
    int32_t a = VF_I32(), b = VF_I32();
    REQUIRES(a > -1000000 && a < 1000000 && b > -1000000 && b < 1000000);
    ENSURES(f_tuple(a, b) == b * 4 + a * 2 + a, "tuples keep their members apart");
    uint64_t i = vf_range(0, 3), j = vf_range(0, 3);
    int32_t t[4] = {a, b, 3, 4}, s = 0;
    t[i] = 9;
    t[j] += 5;
    for (int k = 0; k < 4; k++)
        s = s * 3 + t[k] + k;
    ENSURES(f_array(a, b, i, j) == s, "arrays keep their elements apart and are enumerated in order with their index");
    /* p=(a,b) q=(a+2,b-2) d=(3,4) e=(3,b) r=p+q+d, r[1]+=e[0] */
    ENSURES(f_struct(a, b) == (2 * a + 5) * 3 + (2 * b + 2 + 3), "struct copies, defaults, methods and overloaded operators");
    REACH("data");
}
/*@ fn=virtual dispatch; unwind=2 */
void h_virt(void)
{
    int32_t a = VF_I32(), k = VF_I32();
    REQUIRES(a > -10000 && a < 10000);
    ENSURES(f_virt(a, k) == (k == 0 ? a * a * 10 + 7 : 10 + a), "virtual calls run the most derived method of the object");
    REACH("virt");
}
/*@ fn=generics default arguments variadic arguments string loop; unwind=8 */
void h_fun(void)
{
    int32_t a = VF_I32(), b = VF_I32();
    REQUIRES(a > -1000000 && a < 1000000 && b > -1000000 && b < 1000000);
    uint8_t x = (uint8_t)a, y = (uint8_t)b;
    ENSURES(f_gen(a, b) == (a > b ? a : b) * 2 + (x > y ? x : y), "each instance of a generic function works on its own type");
    ENSURES(f_dflt(a) == a * 300 + 56 + 16 + 12, "missing arguments take their defaults");
    ENSURES(f_var(a) == a * 100 + 23, "variadic arguments arrive in order");
    uint64_t p = 0;
    int32_t n = 0;
    for (int i = 0; i < 5; i++)
        n = n * 2 + "hello"[i];
    ENSURES(f_str(&p) == n, "enumerating a string visits its characters in order");
    REACH("fun");
}
