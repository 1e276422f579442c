#!/usr/bin/env python3
"""writes probes/ops.cxy and harness/ops.c: one wrapper per operator/type and per operator pair, each with the
value the language defines for it, written from the documented precedence (loosest last: && then ||)."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INT = ["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"]
CT = dict(i8="int8_t", i16="int16_t", i32="int32_t", i64="int64_t", u8="uint8_t", u16="uint16_t", u32="uint32_t", u64="uint64_t",
          f32="float", f64="double", bool="_Bool")
BITS = {t: int(t[1:]) for t in INT}
LEVEL = [["*", "/", "%"], ["+", "-"], ["<<", ">>"], ["<", "<=", ">", ">="], ["==", "!="], ["&"], ["^"], ["|"], ["&&"], ["||"]]
PREC = {o: i for i, l in enumerate(LEVEL) for o in l}
NAME = {"*": "mul", "/": "div", "%": "mod", "+": "add", "-": "sub", "<<": "shl", ">>": "shr", "<": "lt", "<=": "le", ">": "gt", ">=": "ge",
        "==": "eq", "!=": "ne", "&": "and", "^": "xor", "|": "or", "&&": "land", "||": "lor"}
ARITH = ["*", "/", "%", "+", "-", "<<", ">>", "&", "^", "|"]
CMP = ["<", "<=", ">", ">=", "==", "!="]
cxy, chk, mainc = [], {}, []


def wrap(t, e):
    return f"(({CT[t]})({e}))"


def guard(op, t, a, b):
    """inputs on which the operation is defined"""
    if op in "/%":
        g = f"({b}) != 0"
        if t[0] == "i":
            g += f" && !(({b}) == -1 && ({a}) == MIN{t[1:]})"
        return g
    if op in ("<<", ">>"):
        return f"({b}) >= 0 && ({b}) < {BITS[t] if t in BITS else 64}"
    return "1"


def arg(t, n):
    return f"{CT[t]} {n} = IN_{t}();"


def fn(group, name, params, ret, body, pre, want, text, block=False):
    ps = ", ".join(f"{n}: {t}" for n, t in params)
    cxy.append(f"func {name}({ps}): {ret} " + (f"{{ {body} }}" if block else f"=> {body}"))
    mainc.append(f"    {name}(" + ", ".join("true" if t == "bool" else f"1`{t}" if t in BITS else f"<{t}>1" for _, t in params) + ")")
    decl = " ".join(arg(t, n) for n, t in params)
    call = f"{name}({', '.join(n for n, _ in params)})"
    eq = f"SAMEF({call}, {want})" if ret[0] == "f" else f"{call} == ({want})"
    chk.setdefault(group, []).append(f"    {{ {decl} if ({pre}) {{ ENSURES({eq}, \"{text}\"); }} }}")


# 1. every operator on every type
for t in INT:
    for op in ARITH:
        fn("bin_" + ("muldiv" if op in "*/%" else "int"), f"b_{NAME[op]}_{t}", [("a", t), ("b", t)], t, f"a {op} b", guard(op, t, "a", "b"), wrap(t, f"a {op} b"),
           f"{op} on {t}")
        # the compound assignment
        fn("asg_" + ("muldiv" if op in "*/%" else "int"), f"s_{NAME[op]}_{t}", [("a", t), ("b", t)], t, f"a {op}= b; return a", guard(op, t, "a", "b"), wrap(t, f"a {op} b"),
           f"{op}= on {t}", True)
    for op in CMP:
        fn("cmp", f"b_{NAME[op]}_{t}", [("a", t), ("b", t)], "bool", f"a {op} b", "1", f"a {op} b", f"{op} on {t}")
    fn("unary", f"u_neg_{t}", [("a", t)], t, "-a", "1", wrap(t, "-a"), f"unary - on {t}")
    fn("unary", f"u_plus_{t}", [("a", t)], t, "+a", "1", "a", f"unary + on {t}")
    fn("unary", f"u_com_{t}", [("a", t)], t, "~a", "1", wrap(t, "~a"), f"~ on {t}")
    for nm, e, old, new in (("postinc", "a++", "a", "a + 1"), ("postdec", "a--", "a", "a - 1"), ("preinc", "++a", "a + 1", "a + 1"), ("predec", "--a", "a - 1", "a - 1")):
        fn("unary", f"u_{nm}_{t}", [("a", t)], t, e if 0 else f"var x = {e}; return x ^ a", "1", wrap(t, f"{wrap(t, old)} ^ {wrap(t, new)}"), f"{nm} on {t}", True)
        fn("unary", f"u_{nm}1_{t}", [("a", t)], t, f"const x = {e}; return x", "1", wrap(t, old), f"value of {nm} on {t}", True)
for t in ("f32", "f64"):
    for op in "+-*/":
        fn("flt" + op.replace("+", "1").replace("-", "2").replace("*", "3").replace("/", "4"), f"b_{NAME[op]}_{t}", [("a", t), ("b", t)], t, f"a {op} b", "1", wrap(t, f"a {op} b"), f"{op} on {t}")
    for op in CMP:
        fn("cmp", f"b_{NAME[op]}_{t}", [("a", t), ("b", t)], "bool", f"a {op} b", "1", f"a {op} b", f"{op} on {t}")
    fn("unary", f"u_neg_{t}", [("a", t)], t, "-a", "1", "-a", f"unary - on {t}")
for op in ("&&", "||", "==", "!="):
    fn("cmp", f"b_{NAME[op]}_bool", [("a", "bool"), ("b", "bool")], "bool", f"a {op} b", "1", f"a {op} b", f"{op} on bool")
fn("cmp", "u_not_bool", [("a", "bool")], "bool", "!a", "1", "!a", "! on bool")
# casts
for a in INT:
    for b in INT:
        fn("cast", f"c_{a}_{b}", [("a", a)], b, f"<{b}>a", "1", wrap(b, "a"), f"cast of {a} to {b}")
    for b in ("f32", "f64"):
        fn("castf", f"c_{a}_{b}", [("a", a)], b, f"<{b}>a", "1", wrap(b, "a"), f"cast of {a} to {b}")
        m = {8: 100, 16: 30000, 32: 2e9, 64: 9e18}[BITS[a]]
        fn("castf", f"c_{b}_{a}", [("a", b)], a, f"<{a}>a", f"a > {'-' if a[0] == 'i' else ''}{m if a[0] == 'i' else 0} && a < {m}", wrap(a, "a"), f"cast of {b} to {a}")
fn("castf", "c_f64_f32", [("a", "f64")], "f32", "<f32>a", "1", "(float)a", "cast of f64 to f32")
fn("castf", "c_f32_f64", [("a", "f32")], "f64", "<f64>a", "1", "(double)a", "cast of f32 to f64")

# 2. every pair of operators
def typ(op, l, r, t="i64"):
    if op in ARITH:
        return t if l == r == t else None
    if op in ("&&", "||"):
        return "bool" if l == r == "bool" else None
    if op in ("==", "!="):
        return "bool" if l == r else None
    return "bool" if l == r == t else None


class N:
    def __init__(s, op, l, r):
        s.op, s.l, s.r = op, l, r

    def ty(s, env):
        l, r = (x.ty(env) if isinstance(x, N) else env[x] for x in (s.l, s.r))
        return None if l is None or r is None else typ(s.op, l, r)

    def c(s, env):
        l, r = (x.c(env) if isinstance(x, N) else x for x in (s.l, s.r))
        return f"({l} {s.op} {r})"

    def pre(s, env):
        g = []
        for x in (s.l, s.r):
            if isinstance(x, N):
                g += x.pre(env)
        l, r = (x.c(env) if isinstance(x, N) else x for x in (s.l, s.r))
        p = guard(s.op, "i64", l, r) if s.op in ARITH else "1"
        return g + ([p] if p != "1" else [])


def tree(o1, o2):
    return N(o2, N(o1, "a", "b"), "c") if PREC[o1] <= PREC[o2] else N(o1, "a", N(o2, "b", "c"))


import itertools
for o1, o2 in itertools.product(PREC, PREC):
    n = tree(o1, o2)
    for ts in itertools.product(("i64", "bool"), repeat=3):
        env = dict(zip("abc", ts))
        t = n.ty(env)
        if t:
            slow = [o for o in (o1, o2) if o in "*/%"]
            fn("pair_" + (f"slow{'*/%'.index(o1)}" if len(slow) == 2 else "m" if slow else "q"), f"p_{NAME[o1]}_{NAME[o2]}", list(zip("abc", ts)), t, f"a {o1} b {o2} c",
               " && ".join(n.pre(env)) or "1", n.c(env), f"a {o1} b {o2} c")
            break
# grouping, unary operators against binary ones, casts, ternaries
I3 = [("a", "i64"), ("b", "i64"), ("c", "i64")]
B3 = [("a", "bool"), ("b", "bool"), ("c", "bool")]
S = "mixed"
for k, (ps, r, e, w, pre) in enumerate([
        (I3, "i64", "(a + b) * c", "(a + b) * c", "1"), (I3, "i64", "a - (b - c)", "a - (b - c)", "1"), (I3, "i64", "a & (b | c)", "a & (b | c)", "1"),
        (I3, "i64", "a << (b & 7) >> 1", "(a << (b & 7)) >> 1", "1"), (I3, "i64", "-a + b", "(-a) + b", "1"), (I3, "i64", "~a & b", "(~a) & b", "1"),
        (I3, "i64", "-a * -b", "(-a) * (-b)", "1"), (I3, "i64", "- -a", "a", "1"), (I3, "i64", "-(-a)", "a", "1"), (I3, "i64", "a - -b", "a + b", "1"),
        (I3, "i64", "a - -1", "a + 1", "1"), (I3, "i64", "~~a", "a", "1"), (I3, "i64", "-~a", "a + 1", "1"), (I3, "i64", "a - ~b - c", "(a - (~b)) - c", "1"),
        (B3, "bool", "!a == b", "(!a) == b", "1"), (B3, "bool", "!(a == b)", "a != b", "1"), (B3, "bool", "!a && b || c", "((!a) && b) || c", "1"),
        (B3, "bool", "a && (b || c)", "a && (b || c)", "1"), (B3, "bool", "!!a", "a", "1"), (I3, "bool", "a < b == b < c", "(a < b) == (b < c)", "1"),
        (I3, "bool", "a & b == c", None, None),
        (I3, "i64", "a < b ? a : b", "a < b ? a : b", "1"), (I3, "i64", "a < b ? a : b < c ? b : c", "a < b ? a : (b < c ? b : c)", "1"),
        (I3, "i64", "(a < b ? a : b) + c", "(a < b ? a : b) + c", "1"), (I3, "i64", "a < b ? a + 1 : b - c", "a < b ? a + 1 : b - c", "1"),
        (I3, "i64", "dbl!(a + b)", "(a + b) * 2", "1"), (I3, "i64", "neg!(a - b)", "-(a - b)", "1"), (I3, "i64", "neg!(-a)", "a", "1"),
        (I3, "i64", "sub!(a, b + c)", "a - (b + c)", "1"), (I3, "i64", "sub!(a - b, neg!(c))", "(a - b) + c", "1"), (I3, "i64", "mix!(a, b, c)", "(a + b) * (b - c)", "1"),
        (I3, "i64", "mix!(a | b, b ^ c, c & 3)", "((a | b) + (b ^ c)) * ((b ^ c) - (c & 3))", "1"),
        (I3, "i64", "a - #{K}", "a + 5", "1"), (I3, "i64", "a * #{2 + 3}", "a * 5", "1"), (I3, "i64", "<i64>(a + b) * c", "(a + b) * c", "1"),
        (I3, "i64", "(a, b, c).1", "b", "1"), (I3, "i64", "[a, b, c].[2]", "c", "1"),
        (I3, "i64", "a + b * c - a / 3", "(a + (b * c)) - (a / 3)", "1"), (I3, "i64", "a ^ b & c | a", "(a ^ (b & c)) | a", "1"),
        (I3, "bool", "a < b && b < c || a == c", "((a < b) && (b < c)) || (a == c)", "1"), (I3, "bool", "a + 1 < b * 2 == c > a", "((a + 1) < (b * 2)) == (c > a)", "1"),
]):
    if w is None:
        continue
    fn(S, f"m_{k}", ps, r, e, pre, w, e.replace('"', ''))

mac = "macro dbl(X) =(X! * 2)\nmacro neg(X) =(-X!)\nmacro sub(X, Y) =(X! - Y!)\nmacro mix(X, Y, Z) =((X! + Y!) * (Y! - Z!))\n#const K = -5\n"
open(V + "/probes/ops.cxy", "w").write("// written by tools/mk_ops.py\n" + mac + "\n".join(cxy) + "\n\nfunc main() {\n" + "\n".join(mainc) + "\n}\n")
h = ['/* C09, written by tools/mk_ops.py */', '#include "vf.h"']
h += ["#define IN_bool() VF_BOOL()"] + [f"#define IN_{t}() VF_{t.upper()}()" for t in INT]
h += ["static float IN_f32(void) { union { uint32_t u; float f; } x; x.u = VF_U32(); return x.f; }", "#define IN_f64() VF_F64()",
      "#define MIN8 -128", "#define MIN16 -32768", "#define MIN32 (-2147483647 - 1)", "#define MIN64 (-9223372036854775807ll - 1)",
      "static _Bool samef(double a, double b) { return a == b || (a != a && b != b); }", "#define SAMEF(A, B) samef(A, B)"]
for g, l in chk.items():
    bound = ""
    solver = "cadical" if g in ("castf",) else "z3"
    h.append(f"/*@ fn=codegen.{g}; unwind=4; solver={solver}; ncount=3000; timeout=200 */\nvoid h_{g}(void)\n{{\n" + "\n".join(l) + f'\n    REACH("{g}");\n}}')
open(V + "/harness/ops.c", "w").write("\n".join(h) + "\n")
print(len(cxy), "wrappers", {g: len(l) for g, l in chk.items()})
