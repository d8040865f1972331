"""Precedence and associativity."""
import math
import z3
from ..scen import *
from .c09 import OPS as REF, UN, b64

BOUNDS = ["every pair of binary operators, with and without parentheses, every value 0..255 of three operands (operators other than / and %), selected values for all operators",
          "one operator of each precedence level in every chain of three (every operator in the thorough tier)", "every unary operator before and behind every binary operator; every binary operator in every place of a conditional"]

LEVEL = {}
for l, ops in enumerate([["||"], ["&&"], ["|"], ["^"], ["&"], ["==", "!="], ["<", "<=", ">", ">="], ["<<", ">>"], ["+", "-"], ["*", "/", "%"]]):
    for o in ops:
        LEVEL[o] = l
ALL = list(LEVEL)
NODIV = [o for o in ALL if o not in ("/", "%")]


def tree(ops, n0=0):
    """reference parse of a op b op c ...: nested tuples"""
    # lowest precedence, rightmost operator splits (left associative)
    if not ops:
        return n0
    k = min(range(len(ops)), key=lambda i: (LEVEL[ops[i]], -i))
    return (ops[k], tree(ops[:k], n0), tree(ops[k + 1:], n0 + k + 1))


class Bad(Exception):
    pass


def num(op, a, b):
    """concrete meaning; values are int or float"""
    def i(x):
        return int(x)

    def w(x):
        return x if isinstance(x, float) else ((x + (1 << 63)) % (1 << 64)) - (1 << 63)
    if op == "/":
        if b == 0:
            raise Bad()
        return float(a) / float(b)
    if op == "%":
        if i(b) == 0:
            raise Bad()
        return int(math.copysign(1, i(a))) * (abs(i(a)) % abs(i(b)))
    if op in ("<<", ">>"):
        if i(b) < 0:
            raise Bad()
        return w(i(a) << min(i(b), 64)) if op == "<<" else i(a) >> min(i(b), 63)
    return w({"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "&": lambda: i(a) & i(b), "|": lambda: i(a) | i(b), "^": lambda: i(a) ^ i(b),
              "<": lambda: int(a < b), "<=": lambda: int(a <= b), ">": lambda: int(a > b), ">=": lambda: int(a >= b), "==": lambda: int(a == b), "!=": lambda: int(a != b),
              "&&": lambda: int(i(a) != 0 and i(b) != 0), "||": lambda: int(i(a) != 0 or i(b) != 0)}[op]())


def ev(t, v):
    return v[t] if isinstance(t, int) else num(t[0], ev(t[1], v), ev(t[2], v))


def sev(t, v, neg):
    """symbolic; collects the conditions under which a shift count is negative"""
    if isinstance(t, int):
        return v[t]
    a, b = sev(t[1], v, neg), sev(t[2], v, neg)
    if t[0] in ("<<", ">>"):
        neg.append(b < 0)
    return REF[t[0]](a, b)


def out16(x):
    return be(x, 4)


def conc_case(f):
    try:
        return (True, Ok(be(int(f()) & 0xFFFFFFFF, 4)), "ok")
    except Bad:
        return (True, Fail(), "fail")


def scenarios(tier):
    out = []

    def add(name, what, parts, spec, need, args=()):
        s = Scn(name, what=what)
        s.src(*parts(s), args=args)
        s.spec = spec
        s.need = need
        out.append(s)
    V = "abc"

    def vals(e):
        return [e.num("v%d" % i, 64) for i in range(3)]

    def lits(s):
        return [["$", s.hex("v%d" % i, 2)] for i in range(3)]

    def symb(shape, e):
        neg = []
        r = sev(shape, vals(e), neg)
        n = z3.Or(neg + [z3.BoolVal(False)])
        yield z3.Not(n), Ok(out16(r)), "ok"
        yield n, Fail(), "negative"
    nm = [o for o in NODIV if o != "*"]
    for nme, f in (("plain", lambda a, b, c, o, p: [a, o, b, p, c]), ("left", lambda a, b, c, o, p: ["(", a, o, b, ")", p, c]), ("right", lambda a, b, c, o, p: [a, o, "(", b, p, c, ")"])):
        def sp(e, nme=nme):
            o, p = nm[e.idx("o")], nm[e.idx("p")]
            t = {"plain": tree([o, p]), "left": (p, (o, 0, 1), 2), "right": (o, 0, (p, 1, 2))}[nme]
            return symb(t, e)
        def parts(s, f=f):
            a, b, c = lits(s)
            return [" fqb ", f(a, b, c, s.choice("o", nm), s.choice("p", nm)), "\n"]
        add("two-" + nme, "two operators and three values free", parts, sp, ["ok"])
    # all operators, chosen values
    TR = [(7, 3, 2), (1, 2, 5), (200, 6, 4), (0, 5, 3), (12, 4, 3), (5, 5, 1)]
    tv = lambda s, i, spc: s.choice("t", [str(t[i]) + spc for t in TR], pad=" ")

    def all2(name, f, shape, spc, need=("ok", "fail")):
        def sp(e):
            o, p = ALL[e.idx("o")], ALL[e.idx("p")]
            yield conc_case(lambda: ev(shape(o, p), TR[e.idx("t")]))
        add(name, "two operators free, operands from a list", lambda s: [" fqb ", f(tv(s, 0, spc), tv(s, 1, spc), tv(s, 2, spc), s.choice("o", ALL), s.choice("p", ALL)), "\n"], sp, list(need))
    all2("all-plain", lambda a, b, c, o, p: [a, o, b, p, c], lambda o, p: tree([o, p]), "")
    all2("all-left", lambda a, b, c, o, p: ["( ", a, o, b, " )", p, c], lambda o, p: (p, (o, 0, 1), 2), " ", need=["ok"])
    all2("all-right", lambda a, b, c, o, p: [a, o, "(", b, p, c, ")"], lambda o, p: (o, 0, (p, 1, 2)), "")
    # three operators
    rep = ["||", "&&", "|", "^", "&", "!=", "<=", "<<", "-", "/"] if tier == "quick" else ALL
    Q = [(9, 2, 1, 3), (250, 7, 3, 2), (0, 1, 2, 4)]

    def three(name, oo, need=("ok", "fail")):
        qv = lambda s, i: s.choice("t", [str(t[i]) for t in Q])

        def sp(e):
            ops = [oo[e.idx(n)] for n in "opr"]
            yield conc_case(lambda: ev(tree(ops), Q[e.idx("t")]))
        add(name, "three operators free, operands from a list", lambda s: [" fqb ", qv(s, 0), s.choice("o", oo), qv(s, 1), s.choice("p", oo), qv(s, 2), s.choice("r", oo), qv(s, 3), "\n"], sp, list(need))
    three("chain", rep)
    if tier == "quick":
        three("chain2", ["||", "==", ">", ">>", "+", "*", "%"], ["ok"])
    # unary
    UL = list(UN)

    def un(e):
        u, w, o = UL[e.idx("u")], UL[e.idx("w")], nm[e.idx("o")]
        a, b = e.num("v0", 64), e.num("v1", 64)
        neg = []
        r = sev((o, 0, 1), [UN[u](a), UN[w](b)], neg)
        n = z3.Or(neg + [z3.BoolVal(False)])
        yield z3.Not(n), Ok(out16(r)), "ok"
        yield n, Fail(), "negative"
    add("unary", "unary operator on each side of a binary one", lambda s: [" fqb ", s.choice("u", UL), "$", s.hex("v0", 2), s.choice("o", nm), s.choice("w", UL), "$", s.hex("v1", 2), "\n"], un, ["ok", "negative"])

    def un2(e):
        a = e.num("v0", 64)
        yield True, Ok(out16(UN[UL[e.idx("u")]](UN[UL[e.idx("w")]](UN[UL[e.idx("x")]](a))))), "ok"
    add("unary3", "three unary operators in a row", lambda s: [" fqb ", s.choice("u", UL), " ", s.choice("w", UL), " ", s.choice("x", UL), " $", s.hex("v0", 2), "\n"], un2, ["ok"])
    UD = [("-", lambda a: -a), ("~", lambda a: ~int(a)), ("!", lambda a: int(int(a) == 0))]

    def und(e):
        o = ALL[e.idx("o")]
        a, b, c = TR[e.idx("t")]
        f, g = UD[e.idx("u")][1], UD[e.idx("w")][1]
        yield conc_case(lambda: num(o, f(a), g(b)))
    add("unary-all", "unary operators around every binary operator", lambda s: [" fqb ", s.choice("u", [u for u, _ in UD]), tv(s, 0, ""), s.choice("o", ALL), s.choice("w", [u for u, _ in UD]), tv(s, 1, ""), "\n"], und, ["ok", "fail"])
    def unp(e):
        v = vals(e)
        r = REF[["+", "&", "=="][e.idx("p")]](UN[UL[e.idx("u")]](REF[nm[e.idx("o")]](v[0], v[1])), v[2])
        yield True, Ok(out16(r)), "ok"
    add("unaryparen", "a unary operator before parentheses", lambda s: [" fqb ", s.choice("u", UL), "($", s.hex("v0", 2), s.choice("o", nm), "$", s.hex("v1", 2), ")", s.choice("p", ["+", "&", "=="]), "$", s.hex("v2", 2), "\n"],
        lambda e: unp(e), ["ok"])

    # conditionals

    def tern(e):
        o = nm[e.idx("o")]
        k = e.idx("k")
        v = vals(e)
        d = e.num("v3", 64)
        neg = []
        f = lambda a, b: sev((o, 0, 1), [a, b], neg)
        z = lambda c, a, b: z3.If(c != 0, a, b)
        used = z3.BoolVal(True)
        if k == 0:
            r = z(f(v[0], v[1]), v[2], d)
        elif k == 1:
            r = z(v[0], f(v[1], v[2]), d)
        else:
            r = z(v[0], v[1], f(v[2], d))
        yield True, Ok(out16(r)), "ok"
    for k in range(3):
        def sp(e, k=k):
            class E:
                def idx(self, n):
                    return k if n == "k" else e.idx(n)
                num = e.num
            return tern(E())

        def parts(s, k=k):
            a, b, c = lits(s)
            d = ["$", s.hex("v3", 2)]
            o = s.choice("o", nm)
            seq = [o, "?", ":"] if k == 0 else ["?", o, ":"] if k == 1 else ["?", ":", o]
            return [" fqb ", a, seq[0], b, seq[1], c, seq[2], d, "\n"]
        add("conditional%d" % k, "every operator in place %d of a conditional, values free" % k, parts, sp, ["ok"])

    def nest(s):
        v = [["$", s.hex("v%d" % i, 1)] for i in range(5)]
        return [" fqb ", v[0], "?", v[1], ":", v[2], "?", v[3], ":", v[4], ",", v[0], "?", v[1], "?", v[2], ":", v[3], ":", v[4], ",(", v[0], "?", v[1], ":", v[2], ")?", v[3], ":", v[4], "\n"]

    def nestspec(e):
        v = [e.num("v%d" % i, 64) for i in range(5)]
        z = lambda c, a, b: z3.If(c != 0, a, b)
        yield True, Ok(out16(z(v[0], v[1], z(v[2], v[3], v[4]))) + out16(z(v[0], z(v[1], v[2], v[3]), v[4])) + out16(z(z(v[0], v[1], v[2]), v[3], v[4]))), "ok"
    add("nested", "nested conditionals, values free", nest, nestspec, ["ok"])
    # an expression means the same in every kind of operand
    def places(e):
        v = vals(e)
        r = z3.Extract(15, 0, (v[0] + v[1] * 4 - v[2]))
        yield True, Ok([0xCC] + be(r, 2) + be(r, 2) + be(z3.Extract(7, 0, r), 1)), "ok"
    add("places", "the same expression as immediate operand, word, byte", lambda s: (lambda E: [" ldd #", E, "\n fdb ", E, "\n fcb ", E, "\n"])([["$", s.hex("v0", 2)], "+$", s.hex("v1", 2), "*4-$", s.hex("v2", 2)]),
        places, ["ok"])
    return out
