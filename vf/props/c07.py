"""Register lists and register pairs."""
import z3
from ..scen import *
from .. import isa

BOUNDS = ["register lists: every list of one, two or three names of the CPU (four in the thorough tier), every subset of the stackable registers in two orders, longest lists",
          "register pairs: every pair of register names of the CPU, both CPUs, every inter-register mnemonic, letter case free"]

BIT = {"cc": 1, "a": 2, "b": 4, "dp": 8, "x": 16, "y": 32, "u": 64, "s": 64, "pc": 128, "d": 6}
CODE = {"d": 0, "x": 1, "y": 2, "u": 3, "s": 4, "pc": 5, "a": 8, "b": 9, "cc": 10, "dp": 11}
CODE63 = dict(CODE, w=6, v=7, e=14, f=15)
N09 = ["cc", "a", "b", "dp", "x", "y", "u", "s", "pc", "d", "pcr"]
N63 = N09 + ["e", "f", "w", "q", "v"]
ST = sorted(isa.STACK.items())


def byte(op, regs):
    own = "s" if op.endswith("s") else "u"
    b = 0
    for r in regs:
        if r not in BIT or r == own:
            return None
        b |= BIT[r]
    return b


def scenarios(tier):
    out = []

    def add(name, what, parts, spec, need, args=()):
        s = Scn(name, what=what)
        s.src(*parts(s), args=args)
        s.spec = spec
        s.need = need
        out.append(s)

    def lists(name, k, regs, ops, args=()):
        def spec(e):
            m, o = ops[e.idx("op")]
            b = byte(m, [regs[e.idx("r%d" % i)] for i in range(k)])
            if b is None:
                yield True, Fail(), "fail"
            else:
                yield True, Ok([o, b]), "ok"
        add(name, "mnemonic and %d register names free" % k, lambda s: [" ", s.choice("op", [m for m, _ in ops]), " ",
            [[s.choice("r%d" % i, regs), "," if i < k - 1 else ""] for i in range(k)], "\n"], spec, ["ok", "fail"], args)
    for k in (1, 2):
        lists("list%d" % k, k, N09, ST)
    lists("list3", 3, N09, ST[:1] + ST[-1:])
    lists("list1on6309", 1, N63, ST, ["-3"])
    lists("list2on6309", 2, N63, ST[1:3], ["-3"])
    if tier != "quick":
        lists("list3all", 3, N63, ST, ["-3"])
        lists("list4", 4, N09, ST)

    def simple(name, order, ops, sep):
        def spec(e):
            m, o = ops[e.idx("op")]
            regs = [order[0]] + [r for i, r in enumerate(order[1:]) if e.idx("p%d" % i)]
            yield True, Ok([o, byte(m, regs)]), "ok"
        add(name, "mnemonic and the presence of each register free", lambda s: [" ", s.choice("op", [m for m, _ in ops]), " ", order[0],
            [s.choice("p%d" % i, ["", sep + r]) for i, r in enumerate(order[1:])], "\n"], spec, ["ok"])
    S = [x for x in ST if x[0].endswith("s")]
    U = [x for x in ST if x[0].endswith("u")]
    simple("subsetS", ["cc", "a", "b", "dp", "x", "y", "u", "pc"], S, ",")
    simple("subsetU", ["cc", "a", "b", "dp", "x", "y", "s", "pc"], U, ",")
    simple("subsetSrev", ["pc", "u", "y", "x", "dp", "b", "a", "cc"], S, " , ")
    simple("subsetUrev", ["d", "pc", "s", "y", "x", "dp", "cc"], U, ", ")
    add("case", "letter case of every register name free", lambda s: [" pshs ", s.case("r", "cc,a,b,dp,x,y,u,pc,d"), "\n pulu ", s.case("q", "s,d"), "\n"],
        lambda e: iter([(True, Ok([0x34, 0xFF, 0x37, 0x46]), "ok")]), ["ok"])
    bad = ["5", "#5", "#$ff", "foo", "a,5", "5,a", ",x", "[x]", "a,x,1", "a,,x", "\"a\""]
    add("badlist", "operands that are no register list", lambda s: [" ", s.choice("op", [m for m, _ in ST]), " ", s.choice("k", bad), "\n"],
        lambda e: iter([(True, Fail(), "fail")]), ["fail"])

    def pairs(name, regs, ops, code, args):
        def spec(e):
            a, b = regs[e.idx("a")], regs[e.idx("b")]
            if a in code and b in code:
                yield True, Ok(isa.ob(ops[e.idx("op")][1]) + [code[a] << 4 | code[b]], quiet=False), "ok"
            else:
                yield True, Fail(), "fail"
        add(name, "mnemonic and both register names free", lambda s: [" ", s.choice("op", [m for m, _ in ops]), " ", s.choice("a", regs), ",", s.choice("b", regs), "\n"], spec,
            ["ok", "fail"], args)
    P = sorted(isa.PAIR.items())
    P63 = sorted(isa.PAIR63.items())
    pairs("pairs", N09, P, CODE, [])
    pairs("pairs6309", N63, P, CODE63, ["-3"])
    for i in range(0, len(P63), 2):
        pairs("interregister%d" % i, N63, P63[i:i + 2], CODE63, ["-3"])
    # a plain 6809 does not know the 6309 registers
    pairs("pairsgate", ["a", "x", "e", "f", "w", "q", "v"], P, {k: CODE[k] for k in ("a", "x")}, ["-9"])
    # numbers in place of names: 0 is the 6309's zero register
    NUM = [("0", 12), ("ly", 12), ("0*5", 12), ("1", 1), ("8", 8), ("$f", 15), ("15", 15), ("lx", 9), ("16", None), ("-1", None), ("65536", None), ("1.5", 1), ("4294967297", None), ("4294967296", None), ("\"a\"", None)]

    for z in (0, 1):
        for sd in (0, 1):
            ops = P + (P63[:2] if z else [])
            R0 = ["d", "a", "x"]

            def spec(e, z=z, sd=sd, ops=ops):
                c = NUM[e.idx("n")][1]
                if c == 12 and not z:
                    c = 0
                r = CODE[R0[e.idx("r")]]
                if c is None:
                    yield True, Fail(), "fail"
                else:
                    yield True, Ok(isa.ob(ops[e.idx("op")][1]) + [c << 4 | r if sd == 0 else r << 4 | c], quiet=False), "ok"
            add("number%d%d" % (z, sd), "a number in place of either register", lambda s, ops=ops, sd=sd: [" ", s.choice("op", [m for m, _ in ops]), " ",
                [s.choice("n", [n for n, _ in NUM]), ",", s.choice("r", R0)] if sd == 0 else [s.choice("r", R0), ",", s.choice("n", [n for n, _ in NUM])], "\nlx equ 9\nly equ 0\n"], spec, ["ok", "fail"], ["-3"] if z else [])
    # equal sizes: nothing is reported
    same = [(a, b) for a in CODE for b in CODE if (a in ("a", "b", "cc", "dp")) == (b in ("a", "b", "cc", "dp"))]
    add("quiet", "pairs of equal size are accepted without a word", lambda s: [" tfr ", s.choice("p", ["%s,%s" % p for p in same]), "\n"],
        lambda e: iter([(True, Ok([0x1F, CODE[same[e.idx("p")][0]] << 4 | CODE[same[e.idx("p")][1]]]), "ok")]), ["ok"])
    badp = ["a", "a,b,x", "x,foo", "#1,x", "x,[y]", "\"a\",b", "a,", ",a"]
    badp = [b for b in badp if b not in ("#1,x", "a,")]
    add("badpair", "operands that are no register pair", lambda s: [" ", s.choice("op", [m for m, _ in P]), " ", s.choice("k", badp), "\n"],
        lambda e: iter([(True, Fail(), "fail")]), ["fail"])
    return out
