"""Branches."""
import z3
from ..scen import *
from .. import isa
from .c04 import inside

BOUNDS = ["branch address and target address: every pair of 16-bit values, for every branch mnemonic", "targets as literals, symbols of up to 32 bits, labels before and behind, behind reserved space of 0 to 511 bytes, behind other code whose size is not known yet"]

SH = sorted(isa.SHORT.items())
LO = sorted(isa.LONG.items())


def short(op, a, t):
    d = t - (a + len(op) + 1)
    ok = z3.ULE(d + 128, 255)
    yield ok, Ok(op + be(d, 1)), "short"
    yield z3.Not(ok), Fail(), "far"


def long_(op, a, t):
    yield True, Ok(op + be(t - (a + len(op) + 2), 2), quiet=False), "long"


def scenarios(tier):
    out = []

    def add(name, what, parts, spec, need, args=(), a=True):
        sp = spec
        if a:
            spec = lambda e: guard(e.num("a", 16), sp(e))
        s = Scn(name, what=what)
        s.src(*parts(s), args=args)
        s.spec = spec
        s.need = need
        out.append(s)

    def guard(a, gen):
        for c, o, l in gen:
            if isinstance(o, Fail):
                yield c, o, l
            else:
                for x in inside(a, [(c if not isinstance(c, bool) else z3.BoolVal(c), o, l)]):
                    yield x

    def st(f):
        return lambda e, l=None: f(e)
    add("short", "mnemonic, address, target free", lambda s: [" org $", s.hex("a", 4), "\n ", s.choice("op", [m for m, _ in SH]), " $", s.hex("t", 4), "\n"],
        lambda e: short(isa.ob(SH[e.idx("op")][1]), e.num("a", 16), e.num("t", 16)), ["short", "far"])
    add("long", "mnemonic, address, target free", lambda s: [" org $", s.hex("a", 4), "\n ", s.choice("op", [m for m, _ in LO]), " ", s.choice("f", ["", ">"]), "$", s.hex("t", 4), "\n"],
        lambda e: long_(isa.ob(LO[e.idx("op")][1]), e.num("a", 16), e.num("t", 16)), ["long"])
    add("later", "target is a 32-bit symbol defined later, plus a constant",
        lambda s: [" org $", s.hex("a", 4), "\n ", s.choice("op", ["bra", "bsr", "lbra", "lbne"]), " tgt", s.choice("k", ["", "+5", "-$7f"]), "\ntgt equ $", s.hex("t", 8), "\n"],
        lambda e: (short if e.idx("op") < 2 else long_)([[0x20], [0x8D], [0x16], [0x10, 0x26]][e.idx("op")], e.num("a", 16), z3.Extract(15, 0, e.num("t", 32)) + [0, 5, -0x7F][e.idx("k")]),
        ["short", "far", "long"])
    # relative to *
    def star(e):
        a = e.num("a", 16)
        n = e.num("n", 16)
        t = (a - n) if e.idx("sg") else (a + n)
        return (short if e.idx("op") < 2 else long_)([[0x20], [0x27], [0x16], [0x10, 0x27]][e.idx("op")], a, t)
    add("star", "target * plus or minus a distance", lambda s: [" org $", s.hex("a", 4), "\n ", s.choice("op", ["bra", "beq", "lbra", "lbeq"]), " *", s.choice("sg", ["+", "-"]), "$", s.hex("n", 4), "\n"],
        star, ["short", "far", "long"])
    # gap
    names = ["bra", "bsr", "ble", "lbra", "lbsr", "lble"]
    opc = [[0x20], [0x8D], [0x2F], [0x16], [0x17], [0x10, 0x2F]]
    for back in (0, 1):
        def spec(e, back=back):
            k = e.idx("op")
            n = e.num("n", 16)
            L = len(opc[k]) + (1 if k < 3 else 2)
            f = short if k < 3 else long_
            if back:
                return f(opc[k], n, z3.BitVecVal(0, 16))
            return f(opc[k], z3.BitVecVal(0, 16), n + L)
        g = lambda s, back=back: (["gap equ %", s.binary("n", 9), "\n org $4000\n"] +
            (["tgt rmb gap\n ", s.choice("op", names), " tgt\n"] if back else [" ", s.choice("op", names), " tgt\n rmb gap\ntgt\n"]))
        add("gap%d" % back, "distance of 0 to 511 bytes", g, spec, ["short", "far", "long"], a=False)
    # a jump whose size depends on the direct page stands between
    def mixed(e):
        n = e.num("n", 16)
        t = e.num("t", 16)
        d = z3.Extract(15, 8, t) == e.num("p", 8)
        # bra tgt ; rmb gap ; lda sym ; tgt
        for c, ln, by in ((d, 2, [0x96] + be(t, 1)), (z3.Not(d), 3, [0xB6] + be(t, 2))):
            dist = n + ln
            ok = z3.ULE(dist, 127)
            # raw output: branch, gap zeros, instruction
            yield z3.And(c, ok), Pred(lambda r, dist=dist, by=by, ln=ln: pre(r, [0x20] + be(dist, 1), by), "branch and tail as required"), "short"
            yield z3.And(c, z3.Not(ok)), Fail(), "far"

    def pre(r, head, tail):
        o = r.files.get("out")
        if o is None or len(o) < len(head) + len(tail):
            return False
        return z3.And([eqt(g, x) for g, x in zip(o[:len(head)] + o[len(o) - len(tail):], head + tail)])
    add("mixed", "branch over reserved space and an instruction of one of two sizes",
        lambda s: [" setdp $", s.hex("p", 2), "\ngap equ %", s.binary("n", 8), "\n org $4000\n bra tgt\n rmb gap\n lda sym\ntgt\nsym equ $", s.hex("t", 4), "\n"],
        mixed, ["short", "far"], a=False)
    # backward chain of several labels
    add("several", "several branches between labels", lambda s: [" org $", s.hex("a", 4), "\none nop\ntwo bne one\n beq three\n bra two\nthree lbra one\n bsr two\n"],
        lambda e: iter([(True, Ok([0x12, 0x26, 0xFD, 0x27, 2, 0x20, 0xFA, 0x16, 0xFF, 0xF6, 0x8D, 0xF5], quiet=False), "ok")]), ["ok"])
    kinds = ["x", "a", "#5", "5,x", "[5]", "5,6", "\"ab\",1", "pcr"]
    add("kinds", "operands that are no branch target", lambda s: [" ", s.choice("op", ["bra", "bsr", "lbra", "lbcc"]), " ", s.choice("k", kinds), "\n"],
        lambda e: iter([(True, Fail(), "fail")]), ["fail"], a=False)
    # targets of other kinds: quotients, floating-point values
    KD = [("601/2", 300), ("300.9", 300), ("'a", 97), ("lf", 258), ("-2.5", 0xFFFE), ("516/2", 258)]
    add("kinds", "target a quotient, float", lambda s: [" org $", s.hex("a", 4), "\n ", s.choice("op", ["bra", "lbra"]), " ", s.choice("k", [k for k, _ in KD]), "\nlf equ 258.5\n"],
        lambda e: (short if e.idx("op") == 0 else long_)([[0x20], [0x16]][e.idx("op")], e.num("a", 16), z3.BitVecVal(KD[e.idx("k")][1], 16)), ["short", "far", "long"])
    return out


def eqt(a, b):
    c = eq8(a, b)
    return z3.BoolVal(c) if isinstance(c, bool) else c
