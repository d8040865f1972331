"""Immediate operands."""
import z3
from ..scen import *
from .. import isa

BOUNDS = ["every mnemonic with an immediate form (both CPUs)", "values: every 32-bit literal of either sign, every 61-bit value through a symbol, floating-point values n.d, strings of one to four characters, forward references"]

IMM = [(m, t[0], isa.ob(t[1])) for m, t in sorted(isa.MEM.items()) if t[1] is not None] + [(m, 1, isa.ob(o)) for m, o in sorted(isa.IMMONLY.items())]
IMM63 = [(m, t[0], isa.ob(t[1])) for m, t in sorted(isa.MEM63.items()) if t[1] is not None] + [(m, 1, isa.ob(o)) for m, o in sorted(isa.IMMONLY63.items())]
NOIMM = [(m, a) for m, t in sorted(isa.MEM.items()) if t[1] is None for a in [[]]] + [(m, []) for m in sorted(isa.LEA)]
NOIMM63 = [m for m, t in sorted(isa.MEM63.items()) if t[1] is None]


def scenarios(tier):
    out = []

    def add(name, what, parts, spec, need, args=()):
        s = Scn(name, what=what)
        s.src(*parts(s), args=args)
        s.spec = spec
        s.need = need
        out.append(s)

    def val(e, w=64):
        n = e.num("n", w)
        if "sg" in e.scn.vars:
            return -n if e.idx("sg") else n
        return n

    for nm, l, args in (("6809", IMM, []), ("6309", IMM + IMM63, ["-3"])):
        def enc(e, v, sub=False, l=l):
            m, w, op = (l[::9] if sub else l)[e.idx("op")]
            return iter([(True, Ok(op + be(v, w)), "ok")])
        names = [m for m, _, _ in l]
        add("literal" + nm, "mnemonic, sign, 8 hex digits free", lambda s: [" ", s.choice("op", names), " #", s.choice("sg", ["", "-"]), "$", s.hex("n", 8), "\n"],
            lambda e, enc=enc: enc(e, val(e)), ["ok"], args)
        add("symbol" + nm, "mnemonic and a 61-bit symbol defined later free", lambda s: [" ", s.choice("op", names), " #val+1\nval equ ", s.choice("sg", ["", "-"]), "$", s.hex("n", 15), "\n"],
            lambda e, enc=enc: enc(e, val(e) + 1), ["ok"], args)
        add("decimal" + nm, "mnemonic and 5 decimal digits free", lambda s: [" ", s.choice("op", names), " #", s.choice("sg", ["", "-"]), s.dec("n", 5, 1), "\n"],
            lambda e, enc=enc: enc(e, val(e)), ["ok"], args)
        add("float" + nm, "mnemonic and a value with one decimal free", lambda s: [" ", s.choice("op", names[::9]), " #", s.choice("sg", ["", "-"]), s.dec("n", 1, 0), ".", s.char("f", "059"), "\n"],
            lambda e, enc=enc: enc(e, val(e), True), ["ok"], args)
        chars = [chr(c) for c in range(32, 127) if chr(c) not in '"\\&'] 
        for k in range(1, 6):
            def sp(e, k=k, enc=enc):
                v = z3.Concat([z3.BitVecVal(0, 64)] + [e.raw("c%d" % i) for i in range(k)])
                return enc(e, z3.Extract(31, 0, v))
            add("string%d%s" % (k, nm), "mnemonic and the characters of a string free", lambda s: [" ", s.choice("op", names[::5]), ' #"', [s.char("c%d" % i, chars[20:90]) for i in range(k)], '"\n'],
                lambda e, k=k, l=l: iter([(True, Ok(l[::5][e.idx("op")][2] + be(z3.Extract(31, 0, z3.Concat([z3.BitVecVal(0, 32)] + [e.raw("c%d" % i) for i in range(k)])), l[::5][e.idx("op")][1])), "ok")]), ["ok"], args)
        add("char" + nm, "mnemonic and a quoted character free", lambda s: [" ", s.choice("op", names[::3]), " #'", s.char("c", [chr(c) for c in range(33, 127)]), "\n"],
            lambda e, l=l: iter([(True, Ok(l[::3][e.idx("op")][2] + be(z3.ZeroExt(24, e.raw("c")), l[::3][e.idx("op")][1])), "ok")]), ["ok"], args)
    def bad(name, items, args):
        add(name, "mnemonic and value free", lambda s: [" ", s.choice("op", items), " #$", s.hex("n", 2), "\n"], lambda e: iter([(True, Fail(), "fail")]), ["fail"], args)
    bad("none6809", [m for m, _ in NOIMM], [])
    bad("none6309", NOIMM63, ["-3"])
    kinds = ["#x", "#a,b", "#", "#1,2", "#[1]", "#pcr"]
    add("kinds", "operands that are no immediate value", lambda s: [" ", s.choice("op", [m for m, _, _ in IMM][::4]), " ", s.choice("k", kinds), "\n"],
        lambda e: iter([(True, Fail(), "fail")]), ["fail"])
    return out
