"""Indexed operands."""
import z3
from ..scen import *
from .. import isa

BOUNDS = ["offsets: every value -65535..65535 written as a literal, every 32-bit value through a symbol or an expression",
          "every base register, direct and indirect, every size prefix, every register offset and auto-increment form, spaces around operands",
          "every mnemonic that has an indexed form, with every offset -65535..65535"]
NOTES = ["out-of-range values under a forced size are taken to be truncated"]

R = {"x": 0, "y": 0x20, "u": 0x40, "s": 0x60}
REGS = list(R)
OPS = ["lda", "cmpy", "leax", "jmp"]
OPB = {"lda": [0xA6], "cmpy": [0x10, 0xAC], "leax": [0x30], "jmp": [0x6E]}


def cases(n, op, r, ind, force, opt0=True):
    """(condition, outcome, label) for offset term n (signed)"""
    i = 0x10 if ind else 0
    w = n.size()

    def rng(lo, hi):
        return z3.And(n >= lo, n <= hi)
    z, five, eight, six = [], [], [], []
    f0 = Ok(op + [0x84 | r | i])
    f5 = Ok(op + [z3.simplify(z3.BitVecVal(r, 8) | z3.ZeroExt(3, z3.Extract(4, 0, n)))])
    f8 = Ok(op + [0x88 | r | i] + be(n, 1))
    f16 = Ok(op + [0x89 | r | i] + be(n, 2))
    if force == "<<":
        if ind:
            yield True, Fail(), "fail"
        else:
            yield True, f5, "5"
        return
    if force == "<":
        yield True, f8, "8"
        return
    if force == ">":
        yield True, f16, "16"
        return
    yield n == 0, f0, "0"
    if ind:
        yield z3.And(n != 0, rng(-128, 127)), f8, "8"
    else:
        yield z3.And(n != 0, rng(-16, 15)), f5, "5"
        yield z3.And(z3.Not(rng(-16, 15)), rng(-128, 127)), f8, "8"
    yield z3.Not(rng(-128, 127)), f16, "16"


def signed(e, w=33):
    v = e.num("n", w)
    return -v if e.idx("sg") else v


def scenarios(tier):
    out = []

    def add(name, what, parts, spec, need, args=()):
        s = Scn(name, what=what)
        s.src(*parts(s), args=args)
        s.spec = spec
        s.need = need
        out.append(s)

    FORCE = ["", "<<", "<", ">"]
    # literal offsets
    for ind in (0, 1):
        for fi, force in enumerate(FORCE):
            def parts(s):
                return [" ", s.choice("op", OPS), " ", "[" if ind else "", force, s.choice("sg", ["", "-"]), "$", s.hex("n", 4), ",",
                        s.choice("r", REGS), "]" if ind else "", "\n"]

            def spec(e, ind=ind, force=force):
                return cases(signed(e), OPB[OPS[e.idx("op")]], R[REGS[e.idx("r")]], ind, force)
            need = {"": ["0", "8", "16"] + ([] if ind else ["5"]), "<<": ["fail" if ind else "5"], "<": ["8"], ">": ["16"]}[force]
            add("literal%d%d" % (ind, fi), "opcode, register, sign and 4 hex digits free", parts, spec, need)
    # through a symbol, 32-bit, with an expression
    for ind in (0, 1):
        def parts(s):
            return ["val equ ", s.choice("sg", ["", "-"]), "$", s.hex("n", 8), "\n lda ", "[" if ind else "", "val", s.choice("k", ["", "+3", "-$11"]), ",",
                    s.choice("r", REGS), "]" if ind else "", "\n"]

        def spec(e, ind=ind):
            n = signed(e, 40) + [0, 3, -0x11][e.idx("k")]
            return cases(n, [0xA6], R[REGS[e.idx("r")]], ind, "")
        add("symbol%d" % ind, "offset is a symbol plus a constant, any 32-bit value", parts, spec, ["0", "8", "16"])
    # decimal
    add("decimal", "offset written in decimal, 100 to 999", lambda s: [" ldb ", s.choice("sg", ["", "-"]), s.dec("n", 3, 1), ",",
        s.choice("r", REGS), "\n"], lambda e: cases(signed(e), [0xE6], R[REGS[e.idx("r")]], 0, ""), ["8", "16"])
    # every mnemonic
    ops = [(m, t[3]) for m, t in sorted(isa.MEM.items())] + sorted(isa.LEA.items())
    for nm, l, a in (("mnemonics", ops, []), ("mnemonics63", [(m, t[3]) for m, t in sorted(isa.MEM63.items())], ["-3"])):
        add(nm, "mnemonic, sign and 4 hex digits free", lambda s: [" ", s.choice("op", [m for m, _ in l]), " ", s.choice("sg", ["", "-"]), "$", s.hex("n", 4), ",u\n"],
            lambda e, l=l: cases(signed(e), isa.ob(l[e.idx("op")][1]), 0x40, 0, ""), ["0", "5", "8", "16"], a)
    # the CPU has no such form; the assembler warns
    warn = {"[,%s+]" % r for r in R} | {"[,-%s]" % r for r in R}
    # no offset and register offsets, auto modes
    auto = [("%s", 0x84, 1, ","), ("a,%s", 0x86, 1, ""), ("b,%s", 0x85, 1, ""), ("d,%s", 0x8B, 1, ""), (",%s+", 0x80, 0, ""), (",%s++", 0x81, 1, ""),
            (",-%s", 0x82, 0, ""), (",--%s", 0x83, 1, "")]
    items = []
    for f, pb, indok, pre in auto:
        for rn, rc in R.items():
            t = pre + f % rn
            items.append((t, [pb | rc]))
            items.append(("[" + t + "]", [pb | rc | 0x10] if indok else None))
    items += [("0,%s+" % r, [0x80 | c]) for r, c in R.items()] + [("0,%s++" % r, [0x81 | c]) for r, c in R.items()]

    def fixed(name, items, fmt=lambda t: t):
        def spec(e):
            b = items[e.idx("o")][1]
            if b is None:
                yield True, (Warned() if items[e.idx("o")][0] in warn else Fail()), "fail"
            else:
                yield True, Ok(OPB[OPS[e.idx("op")]] + b), "ok"
        add(name, "operand chosen freely from a list", lambda s: [" ", s.choice("op", OPS), " ", s.choice("o", [fmt(t) for t, _ in items]), "\n"], spec,
            (["ok"] if any(b for _, b in items) else []) + (["fail"] if any(b is None for _, b in items) else []))
    fixed("registers", items)
    # white space around the operand's parts
    sp = [(t, b) for t, b in items if b is not None]
    fixed("spaces", sp, lambda t: t.replace(",", " , ").replace("[", "[ ").replace("]", " ]").strip())
    # numbers of other kinds
    fixed("kinds", [("1.5,x", [1]), ("-1.5,y", [0x3F]), ("15.99,u", [0x4F]), ("16.0,s", [0xE8, 16]), ("-16.5,x", [0x10]), ("0.9,x", [0x84]), ("-0.9,x", [0x84]), ("127.9,y", [0xA8, 127]), ("128.0,y", [0xA9, 0, 128]), ("-128.9,y", [0xA8, 0x80]), ("[1.5,x]", [0x98, 1]), ("[300.5,x]", [0x99, 1, 44]), ("[0.5,x]", [0x94]),
                    ("\"a\",x", [0x88, 97]), ("\"ab\",u", [0xC9, 97, 98]), ("'a,x", [0x88, 97]), ("<<1.5,x", [1]), ("<1.5,x", [0x88, 1]), (">1.5,x", [0x89, 0, 1]), ("7/2,x", [3]), ("[\"a\",y]", [0xB8, 97]), ("la,x", [0x1E]), ("lb,x", [0x88, 113]), ("[lb,x]", [0x98, 113]), ("[la]", [0x9F, 255, 254]), ("[lb]", [0x9F, 0, 113]), ("[300.5]", [0x9F, 1, 44])],
          lambda t: t + "\nla equ -2.5\nlb equ \"q\"\n")
    # upper case
    fixed("upper", sp, lambda t: t.upper())
    # forms that do not exist
    bad = [f % r for f in ("5,%s", ",%s", "[5,%s]", "a,%s", ",%s+", ",--%s", "[,%s++]") for r in ("a", "b", "d", "cc", "dp")]
    bad += ["%s,x" % r for r in ("cc", "dp", "pc", "x", "y", "u", "s", "pcr")]
    bad += [f % r for f in ("5,%s+", "5,%s++", "5,-%s", "5,--%s", "a,%s+", "b,-%s", "d,%s++", "[5,%s++]") for r in REGS]
    bad += [",pc+", ",pc++", ",-pc", ",--pc", ",pcr+", ",--pcr", "a,pc", "d,pcr", "5,6", ",5", "[5,6]", "5,x,y", "1,2,x", "[]", "[1,2,3]", "[x]", "[a]"]
    fixed("bad", [(t, None) for t in bad])
    # [address]
    add("indirect-address", "extended indirect, 4 hex digits free", lambda s: [" ", s.choice("op", OPS), " [", s.choice("f", ["", ">"]), "$", s.hex("n", 4), "]\n"],
        lambda e: iter([(True, Ok(OPB[OPS[e.idx("op")]] + [0x9F] + be(e.num("n", 16), 2)), "ok")]), ["ok"])
    return out
