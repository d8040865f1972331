"""Program-counter relative operands."""
import z3
from ..scen import *
from .. import isa

BOUNDS = ["instruction address and target address: every pair of 16-bit values", "every mnemonic with an indexed form; one- and two-byte opcodes, 6309 immediate-to-memory; direct and indirect; every size prefix",
          "targets before and after the instruction as labels, as EQU symbols, as expressions; distances -600..600 through RMB", "n,PC: every n in -65535..65535"]

OPS = ["lda", "cmpy", "leax", "jmp", "lds"]
OPB = {"lda": [0xA6], "cmpy": [0x10, 0xAC], "leax": [0x30], "jmp": [0x6E], "lds": [0x10, 0xEE]}


def cases(op, a, t, ind, force=""):
    """a address of the instruction, t target, 16-bit terms"""
    i = 0x10 if ind else 0
    d8 = t - (a + len(op) + 2)
    d16 = t - (a + len(op) + 3)
    short = z3.And(d8 + 128 >= 0, z3.ULE(d8 + 128, 255))
    s = Ok(op + [0x8C | i] + be(d8, 1))
    l = Ok(op + [0x8D | i] + be(d16, 2))
    if force == "<":
        yield short, s, "8"
    elif force == ">":
        yield True, l, "16"
    else:
        yield short, s, "8"
        yield z3.Not(short), l, "16"


def inside(a, gen):
    """code that runs past the end of the address space is rejected"""
    for c, o, l in gen:
        fits = z3.ULE(z3.ZeroExt(8, a) + len(o.files["out"]), z3.BitVecVal(65536, 24))
        yield z3.And(c, fits), o, l
        yield z3.And(c, z3.Not(fits)), Fail(), "end"


def scenarios(tier):
    out = []

    def add(name, what, parts, spec, need, args=(), a=True):
        if a:
            sp = spec
            spec = lambda e: inside(e.num("a", 16), sp(e))
        s = Scn(name, what=what)
        s.src(*parts(s), args=args)
        s.spec = spec
        s.need = need
        out.append(s)

    for ind in (0, 1):
        for fi, force in enumerate(["", "<", ">"]):
            add("any%d%d" % (ind, fi), "opcode, address and target free",
                lambda s: [" org $", s.hex("a", 4), "\n ", s.choice("op", OPS), " ", "[" if ind else "", force, "$", s.hex("t", 4), ",pcr", "]" if ind else "", "\n"],
                lambda e, ind=ind, force=force: cases(OPB[OPS[e.idx("op")]], e.num("a", 16), e.num("t", 16), ind, force),
                {"": ["8", "16"], "<": ["8"], ">": ["16"]}[force])
    add("symbol", "target is a symbol defined after the instruction, with an offset",
        lambda s: [" org $", s.hex("a", 4), "\n lda tgt", s.choice("k", ["", "+1", "-$80"]), ",pcr\ntgt equ $", s.hex("t", 4), "\n"],
        lambda e: cases([0xA6], e.num("a", 16), e.num("t", 16) + [0, 1, -0x80][e.idx("k")], 0), ["8", "16"])
    ops = [(m, t[3]) for m, t in sorted(isa.MEM.items())] + sorted(isa.LEA.items())
    for nm, l, args in (("mnemonics", ops, []), ("mnemonics63", [(m, t[3]) for m, t in sorted(isa.MEM63.items())], ["-3"])):
        add(nm, "mnemonic, address and target free",
            lambda s: [" org $", s.hex("a", 4), "\n ", s.choice("op", [m for m, _ in l]), " $", s.hex("t", 4), ",pcr\n"],
            lambda e, l=l: cases(isa.ob(l[e.idx("op")][1]), e.num("a", 16), e.num("t", 16), 0), ["8", "16"], args)
    # 6309 immediate to memory: the immediate byte lies between opcode and operand
    IM = sorted(isa.IMMMEM63)

    def im(e):
        for c, o, l in cases([0x60 + isa.IMMMEM63[IM[e.idx("op")]], 0x5A], e.num("a", 16), e.num("t", 16), 0):
            yield c, o, l
    add("immediate-to-memory", "mnemonic, address and target free",
        lambda s: [" org $", s.hex("a", 4), "\n ", s.choice("op", IM), " #$5a,$", s.hex("t", 4), ",pcr\n"], im, ["8", "16"], ["-3"])
    # distance through reserved space
    def gap(name, back):
        s = Scn(name, what="distance between instruction and label is free, 0 to 511 bytes")
        g = ["gap equ %", s.binary("n", 9), "\n org $4000\n"]
        if back:
            s.src(*g, "tgt rmb gap\n ", s.choice("op", OPS), " tgt,pcr\n")
        else:
            s.src(*g, " ", s.choice("op", OPS), " tgt,pcr\n rmb gap\ntgt\n")

        def spec(e):
            op = OPB[OPS[e.idx("op")]]
            n = e.num("n", 16)
            if back:
                return cases(op, n, z3.BitVecVal(0, 16), 0)
            short = z3.ULE(n, 127)
            return iter([(short, Ok(op + [0x8C] + be(n, 1)), "8"), (z3.Not(short), Ok(op + [0x8D] + be(n, 2)), "16")])
        s.spec = spec
        s.need = ["8", "16"]
        out.append(s)
    gap("forward", False)
    gap("backward", True)
    # several instructions at unknown sizes between, one label
    def chain(s):
        return ["far equ $", s.hex("t", 4), "\n org $", s.hex("a", 4), "\n leax far,pcr\n leay far,pcr\n ldd far,pcr\n"]

    def chainspec(e):
        a, t = e.num("a", 16), e.num("t", 16)
        ops = [[0x30], [0x31], [0xEC]]
        seen = [([], a, z3.BoolVal(True))]
        for op in ops:
            nxt = []
            for by, ad, c in seen:
                for cc, o, l in cases(op, ad, t, 0):
                    b = o.files["out"]
                    nxt.append((by + b, ad + len(b), z3.And(c, cc)))
            seen = nxt
        for by, ad, c in seen:
            yield c, Ok(by), "%d" % len(by)
    add("chain", "three instructions one after another, same target", chain, chainspec, ["9", "12"])
    # n,PC
    def pc(e):
        n = e.num("n", 33)
        n = -n if e.idx("sg") else n
        op = OPB[OPS[e.idx("op")]]
        i = 0x10 if e.idx("ind") else 0
        f = z3.And(n >= -128, n <= 127)
        yield f, Ok(op + [0x8C | i] + be(n, 1)), "8"
        yield z3.Not(f), Ok(op + [0x8D | i] + be(n, 2)), "16"
    add("pc", "opcode, sign and 4 hex digits free, direct and indirect",
        lambda s: [" org $1234\n ", s.choice("op", OPS), " ", s.padl("ind", ["", "["]), s.choice("sg", ["", "-"]), "$", s.hex("n", 4), ",pc", (s.choice("ind", ["", "]"])), "\n"],
        pc, ["8", "16"], a=False)
    add("case", "letter case of PCR and PC free", lambda s: [" leax *+2,", s.case("p", "pcr"), "\n leay 5,", s.case("q", "pc"), "\n"],
        lambda e: iter([(True, Ok([0x30, 0x8C, 0xFF, 0x31, 0x8C, 5]), "ok")]), ["ok"], a=False)
    # targets of other kinds: quotients, floating-point values, strings
    KD = [("601/2", 300), ("300.9", 300), ("\"ab\"", 0x6162), ("'a", 97), ("lf", 258), ("lq", 0x7172), ("-2.5", 0xFFFE), ("516/2", 258)]
    for ind in (0, 1):
        add("kinds%d" % ind, "target a quotient, float, string", lambda s: [" org $", s.hex("a", 4), "\n lda ", "[" if ind else "", s.choice("f", ["", "<", ">"]), s.choice("k", [k for k, _ in KD]), ",pcr", "]" if ind else "", "\nlf equ 258.5\nlq equ \"qr\"\n"],
            lambda e, ind=ind: cases([0xA6], e.num("a", 16), z3.BitVecVal(KD[e.idx("k")][1], 16), ind, ["", "<", ">"][e.idx("f")]), ["8", "16"])
    return out

