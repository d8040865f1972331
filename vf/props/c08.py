"""6309 bit, block-move and immediate-to-memory operands, W/E/F indexing."""
import z3
from ..scen import *
from .. import isa
from .c03 import cases as idx, R, REGS

BOUNDS = ["bit operations: every mnemonic, register, pair of bit numbers -9..9 and direct address $00-$FF", "TFM: every pair of registers and every pair of mode suffixes",
          "AIM/OIM/EIM/TIM: every immediate byte with every 16-bit address, direct page, indexed offset -65535..65535 and auto mode", "W, E and F indexing: every offset -65535..65535, every form, direct and indirect"]

A3 = ["-3"]
BITS = sorted(isa.BIT63.items())
BR = {"cc": 0, "a": 0x40, "b": 0x80}
TF = {"d": 0, "x": 1, "y": 2, "u": 3, "s": 4}
IM = sorted(isa.IMMMEM63.items())


def scenarios(tier):
    out = []

    def add(name, what, parts, spec, need, args=A3):
        s = Scn(name, what=what)
        s.src(*parts(s), args=args)
        s.spec = spec
        s.need = need
        out.append(s)

    def bits(e):
        r = ["cc", "a", "b"][e.idx("r")]
        sb, db = e.num("s", 8), e.num("d", 8)
        okk = [z3.ULE(sb, 7), z3.ULE(db, 7)]
        if e.idx("sg"):
            okk.append(sb == 0)
        ok = z3.And(okk)
        pb = z3.BitVecVal(BR[r], 8) | (sb << 3) | db
        yield ok, Ok(isa.ob(BITS[e.idx("op")][1]) + [z3.simplify(pb)] + be(e.num("a", 8), 1)), "ok"
        yield z3.Not(ok), Fail(), "range"
    add("bits", "mnemonic, register, both bit numbers and address free",
        lambda s: [" ", s.choice("op", [m for m, _ in BITS]), " ", s.choice("r", ["cc", "a", "b"]), ",", s.choice("sg", ["", "-"]), s.dec("s", 1), ",", s.dec("d", 1), ",$", s.hex("a", 2), "\n"],
        bits, ["ok", "range"])

    def bits2(e):
        sb, db = e.num("s", 32), e.num("d", 32)
        ok = z3.And(z3.ULE(sb, 7), z3.ULE(db, 7))
        pb = z3.BitVecVal(0x40, 8) | z3.Extract(7, 0, (sb << 3) | db)
        yield ok, Ok([0x11, 0x36, z3.simplify(pb)] + be(e.num("a", 8), 1)), "ok"
        yield z3.Not(ok), Fail(), "range"
    add("bitsymbols", "bit numbers are 32-bit symbols, direct address a symbol", lambda s: ["sb equ $", s.hex("s", 8), "\n ldbt a,sb,dest,addr\ndest equ $", s.hex("d", 8), "\naddr equ $", s.hex("a", 2), "\n"],
        bits2, ["ok", "range"])
    regs = ["cc", "a", "b", "d", "e", "f", "w", "x", "y", "u", "s", "pc", "dp", "v", "q"]
    add("bitregs", "every register name", lambda s: [" ", s.choice("op", [m for m, _ in BITS]), " ", s.choice("r", regs), ",1,2,$34\n"],
        lambda e: iter([(True, Ok(isa.ob(BITS[e.idx("op")][1]) + [BR[regs[e.idx("r")]] | 0x0A, 0x34]), "ok") if regs[e.idx("r")] in BR else (True, Fail(), "fail")]), ["ok", "fail"])
    bad = ["a", "a,1", "a,1,2", "a,1,2,3,4", "a,x,2,3", "a,1,x,3", "a,1,2,x", "a,1,2,", "a,1,2,[3]", "foo,1,2,3", "\"a\",1,2,3"]
    bad = [b for b in bad if not b.endswith(",")]
    add("badbits", "operands of the wrong number or kind", lambda s: [" ", s.choice("op", [m for m, _ in BITS][:3]), " ", s.choice("k", bad), "\n"],
        lambda e: iter([(True, Fail(), "fail")]), ["fail"])

    # TFM
    modes = ["", "+", "-", "++", "--"]
    TR = ["d", "x", "y", "u", "s", "a", "b", "cc", "dp", "pc", "w", "v", "e", "f", "q"]
    good = {("+", "+"): 0, ("-", "-"): 1, ("+", ""): 2, ("", "+"): 3}

    def tfm(e):
        a, b = TR[e.idx("a")], TR[e.idx("b")]
        m = (modes[e.idx("ma")], modes[e.idx("mb")])
        if m[1] == "--":
            return      # "--" after the operand starts comment text
        if a in TF and b in TF and m in good:
            yield True, Ok([0x11, 0x38 + good[m], TF[a] << 4 | TF[b]]), "ok"
        else:
            yield True, Fail(), "fail"
    add("tfm", "registers and suffixes free", lambda s: [" tfm ", s.choice("a", ["d", "x", "y", "u", "s"]), s.choice("ma", modes), ",", s.choice("b", ["d", "x", "y", "u", "s"]), s.choice("mb", modes), "\n"],
        tfm, ["ok", "fail"])
    add("tfmregs", "every pair of register names", lambda s: [" tfm ", s.choice("a", TR), s.choice("ma", modes[:3]), ",", s.choice("b", TR), "+\n"],
        lambda e: iter([(True, Ok([0x11, 0x38 + good[(modes[e.idx("ma")], "+")], TF[TR[e.idx("a")]] << 4 | TF[TR[e.idx("b")]]]), "ok")
                        if TR[e.idx("a")] in TF and TR[e.idx("b")] in TF and (modes[e.idx("ma")], "+") in good else (True, Fail(), "fail")]), ["ok", "fail"])
    badt = ["x+", "x+,y+,u+", "x+,5", "-x,y+", "--x,y", "x+,[y+]", "[x+],y+", "foo+,x+", "\"a\",x+"]
    badt = [b for b in badt if b != "x+,5"]
    add("badtfm", "operands of the wrong number or kind", lambda s: [" tfm ", s.choice("k", badt), "\n"], lambda e: iter([(True, Fail(), "fail")]), ["fail"])

    # immediate to memory
    def op(e):
        return IM[e.idx("op")][1]

    def addr(e):
        a, p, i = e.num("a", 16), e.num("p", 8), e.num("i", 8)
        f = e.idx("f")
        d = Ok([op(e)] + be(i, 1) + be(a, 1))
        x = Ok([op(e) + 0x70] + be(i, 1) + be(a, 2))
        c = z3.Extract(15, 8, a) == p
        if f == 1:
            yield True, d, "direct"
        elif f == 2:
            yield True, x, "extended"
        else:
            yield c, d, "direct"
            yield z3.Not(c), x, "extended"
    add("immaddr", "mnemonic, immediate byte, address and direct page free", lambda s: [" setdp $", s.hex("p", 2), "\n ", s.choice("op", [m for m, _ in IM]), " #$", s.hex("i", 2), ",",
        s.choice("f", ["", "<", ">"]), "$", s.hex("a", 4), "\n"], addr, ["direct", "extended"])
    for ind in (0, 1):
        def ix(e, ind=ind):
            n = e.num("n", 33)
            n = -n if e.idx("sg") else n
            for c, o, l in idx(n, [], R[REGS[e.idx("r")]], ind, ""):
                yield c, Ok([op(e) + 0x60] + be(e.num("i", 8), 1) + o.files["out"]), l
        add("immindexed%d" % ind, "mnemonic, immediate byte, register, sign and 4 hex digits free", lambda s: [" ", s.choice("op", [m for m, _ in IM]), " #$", s.hex("i", 2), ",",
            "[" if ind else "", s.choice("sg", ["", "-"]), "$", s.hex("n", 4), ",", s.choice("r", REGS), "]" if ind else "", "\n"], ix, ["0", "8", "16"])
    forms = [(",x+", 0x80), (",--y", 0xA3), ("a,u", 0xC6), ("[,s++]", 0xF1), (",w", 0x8F), ("[d,x]", 0x9B)]
    add("immforms", "mnemonic, immediate byte and operand free", lambda s: [" ", s.choice("op", [m for m, _ in IM]), " #$", s.hex("i", 2), ",", s.choice("k", [f for f, _ in forms]), "\n"],
        lambda e: iter([(True, Ok([op(e) + 0x60] + be(e.num("i", 8), 1) + [forms[e.idx("k")][1]]), "ok")]), ["ok"])
    add("immind", "extended indirect, address free", lambda s: [" ", s.choice("op", [m for m, _ in IM]), " #$", s.hex("i", 2), ",[$", s.hex("a", 4), "]\n"],
        lambda e: iter([(True, Ok([op(e) + 0x60] + be(e.num("i", 8), 1) + [0x9F] + be(e.num("a", 16), 2)), "ok")]), ["ok"])
    add("immsymbol", "immediate and address are symbols defined later, any 32-bit value", lambda s: [" ", s.choice("op", [m for m, _ in IM]), " #imm+1,adr\nimm equ ", s.choice("sg", ["", "-"]), "$", s.hex("i", 8),
        "\nadr equ $", s.hex("a", 4), "\n"],
        lambda e: iter([(True, Ok([op(e) + 0x70] + be((-e.num("i", 32) if e.idx("sg") else e.num("i", 32)) + 1, 1) + be(e.num("a", 16), 2)), "ok")]), ["ok"])
    badi = ["#1", "#1,#2", "x,5", "#1,2,3", "#1,5,6", "[1],5", "#1,a", "\"\",5", "#1,x,y,z"]
    add("badimm", "operands of the wrong number or kind", lambda s: [" ", s.choice("op", [m for m, _ in IM]), " ", s.choice("k", badi), "\n"], lambda e: iter([(True, Fail(), "fail")]), ["fail"])

    # W, E, F
    OPS = {"lda": [0xA6], "ldw": [0x10, 0xA6], "leax": [0x30], "stq": [0x10, 0xED], "addf": [0x11, 0xEB]}
    ON = list(OPS)

    def ebase(e):
        return OPS[ON[e.idx("op")]]
    for ind in (0, 1):
        def wn(e, ind=ind):
            n = e.num("n", 33)
            n = -n if e.idx("sg") else n
            yield True, Ok(ebase(e) + [0xAF + ind] + be(n, 2)), "16"
        add("woffset%d" % ind, "opcode, sign and 4 hex digits free", lambda s: [" ", s.choice("op", ON), " ", "[" if ind else "", s.choice("sg", ["", "-"]), "$", s.hex("n", 4), ",w", "]" if ind else "", "\n"],
            wn, ["16"])
    items = []
    for t, pb in ((",w", 0x8F), (",w++", 0xCF), (",--w", 0xEF)):
        items += [(t, [pb]), ("[%s]" % t, [pb + 1])]
    for r, c in (("e", 0x87), ("f", 0x8A), ("w", 0x8E)):
        for b, k in R.items():
            items += [("%s,%s" % (r, b), [c | k]), ("[%s,%s]" % (r, b), [c | k | 0x10])]
    items += [(f, None) for f in (",w+", ",-w", "a,w", "b,w", "d,w", "e,w", "w,w", "q,x", "v,x", "[,w+]", "5,e", ",e", ",f++", "5,w++", "5,v", ",q", "5,--w", "<5,w", "<<5,w")]
    add("wforms", "opcode and operand free", lambda s: [" ", s.choice("op", ON), " ", s.choice("k", [t for t, _ in items]), "\n"],
        lambda e: iter([(True, Fail(), "fail") if items[e.idx("k")][1] is None else (True, Ok(ebase(e) + items[e.idx("k")][1]), "ok")]), ["ok", "fail"])
    up = [(t, b) for t, b in items if b]
    add("wupper", "operand in upper case, spaces", lambda s: [" ", s.choice("op", ON), " ", s.choice("k", [t.upper().replace(",", " , ").strip() for t, _ in up]), "\n"],
        lambda e: iter([(True, Ok(ebase(e) + up[e.idx("k")][1]), "ok")]), ["ok"])
    # the 6809 has none of it
    add("wgate", "6809: W, E and F are no registers", lambda s: [" lda ", s.choice("k", [t for t, _ in items]), "\n"], lambda e: iter([(True, Fail(), "fail")]), ["fail"], ["-9"])
    # numbers of other kinds
    IT = [("#7/2,$1234", [0x71, 3, 0x12, 0x34]), ("#1.9,[4/2,x]", [0x61, 1, 0x98, 2]), ("#\"a\",9/2,y", [0x61, 97, 0x24]), ("#-1.5,[lf]", [0x61, 255, 0x9F, 1, 2]), ("#lf,lf", [0x71, 2, 1, 2]), ("#1,<lf", [1, 1, 2]), ("#lq,[lf,w]", [0x61, 0x72, 0xB0, 1, 2]), ("#1,\"ab\"", [0x71, 1, 0x61, 0x62]), ("#1,[\"ab\"]", [0x61, 1, 0x9F, 0x61, 0x62]), ("#1,lf,pcr", [0x61, 1, 0x8C, 0xFE])]
    add("kinds", "operands that are quotients, floating-point values, strings", lambda s: [" org $100\n oim ", s.choice("k", [k for k, _ in IT]), "\nlf equ 258.5\nlq equ \"qr\"\n"],
        lambda e: iter([(True, Ok(IT[e.idx("k")][1]), "ok")]), ["ok"])
    BT = [("a,3/2,5/2,7/2", 0x40 + 8 + 2, 3), ("b,7.9,lf,lg", 0x80 + 56 + 4, 18), ("cc,0.5,lf-3,lg+1", 1, 19), ("a,-0.5,7,'a", 0x47, 97), ("a,16/2,1,1", None, 0), ("a,1,-1.5,1", None, 0), ("a,lg,1,1", None, 0)]

    def bk(e):
        t, pb, ad = BT[e.idx("k")]
        yield (True, Fail(), "fail") if pb is None else (True, Ok([0x11, 0x30, pb, ad]), "ok")
    add("bitkinds", "bit numbers and addresses that are quotients, floating-point values", lambda s: [" band ", s.choice("k", [k for k, _, _ in BT]), "\nlf equ 4.5\nlg equ 18.5\n"], bk, ["ok", "fail"])
    return out
