"""Direct or extended addressing."""
import itertools
import z3
from ..scen import *
from .. import isa

BOUNDS = ["operand addresses: all 16-bit values (4 hex digits)", "direct page values: all 8-bit values, and negative, set by SETDP or --setdp",
          "every 6809 mnemonic with both forms, and every 6309 one"]


def both(tab):
    return sorted(m for m, t in tab.items() if t[2] is not None and t[4] is not None)


def enc(t, addr, direct):
    return isa.ob(t[2]) + be(addr, 1) if direct else isa.ob(t[4]) + be(addr, 2)


def scenarios(tier):
    out = []
    tabs = dict(isa.MEM)
    tabs.update(isa.MEM63)
    names = sorted(tabs)

    def page(name, setup, args, pagefn, ops, force=""):
        s = Scn(name, what="mnemonic chosen freely, address $0000-$FFFF, page free")
        parts = setup(s)
        s.src(parts, " ", s.choice("op", ops), " ", force, "$", s.hex("a", 4), "\n", args=args)

        def spec(e):
            t = tabs[ops[e.idx("op")]]
            a = e.num("a", 16)
            p = pagefn(e)
            if force == "<":
                yield True, Ok(enc(t, a, True)), "forced-direct"
            elif force == ">" or p is None:
                yield True, Ok(enc(t, a, False)), "extended"
            else:
                c = z3.Extract(15, 8, a) == p
                yield c, Ok(enc(t, a, True)), "direct"
                yield z3.Not(c), Ok(enc(t, a, False)), "extended"
        s.spec = spec
        s.need = [{"<": "forced-direct", ">": "extended"}.get(force, "extended")] + (["direct"] if not force and name != "negative" and name != "default" else [])
        out.append(s)

    A3 = ["-3"]
    page("setdp", lambda s: T(" setdp $", s.hex("p", 2), "\n"), A3, lambda e: e.num("p", 8), names)
    page("default", lambda s: [], A3, lambda e: None, names)
    page("negative", lambda s: T(" setdp $12\n setdp -", s.dec("n", 1, 1), "\n"), A3, lambda e: None, names)
    page("force8", lambda s: T(" setdp $", s.hex("p", 2), "\n"), A3, lambda e: e.num("p", 8), names, "<")
    page("force16", lambda s: T(" setdp $", s.hex("p", 2), "\n"), A3, lambda e: e.num("p", 8), names, ">")

    # programs: parts(s) is the source; prog(e) a list of bytes and ('m', opcode pair, address, page)
    def add(name, what, parts, prog, need=("ok",), args=()):
        s = Scn(name, what=what)
        p = parts(s)
        s.argv(*(list(args(s) if callable(args) else args) + ["-o", "out", "in.s"]))
        s.src(*p)

        def spec(e):
            items = prog(e)
            mem = [i for i, x in enumerate(items) if isinstance(x, tuple)]
            for combo in itertools.product((True, False), repeat=len(mem)):
                c, bs = [], []
                pick = dict(zip(mem, combo))
                for i, x in enumerate(items):
                    if not isinstance(x, tuple):
                        bs.append(x)
                        continue
                    d, x16, a, pg = x[:4]
                    mid = list(x[4]) if len(x) > 4 else []
                    if pg is None:
                        c.append(z3.BoolVal(not pick[i]))
                    else:
                        h = z3.Extract(15, 8, a) == pg
                        c.append(h if pick[i] else z3.Not(h))
                    bs += ([d] + mid + be(a, 1)) if pick[i] else ([x16] + mid + be(a, 2))
                c = z3.simplify(z3.And(c)) if c else z3.BoolVal(True)
                if z3.is_false(c):
                    continue
                yield c, Ok(bs), "ok"
        s.spec = spec
        s.need = list(need)
        out.append(s)
    H = lambda s, n, k=4: ["$", s.hex(n, k)]
    K = lambda v, n=8: z3.BitVecVal(v, n)
    LDA, LDB, STA, JMP, CLR = (0x96, 0xB6), (0xD6, 0xF6), (0x97, 0xB7), (0x0E, 0x7E), (0x0F, 0x7F)
    M = lambda op, a, p: (op[0], op[1], a, p)
    num = lambda e, n, b=16: e.num(n, b)
    add("changes", "two pages and the address free, then no page", lambda s: [" lda ", H(s, "a"), "\n setdp ", H(s, "p", 2), "\n lda ", H(s, "a"), "\n setdp ", H(s, "q", 2), "\n ldb ", H(s, "a"), "\n setdp -1\n sta ", H(s, "a"), "\n"],
        lambda e: [M(LDA, num(e, "a"), None), M(LDA, num(e, "a"), num(e, "p", 8)), M(LDB, num(e, "a"), num(e, "q", 8)), M(STA, num(e, "a"), None)])
    add("passes", "the page set later in the program does not apply before it in the second pass", lambda s: [" lda ", H(s, "a"), "\n ldx #la\n setdp ", H(s, "p", 2), "\n lda ", H(s, "a"), "\nla equ ", H(s, "v"), "\n"],
        lambda e: [M(LDA, num(e, "a"), None), 0x8E] + be(num(e, "v"), 2) + [M(LDA, num(e, "a"), num(e, "p", 8))])
    add("passes option", "as before, with --setdp", lambda s: [" lda ", H(s, "a"), "\n ldx #la\n setdp ", H(s, "p", 2), "\n lda ", H(s, "a"), "\nla equ 5\n"],
        lambda e: [M(LDA, num(e, "a"), K(0x12)), 0x8E, 0, 5, M(LDA, num(e, "a"), num(e, "p", 8))], args=["--setdp", "0x12"])
    add("passes section", "as before, in two sections", lambda s: [" org $100\n lda ", H(s, "a"), "\n section \"x\"\n lda ", H(s, "a"), "\n ldx #la\n setdp ", H(s, "p", 2), "\n section \"CODE\"\n org $10c\nla sta ", H(s, "a"), "\n"],
        lambda e: [M(LDA, num(e, "a"), None)] + [0] * 9 + [M(STA, num(e, "a"), None), M(LDA, num(e, "a"), None), 0x8E, 1, 0x0C])
    add("forward", "address defined later", lambda s: [" setdp ", H(s, "p", 2), "\n lda la\n ldb la+1\n jmp lb\nla equ ", H(s, "a"), "\nlb equ ", H(s, "b"), "\n"],
        lambda e: [M(LDA, num(e, "a"), num(e, "p", 8)), M(LDB, num(e, "a") + 1, num(e, "p", 8)), M(JMP, num(e, "b"), num(e, "p", 8))])
    add("wide", "page of 15 hex digits: the low 8 bits", lambda s: [" setdp ", H(s, "p", 15), "\n lda ", H(s, "a"), "\n"], lambda e: [M(LDA, num(e, "a"), num(e, "p", 8))])
    add("wide negative", "negative page of up to 15 hex digits: none", lambda s: [" setdp $12\n setdp -$1", s.hex("p", 14), "\n lda ", H(s, "a"), "\n"], lambda e: [M(LDA, num(e, "a"), None)])
    add("wide address", "address of 15 hex digits, either sign: the low 16 bits", lambda s: [" setdp ", H(s, "p", 2), "\n lda ", s.padl("m", ["", "-"]), "$", s.hex("a", 15), "\n"],
        lambda e: [M(LDA, z3.Extract(15, 0, -e.num("a", 64) if e.idx("m") else e.num("a", 64)), num(e, "p", 8))])
    VAL = ["0x00", "0x12", "0xff", "0X7f", "18", "255", "256", "0x1234", "022", "-1", "-255", "0"]
    NUM = [0, 0x12, 0xFF, 0x7F, 18, 255, 0, 0x34, 18, None, None, 0]
    KD = [("4660.7", 0x1234), ("\"ab\"", 0x6162), ("4661/2", 2330), ("la", 0x1233), ("lb", 0x7172), ("'a", 97), ("-1.5", 0xFFFF), ("\"abc\"", 0x6263), ("65535.9", 0xFFFF)]
    add("kinds", "addresses of other kinds", lambda s: [" setdp ", H(s, "p", 2), "\n lda ", s.choice("k", [k for k, _ in KD]), "\nla equ 4659.5\nlb equ \"qr\"\n"],
        lambda e: [M(LDA, K(KD[e.idx("k")][1], 16), num(e, "p", 8))])
    add("kinds forced", "addresses of other kinds", lambda s: [" setdp ", H(s, "p", 2), "\n lda ", s.choice("f", "<>"), s.choice("k", [k for k, _ in KD]), "\nla equ 4659.5\nlb equ \"qr\"\n"],
        lambda e: ([0x96] + [KD[e.idx("k")][1] & 255] if e.idx("f") == 0 else [0xB6, KD[e.idx("k")][1] >> 8, KD[e.idx("k")][1] & 255]))
    PK = [("18.9", 18), ("\"b\"", 98), ("275.5", 19), ("-0.5", 0), ("-1.5", None), ("'z", 122)]
    add("page kinds", "pages of other kinds", lambda s: [" setdp 5\n setdp ", s.choice("k", [k for k, _ in PK]), "\n lda ", H(s, "a"), "\n"],
        lambda e: [M(LDA, num(e, "a"), None if PK[e.idx("k")][1] is None else K(PK[e.idx("k")][1]))])
    add("option", "the value of --setdp", lambda s: [" lda ", H(s, "a"), "\n jmp $", s.hex("b", 4), "\n"],
        lambda e: [M(LDA, num(e, "a"), None if NUM[e.idx("o")] is None else K(NUM[e.idx("o")])), M(JMP, num(e, "b"), None if NUM[e.idx("o")] is None else K(NUM[e.idx("o")]))],
        args=lambda s: ["--setdp", s.choice("o", VAL)])
    add("section", "each section has its own page", lambda s: [" setdp ", H(s, "p", 2), "\n section \"x\"\n lda ", H(s, "a"), "\n setdp ", H(s, "q", 2), "\n lda ", H(s, "a"), "\n"],
        lambda e: [M(LDA, num(e, "a"), None), M(LDA, num(e, "a"), num(e, "q", 8))])
    add("macro", "page set in a macro, in an included expansion and by an expression", lambda s: ["m1 macro\n setdp \\1/256\n lda \\1+1\n endm\n m1 ", H(s, "p"), "\n ldb ", H(s, "a"), "\n"],
        lambda e: [M(LDA, num(e, "p") + 1, z3.Extract(15, 8, num(e, "p"))), M(LDB, num(e, "a"), z3.Extract(15, 8, num(e, "p")))])
    add("skipped", "SETDP in a skipped branch has no effect", lambda s: [" setdp ", H(s, "p", 2), "\n if 0\n setdp ", H(s, "q", 2), "\n endif\n lda ", H(s, "a"), "\n"], lambda e: [M(LDA, num(e, "a"), num(e, "p", 8))])
    IM = sorted(isa.IMMMEM63)
    add("immediate to memory", "6309 AIM, OIM, EIM and TIM", lambda s: [" setdp ", H(s, "p", 2), "\n ", s.choice("op", IM), " #$", s.hex("v", 2), ",", H(s, "a"), "\n"],
        lambda e: [M((isa.IMMMEM63[IM[e.idx("op")]], isa.IMMMEM63[IM[e.idx("op")]] + 0x70), num(e, "a"), num(e, "p", 8)) + (be(num(e, "v", 8), 1),)], args=A3)
    return out
