"""Output formats and the memory image."""
import itertools
import z3
from ..scen import *
from .. import fmt
from .c14 import placed, PL

BOUNDS = ["all five formats; up to four spans in every order with gaps of 0 to 300 bytes around a free 16-bit base address", "two spans with both addresses free (SREC, HEX, CoCo), one span with free address, free fill byte and lengths 1 to 65536 from a list",
          "three sections interleaved"]
FO = list(fmt.FMT)
SPARSE = ["-C", "-S", "-H"]


def spansof(pieces):
    """pieces [(offset, bytes)] -> merged [(offset, bytes)] or None if overlapping"""
    out = []
    for a, bs in sorted(pieces, key=lambda p: p[0]):
        if not bs:
            continue
        if out and out[-1][0] + len(out[-1][1]) > a:
            return None
        if out and out[-1][0] + len(out[-1][1]) == a:
            out[-1] = (out[-1][0], out[-1][1] + list(bs))
        else:
            out.append((a, list(bs)))
    return out


def image(base, pieces, f, exec_=None):
    """expected file for pieces at base + offset, base an int or a 16-bit term"""
    sp = spansof(pieces)
    if f in ("-B", "-D"):
        a0, bs = fmt.flat(sp)
        return fmt.FMT[f]([(fmt.plus(base, a0), bs)], exec_)
    return fmt.FMT[f]([(fmt.plus(base, a), bs) for a, bs in sp], exec_)


def scenarios(tier):
    out = []
    th = tier != "quick"

    def add(name, what, parts, spec, need=("ok",), args=()):
        s = Scn(name, what=what)
        s.argv(*(list(args(s) if callable(args) else args) + ["-o", "out", "in.s"]))
        s.src(*parts(s))
        s.spec = spec
        s.need = list(need)
        out.append(s)
    lo = lambda t: z3.Extract(15, 0, t)
    W = lambda t: be(lo(t), 2)
    H = lambda s, n, k=4: ["$", s.hex(n, k)]
    opt = lambda s: [s.choice("f", FO)]

    # pieces in every order
    def order(name, pieces, fs, tailfree=True):
        """pieces (offset, directive, bytes) assembled in every order"""
        n = len(pieces)
        top = max(a + len(b) for a, _, b in pieces)
        lab = "abcdef"

        def parts(s):
            l = ["lbase equ $", s.hex("o", 4), "\n"]
            texts = [" org lbase+%d\n %s\n" % (a, d) for a, d, _ in pieces]
            perms = list(itertools.permutations(range(n)))
            l.append(s.choice("p", ["".join(texts[i] for i in p) for p in perms], pad="\n"))
            return l

        def spec(e):
            o = e.num("o", 64)
            ok = z3.ULE(o + top, 0x10000)
            f = fs[e.idx("f")] if len(fs) > 1 else fs[0]
            yield ok, Ok(image(lo(o), [(a, b) for a, _, b in pieces], f)), "ok"
            yield z3.Not(ok), Fail(), "fail"
        add(name, "%d pieces in every order, base address free" % n, parts, spec, ["ok", "fail"], lambda s: [s.choice("f", fs)] if len(fs) > 1 else list(fs))
    order("order3", [(0, "fcb 1,2", [1, 2]), (2, "fcb 3", [3]), (5, "fcb 4,5", [4, 5])], FO)
    order("order3b", [(0, "fcb 1", [1]), (1, "fcb 3,4,5", [3, 4, 5]), (4, "fcb 6", [6])], FO)
    order("order3c", [(0, "fcb 1", [1]), (300, "fdb 3,4", [0, 3, 0, 4]), (2, "fcb 6", [6])], SPARSE + ["-D"])
    order("order4", [(7, "fcb 1", [1]), (8, "fcb 2", [2]), (10, "fcb 3", [3]), (9, "fcb 4", [4])], FO if th else ["-C"])
    order("zero", [(0, "fcb 0", [0]), (1, "fcb 0,0", [0, 0]), (4, "fcb 0", [0])], FO)

    # gaps
    GAPS = [0, 1, 2, 31, 32, 33, 127, 128, 129, 255, 256, 300] if th else [0, 1, 30, 127, 300]

    def gap(e):
        o, v = e.num("o", 64), be(e.num("v", 8), 1)
        g = GAPS[e.idx("g")]
        ok = z3.ULE(o + 3 + g, 0x10000)
        yield ok, Ok(image(lo(o), [(0, v + [7]), (2 + g, v)], FO[e.idx("f")])), "ok"
        yield z3.Not(ok), Fail(), "fail"
    add("gap", "size of the gap, base address and data free", lambda s: [" org ", H(s, "o"), "\n fcb ", H(s, "v", 2), ",7\n rmb ", s.choice("g", [str(g) for g in GAPS]), "\n fcb ", H(s, "v", 2), "\n"], gap, ["ok", "fail"], opt)

    # span lengths
    LENS = [1, 31, 32, 33, 64, 65, 127, 128, 129] + ([2, 63, 96, 255, 256, 257, 511, 512, 1000, 4096, 8191] if th else [255])

    def length(e):
        o, v = e.num("o", 64), be(e.num("v", 8), 1)
        n = LENS[e.idx("n")]
        ok = z3.ULE(o + n + 1, 0x10000)
        yield ok, Ok(image(lo(o), [(0, v * n + [9])], FO[e.idx("f")])), "ok"
        yield z3.Not(ok), Fail(), "fail"
    add("length", "length, fill byte and address (0 to $fff) of a piece free", lambda s: [" org ", H(s, "o", 3), "\n fill ", H(s, "v", 2), ",", s.choice("n", [str(n) for n in LENS]), "\n fcb 9\n"],
        length, ["ok"], opt)

    # the same program, both addresses free
    for f in SPARSE:
        def two(e, f=f):
            yield from placed([(e.num("o", 64), W(e.num("o", 64)) + [1]), (e.num("p", 64), [2, 3])], fmt.FMT[f])
        add("two" + f[1], "two ORG addresses free", lambda s: [" org ", H(s, "o"), "\n fdb *\n fcb 1\n org ", H(s, "p"), "\n fcb 2,3\n"], two, PL, [f])

    # sections, PUT
    def sect(e):
        o = e.num("o", 64)
        f = FO[e.idx("f")]
        img = [(0, [1] + be(0x1005, 2) + [2, 3, 4]), (9, be(0x1010, 2) + [6]), (12, [5])]
        ok = z3.ULE(o + 13, 0x10000)
        yield ok, Ok(image(lo(o), img, f)), "ok"
        yield z3.Not(ok), Fail(), "fail"
    add("sections", "three sections interleaved, PUT address free", lambda s: [" section \"x\"\n org $1000\n put ", H(s, "o"), "\n fcb 1\n fdb lb\n data\n org $1010\n put $", s.hex("o", 4), "+9\nla fdb la\n section \"x\"\n fcb 2,3\nlb equ *\n fcb 4\n data\n fcb 6\n bss\n fcb 5\n"],
        sect, ["ok", "fail"], opt)

    # corners
    def corner(name, text, pieces, fs=FO, exec_=None):
        add("corner " + name, "format free", lambda s: [text], lambda e: iter([(True, Ok(fmt.FMT[fs[e.idx("f")]](spansof(pieces), exec_)), "ok")]), ["ok"], lambda s: [s.choice("f", fs)])
    corner("top", " org $ffff\n fcb 1\n", [(0xFFFF, [1])])
    corner("ends", " org 0\n fcb 1\n org $ffff\n fcb 2\n", [(0, [1]), (0xFFFF, [2])], SPARSE)
    corner("ends back", " org $ffff\n fcb 2\n org 0\n fcb 1\n", [(0, [1]), (0xFFFF, [2])], SPARSE)
    corner("ends flat", " org $8000\n fcb 2\n org $7f00\n fcb 1\n", [(0x7F00, [1]), (0x8000, [2])])
    corner("two kinds", " org 0\n fcb 1\n org $fffe\n fdb 2\n org $8000\n fqb 3\n", [(0, [1]), (0x8000, [0, 0, 0, 3]), (0xFFFE, [0, 2])], SPARSE)
    corner("reserve", " org 5\n rmb 10\n fcb 1\n rmb 20\n", [(15, [1])])
    corner("empty", " org 5\n rmb 10\nl equ 5\n", [], ["-C", "-S", "-H", "-B"])
    add("corner dragon empty", "no data", lambda s: [" org 5\n rmb 10\n"], lambda e: iter([(True, Ok([0x55, 2, 0, 0, 0, 0, 0, 0, 0xAA]), "ok")]), ["ok"], ["-D"])
    if th:
        corner("large", " fill 7,65535\n", [(0, [7] * 65535)], ["-D", "-B", "-C"])
        corner("full", " fill 7,65536\n", [(0, [7] * 65536)], ["-B", "-C"])
        corner("largehex", " org 1\n fill 7,65535\n", [(1, [7] * 65535)], ["-S", "-H"])
    else:
        corner("large", " org 1\n fill 7,5000\n", [(1, [7] * 5000)])
    # options given twice, long names
    for o, n in (("-C", "--coco"), ("-S", "--srec"), ("-H", "--hex"), ("-D", "--dragondos"), ("-B", "--bin"), ("-S", "--sr"), ("-B", None)):
        def last(e, o=o):
            return iter([(True, Ok(fmt.FMT[o]([(0x1234, [1, 2]), (0x1300, [3])])), "ok")])
        # the last format option given counts
        add("name %s" % n, "long option name after another format option", lambda s: [" org $1234\n fcb 1,2\n org $1300\n fcb 3\n"], last, ["ok"], (lambda s, n=n: [s.choice("g", FO), n]) if n else [])
    return out
