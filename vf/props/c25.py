"""The listing shows every assembled line with its address and bytes."""
import z3
from ..scen import *
from .. import fmt, isa

BOUNDS = ["programs of up to about thirty lines; up to 400 bytes of data on a line; all 16-bit addresses and operand values in each kind of line",
          "line texts: all printable characters, tabs at every column of a line up to 20 columns"]


def row(addr, bs, text):
    """one line of a listing"""
    r = []
    if addr is not None:
        hi, lo = be(addr, 2)
        r += fmt.hex8(hi) + fmt.hex8(lo) + [32, 32]
    for b in bs:
        r += fmt.hex8(b)
    r += [32] * (1 if len(r) >= 22 else 22 - len(r))
    col = 0
    for c in text:
        if isinstance(c, int) and c == 9:
            r.append(32)
            col += 1
            while col % 8:
                r.append(32)
                col += 1
        else:
            r.append(c)
            col += 1
    return r + [10]


def text(e, parts):
    """the text of a line as bytes and terms"""
    r = []
    for t in T(*parts):
        if isinstance(t, int):
            r.append(t)
            continue
        v = e.scn.vars[t[0]]
        try:
            r.append(t[1][v.vals.index(e.idx(t[0]))])
        except ValueError:
            r.append(z3.simplify(e.tab(t[0], t[1], 8)))
    return r


def scenarios(tier):
    out = []
    th = tier != "quick"
    H = lambda s, n, w=4: ["$", s.hex(n, w)]

    def add(name, what, lines, args=(), files={}, ins=("in.s",), cond=None, image=None, nl=True, quiet=True):
        """lines(s): (parts, fn) per source line of all files by name ("in.s": [...]); the listing is
        the list of (key, addr, bytes) given by fn"""
        s = Scn(name, what=what)
        src, lst = lines(s)
        for n, ls in src.items():
            p = []
            for i, l in enumerate(ls):
                p += [l] + (["\n"] if nl or i + 1 < len(ls) else [])
            s.file(n, *p)
        a = list(args(s) if callable(args) else args)
        s.argv(*(a + ["-l", "lst", "-o", "out"] + list(ins)))
        for n, t in files.items():
            s.file(n, *(t if isinstance(t, list) else [t]))

        def spec(e):
            rows = lst(e)
            r, img = [], []
            for l, a, b in rows:
                r += row(a, b, text(e, l if isinstance(l, list) else [l]))
                img += b
            o = image(e) if callable(image) else image
            f = {"lst": r}
            x = Ok(img if image is None else o, quiet=quiet, lst=r) if image is not False else Ok(quiet=quiet, lst=r)
            if cond is None:
                yield True, x, "ok"
            else:
                c = cond(e)
                yield c, x, "ok"
                yield z3.Not(c), Fail(), "fail"
        s.spec = spec
        s.need = ["ok"]
        out.append(s)
        return s

    def flat(name, what, lines, **kw):
        """one file whose lines are each listed once: lines(s) = [(parts, fn(e) -> (addr, bytes))]"""
        def mk(s):
            ls = lines(s)
            return {"in.s": [l for l, _ in ls]}, lambda e: [(l,) + f(e) for l, f in ls]
        return add(name, what, mk, **kw)
    no = lambda e: (None, [])
    at = lambda a, *b: (lambda e: (a, list(b)))
    o = lambda e, k=0: z3.simplify(e.num("o", 16) + k)

    # ---- every instruction, at every address
    ops = isa.inherent() if hasattr(isa, "inherent") else None
    INH = [("nop", [0x12]), ("abx", [0x3A]), ("swi2", [0x10, 0x3F]), ("mul", [0x3D]), ("rts", [0x39])]
    top = 0xFFFF
    flat("inherent", "address and instruction", lambda s: [([" org ", H(s, "o")], lambda e: (o(e), [])), ([" ", s.choice("k", [n for n, _ in INH])], lambda e: (o(e), INH[e.idx("k")][1])), (["la"], lambda e: (o(e, len(INH[e.idx("k")][1])), []))],
         cond=lambda e: z3.ULE(e.num("o", 32) + len(INH[e.idx("k")][1]), 0x10000))
    flat("operands", "operand values of instructions of every size", lambda s: [([" ldb #", H(s, "a", 2)], lambda e: (0, [0xC6] + be(e.num("a"), 1))), ([" ldx #", H(s, "b")], lambda e: (2, [0x8E] + be(e.num("b"), 2))), ([" ldy #", H(s, "c")], lambda e: (5, [0x10, 0x8E] + be(e.num("c"), 2))),
         (["la sta ", H(s, "d")], lambda e: (9, [0xB7] + be(e.num("d"), 2))), ([" leay [", H(s, "f"), "]"], lambda e: (12, [0x31, 0x9F] + be(e.num("f"), 2)))])
    flat("operands 6309", "operand values of 6309 instructions", lambda s: [([" ldq #", H(s, "a", 8)], lambda e: (0, [0xCD] + be(e.num("a"), 4))), ([" aim #", H(s, "b", 2), ",", H(s, "c")], lambda e: (5, [0x72] + be(e.num("b"), 1) + be(e.num("c"), 2))), ([" tfm x+,y+"], at(9, 0x11, 0x38, 0x12)), ([" nop"], at(12, 0x12))], args=["-3"]) 

    def sized(e):
        v = e.num("a", 32)
        if "g" in e.scn.vars and e.idx("g"):
            v = -v
        return [(v == 0, [0xA6, 0x84]), (z3.And(v >= -16, v <= 15, v != 0), [0xA6, z3.Extract(7, 0, v & 31)]), (z3.And(z3.Or(v < -16, v > 15), v >= -128, v <= 127), [0xA6, 0x88, z3.Extract(7, 0, v)]), (z3.Or(v < -128, v > 127), [0xA6, 0x89] + be(v, 2))]
    s = Scn("sizes", what="an offset that decides the size of its line and the addresses after it")
    s.src(" org $100\n lda ", s.choice("g", ["", "-"]), "$", s.hex("a", 4), ",x\nla nop\n", args=["-l", "lst"])

    def spec(e):
        t = text(e, [" lda ", [("g", [32, 45])], "$", [(("a_%d" % i), [ord(c) for c in "0123456789ABCDEF"]) for i in range(4)], ",x"])
        for c, b in sized(e):
            yield c, Ok(b + [0x12], lst=row(0x100, [], b" org $100") + row(0x100, b, t) + row(0x100 + len(b), [0x12], b"la nop")), "ok"
    s.spec, s.need = spec, ["ok"]
    out.append(s)
    # the same, by a value that settles late
    s = Scn("late sizes", what="a value defined later decides sizes")
    s.src(" lda lv,y\n ldb <lv,y\nla jmp la\nlv equ $", s.hex("a", 4), "\n", args=["-l", "lst"])

    def spec2(e):
        t = text(e, ["lv equ $", [(("a_%d" % i), [ord(c) for c in "0123456789ABCDEF"]) for i in range(4)]])
        v = e.num("a", 32)
        for c, b in sized(e):
            b = [0xA6, b[1] | 0x20] + b[2:]
            b2 = [0xE6, 0xA8, z3.Extract(7, 0, v)]
            n = len(b) + 3
            img = b + b2 + [0x7E] + be(n, 2)
            fits = z3.And(v >= -128, v <= 127)
            yield z3.And(c, fits), Ok(img, lst=row(0, b, b" lda lv,y") + row(len(b), b2, b" ldb <lv,y") + row(n, [0x7E] + be(n, 2), b"la jmp la") + row(v, [], t)), "ok"
            yield z3.And(c, z3.Not(fits)), Any((True, Fail()), (True, Ok())), "far"
    s.spec, s.need = spec2, ["ok"]
    out.append(s)

    # ---- data
    DATA = [(" fcb 1,2,3,4,5,6,7", range(1, 8)), (" fcb 1,2,3,4,5,6,7,8", range(1, 9)), (" fcb 1,2,3,4,5,6,7,8,9", range(1, 10)), (" fdb 1,$ff00", [0, 1, 255, 0]), (" fqb $12345678", [0x12, 0x34, 0x56, 0x78]), (" rzb 5", [0] * 5), (" rzb 0", []), (" fill 7,3", [7, 7, 7]), (" fcc \"abc\"", [97, 98, 99]),
            (" fcn /abc/", [97, 98, 99, 0]), (" fcs \"abc\"", [97, 98, 0xE3]), (" fci \"A@\"", [1, 0]), (" fcv \"A@\"", [65, 64]), (" fcb -1", [255]), (" fcb 300", [44]), (" fill 0,6", [0] * 6), (" fcb \"ab\",1", [97, 98, 1])]
    DATA = [(t, list(b)) for t, b in DATA]
    flat("data", "kind of data, label and address", lambda s: [([" org $", s.hex("o", 2), "00"], lambda e: (oo(e), [])), ([s.padl("l", ["", "la"]), s.choice("k", [t for t, _ in DATA])], lambda e: (oo(e), DATA[e.idx("k")][1])), ([" fdb *"], lambda e: (oo(e, len(DATA[e.idx("k")][1])), be(oo(e, len(DATA[e.idx("k")][1])), 2)))])

    def oo(e, k=0):
        return z3.simplify(z3.Concat(z3.Extract(7, 0, e.num("o", 16)), z3.BitVecVal(0, 8)) + k)
    flat("bytes", "values of the bytes", lambda s: [([" fcb ", H(s, "a", 2), ",", H(s, "b", 3), ",-", H(s, "c", 2)], lambda e: (0, be(e.num("a"), 1) + be(e.num("b"), 1) + be(z3.simplify(-e.num("c")), 1))), ([" fdb ", H(s, "d", 5)], lambda e: (3, be(e.num("d"), 2))), ([" nop"], at(5, 0x12))])
    flat("long", "many bytes on one line", lambda s: [([" fcb 9"], at(0, 9)), (["la rzb ", s.choice("n", ["7", "8", "9", "127", "128", "129", "300", "400"])], lambda e: (1, [0] * [7, 8, 9, 127, 128, 129, 300, 400][e.idx("n")])), ([" fcb 8"], lambda e: (1 + [7, 8, 9, 127, 128, 129, 300, 400][e.idx("n")], [8]))])
    flat("many", "a run of lines longer than the data buffers", lambda s: [([" rzb ", s.choice("n", ["120", "125", "126", "127", "128", "250", "254", "255"])], lambda e: (0, [0] * [120, 125, 126, 127, 128, 250, 254, 255][e.idx("n")]))] + [([" ldd #", str(i)], (lambda i: lambda e: ([120, 125, 126, 127, 128, 250, 254, 255][e.idx("n")] + 3 * i, [0xCC, 0, i]))(i)) for i in range(4)])
    # reserved space, addresses
    flat("reserve", "RMB with any count, and what follows", lambda s: [([" fcb 1"], at(0, 1)), (["la rmb ", H(s, "n", 2)], at(1)), (["lb fcb 2"], lambda e: (z3.simplify(e.num("n", 16) + 1), [2])), (["lc"], lambda e: (z3.simplify(e.num("n", 16) + 2), []))], image=False, args=["-C"])
    flat("align", "ALIGN with and without a fill byte", lambda s: [([" fcb 1,2,3"], at(0, 1, 2, 3)), ([" align ", s.choice("n", ["1", "2", "4", "8", "$10"]), s.choice("f", ["", ",7"])], lambda e: (3, [7] * al(e) if e.idx("f") else [])), ([" nop"], lambda e: (3 + al(e), [0x12]))], image=False)

    def al(e):
        n = [1, 2, 4, 8, 16][e.idx("n")]
        return -3 % n
    flat("org", "two ORGs anywhere", lambda s: [([" fcb 1"], at(0, 1)), (["la org ", H(s, "a")], lambda e: (e.num("a", 16), [])), ([" rmb 1"], lambda e: (e.num("a", 16), [])), (["lb org ", H(s, "b")], lambda e: (e.num("b", 16), [])), (["lc"], lambda e: (e.num("b", 16), []))], image=False, args=["-C"])
    flat("org back", "data at two addresses in either order", lambda s: [([" org $", s.hex("a", 1), "10"], lambda e: (a12(e, "a", 0x10), [])), ([" fcb 1,2"], lambda e: (a12(e, "a", 0x10), [1, 2])), ([" org $", s.hex("b", 1), "30"], lambda e: (a12(e, "b", 0x30), [])), ([" fcb 3,4"], lambda e: (a12(e, "b", 0x30), [3, 4])), ([" org $", s.hex("a", 1), "12"], lambda e: (a12(e, "a", 0x12), [])), ([" fcb 5"], lambda e: (a12(e, "a", 0x12), [5]))], image=False)

    def a12(e, k, lo):
        return z3.simplify(z3.Concat(z3.BitVecVal(0, 4), z3.Extract(3, 0, e.num(k, 16)), z3.BitVecVal(lo, 8)))
    flat("put", "PUT moves the data but not the addresses", lambda s: [([" org $1000"], at(0x1000)), ([" nop"], at(0x1000, 0x12)), ([" put $2", s.hex("p", 3)], at(0x1001)), ([" fdb *"], at(0x1001, 0x10, 0x01)), ([" put $7000"], at(0x1003)), (["la lda #1"], at(0x1003, 0x86, 1))], image=False, args=["-C"])
    flat("put joins", "addresses jump while the data continues in memory, or near", lambda s: [([" org $100"], at(0x100)), ([" fcb 1,2"], at(0x100, 1, 2)), ([" org ", H(s, "o", 3)], lambda e: (o(e), [])), ([" put $1", s.hex("p", 2)], lambda e: (o(e), [])), (["la fcb 3,4"], lambda e: (o(e), [3, 4])), ([" fdb *"], lambda e: (o(e, 2), be(o(e, 2), 2))),
         ([" org $100"], at(0x100)), ([" put $210"], at(0x100)), ([" fdb la"], lambda e: (0x100, be(o(e), 2)))], image=False, args=["-C"], cond=lambda e: e.num("p") > 1)
    flat("put back", "data at the same address assembled for several places", lambda s: [([" org $100"], at(0x100)), ([" rzb 2,1"], at(0x100, 1, 1)), ([" put $", s.hex("p", 1), "00"], at(0x102)), ([" rzb 2,2"], at(0x102, 2, 2)), ([" org $100"], at(0x100)), ([" put $7800"], at(0x100)), ([" rzb 2,3"], at(0x100, 3, 3)), ([" org $10", s.hex("q", 1)], lambda e: (q1(e), [])), ([" put $7802"], lambda e: (q1(e), [])), ([" rzb 2,4"], lambda e: (q1(e), [4, 4]))],
         image=False, args=["-C"], cond=lambda e: e.num("p") != 1)
    q1 = lambda e: z3.simplify(z3.Concat(z3.BitVecVal(0x10, 12), z3.Extract(3, 0, e.num("q", 16))))
    # addresses set by EQU and SET
    flat("equ", "values of symbols", lambda s: [(["la ", s.choice("k", ["equ", "set", "EQU"]), " ", s.choice("g", ["", "-"]), H(s, "v", 6)], lambda e: (z3.simplify(z3.Extract(15, 0, -e.num("v") if e.idx("g") else e.num("v"))), [])), ([" nop"], at(0, 0x12)), (["lb set lc"], at(9)), (["lc equ 9"], at(9)), (["lb set lb+1"], at(10)), (["1 equ *"], at(1)), (["ld equ 2.75"], at(2)), (["lf equ -2.75"], at(0xFFFE))])
    flat("labels", "labels alone on lines", lambda s: [([" org ", H(s, "o")], lambda e: (o(e), [])), (["la"], lambda e: (o(e), [])), (["1"], lambda e: (o(e), [])), (["!"], lambda e: (o(e), [])), (["lb ; text"], lambda e: (o(e), [])), (["lc rmb 0"], lambda e: (o(e), []))], image=[])
    # sections
    flat("sections", "address of one section, listing of two", lambda s: [([" section \"a\""], at(0)), ([" org ", H(s, "o", 3)], lambda e: (o(e), [])), ([" nop"], lambda e: (o(e), [0x12])), ([" section \"b\""], lambda e: (o(e, 3), [])), ([" org $5000"], at(0x5000)), ([" fcb 1"], at(0x5000, 1)), (["la section \"a\""], lambda e: (o(e, 1), [])), ([" fcb 2,3"], lambda e: (o(e, 1), [2, 3])), ([" section \"b\""], at(0x5001)), ([" rzb 3"], at(0x5001, 0, 0, 0)), ([" ram"], at(0x5004)), (["lz auto"], at(0x5004))], image=False, args=["-C"])
    flat("sections settle", "sections whose places depend on the size of the first", lambda s: [([" section \"a\""], at(0)), ([" rzb ", s.choice("n", ["1", "20", "130"])], lambda e: (0, [0] * [1, 20, 130][e.idx("n")])), ([" section \"b\""], lambda e: (tot(e), [])), (["lb fdb lb"], lambda e: (tot(e), be(tot(e), 2))), ([" section \"a\""], lambda e: ([1, 20, 130][e.idx("n")], [])), ([" rzb ", s.choice("m", ["1", "20", "130"])], lambda e: ([1, 20, 130][e.idx("n")], [0] * [1, 20, 130][e.idx("m")]))], image=False)

    def tot(e):
        return [1, 20, 130][e.idx("n")] + [1, 20, 130][e.idx("m")]
    # lines without addresses
    NOADDR = ["", "* text", "; text", " ; text", "\t", "   ", "*", " opt x", " ttl \"a\"", " sttl 5", " export la", "m1 macro\n nop\n endm", " if 0\n nop\nbad bogus 1\n endif", "lx if 1\n endif", " if 0\n elsif 0\n nop\n else\n endif", "m2 macro\nm3 macro\n nop\n endm\n endm", "* \xe4\xff", " if 0\nm4 macro\n endm\n endif"]

    def noaddr(s):
        L = [(NOADDR[i].split("\n")) for i in range(len(NOADDR))]
        w = max(len(l) for l in L)
        ps = [s.choice("k", [l[i] if i < len(l) else "" for l in L]) for i in range(w)]
        # padding lines of spaces stand for missing ones
        src = {"in.s": [[" org $100"], ["la nop"]] + [[p] for p in ps] + [[" nop"]]}

        def lst(e):
            return [(" org $100", 0x100, []), ("la nop", 0x100, [0x12])] + [([p], None, []) for p in ps] + [(" nop", 0x101, [0x12])]
        return src, lst
    add("no address", "lines that neither set nor have an address", noaddr)
    OTHER = [" setdp 5", " put $500", " include \"e.s\"", " rmb 0", " rzb 0", " includebin \"e.s\"", "lq", "lq setdp 1", " align 1"]
    flat("no bytes", "lines at an address without bytes", lambda s: [([" org ", H(s, "o")], lambda e: (o(e), [])), ([s.choice("k", OTHER)], lambda e: (o(e), [])), (["lz"], lambda e: (o(e), []))], files={"e.s": ""}, image=[])
    # conditions
    def condl(s):
        ls = [[" if ", H(s, "c", 1)], [" fcb 1"], [" elsif ", H(s, "d", 1)], [" fcb 2,2"], [" else"], [" fcb 3,3,3"], [" endif"], ["la fcb 9"]]

        def lst(e, k):
            r = []
            pc = 0
            for i, l in enumerate(ls):
                if i in (1, 3, 5):
                    n = i // 2 + 1
                    if n == k:
                        r.append((l, 0, [k] * k))
                        pc = k
                    else:
                        r.append((l, None, []))
                elif i == 7:
                    r.append((l, pc, [9]))
                else:
                    r.append((l, None, []))
            return r
        return ls, lst
    s = Scn("conditions", what="conditions free")
    ls, lst = condl(s)
    s.src(*[x for l in ls for x in (l, "\n")], args=["-l", "lst"])

    def spec3(e, lst=lst):
        c, d = e.num("c") != 0, e.num("d") != 0
        for k, q in ((1, c), (2, z3.And(z3.Not(c), d)), (3, z3.And(z3.Not(c), z3.Not(d)))):
            r, img = [], []
            for l, a, b in lst(e, k):
                r += row(a, b, text(e, l))
                img += b
            yield q, Ok(img, lst=r), "k%d" % k
    s.spec, s.need = spec3, ["k1", "k2", "k3"]
    out.append(s)
    # macros
    def mac(s):
        src = [["m1 macro"], [" fcb \\1"], ["\t ldx #\\2 ; \\2"], [" endm"], [" fcb 1"], [" m1 ", H(s, "a", 2), ",", H(s, "b")], ["lx m1 5,6"], [" nop"]]
        A, B = (lambda e: be(e.num("a"), 1)), (lambda e: be(e.num("b"), 2))
        return {"in.s": src}, lambda e: [(src[i], None, []) for i in range(4)] + [(src[4], 0, [1]), (src[5], 1, []), (src[1], 1, A(e)), (src[2], 2, [0x8E] + B(e)), (src[6], 5, []), (src[1], 5, [5]), (src[2], 6, [0x8E, 0, 6]), (src[7], 9, [0x12])]
    add("macro", "arguments of a macro called twice", mac)

    def mac2(s):
        src = ["m1 macro", " if \\1", " fcb 7", " m1 \\1-1", " endif", " endm", " org $200", "la m1 ", " nop"]
        D = s.choice("n", ["0", "1", "2", "4"])
        src = [[x] for x in src]
        src[7].append(D)

        def lst(e):
            n = [0, 1, 2, 4][e.idx("n")]
            r = [(src[i], None, []) for i in range(6)] + [(src[6], 0x200, []), (src[7], 0x200, [])]

            def call(k, pc):
                rr = [(src[1], None, [])]
                if k:
                    rr += [(src[2], pc, [7]), (src[3], pc + 1, [])] + call(k - 1, pc + 1)
                else:
                    rr += [(src[2], None, []), (src[3], None, [])]
                return rr + [(src[4], None, [])]
            return r + call(n, 0x200) + [(src[8], 0x200 + n, [0x12])]
        return {"in.s": src}, lst
    add("nested macro", "depth of a macro that calls itself", mac2)
    # files
    def inc(s):
        a, b, c = [[" fcb 1"], [" include \"b.s\""], ["lz fcb 4"]], [[" fcb 2"], [" include \"c.s\""], ["\tfcb 3"]], [["* text"], ["lc fdb ", H(s, "v")]]
        return {"in.s": a, "b.s": b, "c.s": c}, lambda e: [(a[0], 0, [1]), (a[1], 1, []), (b[0], 1, [2]), (b[1], 2, []), (c[0], None, []), (c[1], 2, be(e.num("v"), 2)), (b[2], 4, [3]), (a[2], 5, [4])]
    add("include", "files included in two levels", inc)
    add("include without line end", "files whose last lines have no line end", inc, nl=False)

    def inc2(s):
        a, b = [[" fcb 1"], [" include \"b.s\""], [" include \"b.s\""], [" fcb 4"]], [[" fcb ", H(s, "v", 2)]]
        return {"in.s": a, "b.s": b}, lambda e: [(a[0], 0, [1]), (a[1], 1, []), (b[0], 1, be(e.num("v"), 1)), (a[2], 2, []), (b[0], 2, be(e.num("v"), 1)), (a[3], 3, [4])]
    add("include twice", "a file included twice", inc2)

    def two(s):
        a, b = [[" fcb 1"], ["la"]], [[" fcb ", H(s, "v", 2)], [" nop"]]
        return {"in.s": a, "b.s": b}, lambda e: [(a[0], 0, [1]), (a[1], 1, []), (b[0], 1, be(e.num("v"), 1)), (b[1], 2, [0x12])]
    add("two files", "two source files", two, ins=("in.s", "b.s"))
    add("two files without line end", "two source files without final line ends", two, ins=("in.s", "b.s"), nl=False)

    flat("end line", "END ends the listing", lambda s: [([" fcb 1"], at(0, 1)), (["la end", s.choice("k", ["", " $1", " la", " ; text"])], at(1))])
    s = Scn("after end", what="lines after END are not listed")
    s.src(" fcb 1\n end\n", s.char("c", [chr(c) for c in range(32, 127)]), s.char("d", [chr(c) for c in range(32, 127)]), "b\n bogus\n", args=["-l", "lst"])
    s.spec, s.need = lambda e: iter([(True, Ok([1], lst=row(0, [1], b" fcb 1") + row(1, [], b" end")), "ok")]), ["ok"]
    out.append(s)

    def inc3(s):
        a, b = [[" fcb 1"], [" include \"b.s\""], [" fcb 4"]], [[" fcb 2"], [" end"], [" fcb 3"]]
        return {"in.s": a, "b.s": b}, lambda e: [(a[0], 0, [1]), (a[1], 1, []), (b[0], 1, [2]), (b[1], 2, []), (a[2], 2, [4])]
    add("end in include", "END in an included file", inc3)

    # ---- texts
    PR = [chr(c) for c in range(32, 127)]
    flat("comment text", "any characters in a comment", lambda s:
         [(["* ", [s.char("c%d" % i, PR) for i in range(4)]], no), ([" nop ;", [s.char("d%d" % i, PR) for i in range(3)]], at(0, 0x12))])
    flat("bytes text", "any byte but line ends and NUL in a comment", lambda s: [([";", [s.char("c%d" % i, [c for c in range(1, 256) if c not in (9, 10, 13)]) for i in range(2)], "x"], no), ([" nop"], at(0, 0x12))])
    flat("spaces", "spaces and tabs at every column", lambda s: [tabs(s, th)])

    def crlf(s):
        ls = [[" fcb 1"], ["* text"], ["la lda #", H(s, "v", 2)], [], ["lb\tequ\t2 ; x"], [" nop"]]
        ad = lambda e: [(0, [1]), (None, []), (1, [0x86] + be(e.num("v"), 1)), (None, []), (2, []), (3, [0x12])]
        return ls, ad
    s = Scn("line ends", what="CR-LF or LF after each line")
    ls, ad = crlf(s)
    p = []
    for i, l in enumerate(ls):
        p += [l, "\r\n"] if i % 2 == 0 else [l, "\n"]
    s.src(*p, args=["-l", "lst"])

    def spec4(e):
        r, img = [], []
        for l, (a, b) in zip(ls, ad(e)):
            r += row(a, b, text(e, l))
            img += b
        yield True, Ok(img, lst=r), "ok"
    s.spec, s.need = spec4, ["ok"]
    out.append(s)
    flat("long line", "long lines", lambda s: [(["* " + "abcdefghi\t" * 50], no), (["la" + "x" * 200 + " nop"], at(0, 0x12)), ([" fcc \"" + "0123456789" * 30 + "\""], lambda e: (1, list(b"0123456789" * 30)))])
    # ---- with other options
    o1 = lambda e, k=0: z3.simplify(z3.Concat(z3.BitVecVal(1, 4), z3.Extract(3, 0, e.num("o", 16)), z3.BitVecVal(0, 8)) + k)
    flat("formats", "listing with every output format and option", lambda s: [([" org ", "$1", s.hex("o", 1), "00"], lambda e: (o1(e), [])), (["la lda #1"], lambda e: (o1(e), [0x86, 1])), ([" section \"x\""], lambda e: (o1(e, 2), [])), ([" org $5000"], at(0x5000)), ([" fdb la"], lambda e: (0x5000, be(o1(e), 2))), ([" export la"], no), ([" end la"], at(0x5002))],
         args=lambda s: [s.choice("f", ["-B", "-D", "-C", "-S", "-H", "-8", "-9", "-3"])], image=False)
    flat("warnings", "lines with warnings", lambda s: [([s.choice("k", [" tfr a,x", " lda [,x+]", " exg d,a"])], lambda e: (0, [[0x1F, 0x81], [0xA6, 0x90], [0x1E, 0x08]][e.idx("k")])), ([" nop"], at(2, 0x12))], args=["-q"])
    # listing on standard output-like special places
    KINDS = [" nop", " lda #$55", " fcb 1,2,3", " rmb 4", " fcc \"ab\"", "* x", " rzb 3", "", " fdb *", " bra *+2", " if 1\n endif", " align 4", " align 4,$aa"]
    K = [([0x12], 0), ([0x86, 0x55], 0), ([1, 2, 3], 0), ([], 4), ([97, 98], 0), (None, 0), ([0, 0, 0], 0), (None, 0), ("pc", 0), ([0x20, 0], 0), (None, 0), ("al", 0), ("alf", 0)]
    KS = [k for k in range(len(KINDS)) if "\n" not in KINDS[k]]
    NK = 4 if th else 3

    def seq(s):
        return [[s.choice("k%d" % i, [KINDS[k] for k in KS])] for i in range(NK)]

    def seqlist(e):
        pc, r, img = 0x100, [], []
        for i in range(NK):
            b, n = K[KS[e.idx("k%d" % i)]]
            if b is None:
                r.append((None, []))
                continue
            if b == "pc":
                b = be(pc, 2)
            elif b == "al":
                b, n = [], -pc % 4
            elif b == "alf":
                b = [0xAA] * (-pc % 4)
            r.append((pc, b))
            pc += len(b) + n
        return r, pc

    def seqs(s):
        ls = seq(s)
        src = {"in.s": [[" org $100"]] + ls + [["lz"]]}

        def lst(e):
            r, pc = seqlist(e)
            return [(" org $100", 0x100, [])] + [(l, a, b) for l, (a, b) in zip(ls, r)] + [("lz", pc, [])]
        return src, lst
    add("sequences", "every sequence of %d kinds of line" % NK, seqs, image=False)
    return [x for x in out if x is not None]


def tabs(s, th):
    t = ["la", [s.choice("c%d" % i, [" ", "\t"]) for i in range(3)], "nop", s.choice("d", [" ", "\t"]), ";", s.choice("g", ["", "a", "bcd", "efghijk", "lmnopqrs"], pad="_"), "\tx", s.choice("f", [" ", "\t"]), "\ty\t"]
    return t, (lambda e: (0, [0x12]))
