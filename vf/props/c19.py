"""Local labels."""
import itertools
import z3
from ..scen import *
from .. import fmt

BOUNDS = ["every sequence of four (thorough: five) lines among definitions of two local labels, references either way and lines with both, in one section and with switches between two",
          "label numbers of up to five digits and every pair of two-digit ones; 16-bit start addresses and distances free; up to 60 definitions of one label with the reference at each position",
          "definitions and references in macros, included files, several files, skipped lines, EQU lines; lines whose size changes between passes"]


def resolve(lines, starts):
    """lines: (section, label or None, data) with data a list of ints and ('b'|'f', n) 16-bit references.
    starts: section -> start, or None to follow the one before.  Returns section -> bytes (terms) or None."""
    secs = []
    for l in lines:
        if l[0] not in secs:
            secs.append(l[0])
    size = lambda d: sum(1 if isinstance(x, int) else 2 for x in d)
    at, pos, out = {}, [], {}
    prev = bv(0)
    for sname in secs:
        a = starts.get(sname)
        at[sname] = prev if a is None else a
        pc = at[sname]
        for l in lines:
            if l[0] == sname:
                pc = pc + size(l[2])
        prev = z3.simplify(pc)
    cur = dict(at)
    for l in lines:
        pos.append(cur[l[0]])
        cur[l[0]] = z3.simplify(cur[l[0]] + size(l[2]))
    for i, (sname, lab, data) in enumerate(lines):
        o = out.setdefault(sname, [])
        for x in data:
            if isinstance(x, int):
                o.append(x)
                continue
            d, n = x
            js = [j for j, l in enumerate(lines) if l[0] == sname and l[1] == n and (j <= i if d == "b" else j > i)]
            if not js:
                return None
            o += be(pos[max(js) if d == "b" else min(js)], 2)
    return out


def scenarios(tier):
    out = []
    th = tier != "quick"

    def add(name, what, parts, spec, need=("ok",), args=(), files={}, ins=("in.s",)):
        s = Scn(name, what=what)
        p = []
        for x in parts(s):
            p += x if isinstance(x, list) else [x]
        s.file("in.s", *p)
        s.argv(*(list(args) + ["-o", "out"] + list(ins)))
        for n, t in files.items():
            s.file(n, *(t(s) if callable(t) else [t]))
        s.spec = spec
        s.need = list(need)
        out.append(s)
    ok = lambda *b: (lambda e: iter([(True, Ok(list(b)), "ok")]))
    fail = lambda e: iter([(True, Fail(), "fail")])
    H = lambda s, n, w=4: ["$", s.hex(n, w)]

    # every sequence of lines
    KIND = [("1 nop", 1, [0x12]), ("2 nop", 2, [0x12]), (" fdb 1b", None, [("b", 1)]), (" fdb 1f", None, [("f", 1)]), (" fdb 2F,1B", None, [("f", 2), ("b", 1)]), ("1 fdb 1f,1b", 1, [("f", 1), ("b", 1)]), (" nop", None, [0x12])]
    N = 5 if th else 4

    def seq(e, kinds=KIND, N=N, lead=()):
        lines = list(lead)
        cur = "c"
        for i in range(N):
            k = kinds[e.idx("k%d" % i)]
            if k[1] == "sec":
                cur = k[2]
                continue
            lines.append((cur,) + k[1:])
        r = resolve(lines, {"c": e.num("o")})
        if r is None:
            yield True, Fail(), "fail"
        else:
            yield True, Ok(sum((r[x] for x in dict.fromkeys(l[0] for l in lines)), [])), "ok"
    add("lines", "every sequence of %d lines; start address free" % N, lambda s: [" org ", H(s, "o", 3), "\n"] + [x for i in range(N) for x in (s.choice("k%d" % i, [k[0] for k in KIND]), "\n")], seq, ["ok", "fail"])
    KS = [("1 nop", 1, [0x12]), (" fdb 1b", None, [("b", 1)]), (" fdb 1f", None, [("f", 1)]), ("1 fdb 1f", 1, [("f", 1)]), (' section "X"', "sec", "x"), (' section "c"', "sec", "c")]

    def sect(e):
        # both sections exist from the start; X follows c
        return seq(e, KS, N, [("c", None, [0]), ("x", None, [9])])
    add("sections", "every sequence of %d lines with section switches" % N, lambda s: [' section "c"\n org ', H(s, "o", 3), "\n fcb 0\n section \"X\"\n fcb 9\n section \"c\"\n"] + [x for i in range(N) for x in (s.choice("k%d" % i, [k[0] for k in KS]), "\n")], sect, ["ok", "fail"])
    if th:
        KT = [("1 nop", 1, [0x12]), ("10 nop", 10, [0x12]), ("! nop", 0, [0x12]), (" fdb >", None, [("f", 0)]), (" fdb <", None, [("b", 0)]), (" fdb 10f", None, [("f", 10)]), ("0 fdb 0b", 0, [("b", 0)]), (" fdb 1b", None, [("b", 1)])]
        add("lines zero", "every sequence of five lines with label 0 in each spelling", lambda s: [" org ", H(s, "o", 3), "\n"] + [x for i in range(5) for x in (s.choice("k%d" % i, [k[0] for k in KT]), "\n")], lambda e: seq(e, KT, 5), ["ok", "fail"])

    # numbers
    def dd(e, n):
        return e.num(n)

    def num(e):
        d, r = e.num("d"), e.num("r")
        base = e.num("o")
        x = e.idx("x")
        yield d == r, Ok([0x12] + be(base + (0 if x < 2 else 3), 2) + [0x12]), "ok"
        yield d != r, Fail(), "fail"
    D1 = (lambda s, n: s.dec(n, 1)) if th else (lambda s, n: s.octal(n, 1))
    D2 = lambda s, n: s.dec(n, 2, 1)
    add("number", "two-digit numbers of a definition and a reference, either way", lambda s: [" org ", H(s, "o", 3), "\n", D2(s, "d"), " nop\n fdb ", D2(s, "r"), s.choice("x", ["b", "B", "f", "F"]), "\n", D2(s, "d"), " nop\n"], num, ["ok", "fail"])
    add("number nearest", "two definitions with free numbers before and after a reference", lambda s: [" org ", H(s, "o", 2), "\n1", D1(s, "d"), " nop\n1", D1(s, "g"), " nop\n fdb 1", D1(s, "r"), s.choice("x", ["b", "f"]), "\n1", D1(s, "g"), " nop\n1", D1(s, "d"), " nop\n"],
        lambda e: near(e), ["ok", "fail"])

    def near(e):
        d, g, r, o = e.num("d"), e.num("g"), e.num("r"), e.num("o")
        x = e.idx("x")
        yield g == r, Ok([0x12, 0x12] + be(o + (1 if x == 0 else 4), 2) + [0x12, 0x12]), "ok"
        yield z3.And(g != r, d == r), Ok([0x12, 0x12] + be(o + (0 if x == 0 else 5), 2) + [0x12, 0x12]), "ok"
        yield z3.And(g != r, d != r), Fail(), "fail"
    add("number long", "five-digit numbers", lambda s: [s.dec("d", 5, 1), " nop\n fdb ", s.dec("r", 5, 1), "b\n"], lambda e: iter([(e.num("d") == e.num("r"), Ok([0x12, 0, 0]), "ok"), (e.num("d") != e.num("r"), Fail(), "fail")]), ["ok", "fail"])
    ZN = ["0", "1", "7", "8", "9", "00", "01", "07", "08", "010", "017", "0100", "4294967296", "65536", "65535", "2147483648", "99999999999"]
    add("number spelling", "special numbers as labels and references", lambda s: [s.choice("d", ZN), " nop\n fdb ", s.padl("r", [z + "b" for z in ZN]), "\n"],
        lambda e: iter([(True, Ok([0x12, 0, 0]) if int(ZN[e.idx("d")]) == int(ZN[e.idx("r")]) else Fail(), "ok" if int(ZN[e.idx("d")]) == int(ZN[e.idx("r")]) else "fail")]), ["ok", "fail"])
    add("zero", "! in the label field, < and > as operands", lambda s: [" org ", H(s, "o", 3), "\n", s.choice("a", ["!", "0", "1"]), " nop\n fdb ", s.choice("r", ["<", "0b", ">", "0f", "0B", "0F"]), "\n", s.choice("c", ["!", "0", "1"]), " nop\n"],
        lambda e: iter([(True, *((Ok([0x12] + be(e.num("o") + (3 if e.idx("r") in (2, 3, 5) else 0), 2) + [0x12]), "ok") if (e.idx("c") if e.idx("r") in (2, 3, 5) else e.idx("a")) != 2 else (Fail(), "fail")))]), ["ok", "fail"])
    add("zero operand", "< and > in instructions", lambda s: ["!", s.choice("k", [" bra <", " bra >", " lbra <", " jmp >", " bsr >"]), "\n nop\n! nop\n"],
        lambda e: iter([(True, Ok([[0x20, 0xFE], [0x20, 1], [0x16, 0xFF, 0xFD], [0x7E, 0, 4], [0x8D, 1]][e.idx("k")] + [0x12, 0x12]), "ok")]))
    # many definitions of one label
    M = 60 if th else 40
    for x in "bf":
        def many(e, x=x):
            k = e.idx("k")
            o = e.num("o")
            # every line is one byte but the one with the reference
            at = k if x == "b" else k + 1
            v = o + (at if at <= k else at + 1)
            d = []
            for i in range(M):
                d += be(v, 2) if i == k else [i]
            yield True, Ok(d), "ok"
        add("many %s" % x, "%d definitions; the reference on any of them" % M, lambda s, x=x: [" org ", H(s, "o", 3), "\n"] + [y for i in range(M) for y in (s.choice("k", ["1 fcb %d" % i if i != k else "1 fdb 1%s" % x for k in range(M - 1)]), "\n")] if x == "f" else
            [" org ", H(s, "o", 3), "\n"] + [y for i in range(M) for y in (s.choice("k", ["1 fcb %d" % i if i != k else "1 fdb 1b" for k in range(M)]), "\n")], many)

        def apart(e, x=x):
            k, j = e.idx("k"), e.idx("j")
            o = e.num("o")
            n = 12
            # the label on every third line up to j
            labs = [i for i in range(n) if i % 3 == j]
            js = [i for i in labs if (i < k if x == "b" else i >= k)]
            if not js:
                yield True, Fail(), "fail"
                return
            t = max(js) if x == "b" else min(js)
            v = o + t + (2 if t >= k else 0)
            d = []
            for i in range(n):
                if i == k:
                    d += be(v, 2)
                d += [i]
            if k == n:
                d += be(v, 2)
            yield True, Ok(d), "ok"
        add("apart %s" % x, "definitions on every third line; the reference before any line", lambda s, x=x: [" org ", H(s, "o", 3), "\n"] + [y for i in range(13) for y in (s.choice("k", [" fdb 1%s" % x if i == k else "" for k in range(13)]), "\n", s.choice("j", [("1" if i % 3 == j else "2") + " fcb %d" % i for j in range(3)]) if i < 12 else "", "\n")], apart, ["ok", "fail"])
    # uses
    USE = [(" bra 1%s", lambda t, p: [0x20] + be(t - p - 2, 1)), (" lbra 1%s", lambda t, p: [0x16] + be(t - p - 3, 2)), (" ldx #1%s", lambda t, p: [0x8E] + be(t, 2)), (" lda 1%s,pcr", lambda t, p: [0xA6, 0x8C] + be(t - p - 3, 1)), (" jmp 1%s", lambda t, p: [0x7E] + be(t, 2)), (" fdb 1%s+3", lambda t, p: be(t + 3, 2)), (" fdb *-1%s", lambda t, p: be(p - t, 2)), (" lbne 1%s", lambda t, p: [0x10, 0x26] + be(t - p - 4, 2)),
           (" lda [1%s]", lambda t, p: [0xA6, 0x9F] + be(t, 2)), (" fdb (1%s)*2", lambda t, p: be(t * 2, 2)), (" fdb 1%s&$ff00", lambda t, p: be(t & 0xFF00, 2))]

    def use(e, x):
        o = e.num("o")
        f = USE[e.idx("k")][1]
        n = len(f(bv(0), bv(0)))
        t = o if x == "b" else o + 3 + n + 2
        yield True, Ok([1, 2, 3] + f(t, o + 3) + [4, 5, 6]), "ok"
    for x in "bf":
        add("use " + x, "kind of use of a reference; start address free", lambda s, x=x: [" org ", H(s, "o"), "\n1 fcb 1,2\nla fcb 3\n", s.choice("k", [u[0] % x for u in USE]), "\nlb fcb 4,5\n1 fcb 6\n"],
            lambda e, x=x: ((z3.ULT(e.num("o"), 0xFF00), o, l) for c, o, l in use(e, x)))
    add("between", "references to both sides in one expression", lambda s: [" org ", H(s, "o", 3), "\n1 fcb 0\n fdb 1f-1b,1b-1f,1f+1b,2*1f\n1 fcb 0\n"],
        lambda e: iter([(True, Ok([0] + be(bv(9), 2) + be(bv(-9), 2) + be(2 * e.num("o") + 9, 2) + be(2 * e.num("o") + 18, 2) + [0]), "ok")]))

    def dist(e):
        n = int(D[e.idx("n")])
        yield True, (Ok([0x20, n & 255] + [0] * n + [0x12]) if n <= 127 else Fail()), "ok" if n <= 127 else "fail"
    D = ["0", "1", "2", "126", "127", "128", "129"]
    add("distance", "a short branch forward over a reserved block", lambda s: [" bra 1f\n rzb ", s.padl("n", D), "\n1 nop\n"], dist, ["ok", "fail"])
    add("other labels", "other labels, EQU and SET between", lambda s: [" org ", H(s, "o", 3), "\n1 nop\nla nop\nlb equ 5\nlc set 6\nld2\n\n* text\n fdb 1b,1f\nle nop\n\nlf2\n1\n nop\n"],
        lambda e: iter([(True, Ok([0x12, 0x12] + be(e.num("o"), 2) + be(e.num("o") + 7, 2) + [0x12, 0x12]), "ok")]))
    add("equ", "a local label set by EQU or SET", lambda s: ["1 ", s.choice("k", ["equ", "set"]), " ", H(s, "v"), "\n fdb 1b,1f\n1 equ $1234\n fdb 1b\n"], lambda e: iter([(True, Ok(be(e.num("v"), 2) + [0x12, 0x34] * 2), "ok")]))
    add("pseudo", "definitions on lines of pseudo-ops", lambda s:
        ["m1 macro\n rzb 2\n endm\n fcb 9\n", s.choice("k", ["1 rmb 2", "1 rzb 2", "1 fcb 0,0", "1 fdb 0", "1 setdp 5\n rzb 2", "1\n rzb 2", "1 fill 0,2", "1 m1", "1 include \"b.s\""], pad="\n"), "\n fdb 1b\n"],
        ok(9, 0, 0, 0, 1), ["ok"], (), {"b.s": " rzb 2\n"})
    # ORG moves addresses, not lines
    add("org", "ORG between a definition and its reference", lambda s: [" org ", H(s, "o", 3), "\n1 nop\n org $2000\n fdb 1b,1f\n org ", H(s, "p", 3), "+$3000\n1 nop\n"],
        lambda e: iter([(True, Ok(fmt.coco([(z3.Extract(15, 0, e.num("o")), [0x12]), (bv(0x2000, 16), be(e.num("o"), 2) + be(e.num("p") + 0x3000, 2)), (z3.Extract(15, 0, e.num("p") + 0x3000), [0x12])])), "ok")]), ["ok"], ["-C"])
    add("back org", "a later line at a lower address", lambda s: [" org $3000\n1 nop\n fdb 1b,1f\n org ", H(s, "o", 3), "\n1 nop\n fdb 1b\n"],
        lambda e: iter([(True, Ok(fmt.coco([(z3.Extract(15, 0, e.num("o")), [0x12] + be(e.num("o"), 2)), (bv(0x3000, 16), [0x12, 0x30, 0] + be(e.num("o"), 2))])), "ok")]), ["ok"], ["-C"])
    # macros, files, skipped lines
    add("macro", "a reference around macro calls with labels of their own, and out of one", lambda s: ["m1 macro\n1 fcb \\1\n endm\nm2 macro\n fdb 1b,1f\n endm\n org ", H(s, "o", 3), "\n m1 5\n fdb 1b,1f\n m2\n m1 6\n m2\n m1 7\n"],
        lambda e: iter([(True, Ok([5] + be(e.num("o"), 2) + be(e.num("o") + 9, 2) + be(e.num("o"), 2) + be(e.num("o") + 9, 2) + [6] + be(e.num("o") + 9, 2) + be(e.num("o") + 14, 2) + [7]), "ok")]))
    add("macro line", "a local label on the line of a call, whose body refers to it", lambda s: ["m1 macro\n fdb 1b,\\1\n endm\n org ", H(s, "o", 3), "\n1 m1 1b\n nop\n1 m1 1f\n1\n"], lambda e: iter([(True, Ok(be(e.num("o"), 2) * 2 + [0x12] + be(e.num("o") + 5, 2) + be(e.num("o") + 9, 2)), "ok")]))
    add("macro number", "label numbers made from an argument are not local labels", lambda s: ["m1 macro\n\\1 nop\n endm\n m1 ", s.choice("k", ["1", "9"]), "\n fdb ", s.choice("r", ["1b", "9b"]), "\n"],
        lambda e: iter([(True, Any((True, Ok([0x12, 0, 0])) if e.idx("k") == e.idx("r") else (True, Fail()), (True, Fail())), "any")]), ["any"])
    add("include", "references into and out of an included file", lambda s: [" org ", H(s, "o", 3), "\n1 fcb 1\n include \"b.s\"\n fdb 1b,1f\n1 fcb 3\n"],
        lambda e: iter([(True, Ok([1] + be(e.num("o"), 2) + be(e.num("o") + 5, 2) + [2] + be(e.num("o") + 5, 2) + be(e.num("o") + 10, 2) + [3]), "ok")]), ["ok"], (), {"b.s": " fdb 1b,1f\n1 fcb 2\n"})
    add("files", "references from one file to the next", lambda s: [" org ", H(s, "o", 3), "\n1 fcb 1\n fdb 1f\n"],
        lambda e: iter([(True, Ok([1] + be(e.num("o") + 7, 2) + be(e.num("o"), 2) + be(e.num("o") + 7, 2) + [2]), "ok")]), ["ok"], (), {"b.s": " fdb 1b,1f\n1 fcb 2\n"}, ("in.s", "b.s"))
    add("skipped", "definitions in skipped lines do not count", lambda s: [" org ", H(s, "o", 2), "\n1 fcb 1\n if ", H(s, "v", 1), "\n1 fcb 2\n endif\n fdb 1b,1f\n if ", H(s, "w", 1), "\n1 fcb 3\n endif\n1 fcb 4\n"],
        lambda e: ((z3.And((e.num("v") != 0) if a else (e.num("v") == 0), (e.num("w") != 0) if b else (e.num("w") == 0)),
                    Ok([1] + ([2] if a else []) + be(e.num("o") + (1 if a else 0), 2) + be(e.num("o") + 5 + (1 if a else 0), 2) + ([3] if b else []) + [4]), "ok") for a in (0, 1) for b in (0, 1)))
    add("growing", "lines between that grow in later passes", lambda s: [" setdp 0\n org ", H(s, "o", 3), "\n1 lda lv\n ldb lw,x\n fdb 1b,1f\n lda lv\n1 fdb 1b\nlv equ ", H(s, "v", 3), "\nlw equ ", H(s, "w", 2), "\n"], lambda e: grow(e))

    def grow(e):
        o, v, w = e.num("o"), e.num("v"), e.num("w")
        for c, la in ((z3.ULT(v, 256), [0x96] + be(v, 1)), (z3.UGE(v, 256), [0xB6] + be(v, 2))):
            for c2, lb in ((w == 0, [0xE6, 0x84]), (z3.And(w != 0, z3.ULT(w, 16)), [0xE6, z3.Extract(7, 0, w)]), (z3.And(z3.UGE(w, 16), z3.ULT(w, 128)), [0xE6, 0x88] + be(w, 1)), (z3.UGE(w, 128), [0xE6, 0x89] + be(w, 2))):
                n = len(la) + len(lb) + 4 + len(la)
                yield z3.And(c, c2), Ok(la + lb + be(o, 2) + be(o + n, 2) + la + be(o + n, 2)), "ok"
    add("equ later", "symbols defined from local labels", lambda s: [" org ", H(s, "o", 3), "\n fdb la,lb\n1 nop\nla equ 1b\nlb equ 1f\n nop\n1 nop\nlc equ 1b\n fdb lc\n"],
        lambda e: iter([(True, Ok(be(e.num("o") + 4, 2) + be(e.num("o") + 6, 2) + [0x12] * 3 + be(e.num("o") + 6, 2)), "ok")]))
    add("section later", "two sections with the same label, several switches", lambda s: [' section "a1"\n org ', H(s, "o", 3), '\n1 fcb 1\n section "b1"\n org $4000\n1 fcb 2\n fdb 1b,1f\n section "a1"\n fdb 1b,1f\n1 fcb 3\n section "b1"\n1 fcb 4\n'],
        lambda e: iter([(True, Ok(fmt.coco([(z3.Extract(15, 0, e.num("o")), [1] + be(e.num("o"), 2) + be(e.num("o") + 5, 2) + [3]), (bv(0x4000, 16), [2, 0x40, 0, 0x40, 5, 4])])), "ok")]), ["ok"], ["-C"])
    add("missing", "references without a definition", lambda s: [s.choice("p", ["1 nop", "2 nop", " nop"]), "\n", s.choice("k", [" fdb 1f", " fdb 2b", " bra 3f", " ldx #9b", " fdb <", " fdb >", "la equ 1f", " rmb 2b", " fdb 12b"]), "\n", s.choice("q", ["2 fcb 1", " fcb 1"]), "\n"],
        lambda e: miss(e), ["fail", "ok"])

    def miss(e):
        p, k, q = e.idx("p"), e.idx("k"), e.idx("q")
        if k in (1, 7) and p == 1:
            if k == 1:
                yield True, Ok([0x12, 0, 0, 1]), "ok"
            else:
                yield True, Ok([0x12, 1]), "ok"
        else:
            yield True, Fail(), "fail"
    return out
