"""Files on the command line, INCLUDE and INCLUDEBIN give what the pasted source gives."""
import z3
from ..scen import *

# lines; those that open and close a condition or a macro stay together (joined by newlines)
PROGS = [
    ["la nop", " ldx #la", " bra lb", " fcb lv>>8", "lb fdb la,lb,lv"],
    [" setdp 1", " lda $1ff", " lda lv", " setdp lv>>8", " lda lv", "la lda la"],
    ["1 fcb 1", " bra 1b", " bra 1f", "1 fcb 2", " bra 1b", " bra 2f", "2 nop"],
    ["m1 macro\n fcb \\1\n endm", " m1 3", "m2 macro\n m1 \\1+1\n m1 lv&255\n endm", " m2 5", " m2 la", "la equ 7"],
    [" section \"p\"", " fcb 1", "la fdb la", " section \"q\"", " fcb 2", " fdb la", " section \"p\"", " fcb 3,lv>>8"],
    [" org $100", "la rmb 3", " fcb 1", " put $300", "lb fdb lb,la", " org $80", " fcb lv>>8"],
    ["la set lv", " fdb la", "la set la+1", " fdb la", "la set la*2", " fdb la"],
    ["la equ lb", "lb equ lc", " fdb la,lb,lc", "lc equ lv", " lda lb,x", " lda lc,pcr"],
    [" if lv&1\n fcb 1\n else\n fcb 2,3\n endif", "la fdb la", " if la==1\n fcb 4\n endif", " fcb 5"],
    ["* text", "", " ; text", " nop", "la", " fcb la ; text", "", " fcc \"a;b\""],
    [" export la,m1", "la equ lv", "m1 macro\n nop\n endm", " m1", " fdb la"],
    [" org $8000", " lda lz", " bra la", " ldb lz,pcr", "la nop", " align 8,lv", " fdb la", "lz equ *"],
]
BOUNDS = ["%d programs using each kind of definition and reference with a free 16-bit value, split over two and three files or with any run of their lines in an included file" % len(PROGS),
          "includes nested as deep as the program allows, repeated, in macros, conditions and sections; file names of every listed form", "binary files of up to 12 free bytes, of any length to 600 and of listed lengths to 65535"]
NOTES = ["splits inside a macro definition or a condition, and programs with END, are not covered; a section chosen in an included file ends with it"]


def scenarios(tier):
    out = []
    th = tier != "quick"
    flat = lambda ps: [y for x in ps for y in (x if isinstance(x, list) else [x])]
    H = lambda s, n, w=4: ["$", s.hex(n, w)]

    def mk(name, what, files, ins, args=()):
        s = Scn(name, what=what)
        for n, t in files.items():
            s.file(n, *flat(t(s) if callable(t) else [t]))
        a = list(args(s) if callable(args) else args)
        s.argv(*(a + ["-o", "out"] + list(ins(s) if callable(ins) else ins)))
        return s

    def add(name, what, files, spec, need=("ok",), ins=("in.s",), args=(), **kw):
        s = mk(name, what, files, ins, args)
        s.spec = spec
        s.need = list(need)
        for k, v in kw.items():
            setattr(s, k, v)
        out.append(s)
        return s

    def pair(name, what, fa, ia, fb, ib=("in.s",), args=(), need=("ok",), both=("out",)):
        ss = [mk(name, what, fa, ia, args), mk(name, what, fb, ib, args)]
        for s, t in ((ss[0], ss[1]), (ss[1], ss[0])):
            for n, v in t.vars.items():
                if n not in s.vars:
                    s.vars[n] = v
        ss[0].need = list(need)
        out.append(Pair(ss[0], ss[1], what=what, files=both))
    LV = lambda s: ["lv equ ", H(s, "v"), "\n"]
    J = lambda ls: "".join(l + "\n" for l in ls)

    # ---- splits
    SP = [(p, i) for p in PROGS for i in range(len(p) + 1)]
    for opt in ([], ["-C"], ["-S"]) if th else ([], ["-C"]):
        for h in range(2):
            S2 = SP[h::2]
            pair("two files %s %d" % ("".join(opt), h), "program, place of the split, a value", {"in.s": lambda s: [LV(s), s.choice("k", [J(p[:i]) for p, i in S2], pad="\n")], "b.s": lambda s: [s.choice("k", [J(p[i:]) for p, i in S2], pad="\n")]}, ("in.s", "b.s"), {"in.s": lambda s: [LV(s), s.choice("k", [J(p) for p, i in S2], pad="\n")]}, args=opt)
    S3 = [(p, i, j) for p in PROGS for i in range(len(p) + 1) for j in range(i, len(p) + 1)]
    n = (len(S3) + 149) // 150
    for h in range(n):
        S = S3[h::n]
        pair("three files %d" % h, "program, places of the splits", {"in.s": lambda s, S=S: [s.choice("k", [J(p[:i]) for p, i, j in S], pad="\n")], "b.s": lambda s, S=S: [s.choice("k", [J(p[i:j]) for p, i, j in S], pad="\n")], "c.s": lambda s, S=S: [s.choice("k", [J(p[j:]) for p, i, j in S], pad="\n"), LV(s)]}, ("in.s", "b.s", "c.s"), {"in.s": lambda s, S=S: [s.choice("k", [J(p) for p, i, j in S], pad="\n"), LV(s)]})
        # pasted: programs whose included part chooses no section
        SI = [(p, i, j) for p, i, j in S if not any("section" in l for l in p[i:j])]
        pair("include %d" % h, "program, lines included, a value", {"in.s": lambda s, S=SI: [LV(s), s.choice("k", [J(p[:i]) + " include \"b.s\"\n" + J(p[j:]) for p, i, j in S], pad="\n")], "b.s": lambda s, S=SI: [s.choice("k", [J(p[i:j]) for p, i, j in S], pad="\n")]}, ("in.s",), {"in.s": lambda s, S=SI: [LV(s), s.choice("k", [J(p) for p, i, j in S], pad="\n")]})
        if th:
            pair("include in an include %d" % h, "program, lines included twice over, a value", {"in.s": lambda s, S=SI: [LV(s), " include \"d.s\"\n"], "d.s": lambda s, S=SI: [s.choice("k", [J(p[:i]) + " include \"b.s\"\n" + J(p[j:]) for p, i, j in S], pad="\n")], "b.s": lambda s, S=SI: [s.choice("k", [J(p[i:j]) for p, i, j in S], pad="\n")]}, ("in.s",), {"in.s": lambda s, S=SI: [LV(s), s.choice("k", [J(p) for p, i, j in S], pad="\n")]})
    # the last line of a file without a line end, with CR LF
    E2 = [(p, i) for p, i in SP if i not in (0, len(p)) and p[i - 1] != ""]
    pair("line ends", "program and split; the last lines with LF, with CR LF or none", {"in.s": lambda s: [LV(s), s.choice("k", [J(p[:i])[:-1].rjust(200, "\n") for p, i in E2]), s.choice("a", ["\n", "\r\n", "  \n"], pad="\n")], "b.s": lambda s: [s.choice("k", [J(p[i:])[:-1].rjust(200, "\n") for p, i in E2])]}, ("in.s", "b.s"), {"in.s": lambda s: [LV(s), s.choice("k", [J(p) for p, i in E2], pad="\n")]})
    # ---- repeated
    REP = [" fcb 1", " fdb *", "1 fdb 1b,1f\n1 nop", "la set lv\n fdb la", "la set la+1\n fcb la", " bra 1f\n1 fcb 2", " m1 2", " if *==lv\n fcb 1\n else\n fcb 2\n endif", " setdp 1\n lda $110", " org *+4\n fcb 3", " include \"c.s\"", " includebin \"c.s\"", " rmb 3\n fcb 1", "", "* x", " export lv", " put *+5\n fcb 1"]
    PRE = "m1 macro\n fcb \\1\n endm\nla set 0\n nop\n"
    for t in (2, 3, 5):
        pair("repeated %d" % t, "what is included, a value", {"in.s": lambda s, t=t: [LV(s), PRE + " include \"b.s\"\n" * t + " nop\n1 nop\n"], "b.s": lambda s: [s.choice("k", [r + "\n" for r in REP], pad="\n")], "c.s": " fcb 7\n"}, ("in.s",), {"in.s": lambda s, t=t: [LV(s), PRE] + [s.choice("k", [r + "\n" for r in REP], pad="\n") for i in range(t)] + [" nop\n1 nop\n"], "c.s": " fcb 7\n"})
        pair("given %d times" % t, "a file named repeatedly, a value", {"in.s": lambda s: [LV(s), PRE], "b.s": lambda s: [s.choice("k", [r + "\n" for r in REP], pad="\n")], "c.s": " fcb 7\n", "z.s": " nop\n1 nop\n"}, tuple(["in.s"] + ["b.s"] * t + ["z.s"]), {"in.s": lambda s, t=t: [LV(s), PRE] + [s.choice("k", [r + "\n" for r in REP], pad="\n") for i in range(t)] + [" nop\n1 nop\n"], "c.s": " fcb 7\n"})
    # ---- where the include stands
    WH = [(" %s\n", " nop\n fcb 1\n"), (" if 1\n %s\n endif\n", " if 1\n nop\n fcb 1\n endif\n"), (" if 0\n %s\n endif\n fcb 2\n", " fcb 2\n"), (" if 0\n nop\n else\n %s\n endif\n", " nop\n fcb 1\n"), ("m1 macro\n %s\n endm\n m1\n m1\n", " nop\n fcb 1\n nop\n fcb 1\n"), ("m1 macro\n fcb \\1\n %s\n fcb \\2\n endm\n m1 8,9\n", " fcb 8\n nop\n fcb 1\n fcb 9\n"), (" section \"p\"\n %s\n fcb 3\n", " section \"p\"\n nop\n fcb 1,3\n"), (" org $200\n %s\n fdb *\n", " org $200\n nop\n fcb 1\n fdb *\n"),
          (" setdp 0\n %s\n lda 5\n", " setdp 0\n nop\n fcb 1\n lda 5\n"), (" lda la,x\n %s\nla equ 3\n", " lda la,x\n nop\n fcb 1\nla equ 3\n"), (" %s\n end\n %s\n", " nop\n fcb 1\n"), ("* %s\n fcb 4\n", " fcb 4\n"), ("m1 macro\n %s\n endm\n fcb 4\n", " fcb 4\n")]
    FORM = ["include \"b.s\"", "INCLUDE \"b.s\"", "Include /b.s/", "lib \"b.s\"", "LIB /b.s/", "include \"./b.s\"", "include \"d/b.s\"", "include \"d/../b.s\"", "include   \"b.s\"  ; text", "include ln"]
    FORM = [f for f in FORM if ".." not in f]
    pair("places", "where INCLUDE stands and how it is written", {"in.s": lambda s: ["ln equ \"b.s\"\n", s.choice("k", [w[0].replace("%s", f) for w in WH for f in FORM][:250], pad="\n")], "b.s": " nop\n fcb 1\n", "./b.s": " nop\n fcb 1\n", "d/b.s": " nop\n fcb 1\n"}, ("in.s",), {"in.s": lambda s: [s.choice("k", [w[1] for w in WH for f in FORM][:250], pad="\n")]})
    # names
    NM = ["b", "B", "b.s", "B.s", "bb", "b s", "b;s", "b*s", "b.S", "d/b", "b-1", "B'b", "b,c", "b(c", "b#", "%1", "b@c", "~b", "&", "b.asm"]
    wr = lambda n: n.replace("&", "&&")
    add("names", "which of several files is included", dict({"in.s": lambda s: [" include \"", s.choice("k", [wr(n) + "\"\n" for n in NM], pad="\n"), " include \"", s.choice("l", [wr(n) + "\"\n" for n in NM], pad="\n")]}, **{n: " fcb %d\n" % (i + 1) for i, n in enumerate(NM)}), lambda e: iter([(True, Ok([e.idx("k") + 1, e.idx("l") + 1]), "ok")]))
    add("names on the command line", "which of several files are given", dict({n: " fcb %d\n" % (i + 1) for i, n in enumerate(NM)}), lambda e: iter([(True, Ok([e.idx("k") + 1, e.idx("l") + 1]), "ok")]), ins=lambda s: [s.choice("k", NM, pad="\0"), s.choice("l", NM, pad="\0")])
    add("binary names", "which of several files is included", dict({"in.s": lambda s: [" includebin \"", s.choice("k", [wr(n) + "\"\n" for n in NM], pad="\n"), " includebin /", s.choice("l", [wr(n).replace("/", "\\/") + "/\n" for n in NM], pad="\n")]}, **{n: bytes([i + 1]) for i, n in enumerate(NM)}), lambda e: iter([(True, Ok([e.idx("k") + 1, e.idx("l") + 1]), "ok")]))
    add("names from arguments", "name of an included file built from an argument", {"in.s": lambda s: ["m1 macro\n include \"f\\1\"\n includebin \"f\\1\"\n endm\n m1 ", s.choice("k", ["1", "2", "\"b\"", "9+1"]), "\n"], "f1": " fcb 1\n", "f2": " fcb 2\n", "fb": " fcb 3\n", "f10": " fcb 4\n"}, lambda e: iter([(True, Ok([e.idx("k") + 1] + list(b" fcb %d\n" % (e.idx("k") + 1))), "ok")]))
    # ---- depth
    DMAX = 7
    for d in range(1, DMAX + 1):
        fs = {"in.s": lambda s, d=d: [LV(s), " fcb 0\n include \"f1\"\n fcb 0\n"]}
        for i in range(1, d + 1):
            fs["f%d" % i] = " fcb %d\n" % i + (" include \"f%d\"\n" % (i + 1) if i < d else " fdb lv,*\n") + " fcb %d\n" % i
        add("depth %d" % d, "a value", fs, lambda e, d=d: iter([(True, Ok(list(range(d + 1)) + be(e.num("v"), 2) + [0, d + 3 - 2 + 0] + list(range(d, -1, -1))), "ok")]))
    # ---- sections: the one before the INCLUDE is back after it
    SEC = [" section \"q\"", " code", " data", " section \"p\"", " section \"q\"\n section \"r\"", " nop"]
    pair("section restored", "section chosen in the included file", {"in.s": lambda s: [" section \"p\"\n fcb 1\n include \"b.s\"\n fcb 2\n fdb *\n"], "b.s": lambda s: [s.choice("k", [x + "\n" for x in SEC], pad="\n"), " fcb 5\n fdb *\n"]}, ("in.s",), {"in.s": lambda s: [" section \"p\"\n fcb 1\n", s.choice("k", [x + "\n" for x in SEC], pad="\n"), " fcb 5\n fdb *\n section \"p\"\n fcb 2\n fdb *\n"]}, args=["-C"])
    # ---- INCLUDEBIN
    for n in range(0, 13):
        add("binary %d" % n, "all bytes free", {"in.s": " fcb 1\nla includebin \"f\"\nlb fcb 2\n fdb la,lb\n", "f": lambda s, n=n: [s.char("c%d" % i, range(256)) for i in range(n)]}, lambda e, n=n: iter([(True, Ok([1] + [e.raw("c%d" % i) for i in range(n)] + [2, 0, 1, 0, n + 1]), "ok")]))
    for n in [31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 600] + ([4095, 4096, 4097, 8192, 10000, 32767, 32768, 65530] if th else [4096, 4097, 10000]):
        b = [(i * 7 + (i >> 8) * 3) & 255 for i in range(n)]
        add("binary of %d bytes" % n, "the first, one in the middle and the last byte free", {"in.s": " fcb 1\nla includebin \"f\"\nlb fdb lb-la\n", "f": lambda s, b=b, n=n: [s.char("a", range(256)), b[1:n // 2], s.char("m", range(256)), b[n // 2 + 1:n - 1], s.char("z", range(256))]},
            lambda e, b=b, n=n: iter([(True, Ok([1, e.raw("a")] + b[1:n // 2] + [e.raw("m")] + b[n // 2 + 1:n - 1] + [e.raw("z")] + be(n, 2)), "ok")])).limit = 400000000
    add("binary too large", "size", {"in.s": lambda s: [" org $fff0\n includebin \"", s.choice("k", ["f15", "f16", "f17"]), "\"\n"], "f15": bytes(15), "f16": bytes(16), "f17": bytes(17)}, lambda e: iter([(True, Fail() if e.idx("k") == 2 else Ok(), "fail" if e.idx("k") == 2 else "ok")]), ["ok", "fail"], args=["-C"])
    for f, pre, post in (("-C", lambda n: [0, 0, n, 0x12, 0x34], [255, 0, 0, 255, 255]), ("-S", None, None)):
        if pre:
            add("binary format %s" % f, "bytes and address free", {"in.s": lambda s: [" org $1234\n includebin \"f\"\n"], "f": lambda s: [s.char("c%d" % i, range(256)) for i in range(5)]}, lambda e, pre=pre, post=post: iter([(True, Pred(lambda r: mid(r, e), "the bytes of the file follow the header"), "ok")]), args=[f])

    def mid(r, e):
        o = r.files.get("out")
        if not o or len(o) != 15:
            return False
        c = [eq8(x, y) for x, y in zip(o[:10], [0, 0, 5, 0x12, 0x34] + [e.raw("c%d" % i) for i in range(5)])]
        if any(x is False for x in c):
            return False
        c = [x for x in c if x is not True]
        return z3.And(c) if c else True
    add("binary twice", "bytes free; in a condition, a macro and a section", {"in.s": "m1 macro\n includebin \"f\"\n endm\n m1\n if 1\n includebin \"f\"\n endif\n if 0\n includebin \"nosuch\"\n endif\n section \"q\"\n org 4\n includebin \"f\"\n fcb 9\n", "f": lambda s: [s.char("c", range(256)), s.char("d", range(256))]}, lambda e: iter([(True, Ok([e.raw("c"), e.raw("d")] * 3 + [9]), "ok")]))
    add("binary named later", "which file, named by a symbol defined later", {"in.s": lambda s: [" fcb 1\n includebin ln\n fdb *\nln equ \"", s.choice("k", ["f1", "f2", "f3"]), "\"\n"], "f1": b"", "f2": b"\x05", "f3": b"\xff\x00"}, lambda e: iter([(True, Ok([[1, 0, 1], [1, 5, 0, 2], [1, 255, 0, 0, 3]][e.idx("k")]), "ok")]))
    SB = [b" fcb 1\r\n", b" end\n no\n", b"\x1a\x00\xff\n\x00\n\r1", b"\r\n\r\n\r\n\r\n", b"\\n&&{1}\""]
    w = max(map(len, SB))
    add("binary source", "source characters are not interpreted", {"in.s": lambda s: [" includebin \"f\"\n"], "f": lambda s: [s.choice("k", [b.ljust(w, b"~").decode("latin-1") for b in SB])]}, lambda e: iter([(True, Ok(list(SB[e.idx("k")].ljust(w, b"~"))), "ok")]))
    # ---- wrong
    add("missing", "file that cannot be read", {"in.s": lambda s: [" nop\n", s.padl("o", [" include", " includebin", " lib"]), " \"", s.choice("k", [k + "\"\n" for k in ["nosuch", "", "B.S", "b", "b.s ", " b.s", "dd", "b.s/"]], pad="\n")], "b.s": " nop\n"}, lambda e: iter([(True, Fail(), "fail")]), ["fail"], unreadable=["dd"])
    add("recursion", "a file that includes itself, directly or not, unless a condition stops it", {"in.s": lambda s: ["la set 0\n include \"b.s\"\n"], "b.s": lambda s: ["la set la+1\n fcb la\n", s.choice("k", [" include \"b.s\"\n", " if la<3\n include \"b.s\"\n endif\n", " include \"c.s\"\n", " if la<2\n include \"c.s\"\n endif\n", " include \"in.s\"\n"], pad="\n")], "c.s": " include \"b.s\"\n"}, lambda e: iter([(True, [Fail(), Ok([1, 2, 3]), Fail(), Ok([1, 2]), Fail()][e.idx("k")], "ok" if e.idx("k") in (1, 3) else "fail")]), ["ok", "fail"])
    return out
