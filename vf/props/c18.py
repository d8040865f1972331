"""Macros: an expansion equals the body with its arguments written in."""
import z3
from ..scen import *

BOUNDS = ["bodies of every kind of line with the arguments in each place a positional variable may appear; argument values of up to 15 hexadecimal digits, strings of up to four free characters, up to 14 arguments",
          "calls nested up to seven deep (the most the program allows for below the source file), recursion, definitions nested in macros, conditionals, includes, sections and local labels inside bodies",
          "every kind of unfinished, misnamed, repeated or missing macro definition and argument listed"]

REF = ["\\1", "\\{1}", "&{1}"]                   # in an operand
REFS = ["\\1", "\\{1}", "&{1}", "&1"]             # in a label, an opcode or a string
PRE = [" lda #", " ldd #", " lda ", " ldx ", " lda <", " lda >", " ldd [", " leay ", " sta ", " jmp ", " lbra ", " leax ", " lda [",
       " fcb ", " fdb ", " fqb ", " fcb 1,", " fdb 3*(2+", " fcb ", " fdb -", " fdb ~", " fcb !", " fdb ", " rmb ", " setdp ", " org ", "la equ ", "la set ", " if ", " fill 3,", " andcc #", " fdb 5-", " fdb 10*"]
SUF = ["", "", "", "", "", "", "]", ",x", ",y", "", "", ",pcr", ",s]",
       "", "", "", ",2", ")", "&15", "", "", "", "<<4", "&15", "&255", "&$7FFF", "", "", "\n fcb 9\n endif", "&7", "", "-1", ""]
TAIL = "\n fdb *\n lda $1234\n"


def scenarios(tier):
    out = []
    th = tier != "quick"

    def pair(name, what, a, b, need=("ok",), args=(), files={}, bfiles={}):
        ss = []
        for k, parts in enumerate((a, b)):
            s = Scn(name, what=what)
            p = []
            for x in parts(s):
                p += x if isinstance(x, list) else [x]
            s.src(*p, args=list(args))
            for n, t in dict(files, **(bfiles if k else {})).items():
                s.file(n, t)
            ss.append(s)
        # both sides range over the same variables
        for s, t in ((ss[0], ss[1]), (ss[1], ss[0])):
            for n, v in t.vars.items():
                if n not in s.vars:
                    s.vars[n] = v
        ss[0].need = list(need)
        out.append(Pair(ss[0], ss[1], what=what))

    def add(name, what, parts, spec, need=("ok",), args=(), files={}, asrt=None):
        s = Scn(name, what=what)
        p = []
        for x in parts(s):
            p += x if isinstance(x, list) else [x]
        s.src(*p, args=list(args))
        for n, t in files.items():
            s.file(n, t)
        s.spec = spec
        s.need = list(need)
        out.append(s)
    ok = lambda *b: (lambda e: iter([(True, Ok(list(b)), "ok")]))
    fail = lambda e: iter([(True, Fail(), "fail")])
    H = lambda s, n, w=4: ["$", s.hex(n, w)]

    def sub(name, what, body, args, need=("ok",), **kw):
        """body(s, refs): parts; refs is the list of texts standing for each argument"""
        n = len(args(Scn("x")))
        pair(name, what, lambda s: ["m1 macro\n"] + body(s, ["\\{%d}" % (i + 1) if i > 8 else "\\%d" % (i + 1) for i in range(n)]) + ["\n endm\n m1 "] + [x for i, a in enumerate(args(s)) for x in ([","] if i else []) + a] + [TAIL],
             lambda s: [""] + body(s, args(s)) + [TAIL], need, **kw)

    # operands
    one = lambda s, r: [s.padl("k", PRE), r, s.choice("k", SUF)]
    # (labels must stay in the first column)
    PL = [i for i, p in enumerate(PRE) if p.startswith(" ")]
    for j in range(0, len(PL), 8 if not th else 4):
        grp = PL[j:j + (8 if not th else 4)]
        one = lambda s, r, grp=grp: [s.padl("k", [PRE[i] for i in grp]), *(r if isinstance(r, list) else [r]), s.choice("k", [SUF[i] for i in grp], pad=" ")]
        sub("operand %d" % j, "kind of line, and a 16-bit argument", lambda s, r, one=one: one(s, r[0]), lambda s: [H(s, "v")])
    sub("operand label", "EQU and SET of an argument", lambda s, r: ["la equ ", *r[0], "+1\nlb set ", *r[0], "*2\nlb set lb+", *r[1], "\n fdb la,lb\n lda #la"], lambda s: [H(s, "v"), H(s, "w", 2)])
    sub("wide", "argument of 15 digits with either sign, in an expression", lambda s, r: [" fqb ", *r[0], ",", s.choice("op", ["3-", "2*", "-", "~", "!", "5^", "7&", "1+1*", "$1234567>>1-", "0<", "3=="]), *r[0]], lambda s: [["(", s.padl("m", ["", "-"]), "$", s.hex("v", 15), ")"]])
    # an argument is a value: no new precedence
    add("precedence", "a sum as an argument", lambda s: ["m1 macro\n fdb \\1*2,-\\1,\\1-\\1,2*\\{1},~&{1}\n endm\n m1 ", H(s, "v"), s.choice("o", ["+", "-", "|", "<<"]), s.hex("w", 1, "0123456789abcdef") and s.char("d", "123"), "\n"],
        lambda e: prec(e))

    def prec(e):
        v, d = e.num("v"), z3.ZeroExt(56, e.raw("d")) - 48
        x = [v + d, v - d, v | d, v << d][e.idx("o")]
        yield True, Ok(be(x * 2, 2) + be(-x, 2) + [0, 0] + be(x * 2, 2) + be(~x, 2)), "ok"
    add("spelling", "spelling of the reference in an operand", lambda s: ["m1 macro\n lda #", s.choice("k", REF), "\n ldx ", s.choice("m", REF), ",y\n fdb 1+", s.choice("j", REF), "*2\n endm\n m1 ", H(s, "v", 2), "\n"],
        lambda e: iter([(z3.ULT(e.num("v", 8), 16), Any(*[(c, Ok([0x86, e.num("v", 8)] + b + be(1 + e.num("v") * 2, 2))) for c, b in ((e.num("v", 8) == 0, [0xAE, 0xA4]), (e.num("v", 8) != 0, [0xAE, z3.BitVecVal(0x20, 8) | e.num("v", 8)]))]), "ok"),
                        (z3.And(z3.UGE(e.num("v", 8), 16), z3.ULT(e.num("v", 8), 128)), Ok([0x86, e.num("v", 8), 0xAE, 0xA8, e.num("v", 8)] + be(1 + e.num("v") * 2, 2)), "ok")]))
    for st, rs in (("string", REFS), ("label", REFS), ("opcode", REFS)):
        src = {"string": lambda s, r: ["m1 macro\n fcc \"a", r, "b\"\n fcc /", r, "/\n endm\n m1 \"", s.char("c", "ABCxyz09_.*"), s.char("d", "ABCxyz09_.*"), "\"\n"],
               "label": lambda s, r: ["m1 macro\n", "k", r, " equ 7\n endm\n m1 \"", s.char("c", "abcz"), "\"\nke equ 6\n fcb ka\n"],
               "opcode": lambda s, r: ["m1 macro\n ld", r, " #5\n ", r, "sr 3,x\n endm\n m1 \"", s.char("c", "ab"), "\"\n"]}[st]

        def spec(e, st=st):
            if st == "string":
                c, d = e.raw("c"), e.raw("d")
                w = [32] * (4 - len(REFS[e.idx("k")]))
                yield True, Ok([97, c, d] + w + [98, c, d] + w), "ok"
            elif st == "label":
                yield e.raw("c") == 97, Ok([7]), "ok"
                yield e.raw("c") != 97, Fail(), "fail"
            else:
                pass
        if st == "opcode":
            add("spelling opcode", "spelling of the reference in an opcode", lambda s: ["m1 macro\n ld", s.choice("k", rs), " #5\n ", s.padl("k", rs), "sr 3,x\n endm\n m1 \"", s.char("c", "abxd"), "\"\n"],
                lambda e: iter([(e.raw("c") == 97, Ok([0x86, 5, 0x67, 3]), "ok"), (e.raw("c") != 97, Fail(), "fail")]), ["ok", "fail"])
        else:
            add("spelling " + st, "spelling of the reference in a " + st, lambda s, src=src, rs=rs: src(s, s.choice("k", rs)), spec, ["ok", "fail"] if st == "label" else ["ok"])
    # strings
    CH = [chr(c) for c in range(32, 127) if chr(c) not in '"\\&/']
    for k in range(1, 5):
        pair("text %d" % k, "characters of a string argument inside strings",
                 lambda s, k=k: ["m1 macro\n fcc \"<\\1\",\"\\1\\{1}>\"\n fcc /z&1/\n fcn \"&{1}\"\n fcs \"q\\1\"\n endm\n m1 \"", *[s.char("c%d" % i, CH) for i in range(k)], "\"\n"],
                 lambda s, k=k: [" fcc \"<", *(c := [s.char("c%d" % i, CH) for i in range(k)]), "\",\"", *c, *c, ">\"\n fcc /z", *c, "/\n fcn \"", *c, "\"\n fcs \"q", *c, "\"\n"])
    # escapes in an argument are resolved once
    add("text escape", "escaped characters in a string argument", lambda s: ["m1 macro\n fcc \"\\1\"\n m2 \\1\n endm\nm2 macro\n fcc \"\\1\"\n endm\n m1 \"", s.choice("k", ["\\\\1", "\\\\n", "\\n", "\\\"", "&&1", "&&", "\\&1", "\\/"], pad="*"), "\"\n"],
        lambda e: iter([(True, Ok(list(([b"\\1", b"\\n", b"\n*", b'"*', b"&1", b"&*", b"&1", b"/*"][e.idx("k")]) * 2)), "ok")]))
    # (numbers are pasted in decimal)

    def number(e):
        v, sg = e.num("v"), e.idx("m")
        for k in range(1, 5):
            lo, hi = (0 if k == 1 else 10 ** (k - 1)), 10 ** k - 1
            d = [z3.Extract(7, 0, z3.URem(z3.UDiv(e.num("v", 16), z3.BitVecVal(10 ** (k - 1 - i), 16)), z3.BitVecVal(10, 16))) + 48 for i in range(k)]
            c = z3.And(v >= lo, v <= hi)
            if sg and k == 1:
                c = z3.And(c, v != 0)
            yield c, Ok([62] + ([45] if sg else []) + d + [60]), "ok"
    add("text number", "a number pasted into a string", lambda s: ["m1 macro\n fcc \">\\1<\"\n endm\n m1 ", s.choice("m", ["", "-"]), "$", s.hex("v", 3), "\n"], number)
    add("text register", "a register pasted into a string and an opcode", lambda s: ["m1 macro\n fcc \"\\1\"\n ld\\1 #5\n endm\n m1 ", s.choice("k", ["a", "b", "A", "B"]), "\n"],
        lambda e: iter([(True, Ok([[97, 98, 97, 98][e.idx("k")], 0x86 if e.idx("k") in (0, 2) else 0xC6, 5]), "ok")]))
    # names
    add("paste operand", "a character pasted into a symbol of an operand", lambda s: ["m1 macro\n fcb go\\1,go\\1x,go_\\1\\1\n endm\ngo1 equ 1\ngo2 equ 2\ngo1x equ 3\ngo2x equ 4\ngo_11 equ 5\ngo_22 equ 6\n m1 ", s.choice("q", ["\"", "%", "$"]), s.char("c", "123"), s.choice("q", ["\"", " ", " "]), "\n"],
        lambda e: paste(e), ["ok", "fail"])

    def paste(e):
        c = e.raw("c")
        if e.idx("q") == 1:
            yield c == 49, Ok([1, 3, 5]), "ok"
        else:
            yield c == 49, Ok([1, 3, 5]), "ok"
            yield c == 50, Ok([2, 4, 6]), "ok"
            yield c == 51, Fail(), "fail"
    add("paste label", "a label made from an argument, used before and after", lambda s: [" fcb k", s.char("c", "abc"), "z\nm1 macro\nk\\1z equ \\2\n fcb k\\1z\nl\\{1}\\2\n fdb l\\1\\2\n endm\n m1 \"", s.char("d", "abc"), "\",", H(s, "v", 2), "\n fcb k", s.char("c", "abc"), "z\n"],
        lambda e: iter([(e.raw("c") == e.raw("d"), Pred(lambda r: paste2(e, r), "the value in each place"), "ok"), (e.raw("c") != e.raw("d"), Fail(), "fail")]), ["ok", "fail"])

    def paste2(e, r):
        o = r.files.get("out", [])
        if len(o) != 5:
            return False
        c = [eq8(g, x) for g, x in zip(o, [e.num("v", 8), e.num("v", 8), 0, 2, e.num("v", 8)])]
        if False in c:
            return False
        return z3.And([x for x in c if x is not True] or [z3.BoolVal(True)])
    add("paste two", "two arguments making one name", lambda s: ["m1 macro\n\\1\\2 equ 5\n fcb \\1\\2,k\\2\n endm\nkbc equ 7\n m1 \"", s.choice("c", ["m", "mb"], pad="z"), "\",\"", s.choice("d", ["b", "bc"], pad="c"), "\"\n fcb ", s.choice("g", ["mzbc", "mbbc", "mzb", "mbc"], pad="c"), "\n"],
        lambda e: iter([(True, Ok([5, 7, 5]) if (e.idx("c"), e.idx("g")) in ((0, 0), (1, 1), (0, 2)) else Fail(), "ok" if (e.idx("c"), e.idx("g")) in ((0, 0), (1, 1), (0, 2)) else "fail")]), ["ok", "fail"])
    # several arguments
    for n in (2, 9, 14):
        sub("several %d" % n, "%d arguments" % n, lambda s, r: [" fcb "] + [y for i, x in enumerate(r) for y in ([","] if i else []) + list(x)] + ["\n fcb "] + [y for i, x in enumerate(reversed(r)) for y in ([","] if i else []) + list(x)],
            lambda s, n=n: [H(s, "v%d" % i, 2) if n < 9 or i in (0, 4, 8, 9, 11, 13) else [str(i + 30)] for i in range(n)])
    add("number", "which argument is taken", lambda s: ["m1 macro\n fcb ", s.choice("k", ["\\1", "\\2", "\\3", "\\9", "\\0", "\\4", "\\{1}", "\\{2}", "\\{3}", "\\{4}", "\\{10}", "\\{12}", "\\{13}", "\\{0}", "\\{99}", "\\{012}", "&{11}", "\\{20}", "\\{21}"]), "\n endm\n m1 1,2,3,4,5,6,7,8,9,10,11,", H(s, "v", 2), "\n"],
        lambda e: iter([(True, *((Ok([x]), "ok") if (x := [1, 2, 3, 9, None, 4, 1, 2, 3, 4, 10, e.num("v", 8), None, None, None, e.num("v", 8), 11, None, None][e.idx("k")]) is not None else (Fail(), "fail")))]), ["ok", "fail"])
    add("missing", "references beyond the arguments given", lambda s: ["m1 macro\n", s.choice("k", [" fcb \\3", " lda \\3", " fcc \"\\3\"", "la\\3 nop", "\\3 nop", " ld\\3 #1", " \\3", " fcb la\\3", " if \\3\n endif", " m2 \\3", " lda [\\3]", " fcb \\0", " fcc \"a&3b\"", "la equ \\3"], pad="\n"), "\n endm\nm2 macro\n endm\n m1 1", s.choice("n", ["", ",2"]), "\n"], fail, ["fail"])
    add("missing none", "references in a macro called without arguments", lambda s: ["m1 macro\n", s.choice("k", [" fcb \\1", " lda \\1", " fcc \"\\1\"", "la\\1 nop", "\\1 nop", " ld\\1 #1", " \\1", " m2 \\1", " lda [\\1]"], pad="\n"), "\n endm\nm2 macro\n endm\n m1\n"], fail, ["fail"])
    add("outside", "positional variables outside any macro", lambda s: [s.choice("p", ["", "m1 macro\n nop\n endm\n m1 1,2\n"], pad="\n"), s.choice("k", [" fcb \\1", " lda #&{1}", " fcc \"\\1\"", " fcc \"&1\"", "la\\1 nop", "\\1 nop", " ld\\1 #1", " \\1", "la equ \\1", " if \\1\n endif"], pad="\n"), "\n"], fail, ["fail"])
    # kinds of argument
    AR = ["5", "$1234", "-3", "'A", "\"B\"", "*", "lx", "lx+1", "(lx)", "2*3+4", "1==1", "1?2:3", "!5", "~0&255", "1b", "1f", "%101", "@17", "0x1F", "3/2*2", "7%4", "1<<3", "\"ab\"", "2.0"]
    pair("kinds", "kind of argument in data and an immediate operand",
         lambda s: ["1\nm1 macro\n fdb \\1\n ldd #\\1\n endm\n nop\n m1 ", s.choice("k", AR), "\n fcb 3\n1\nlx fcb 4\n!\n"],
         lambda s: ["1\n nop\n fdb ", s.choice("k", AR), "\n ldd #", s.choice("k", [a if a != "*" else "*-2" for a in AR]), "\n fcb 3\n1\nlx fcb 4\n!\n"])
    AD = ["5", "$1234", "lx", "[lx]", "[$1234]", "[5,x]", "[,y]", "[b,s]", "[lx,pcr]", "[,x++]", "[,--y]"]
    pair("kinds address", "kind of argument as a whole address",
         lambda s: ["m1 macro\n lda \\1\n sty \\1\n endm\n m1 ", s.choice("k", AD), "\nlx fcb 4\n"],
         lambda s: [" lda ", s.choice("k", AD), "\n sty ", s.choice("k", AD), "\nlx fcb 4\n"])
    RG = ["x", "y", "u", "s", "x+", "y++", "-x", "--u", "pcr", "pc"]
    pair("kinds register", "register argument as the base of an index",
         lambda s: ["m1 macro\n lda ,\\1\n ldx [\\2,\\3]\n lda a,\\3\n endm\n m1 ", s.choice("k", RG[:8]), ",", H(s, "v"), ",", s.choice("m", RG[:4]), "\n"],
         lambda s: [" lda ,", s.choice("k", RG[:8]), "\n ldx [", H(s, "v"), ",", s.choice("m", RG[:4]), "]\n lda a,", s.choice("m", RG[:4]), "\n"])
    R2 = ["a", "b", "d", "x", "y", "u", "s", "pc", "cc", "dp"]
    pair("kinds transfer", "register arguments of TFR, EXG, PSHS and PULU",
         lambda s: ["m1 macro\n tfr \\1,\\2\n exg \\2,\\1\n pshs \\1,\\3\n pulu \\3\n endm\n m1 ", s.choice("k", R2), ",", s.choice("m", R2), ",", s.choice("j", ["a", "x", "pc", "cc"]), "\n"],
         lambda s: [" tfr ", s.choice("k", R2), ",", s.choice("m", R2), "\n exg ", s.choice("m", R2), ",", s.choice("k", R2), "\n pshs ", s.choice("k", R2), ",", s.choice("j", ["a", "x", "pc", "cc"]), "\n pulu ", s.choice("j", ["a", "x", "pc", "cc"]), "\n"], ["ok", "fail"])
    add("kinds opcode", "mnemonics as arguments", lambda s: ["m1 macro\n \\1 \\2\n \\1a #\\2\n endm\n", " m1 \"", s.choice("k", ["add", "sub", "ldd", "cmp", "adc", "xyz"]), "\",", H(s, "v", 2), "\n"],
        lambda e: fail(e), ["fail"])
    add("kinds opcode2", "mnemonics as arguments", lambda s: ["m1 macro\n \\1 #\\2\n l\\1 \\2\n endm\n m1 \"", s.choice("k", ["bra", "bne", "beq"]), "\",5\n"], fail, ["fail"])
    BR = ["bra", "bne", "blo", "bsr"]
    BO = [(0x20, [0x16]), (0x26, [0x10, 0x26]), (0x25, [0x10, 0x25]), (0x8D, [0x17])]
    add("kinds branch", "a mnemonic as an argument", lambda s: ["m1 macro\n \\1 la\nla\n l\\1 la\n endm\n m1 \"", s.choice("k", BR), "\"\n"],
        lambda e: iter([(True, Ok([BO[e.idx("k")][0], 0] + BO[e.idx("k")][1] + be(-len(BO[e.idx("k")][1]) - 2, 2)), "ok")]))
    # nesting
    for d in (2, 4, 7):
        add("depth %d" % d, "calls %d deep, arguments passed down and restored" % d,
            lambda s, d=d: ["".join("m%d macro\n fcb \\1,\\2\n m%d \\2,\\1+1\n fcb \\1,\\2\n endm\n" % (i, i + 1) for i in range(1, d)) + "m%d macro\n fcb \\2-\\1\n endm\n m1 " % d, H(s, "v", 2), ",", H(s, "w", 2), "\n fcb 9\n"], lambda e, d=d: deep(e, d))

    def deep(e, d):
        def go(i, a, b):
            if i == d:
                return be(b - a, 1)
            return be(a, 1) + be(b, 1) + go(i + 1, b, a + 1) + be(a, 1) + be(b, 1)
        yield True, Ok(go(1, e.num("v"), e.num("w")) + [9]), "ok"
    add("too deep", "calls deeper than the limit, and endless recursion", lambda s: [s.choice("k", ["m1 macro\n m1\n endm", "m1 macro\n m2\n endm\nm2 macro\n m1\n endm", "m1 macro\n nop\n m1 \\1+1\n endm"], pad="\n"), "\n m1 1\n"], fail, ["fail"])

    def recurse(e):
        v = e.num("v", 4)
        for k in range(0, 16):
            if k <= 6:
                yield v == k, Ok([i for i in range(k, 0, -1)] + [0xFF] + list(range(1, k + 1))), "ok"
            else:
                yield v == k, Fail(), "fail"
    add("recursion", "recursion ended by a condition", lambda s: ["m1 macro\n if \\1\n fcb \\1\n m1 \\1-1\n fcb \\1\n else\n fcb $ff\n endif\n endm\n m1 ", H(s, "v", 1), "\n"], recurse, ["ok", "fail"])
    pair("twice", "two expansions with different arguments, and symbols in between",
         lambda s: ["m1 macro\n ldx #\\1\nl\\2 lda \\1,x\n bne l\\2\n jmp l\\2\n endm\n m1 ", H(s, "v"), ",\"a\"\n lda lb\n m1 ", H(s, "w", 2), ",\"b\"\n fdb la\n"],
         lambda s: [" ldx #", H(s, "v"), "\nla lda ", H(s, "v"), ",x\n bne la\n jmp la\n lda lb\n ldx #", H(s, "w", 2), "\nlb lda ", H(s, "w", 2), ",x\n bne lb\n jmp lb\n fdb la\n"])
    pair("call in macro", "a macro whose body calls others around its own lines",
         lambda s: ["m1 macro\n fcb \\1\n endm\nm2 macro\n m1 \\1+1\n fdb \\1\n m1 \\2\n m1 \"\\1\"\n endm\n m2 ", H(s, "v", 2), ",", H(s, "w", 2), "\n"],
         lambda s: [" fcb ", H(s, "v", 2), "+1\n fdb ", H(s, "v", 2), "\n fcb ", H(s, "w", 2), "\n", "m3 macro\n fcb \"\\1\"\n endm\n m3 ", H(s, "v", 2), "\n"])
    # conditionals are evaluated at each expansion
    add("conditional", "conditions on an argument", lambda s: ["m1 macro\n if \\1<0\n fcb 1\n elsif \\1==0\n fcb 2\n elsif \\1<\\2\n fcb 3,\\1\n else\n fcb 4\n endif\n endm\n m1 ", s.choice("m", ["", "-"]), H(s, "v", 2), ",$40\n m1 0,0\n"],
        lambda e: cond(e))

    def cond(e):
        v = e.num("v", 8)
        if e.idx("m"):
            yield v != 0, Ok([1, 2]), "ok"
        else:
            yield v == 0, Ok([2, 2]), "ok"
            yield z3.And(v != 0, z3.ULT(v, 0x40)), Ok([3, v, 2]), "ok"
            yield z3.UGE(v, 0x40), Ok([4, 2]), "ok"
    add("optional", "a missing argument in a branch that is skipped", lambda s: ["m1 macro\n fcb \\1\n if \\1>1\n fcb \\2\n endif\n endm\n m1 1\n m1 ", H(s, "v", 2), s.choice("k", ["", ",7"]), "\n"],
        lambda e: iter([(z3.ULE(e.num("v", 8), 1), Ok([1, e.num("v", 8)]), "ok"), (z3.UGT(e.num("v", 8), 1), *((Ok([1, e.num("v", 8), 7]), "ok") if e.idx("k") else (Fail(), "fail")))]), ["ok", "fail"])
    add("definition in a condition", "a definition chosen by a condition", lambda s: [" if ", H(s, "v", 1), "\nm1 macro\n fcb \\1\n endm\n else\nm1 macro\n fdb \\1\n endm\n endif\n m1 5\n"],
        lambda e: iter([(e.num("v", 8) != 0, Ok([5]), "ok"), (e.num("v", 8) == 0, Ok([0, 5]), "ok")]))
    # nested definitions
    add("nested definition", "a macro that defines a macro", lambda s: ["m1 macro\n fcb \\1\nm2 macro\n fcb \\1+1\n endm\n fcb \\1+2\n endm\n", s.choice("k", [" m1 8\n", " m2 8\n"]), " m2 ", H(s, "v", 2), "\n"],
        lambda e: iter([(True, Ok([8, 10] + be(e.num("v", 8) + 1, 1)) if e.idx("k") == 0 else Fail(), "ok" if e.idx("k") == 0 else "fail")]), ["ok", "fail"])
    add("nested definition name", "a macro that defines a macro with a name made from its argument", lambda s: ["m1 macro\nmm\\1 macro\n fcb \\1,\\2\n endm\n endm\n m1 \"", s.char("c", "ab"), "\"\n mm", s.char("d", "ab"), " ", H(s, "v", 2), ",5\n"],
        lambda e: iter([(e.raw("c") == e.raw("d"), Ok([e.num("v", 8), 5]), "ok"), (e.raw("c") != e.raw("d"), Fail(), "fail")]), ["ok", "fail"])
    add("nested twice", "definitions three deep", lambda s: ["m1 macro\nm2 macro\nm3 macro\n fcb \\1\n endm\n fcb \\1+1\n endm\n fcb \\1+2\n endm\n m1 1\n m2 2\n m3 ", H(s, "v", 2), "\n"], lambda e: iter([(True, Ok([3, 3, e.num("v", 8)]), "ok")]))
    # other lines in a body
    pair("address", "ORG, PUT, SECTION, RMB, ALIGN and SETDP in a body",
         lambda s: ["m1 macro\n org \\1\nlx fdb *\n rmb \\2\n align 4,0\n fdb *\n setdp \\1/256\n lda lx\n section \"s\"\n fcb \\2\n endm\n", " m1 ", H(s, "v", 3), ",3\n fdb lx\n section \"CODE\"\n ldb lx\n"],
         lambda s: [" org ", H(s, "v", 3), "\nlx fdb *\n rmb 3\n align 4,0\n fdb *\n setdp ", H(s, "v", 3), "/256\n lda lx\n section \"s\"\n fcb 3\n fdb lx\n section \"CODE\"\n ldb lx\n"], ["ok"], ["-C"])
    pair("include", "INCLUDE in a body, its lines using the arguments; a definition in an included file",
         lambda s: [" include \"d.s\"\n m1 ", H(s, "v", 2), ",\"b.s\"\n fcb 9\n"], lambda s: [" fcb 1\n fcb ", H(s, "v", 2), ",7\n fcb 2\n fcb 9\n"], ["ok"], (), {"d.s": "m1 macro\n fcb 1\n include \"\\2\"\n fcb 2\n endm\n", "b.s": " fcb \\1,7\n"})
    add("label call", "a label on the line of a call, and one on the lines after", lambda s: [" org ", H(s, "v"), "\nm1 macro\n fdb \\1\n endm\nla m1 la\nlb fdb la,lb\n"], lambda e: iter([(z3.ULT(e.num("v", 16), 0xFFF0), Ok(be(e.num("v"), 2) * 2 + be(e.num("v") + 2, 2)), "ok")]))
    add("local labels", "local labels in a body", lambda s: ["m1 macro\n1 lda #\\1\n bne 1b\n bra 1f\n1\n endm\n1 nop\n m1 ", H(s, "v", 2), "\n m1 6\n bra 1b\n"],
        lambda e: iter([(True, Ok([0x12, 0x86, e.num("v", 8), 0x26, 0xFC, 0x20, 0x00, 0x86, 6, 0x26, 0xFC, 0x20, 0x00, 0x20, 0xFE]), "ok")]))
    add("pc", "the address of the line in a body, and as an argument", lambda s: ["m1 macro\n fcb 1\n fdb \\1,*\n endm\n org ", H(s, "v", 3), "\n m1 *\n m1 *+1\n"],
        lambda e: iter([(True, Ok([1] + be(e.num("v"), 2) + be(e.num("v") + 1, 2) + [1] + be(e.num("v") + 6, 2) + be(e.num("v") + 6, 2)), "ok")]))
    add("forward", "an argument defined later decides the size of what is expanded", lambda s: [" setdp 0\nm1 macro\n lda \\1\n ldb \\2\n fdb *\n endm\n m1 lv,lw\nlv equ ", H(s, "v"), "\nlw equ ", H(s, "w", 2), "\n"],
        lambda e: iter([(z3.ULT(e.num("v", 16), 256), Ok([0x96, e.num("v", 8), 0xD6, e.num("w", 8), 0, 4]), "ok"), (z3.UGE(e.num("v", 16), 256), Ok([0xB6] + be(e.num("v"), 2) + [0xD6, e.num("w", 8), 0, 5]), "ok")]))
    add("set", "SET in a body: counting expansions", lambda s: ["cnt set ", H(s, "v", 2), "\nm1 macro\n fcb cnt\ncnt set cnt+\\1\n endm\n m1 1\n m1 2\n m1 3\n fcb cnt\n"],
        lambda e: iter([(True, Ok(be(e.num("v"), 1) + be(e.num("v") + 1, 1) + be(e.num("v") + 3, 1) + be(e.num("v") + 6, 1)), "ok")]))
    # definitions
    add("name", "name of the definition and of the call", lambda s: [s.char("a", "mMn"), s.char("b", "123_."), "z macro\n fcb 1\n endm\n ", s.char("c", "mMn"), s.char("d", "123_."), "z\n"],
        lambda e: iter([(z3.And(e.raw("a") == e.raw("c"), e.raw("b") == e.raw("d")), Ok([1]), "ok"), (z3.Not(z3.And(e.raw("a") == e.raw("c"), e.raw("b") == e.raw("d"))), Fail(), "fail")]), ["ok", "fail"])
    add("two definitions", "two definitions whose names differ or not", lambda s: ["m", s.char("a", "mM1"), " macro\n fcb 1\n endm\nm", s.char("b", "mM1"), " macro\n fcb 2\n endm\n m", s.char("c", "mM1"), "\n"],
        lambda e: iter([(e.raw("a") == e.raw("b"), Fail(), "fail"), (z3.And(e.raw("a") != e.raw("b"), e.raw("a") == e.raw("c")), Ok([1]), "ok"), (z3.And(e.raw("a") != e.raw("b"), e.raw("b") == e.raw("c")), Ok([2]), "ok"), (z3.And(e.raw("a") != e.raw("b"), e.raw("c") != e.raw("a"), e.raw("c") != e.raw("b")), Fail(), "fail")]), ["ok", "fail"])
    add("bad", "kind of bad definition or call", lambda s: [" fcb 1\n", s.choice("k", ["m1 macro\n fcb 2", " macro\n fcb 2\n endm", "5 macro\n fcb 2\n endm", " endm", "m1 macro\nm2 macro\n endm", "m1 macro\n endm m2", "m1 macro\n endm 5", "m1 macro\n endm\n endm", " m9", " m9\nm9 macro\n endm", "m1 macro\n fcb 1\n endm\nm1 macro\n fcb 1\n endm", "m1 macro\n if 1\n endm\n m1", "m1 macro\n bogus\n endm\n m1", "m1 macro\n fcb nosuch\n endm\n m1", "m1 macro\n fcb 1,\n+\n endm\n m1", "m1 macro\n lda x,y,u\n endm\n m1"], pad="\n"), "\n"], fail, ["fail"])
    add("good", "forms of ENDM, and bodies never expanded", lambda s: [" fcb 1\nm1 macro\n", s.choice("b", [" bogus", " fcb nosuch", " if 1", " else", "la equ 1\nla equ 2", " lda #1,2,3", " org", " include \"nosuch\"", " fcb 2"], pad="\n"), "\n endm ", s.choice("k", ["", "\"m1\""]), "\n fcb 3\n"], ok(1, 3))
    add("case", "letter case of the keywords", lambda s: ["m1 ", s.case("p", "macro"), "\n fcb \\1\n ", s.case("q", "endm"), "\n m1 6\n"], ok(6))
    add("comments", "comments and blank lines in bodies, comments after calls", lambda s: ["m1 macro", s.choice("k", ["", " ;a,b", " x y z"]), "\n* \\9\n\n ; &{5}\n fcb \\1 ; \\7\n endm\n m1 6", s.choice("m", ["", " ;,5", " ; x", ""]), "\n"], ok(6))
    add("opcode wins", "a macro named like an instruction or a pseudo-op", lambda s: [s.choice("k", ["nop", "fcb", "NOP"]), " macro\n fcb 1\n endm\n", s.choice("m", [" nop\n", " NOP\n"]), " fcb 2\n"], ok(0x12, 2))
    return out
