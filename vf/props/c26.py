"""Exports and symbols files give back what was exported."""
import z3
from ..scen import *

I64 = 1 << 64
VALS = sorted({0, 1, 2, 7, 9, 10, 11, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 9999, 10000, 32767, 32768, 65534, 65535, 65536, 65537, 99999, 100000, 1234567, 9999999, 10000000, 999999999, 1000000000, 123456789012345678, 999999999999999999, 1000000000000000000, 0x7ffffffffffffffe}
              | {(1 << k) - d for k in range(3, 63, 4) for d in (0, 1)} | {(1 << k) + 1 for k in (20, 31, 32, 33, 47, 48, 62)} | {(1 << 63) - 1})
VALS = [v for v in VALS if v < 1 << 63]
VALS = VALS + [-v for v in VALS if v] + [-(1 << 63)]
BOUNDS = ["symbol values: all 16-bit numbers in four pieces of 8 bits, %d 64-bit integers of either sign around every power of two and ten, floating-point values in steps of 1/16, all printable strings of 2 characters" % len(VALS),
          "macros of one body line of every listed kind, with every operator and operand form, two arguments; bodies of up to ten lines"]


def lit(v):
    # a source expression for v (no literal reaches 2^63)
    return "-%d-1" % (-v - 1) if v == -(1 << 63) else str(v)


def scenarios(tier):
    out = []
    th = tier != "quick"

    def add(name, what, first, second, spec, need=("ok",), args1=("-E", "f"), files={}, args2=(), nowrite=()):
        """run first.s writing file f, then second.s including it"""
        s = Scn(name, what=what)
        flat = lambda ps: [y for x in ps for y in (x if isinstance(x, list) else [x])]
        s.file("a.s", *flat(first(s)))
        s.argv(*(list(args1) + ["-o", "o1", "a.s"]))
        s.file("b.s", *flat(second(s)))
        s.again(*(list(args2) + ["-o", "out", "b.s"]))
        for n, t in files.items():
            s.file(n, t)
        s.spec = spec
        s.need = list(need)
        out.append(s)
        return s

    def same(r):
        a, b = r.files.get("o1"), r.files.get("out")
        if r.files.get("<stderr>") or a is None or b is None or len(a) != len(b):
            return False
        c = [eq8(x, y) for x, y in zip(a, b)]
        if any(x is False for x in c):
            return False
        c = [x for x in c if x is not True]
        return z3.And(c) if c else True
    SAME = lambda e: iter([(True, Pred(same, "the second program gives the same bytes as the first"), "ok")])
    H = lambda s, n, w=4: ["$", s.hex(n, w)]
    INC = " include \"f\"\n"
    W = lambda v: [(v >> k) & 0xff for k in (56, 48, 40, 32, 24, 16, 8, 0)]

    # ---- integer symbols
    for opt, ex in (("-s", ""), ("-E", " export la\n")):
        add("values %s" % opt, "value of a symbol from a list of 64-bit integers", lambda s: [ex, "la equ ", s.choice("v", [lit(v) for v in VALS]), "\n"], lambda s: [INC, " fqb la>>32,la\n"], lambda e: iter([(True, Ok(W(VALS[e.idx("v")])), "ok")]), args1=(opt, "f"))
        for k in range(4 if th else 2):
            add("bytes %d %s" % (k, opt), "8 bits of the value of a symbol", lambda s, k=k: [ex, "la set ", s.choice("g", ["", "-"]), "(", H(s, "v", 2), "<<%d)+%d\n" % ((0, 8, 16, 24)[k], (0, 200, 65000, 1)[k])], lambda s: [INC, " fqb la>>32,la\n"],
                lambda e, k=k: iter([(True, Ok(be((e.num("v", 64) << (0, 8, 16, 24)[k]) * (-1 if e.idx("g") else 1) + (0, 200, 65000, 1)[k], 8)), "ok")]), args1=(opt, "f"))
        add("addresses %s" % opt, "addresses of labels", lambda s: [" org $", s.hex("o", 2), "80\nla nop\n rmb 200\nlb\nlc equ la+lb\n", " export la,lb,lc\n" if opt == "-E" else ""], lambda s: [INC, " fdb la,lb,lc\n"],
            lambda e: iter([(True, Ok(be(AD(e), 2) + be(AD(e) + 201, 2) + be(AD(e) * 2 + 201, 2)), "ok")]), args1=(opt, "f"))

    def AD(e):
        return z3.Concat(z3.Extract(7, 0, e.num("o", 16)), z3.BitVecVal(0x80, 8))
    # ---- other types
    FI = [g + i for g in ("", "-") for i in ("0", "1", "127", "32768", "123456")]
    FR = [str(i * 625).zfill(4) for i in range(16)]
    for opt, ex in (("-s", ""), ("-E", " export la\n")):
        add("floats %s" % opt, "a floating-point value", lambda s: [ex, "la equ ", s.padl("i", FI), ".", s.choice("f", FR), "\n"],
            lambda s: [INC, " fqb la*16,la\n"], lambda e: iter([(True, Ok(fl(e)), "ok")]), args1=(opt, "f"))
        PR = [c for c in range(32, 127)]
        for d, bad in (("\"", '"\\&'), ("/", "/\\&")):
            add("strings %s %s" % (d, opt), "two characters of a string", lambda s, d=d, bad=bad: [ex, "la equ " + d, s.char("c", [c for c in PR if chr(c) not in bad]), s.char("d", [c for c in PR if chr(c) not in bad]), d + "\n"], lambda s: [INC, " fcc la,\"|\"\n"],
                lambda e: iter([(True, Ok([e.raw("c"), e.raw("d"), 124]), "ok")]), args1=(opt, "f"))
        ESC = ["\\n", "\\r", "\\\\", "\\\"", "\\/", "&&", "\\&", "/", "//", "a\\n/b", "'", "&&{1}", "\\\\1", "\\x", "\t", "%1", "*", ";"]
        EB = [b"\n", b"\r", b"\\", b"\"", b"/", b"&", b"&", b"/", b"//", b"a\n/b", b"'", b"&{1}", b"\\1", b"x", b"\t", b"%1", b"*", b";"]
        add("escapes %s" % opt, "strings with escapes", lambda s: [ex, "la equ \"", s.choice("k", [k + "\"\n" for k in ESC], pad="\n")], lambda s: [INC, " fcc la,\"|\"\n"], lambda e: iter([(True, Ok(list(EB[e.idx("k")]) + [124]), "ok")]), args1=(opt, "f"))
        REGS = ["a", "b", "d", "x", "y", "u", "s", "pc", "cc", "dp"]
        RN = [8, 9, 0, 1, 2, 3, 4, 5, 10, 11]
        add("registers %s" % opt, "symbols for registers", lambda s: [ex, "la equ ", s.choice("r", REGS), "\n"], lambda s: [INC, " tfr la,la\n"], lambda e: iter([(True, Ok([0x1F, RN[e.idx("r")] * 17]), "ok")]), args1=(opt, "f"))

        AR = ["x", "y", "u", "s"]
        AM = [("%s", 0x84), ("%s+", 0x80), ("%s++", 0x81), ("-%s", 0x82), ("--%s", 0x83)]
        add("autos %s" % opt, "symbols for registers with increments", lambda s: [ex, "la equ ", s.choice("m", [m % r for m, _ in AM for r in AR]), "\n lda ,la\n"], lambda s: [INC, " lda ,la\n"],
            lambda e: iter([(True, Ok([0xA6, AM[e.idx("m") // 4][1] + e.idx("m") % 4 * 0x20]), "ok")]), args1=(opt, "f"))

    def fl(e):
        t = FI[e.idx("i")]
        i = abs(int(t)) * 16 + e.idx("f")
        i = -i if t[0] == "-" else i
        q = abs(i) // 16 * (-1 if i < 0 else 1)
        return [(i >> k) & 255 for k in (24, 16, 8, 0)] + [(q >> k) & 255 for k in (24, 16, 8, 0)]

    # ---- which symbols
    NM = ["la", "lA", "lab", "zz_1", "q.9", "l", "verylongsymbolname.with_more1234567890"]
    add("every symbol", "names of symbols: all are in the symbols file", lambda s: [n + " equ %d\n" % (i + 1) for i, n in enumerate(NM)] + ["1 nop\n"], lambda s: [INC, " fcb ", s.choice("n", NM), "\n"], lambda e: iter([(True, Ok([e.idx("n") + 1]), "ok")]), args1=("-s", "f"))
    add("exported only", "which of several symbols is exported and which used", lambda s: [n + " equ %d\n" % (i + 1) for i, n in enumerate(NM)] + [" export ", s.choice("x", NM), ",", s.choice("y", NM), "\n"], lambda s: [INC, " fcb ", s.choice("n", NM), "\n"],
        lambda e: iter([(True, Ok([e.idx("n") + 1]) if e.idx("n") in (e.idx("x"), e.idx("y")) else Fail(), "ok" if e.idx("n") in (e.idx("x"), e.idx("y")) else "fail")]), ["ok", "fail"])
    PL = [" export la\nla equ 5\n", "la equ 5\n export la\n", "la set 4\n export la\nla set 5\n", " export la\n export la\nla equ lb\nlb equ 5\n", " if 1\n export la\n endif\nla equ 5\n", "m1 macro\n export la\n endm\n m1\nla equ 5\n", " section \"x\"\n org 5\nla\n export la\n", " export lb,la\nla equ 5\nlb equ 6\n", " EXPORT la\nla equ 5\n", " include \"i\"\nla equ 5\n",
          "m1 macro\nla equ \\1\n endm\n m1 5\n export la\n", " export la\n lda lb\nlb equ 9\nla equ *+2\n"]
    add("places", "where EXPORT and the definition stand", lambda s: [s.choice("k", PL, pad="\n")], lambda s: [INC, " fcb la\n"], lambda e: iter([(True, Ok([5]), "ok")]), files={"i": " export la\n"})
    NE = ["la equ 5\n", " if 0\n export la\n endif\nla equ 5\n", "m1 macro\n export la\n endm\nla equ 5\n", " export lb\nla equ 5\nlb equ 1\n", "la equ 5\n end\n export la\n", "la equ 5\n* export la\n", "la macro\n fcb 1\n endm\n"]
    add("not exported", "a symbol that is not exported", lambda s: [s.choice("k", NE, pad="\n")], lambda s: [INC, " fcb la\n"], lambda e: iter([(True, Fail(), "fail")]), ["fail"])
    add("nothing exported", "an empty exports or symbols file", lambda s: [" nop\n"], lambda s: [INC, " fcb ", H(s, "v", 2), "\n"], lambda e: iter([(True, Ok(be(e.num("v"), 1)), "ok")]))
    add("option", "a symbol defined by an option", lambda s: [" export la\n nop\n"], lambda s: [INC, " fdb la\n"], lambda e: iter([(True, Ok([0x12, 0x34]), "ok")]), args1=("-d", "la=0x1234", "-E", "f"))
    add("chain", "two values, exported and exported again", lambda s: ["la equ ", H(s, "v", 1), "\n export la,lb\nlb equ \"x/y\"\n"], lambda s: [INC, " export la,lb\n fcb la\n fcc lb\n"], lambda e: iter([(True, Ok(be(e.num("v"), 1) + [120, 47, 121]), "ok")]), args2=("-E", "g"))
    out[-1].again("-o", "out2", "c.s")
    out[-1].file("c.s", " include \"g\"\n fcb la\n fcc lb\n")
    out[-1].spec = lambda e: iter([(True, Ok(be(e.num("v"), 1) + [120, 47, 121], out2=be(e.num("v"), 1) + [120, 47, 121]), "ok")])

    # ---- macros
    BIN = ["+", "-", "*", "/", "%", "<<", ">>", "&", "^", "|", "<", ">", "<=", ">=", "==", "!=", "&&", "||"]
    EXPR = ["\\1%s3" % o for o in BIN] + ["9%s\\2%s2" % (o, p) for o in BIN for p in (BIN if th else ["+", "*", "<<", "==", "||"])] + ["-\\1", "~\\2", "!\\1", "+\\1", "-(\\1+1)", "~-\\2", "- -1", "!!\\1", "\\1?\\2:7", "\\1?\\2?1:2:3", "\\1?2:\\2?3:4", "(\\1+\\2)*3", "\\1-(\\2-1)", "\\1-\\2-1",
           "*", "*-3", "*+\\1", "'a", "'a'", "'/", "'\\'", "%101", "%101%2", "5%%11", "@17", "017", "$ff", "0x1f", "0b11", "255", "\"ab\"+1", "1.5*4", "7/2.0*2", "0.5*6", "12", "65535*65537&255", "\\{1}+1", "&{2}+1", "&{1}", "1B-1", "1F-1", "1b", "1f", "lx", "lx+\\1", "<", ">", "l\\1+\\2", "lx*2",
           "(\\1)", "((\\1))", "\\1<\\2==1", "1<<\\2<<1", "\\1&\\2|1^3", "-1>>60&255", "9223372036854775807>>56", "%1", "-%1", "5-%1", "4%%10"]
    PRE = "x1 equ 3\nx2 equ 4\nx3 equ 5\nl1 equ 8\nl2 equ 9\nl3 equ 10\nlx equ 6\n"
    POST = "1 nop\n! nop\n"

    def macro(name, what, bodies, call, pre=PRE, post=POST, names="m1", args=("-3",), split=lambda s: []):
        # bodies: choice of one line; body between two others
        M = lambda s: ["m1 macro\n fcb \\2\n", s.choice("k", [b + "\n" for b in bodies], pad="\n"), " fcb 9\n endm\n"]
        C = lambda s: [pre, "1 nop\n! nop\n"] + call(s) + [post]
        add(name, what, lambda s: [" export %s\n" % names] + M(s) + C(s), lambda s: [INC] + C(s), SAME, args1=list(args) + ["-E", "f"], args2=args)
    ARGS = lambda s: [" m1 ", s.choice("a", ["1", "2", "3"]), ",", s.choice("b", ["1", "2", "3"]), "\n"]
    macro("expressions", "expression in a data line, and both arguments", [" fdb " + x for x in EXPR], ARGS)
    macro("instruction expressions", "expression in an operand", [" ldx #" + x for x in EXPR if '"' not in x and x not in "<>"], lambda s: [" m1 1,2\n"])
    OPER = ["lda #\\1", "lda <\\1", "lda >\\1", "lda \\1", "lda ,x", "lda 0,x", "lda \\1,x", "lda -\\1,y", "lda <\\1,u", "lda >\\1,s", "lda <<\\1,x", "lda ,x+", "lda ,x++", "lda ,-x", "lda ,--x", "ldd ,y++", "lda a,x", "lda b,y", "lda d,u", "lda [,x]", "lda [\\1,x]", "lda [,x++]", "lda [,--x]", "lda [<\\1,x]", "lda [>\\1,x]", "lda [a,y]", "lda [d,s]", "lda [\\1]", "lda [\\1+$1000]", "lda \\1,pcr", "lda [\\1,pcr]", "lda <\\1,pcr", "lda >\\1,pcr", "lda [>\\1,pcr]", "leax *,pcr",
            "tfr a,b", "tfr x,y", "exg d,u", "pshs a,b,x", "puls cc,pc", "pshu s,d", "bra *", "bra *+\\1", "lbra *-\\2", "bsr 1b", "bra 1f", "bra <", "bra >", "jmp [$fffe]", "andcc #\\1", "cwai #$ff", "nop", "abx", "swi3", "tfm x+,y+", "tfm x-,y-", "tfm d+,x", "tfm x,y+", "aim #\\1,\\2", "oim #1,,x", "eim #1,<\\1", "tim #1,[,x]", "band a,1,2,\\1", "ldq #\\1", "ldbt cc,0,7,<\\2", "addr a,b", "muld #\\1", "lda e,x", "lda f,y", "lda w,x", "ldf #1", "lda [,w]", "lda ,w++", "lda \\1,w",
            "rmb \\1", "rzb \\1", "fill \\1,\\2", "align 4,\\1", "fcb \\1,\\2,3", "fdb \\1,-\\2", "fqb \\1", "fcc \"a\\1b\"", "fcc /a\\1b/", "fcc \"\\1\\2\"", "fcc \"&1/&{2}\"", "fcc \"x\\{1}\"", "fcc \"a/b\"", "fcc \"a\\\\b\"", "fcc \"a\\nb\"", "fcc \"a&&b\"", "fcc \"a\\&b\"", "fcc \"\\\"\"", "fcn \"ab\",0", "fcs \"ab\",\\1", "fcv \"AB\"", "fci \"AB\"", "fcc \"a\",13,\"b\"", "setdp \\1", "org $200\n nop", "put $300\n nop", "opt x", "ttl \"x\"",
            "if \\1==1\n fcb 1\n else\n fcb 2\n endif", "if \\1-1\n fcb 1\n elsif \\2-2\n fcb 2\n else\n fcb 3\n endif", "section \"x\"\n nop", "code\n nop", "include \"i\"", "includebin \"i\"", "fcb 7", "LDA #1", "Lda #\\1", "fcb", "nop ; text"]
    OPER = [o for o in OPER if o != "fcb"]
    macro("operands", "kind of line", [" " + o for o in OPER], lambda s: [" setdp 0\n m1 1,2\n"])
    for o in out[-1:]:
        o.file("i", " fcb 8\n")
    LINES = ["la", "la nop", "la\\1 nop\n ldx #la1", "la\\1\\2 equ 5\n fcb la12", "la&1 nop\n fdb la1", "1 nop\n bra 1b", "1\n bra 1b", " bra 1f\n1 nop", "! nop\n bra <", "1 fcb 2\n1 fcb 3\n fdb 1b", "la equ 5\n fcb la", "la set 5\n fcb la\nla set 6\n fcb la", "l\\1\\1 fcb 1\n fdb l11", "", "*", "* text", " ; text", "la ; text", " fc\\3", " fc\\3 5", " ld\\3 #1", " fc&3 5", "m2 macro\n fcb 5\n endm\n m2", "m2 macro\n fcb \\1\n endm\n m2 6", "m2 macro\n fcb \\1\n m3 7\n endm\nm3 macro\n fcb \\1\n endm\n m2 6", " m4 \\2", " m4 \\1+\\2", " m4 \\1\n m4 \\2\n m4 3", "lq m4 5\n fdb lq", " if 0\nbogus line\n endif", " if 0\n bogus \\9\n endif", " if \\1\n m4 1\n endif", "la rmb \\1\n fdb la", "12 nop\n fdb 12b", "012 nop\n fdb 12b"]
    LINES = [l for l in LINES if l != " fc\\3"]
    macro("lines", "kind of line or lines", LINES, lambda s: ["m4 macro\n fcb \\1+1\n endm\n m1 1,2,b\n"], names="m1")
    # two macros, exported in any order, using each other
    add("two macros", "two exported macros, one calling the other", lambda s: [" export ", s.choice("x", ["m1,m2", "m2,m1"]), "\nm1 macro\n m2 \\1,5\n m2 7,\\1\n endm\nm2 macro\n fcb \\1,\\2\n endm\n m1 ", s.choice("a", ["1", "2+3", "\"x\"", "-1", "$ff"]), "\n"], lambda s: [INC, " m1 ", s.choice("a", ["1", "2+3", "\"x\"", "-1", "$ff"]), "\n"], SAME)
    add("macro and symbol", "a macro that uses an exported symbol", lambda s: [" export m1,la\nm1 macro\n fcb la,\\1\n endm\nla equ ", H(s, "v", 2), "\n m1 1\n"], lambda s: [INC, " m1 1\n"], SAME)
    add("macro with free arguments", "arguments free", lambda s: [" export m1\nm1 macro\n fdb \\1*2+\\2\n ldb #\\1&\\2\n lda \\1,x\n endm\n m1 ", H(s, "a", 2), ",", H(s, "b", 2), "\n"], lambda s: [INC, " m1 ", H(s, "a", 2), ",", H(s, "b", 2), "\n"], SAME)
    add("macro arguments", "number of an argument", lambda s: [" export m1\nm1 macro\n fcb ", s.choice("k", ["\\%d" % i for i in range(1, 10)] + ["\\{%d}" % i for i in range(1, 13)] + ["&{%d}" % i for i in range(1, 13)]), "\n endm\n m1 1,2,3,4,5,6,7,8,9,10,11,12\n"], lambda s: [INC, " m1 1,2,3,4,5,6,7,8,9,10,11,12\n"], SAME)
    add("literals", "free digits in a macro", lambda s: [" export m1\nm1 macro\n fdb ", s.padl("k", ["$", "0x", "@", "0", "", "1"]), s.choice("d", ["%d%d" % (i, j) for i in (0, 1, 7) for j in range(8)]), "\n endm\n m1\n"], lambda s: [INC, " m1\n"], SAME)
    PR2 = [c for c in range(32, 127) if chr(c) not in "\"\\&"]
    add("string text", "two characters of a string in a macro", lambda s: [" export m1\nm1 macro\n fcc \"", s.char("c", PR2), s.char("d", PR2), "\"\n endm\n m1\n"], lambda s: [INC, " m1\n"], SAME)
    add("character", "a character constant in a macro", lambda s: [" export m1\nm1 macro\n fcb '", s.char("c", [c for c in range(33, 127)]), s.choice("q", ["'", " "]), "\n endm\n m1\n"], lambda s: [INC, " m1\n"], SAME)
    add("macro names", "name of an exported macro", lambda s: [" export ", s.choice("n", ["m1", "zap", "Big", "lda2", "m.x_1"]), "\n", s.choice("n", ["m1", "zap", "Big", "lda2", "m.x_1"]), " macro\n fcb 1\n endm\n fcb 1\n"], lambda s: [INC, " ", s.choice("n", ["m1", "zap", "Big", "lda2", "m.x_1"]), "\n"], SAME)
    add("unexported macro", "a macro that is not exported", lambda s: [" export m2\nm1 macro\n nop\n endm\nm2 macro\n nop\n endm\n"], lambda s: [INC, s.choice("k", [" m1\n", " m2\n"])], lambda e: iter([(True, Ok([0x12]) if e.idx("k") else Fail(), "ok")]))
    add("symbols file without macros", "macros are not in the symbols file", lambda s: [" export m2\nm1 macro\n nop\n endm\nm2 macro\n nop\n endm\nla equ 4\n"], lambda s: [INC, s.choice("k", [" m1\n", " m2\n", " fcb la\n"])], lambda e: iter([(True, Ok([4]) if e.idx("k") == 2 else Fail(), "ok")]), args1=("-s", "f"))
    return [x for x in out if x is not None]
