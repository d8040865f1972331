"""Whatever the source, the options and the files contain, the assembler ends by itself."""
import z3
from ..scen import *

BOUNDS = ["two free bytes (all 65536 pairs; 30 representative bytes each where an opcode or file name is looked up) in each of 51 places of a program, with listing, exports and symbols files written",
          "every sequence of two of 52 tokens as operands of ten kinds of line, of three of 18 tokens in an expression",
          "38 extreme values in each of 80 kinds of line, and every pair of 17 as operands of every operator",
          "every sequence of two of 68 kinds of line, and of three of 22, at the top, in macros, in included files",
          "every sequence of two of 44 command-line words before a source file, of three of 16",
          "nesting, lengths and counts in steps up to 30000",
          "every path is followed until the program exits: at most 60 million instructions"]
NOTES = ["out-of-bounds and dangling accesses, failed assertions and endless loops are violations; leaks are not",
         "a number that does not fit its type when converted, shifts beyond a type's width and the like are only violations if they stop the program"]


def scenarios(tier):
    out = []
    th = tier != "quick"
    ENDS = lambda e: iter([(True, Ends(), "ends")])
    ALL = ["-l", "lst", "-E", "exp", "-s", "sym"]

    def add(name, what, parts, args=(), files={}, ins=("in.s",), noout=False, unreadable=(), limit=None):
        s = Scn(name, what=what)
        flat = lambda ps: [y for x in ps for y in (x if isinstance(x, list) else [x])]
        s.file("in.s", *flat(parts(s)))
        a = list(args(s) if callable(args) else args)
        s.argv(*(a + ([] if noout else ["-o", "out"]) + list(ins)))
        for n, t in files.items():
            s.file(n, *(flat(t(s)) if callable(t) else [t]))
        s.unreadable = list(unreadable)
        if limit:
            s.limit = limit
        s.spec = ENDS
        s.need = ["ends"]
        out.append(s)
        return s

    # ---- free bytes
    ANY = lambda s, n: [s.char(n + str(i), range(256)) for i in range(3 if th else 2)]
    PL = [("", ""), ("", "\n nop\n"), (" nop\n", ""), (" ", " 1\n"), (" ld", "\n"), (" lda", "\n"), (" lda ", "\n"), (" lda #1", "\n"), (" lda #", "\n"), (" lda 5,", "\n"), (" lda 5,x", "\n"), (" lda [", "]\n"), (" lda [5,x", "\n"), (" fcb 1+", "+1\n"), (" fcb 1", "1\n"), (" fcb ", ""),
          (" fcc \"a", "b\"\n"), (" fcc \"", "\n"), (" fcc /", "\n"), (" fcc ", "a\"\n"), (" fcb '", "\n"), (" fcb \\", "\n"), (" fcb &{", "}\n"), (" fcb $", "\n"), (" fcb 0", "\n"), (" fcb 1.", "\n"), (" fcb %", "\n"), (" fcb x", "\n"), ("la", " equ 1\n fcb la\n"), ("&", " equ 1\n"), ("1", " nop\n"),
          ("m1 macro\n lda \\", "\n endm\n m1 1,2\n"), ("m1 macro\n", "\n endm\n m1 1,2\n"), ("m1 macro\n lda \\1\n endm\n m1 ", "\n"), ("m1 macro\nl&{1} fcc \"\\1\"\n endm\n m1 ", "\n export m1\n"), (" export ", "\n"), (" export m1\nm1 macro\n fcc /", "/\n endm\n"), ("* ", "\n nop\n"), (" nop ;", "\n"), (" if ", "\n nop\n else\n fcb 1\n endif\n"), (" if 0\n", "\n endif\n"),
          (" include \"", "\"\n"), (" org ", "\n nop\n"), (" tfr ", "\n"), (" pshs ", "\n"), (" section ", "\n nop\n"), (" end ", ""), ("la equ \"", "\"\n export la\n")]
    REP = [0, 1, 9, 10, 13, 32, 33, 34, 36, 37, 38, 39, 42, 44, 46, 47, 48, 57, 59, 64, 65, 92, 95, 97, 98, 120, 123, 127, 128, 255]
    for i, (a, b) in enumerate(PL):
        # opcodes and file names are looked up: taken from representative bytes
        few = a in (" ", " ld", " lda", " include \"", " section ") and not th or a == " include \""
        add("bytes %d" % i, "free bytes between %r and %r" % (a, b), lambda s, a=a, b=b, few=few: [a] + ([s.char("c0", REP[::(3 if a in (" ld", " lda") else 1)]), s.char("c1", REP)] if few else ANY(s, "c")) + [b], ["-3"] + ALL)
    add("bytes in an included file", "free bytes", lambda s: [" include \"f\"\n nop\n"], ALL, {"f": lambda s: ANY(s, "c")})
    add("bytes of a second file", "free bytes", lambda s: [" nop\n"], ALL, {"f": lambda s: ANY(s, "c")}, ins=("in.s", "f"))
    add("bytes of a binary", "free bytes", lambda s: [" includebin \"f\"\n"], ALL, {"f": lambda s: ANY(s, "c")})
    # ---- tokens
    TOK = ["1", "0", "-1", "300", "la", "nosuch", "x", "a", "pcr", "w", "cc", ",", ",,", "#", "<", ">", "<<", ">>", "[", "]", "(", ")", "+", "++", "-", "--", "*", "/", "%", "&", "&&", "|", "^", "~", "!", "?", ":", "==", "\"s\"", "/s/", "\"\"", "'a", "1b", "1f", "1.5", "\\1", "&{2}", "\\9", "$", "@", "=", "."]
    T3 = ["1", "-1", "la", "nosuch", "x", "y+", ",", "#", "<", ">", "[", "]", "(", ")", "+", "?", ":", "\"s\""]
    for op in [" lda ", " fcb ", " fcc ", " org ", " section ", " if ", " export ", " tfm ", " aim ", " bra "]:
        pre, post = ("m1 macro\n", " endif\n endm\n m1 3,x\nla equ 7\n") if op == " if " else ("m1 macro\n", " endm\n m1 3,x\nla equ 7\n")
        add("tokens%s" % op.rstrip(), "two tokens", lambda s, op=op, pre=pre, post=post: [pre + op, s.choice("a", TOK), s.choice("b", TOK), "\n", post], ["-3"] + ALL)
    for op in [" lda ", " fdb "] + ([" leax ", " tfr ", " pshs ", " fcc ", " m2 ", " eim "] if th else []):
        add("three tokens%s" % op.rstrip(), "three tokens", lambda s, op=op: ["m2 macro\n endm\n", op, s.choice("a", T3), s.choice("b", T3), s.choice("c", T3), "\nla equ 7\n"], ["-3"])
    # ---- extreme values
    EXT = ["0", "1", "-1", "15", "16", "-16", "-17", "31", "32", "63", "64", "65", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65534", "65535", "65536", "-65535", "-65536", "-65537", "131072", "2147483647", "2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "(-9223372036854775807-1)", "-9223372036854775807", "99999999999999999999"]
    E2 = ["0", "1", "-1", "63", "64", "65", "-63", "-64", "65536", "4294967296", "9223372036854775807", "(-9223372036854775807-1)", "1.5", "1e", "0.0", "\"ab\"", "x"]
    KIND = ["lda #%s", "ldx #%s", "ldq #%s", "lda %s", "lda <%s", "lda >%s", "lda %s,x", "lda <<%s,x", "lda <%s,x", "lda >%s,x", "lda [%s,x]", "lda [%s]", "lda %s,pcr", "lda <%s,pcr", "lda %s,w", "bra %s", "lbra %s", "bra *+%s", "lda *+%s,pcr", "fcb %s", "fdb %s", "fqb %s", "fcc %s", "fcs %s", "fcn %s", "fcv %s", "fci %s", "fcb 1,%s", "rmb %s", "rzb %s", "rzb 1,%s", "fill %s,3", "fill 3,%s", "align %s", "align 4,%s", "align %s,1",
            "org %s", "org %s\n nop", "org %s\n rmb 5", "put %s", "put %s\n nop", "setdp %s", "end %s", "if %s\n endif", "export %s", "section %s", "code %s", "include %s", "tfr %s,a", "tfr a,%s", "exg %s,%s", "pshs %s", "tfm %s,y+", "band a,%s,2,3", "band a,1,%s,3", "band a,1,2,%s", "band %s,1,2,3", "aim #%s,1", "aim #1,%s", "aim %s,%s", "ldbt cc,0,7,%s", "m1 %s", "m1 %s,%s", "opt %s", "andcc #%s", "cwai #%s", "jmp %s", "jsr [%s]", "leax %s,y", "ldw %s", "muld %s", "addr %s,a", "nop %s",
            "org $ffff\n fcb %s\n fcb 1", "org $fff0\n rmb %s\n nop", "org %s\nla rmb %s\n lda la,x", "put %s\n org %s\n fcb 1", "section \"x\"\n org %s\n fcb 1\n section \"y\"\n fcb 1", "lda la%s\nla equ 1", "fcb '%s"]
    for f in ["-B", "-D", "-C", "-S", "-H"] if th else ["-B", "-C", "-H"]:
        K = [k for k in KIND] if f == "-B" or th else [k for k in KIND if any(w in k for w in ("org", "rmb", "put", "end", "rzb", "fill", "align", "section"))]
        for part in range(4):
            kk = K[part::4]
            VL = EXT if f == "-B" or th else EXT[::3] + ["65535", "65537"]
            add("values %s %d" % (f, part), "kind of line and value", lambda s, kk=kk, VL=VL: ["m1 macro\nlm equ \\1\n fdb \\2\n endm\n ", *fill(s, kk, VL)], ["-3", f] + ALL)
    OPS = ["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "<", ">", "<=", ">=", "==", "!=", "&&", "||"]
    for part in range(3):
        add("operators %d" % part, "operator and both operands", lambda s, part=part: [" fqb ", s.padl("a", E2), s.choice("o", OPS[part::3]), s.padl("b", E2), "\n"], ["-3"] + ALL)
    add("unary", "operators and operand", lambda s: ["la equ ", s.choice("o", ["-", "~", "!", "+", "--", "-~", "!!", "-1?", "0?", "1.5/", "65535*65536*"]), "(", s.padl("a", E2), ")", s.choice("p", ["", ":1", "?2:3", "+la", "*1.0"]), "\n fqb la\n org la\n"], ["-3"] + ALL)
    # ---- structure
    LINE = ["", " nop", "la", "la nop", "la equ 1", "la equ la", "la set la+1", "la equ lb", "lb equ la", "1 nop", " bra 1b", " bra 1f", " bra la", " lda la,x", "m1 macro", "m1", " m1", " m1 1", " m1 m1", " macro", " endm", "m2 macro", " m2", " m2 \\1", " if 1", " if 0", " if la", " else", " elsif 1", " elsif 0", " elsif nosuch", " endif", " end", " end la", " org $fffe", " org la", " put la", " section \"x\"", " code", " data", " export la", " export m1", " export nosuch",
            " include \"f\"", " include \"in.s\"", " includebin \"f\"", " include \"nosuch\"", " includebin \"d\"", " setdp la", " setdp 0", " align la", " rmb la", " fill 1,la", " rzb la", " fcb *", " fdb la-*", " fcc \"&{1}\"", "\\1 nop", " \\1", " fcb \\1", " bogus", " lda [", "la la la", "* c", " opt la", " exg la,lb", "la macro", "ly equ y"]
    L3 = ["la", "la equ lb", "lb set la+1", " m1 1", "m1 macro", " endm", " if la", " else", " endif", " elsif 1", " end", " org lb", " section \"x\"", " include \"f\"", " export la", " lda la", " bra 1f", "1 nop", " put la", " rmb la", " setdp lb", " fcb \\1"]
    F = {"f": "lf fcb 1\n m1 2\n"}
    D = ("d",)
    add("two lines", "two lines of any kind", lambda s: [s.choice("a", [l + "\n" for l in LINE], pad="\n"), s.choice("b", [l + "\n" for l in LINE], pad="\n"), " nop\n"], ALL, F, unreadable=D)
    add("two lines in a macro", "two lines of any kind", lambda s: [" export m0,la\nm0 macro\n", s.choice("a", [l + "\n" for l in LINE], pad="\n"), s.choice("b", [l + "\n" for l in LINE], pad="\n"), " endm\n m0 5\n m0 la,x\nlb equ 3\n"], ALL, F, unreadable=D)
    add("two lines in a file", "two lines of any kind", lambda s: [" fcb la\n include \"g\"\n if la\n include \"g\"\n endif\n nop\n"], ALL, {"f": F["f"], "g": lambda s: [s.choice("a", [l + "\n" for l in LINE], pad="\n"), s.choice("b", [l + "\n" for l in LINE], pad="\n")]}, unreadable=D)
    add("two lines of two files", "a line of any kind in each of two files", lambda s: [s.choice("a", [l + "\n" for l in LINE], pad="\n")], ALL, {"f": F["f"], "g": lambda s: [s.choice("b", [l + "\n" for l in LINE], pad="\n"), " lda la\n"]}, ins=("in.s", "g"), unreadable=D)
    add("three lines", "three lines", lambda s: [s.choice(n, [l + "\n" for l in (LINE if th and n == "a" else L3)], pad="\n") for n in "abc"] + [" nop\n"], ALL, F, unreadable=D)
    # ---- command lines
    A1 = ["-B", "-D", "-C", "-S", "-H", "-8", "-9", "-3", "-q", "-v", "-o", "-l", "-E", "-s", "-d", "-e", "-P", "--setdp", "--setdp=", "--setdp=x", "--setdp=0x12", "-e0x100", "-ela", "-enosuch", "-P2", "-P0", "-P-1", "-P99999999999", "-Px", "-dla", "-dla=", "-d=1", "-dla=0x", "-dla=99999999999999999999", "-dla=-1", "-d1=1", "--", "-", "", "--bogus", "-z", "nosuch.s", "in.s", "f"]
    A3 = ["-C", "-H", "-o", "-l", "-E", "-s", "-d", "-e", "-P", "--setdp", "la", "in.s", "--", "", "-", "lst"]
    arg = lambda s, n, L: s.choice(n, [a + "\0" for a in L], pad="\0")

    def cmd(name, lists, last=("in.s",)):
        s = Scn(name, what="words of the command line")
        s.file("in.s", "lc nop\n export lc\n fcb lc\n")
        s.file("f", "\n")
        s.argv(*([arg(s, "w%d" % i, L) for i, L in enumerate(lists)] + list(last)))
        s.spec = ENDS
        s.need = ["ends"]
        out.append(s)
    cmd("two words", [A1, A1])
    cmd("three words", [A3, A3, A3] if not th else [A1, A3, A3])
    cmd("last word", [A1], ())
    # ---- sizes
    N = [1, 2, 9, 100, 198, 199, 200, 201, 500, 1999, 2000, 2001, 5000, 8190, 8191, 8192, 8193, 9990, 9999, 10000, 10001, 12000, 16383, 16384, 16385, 20000, 30000]
    SZ = N if th else [1, 200, 2001, 8191, 8192, 10001, 20000]
    for i, (a, m, b) in enumerate([(" fcb ", "(", "1"), (" fcb ", "-", "1"), (" fcb ", "~", "1"), (" fcb ", "[", "1"), (" fcb ", "1+", "1"), (" fcb ", "1?", "1"), (" fcb ", "1?1:", "1"), (" fcb ", "(1+", "1"), (" fcb ", "1,", "1"), (" lda ", ",", "x"), (" fcc \"", "a", "\""), (" fcc \"", "&{1}", "\""), ("l", "a", " nop"), ("", "\\1", " nop"), (" ", "l", " 1"), (" fcb ", "9", ""), (" fcb $", "f", ""), (" fcb 1.", "1", ""), (" fcb l", "a", ""), ("*", "a", ""), (" nop ;", " ", ""), (" nop", "\t", ""), ("", "\n", ""), (" fcb \"", "\\", "\""), (" pshs ", "a,", "b"), (" export ", "la,", "la"), ("m1 macro\n endm\n m1 ", "1,", "1"), ("l equ l", "+1", "")]):
        for n in SZ:
            if len(m) * n > 30000 and not th:
                continue
            s = add("size %d %d" % (i, n), "%r repeated %d times" % (m, n), lambda s, a=a, m=m, b=b, n=n: [a, m * n, b, s.choice("t", ["\n", " ;"]), " nop\n"], ALL, limit=400000000)
    return out


def fill(s, kinds, vals):
    """one variable for the kind and one for the value; the value stands in a symbol"""
    return ["nop\nlv equ ", s.padl("v", vals), "\n", s.choice("k", [" " + k.replace("%s", "lv") + "\n" for k in kinds], pad="\n"), " nop\n"]
