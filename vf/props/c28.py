"""Different names are different symbols, and each keeps its one value."""
import z3
from ..scen import *

BOUNDS = ["every pair of one-character names; pairs of two- and three-character names over 6 to 8 characters each (with names that collide in the hash); 30-character names that differ in one place, or only in case",
          "tables of up to 240 symbols (across resizing) with a free member looked up", "every ordered pair of %d ways to define a symbol, in five settings, equal or different values" % 14,
          "up to five SETs in a row with free values; symbols with 16-bit, 32-bit, floating-point, string and register values", "-d with every 16-bit number in every notation"]
NOTES = ["names that are registers cannot be symbols", "a reference on a line before the first SET is not covered; a symbol once defined stays defined in later passes", "SET of a symbol also defined by EQU or as a label may be an error (if there is another pass)"]

A1 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_"
REG = set("a b d e f q s u v w x y z A B D E F Q S U V W X Y Z".split())
ONE = [c for c in A1 if c not in REG and c not in "Vv"]


def scenarios(tier):
    out = []
    th = tier != "quick"

    def add(name, what, parts, spec, need=("ok",), args=(), files={}, ins=("in.s",)):
        s = Scn(name, what=what)
        flat = lambda ps: [y for x in ps for y in (x if isinstance(x, list) else [x])]
        s.file("in.s", *flat(parts(s)))
        a = list(args(s) if callable(args) else args)
        s.argv(*(a + ["-o", "out"] + list(ins)))
        for n, t in files.items():
            s.file(n, *(flat(t(s)) if callable(t) else [t]))
        s.spec = spec
        s.need = list(need)
        out.append(s)
        return s
    H = lambda s, n, w=4: ["$", s.hex(n, w)]

    # ---- identity of names
    def two(e, vs):
        d = z3.Or([e.raw(a) != e.raw(b) for a, b in vs])
        yield d, Ok([1, 2]), "ok"
        yield z3.Not(d), Fail(), "fail"
    add("one character", "both characters", lambda s: [s.char("c", ONE), " equ 1\n", s.char("d", ONE), " equ 2\n fcb ", s.char("c", ONE), ",", s.char("d", ONE), "\n"], lambda e: two(e, [("c", "d")]), ["ok", "fail"])
    for nm, pre, L1, L2, post in (("two characters", "", "abABm_", "abAB1.", ""), ("prefixed", "l.", "abABzZ_0", "abABzZ_9", ""), ("trailing", "longname", "aAbBzZ09", "aAbBzZ._", "")):
        N = lambda s, p, L1=L1, L2=L2, pre=pre, post=post: [pre, s.char(p + "1", L1), s.char(p + "2", L2), post] if pre or post else [pre, s.char(p + "1", L1), s.char(p + "2", L2)]
        add(nm, "all four characters", lambda s, N=N: N(s, "c") + [" equ 1\n"] + N(s, "d") + [" equ 2\n fcb "] + N(s, "c") + [","] + N(s, "d") + ["\n"], lambda e: two(e, [("c1", "d1"), ("c2", "d2")]), ["ok", "fail"])
    INF = ["k" + a + b + "end" for a in "nNO_" for b in "o5o_"[:2] + "OI"] + ["knoEnd", "kno", "knoen", "noend", "kknoend", "knoendd"]
    add("infixed", "both names", lambda s: [s.choice("c", INF), " equ 1\n", s.choice("d", INF), " equ 2\n fcb ", s.choice("c", INF), ",", s.choice("d", INF), "\n"], lambda e: iter([(True, *((Fail(), "fail") if e.idx("c") == e.idx("d") else (Ok([1, 2]), "ok")))]), ["ok", "fail"])
    BASE = "abcdefghijklmnopqrstuvwxyz0123"
    VAR = [BASE] + [BASE[:i] + c + BASE[i + 1:] for i in range(len(BASE)) for c in ([BASE[i].upper() if BASE[i].isalpha() else "_"] + (["q"] if BASE[i] != "q" else ["r"]))] + [BASE[:i] for i in range(2, 30, 3)] + [BASE + "x", BASE[1:], BASE * 2, "z" + BASE, BASE[::-1]]
    VAR = [v for v in VAR if not v[0].isdigit() and v.lower() != "pc"]
    add("long names", "name of the second symbol", lambda s: [BASE + " equ 1\n", s.choice("k", VAR), " equ 2\n fcb " + BASE + ",", s.choice("k", VAR), "\n"], lambda e: iter([(True, Fail() if e.idx("k") == 0 else Ok([1, 2]), "fail" if e.idx("k") == 0 else "ok")]), ["ok", "fail"])
    add("near misses", "name that is looked up", lambda s: [BASE + " equ 1\n fcb ", s.choice("k", VAR), "\n"], lambda e: iter([(True, Fail() if e.idx("k") else Ok([1]), "fail" if e.idx("k") else "ok")]), ["ok", "fail"])
    CASES = ["la", "lA", "La", "LA"]
    add("case", "case of every letter of both names", lambda s: [s.case("m", "lab"), " equ 1\n", s.case("n", "lab"), " equ 2\n fcb ", s.case("m", "lab"), ",", s.case("n", "lab"), "\n"],
        lambda e: two(e, [("m_c%d" % i, "n_c%d" % i) for i in range(3)]), ["ok", "fail"])
    add("case of a label", "case of definition, use and option", lambda s: [s.choice("a", CASES), " nop\n ldx #", s.choice("b", CASES), "\n fcb ", s.choice("c", CASES), "\n"], lambda e: iter([(True, cs(e), "ok" if ck(e) else "fail")]), ["ok", "fail"], lambda s: ["-d", "LA=$34"])

    def ck(e):
        return e.idx("a") != 3 and e.idx("b") in (e.idx("a"), 3) and e.idx("c") in (e.idx("a"), 3)

    def cs(e):
        if not ck(e):
            return Fail()
        return Ok([0x12, 0x8E, 0, 0x34 if e.idx("b") == 3 else 0, 0x34 if e.idx("c") == 3 else 0])
    # ---- many symbols
    for n in (10, 40, 120) + ((240,) if th else ()):
        names = ["s%d" % (i * 7) if i % 3 else "N_%s" % chr(97 + i % 26) * (1 + i // 26) for i in range(n)]
        assert len(set(names)) == n
        add("table of %d" % n, "which symbol is used", lambda s, names=names: ["%s equ %d\n" % (x, i) for i, x in enumerate(names)] + [" fcb ", s.choice("k", names), "\n"], lambda e: iter([(True, Ok([e.idx("k")]), "ok")]))
        add("twice in a table of %d" % n, "which symbol is defined again", lambda s, names=names: ["%s equ %d\n" % (x, i) for i, x in enumerate(names)] + [s.choice("k", names), " equ 5\n"], lambda e: iter([(True, Fail(), "fail")]), ["fail"])
    # ---- how it is defined: text, value in a program at $100 (None: fails on its own), SET?
    DEF = [("la equ 5", 0), ("la equ 6", 0), ("la equ lz", 0), ("la nop", 0), ("la", 0), ("la rmb 1", 0), ("la fcb 9", 0), ("la org $200", 0), ("la set 5", 1), ("la set 7", 1), ("la equ \"5\"", 0), ("la fcc \"x\"", 0), ("la align 4", 0), ("la lda #1", 0)]
    for nm, pre, mid, post, args, files in (("plain", "lz equ 5\n", "", "", (), {}), ("apart", "lz equ 5\n", " nop\n", " nop\n", (), {}), ("sections", "lz equ 5\n section \"p\"\n", " section \"q\"\n", "", (), {}), ("late", " lda lz,x\n ldb lw,x\n", " bra lz\n", "lz equ lw\nlw equ 5\n", (), {}), ("included", "lz equ 5\n", " include \"e\"\n", "", (), {"e": " nop\n"})):
        def spec(e):
            ok = DEF[e.idx("b")][1] == 1
            if ok and "a" in e.scn.vars and DEF[e.idx("a")][1] == 0:
                yield True, Ends(), "either"       # SET of a symbol that is not SET elsewhere
                return
            yield True, (Pred(lambda r: True, "accepted") if ok else Fail()), "ok" if ok else "fail"
        add("redefinition, " + nm, "ways to define the symbol twice", lambda s, pre=pre, mid=mid, post=post: [pre, s.choice("a", [d[0] + "\n" for d in DEF], pad="\n"), mid, s.choice("b", [d[0] + "\n" for d in DEF], pad="\n"), post], spec, ["ok", "fail"], args, files)
    add("redefinition of an option", "how the symbol is defined again", lambda s: ["lz equ 5\n", s.choice("b", [d[0] + "\n" for d in DEF], pad="\n")], spec, ["ok", "fail"], lambda s: ["-d", s.choice("v", ["la", "la=5", "la=9"], pad="\0")])
    LATE = [" if lb\nla equ 2\n endif\nlb equ 1\n", " if lb\nla nop\n endif\nlb equ 1\n", " if !lb\n nop\n else\nla equ lb\n endif\nlb equ 1\n", "la equ 1\n if lb\n endif\nlb equ 1\n"]
    add("redefinition of an option, late", "how the symbol is defined again in a branch taken late", lambda s: [s.choice("k", LATE, pad="\n"), " fcb lc\nlc equ 1\n"], lambda e: iter([(True, Fail(), "fail")]), ["fail"], ["-d", "la=1"])
    add("twice by options", "names of two options", lambda s: [" fcb la\n"], lambda e: iter([(True, Fail() if e.idx("p") == 0 else Ok([1]), "fail" if e.idx("p") == 0 else "ok")]), ["ok", "fail"], lambda s: ["-d", "la=1", "-d", s.choice("p", ["la", "lA", "lb", "l"]), "-d", "lc=4"])
    add("in macros", "a symbol whose name is built from arguments, defined by two calls", lambda s: ["m1 macro\nl\\1\\2 equ \\3\n fcb l\\1\\2\n endm\n m1 ", s.choice("a", ["1", "2", "12"]), ",", s.choice("b", ["1", "2", "21"]), ",5\n m1 ", s.choice("c", ["1", "2", "12"]), ",", s.choice("d", ["1", "2", "21"]), ",6\n"],
        lambda e: iter([(True, *((Fail(), "fail") if mn(e, "a", "b") == mn(e, "c", "d") else (Ok([5, 6]), "ok")))]), ["ok", "fail"])

    def mn(e, a, b):
        return ["1", "2", "12"][e.idx(a)] + ["1", "2", "21"][e.idx(b)]
    # ---- values
    W = lambda v: be(v, 4)
    add("one value", "value free, used before and after, in all sections", lambda s: [" fdb la\n section \"p\"\n fdb la\nla equ ", H(s, "v"), "\n fdb la\n section \"q\"\n org 20\n fdb la,la+1\n"], lambda e: iter([(True, Pred(lambda r: True, "assembles"), "ok")]))
    add("32 bits", "a 32-bit value and a 63-bit one", lambda s: ["la equ ", H(s, "v", 8), "\nlb equ (la<<31)+la\n fqb la,lb,lb>>32\n"], lambda e: iter([(True, Ok(W(e.num("v")) + W((e.num("v") << 31) + e.num("v")) + W(((e.num("v") << 31) + e.num("v")) >> 32)), "ok")]))
    add("kinds of value", "kind of value, used in several places, before or after its definition", lambda s: [s.choice("o", ["", " fcb 7\n"], pad="\n"), s.choice("k", [v[0] + v[1] for v in VALS_], pad="\n")], lambda e: iter([(True, Ok(([7] if e.idx("o") else []) + VALS_[e.idx("k")][2]), "ok")]))
    add("chain", "value free through a chain of equates in either order", lambda s: [s.choice("k", ["l1 equ l2\nl2 equ l3\nl3 equ l4\nl4 equ l0\n", "l4 equ l0\nl3 equ l4\nl2 equ l3\nl1 equ l2\n", "l2 equ l3\nl4 equ l0\nl1 equ l2\nl3 equ l4\n"]), "l0 equ ", H(s, "v"), "\n fdb l1,l2,l3,l4,l0\n"], lambda e: iter([(True, Ok(be(e.num("v"), 2) * 5), "ok")]))
    add("namespaces", "macro, section and opcode names are not symbols", lambda s: ["la macro\n fcb 1\n endm\nla equ 2\n la\n fcb la\n section \"lb\"\nlb equ 3\n org 2\n fcb lb\nlda equ 4\n lda #lda\nfcb equ 5\n fcb fcb\n", s.choice("k", ["equ equ 6\n fcb equ\n", "if equ 6\n fcb if\n", "macro equ 6\n fcb macro\n", "end equ 6\n fcb end\n", "CODE equ 6\n fcb CODE\n", "set set 6\n fcb set\n", "nop nop\n", "l.1 equ 6\n fcb l.1\n", "_ equ 6\n fcb _\n", "l_ equ 6\n fcb l_\n"], pad="\n")],
        lambda e: iter([(True, Ok([1, 2, 3, 0x86, 4, 5] + ([0x12] if e.idx("k") == 6 else [6])), "ok")]))
    # ---- SET
    add("set", "values free", lambda s: ["la set ", H(s, "a", 2), "\n fcb la\nla set ", H(s, "b", 2), "\n fcb la,la\nla set la+", H(s, "c", 2), "\n fcb la\nlb equ la\nla set la<<1\n fdb la\nla set ", H(s, "d", 2), "\n fcb la,lb\n"],
        lambda e: iter([(True, Ok(be(e.num("a"), 1) + be(e.num("b"), 1) * 2 + be(e.num("b") + e.num("c"), 1) + be(2 * (e.num("b") + e.num("c")), 2) + be(e.num("d"), 1) + be(e.num("b") + e.num("c"), 1)), "ok")]))
    add("set across passes", "values free, with a forward reference that needs more passes", lambda s: ["la set ", H(s, "a", 2), "\n fcb la\n ldx #lz\nla set la+", H(s, "b", 2), "\n fcb la\n bra lz\nla set la+1\nlz fcb la\n"],
        lambda e: iter([(True, Ok(be(e.num("a"), 1) + [0x8E, 0, 7] + be(e.num("a") + e.num("b"), 1) + [0x20, 0] + be(e.num("a") + e.num("b") + 1, 1)), "ok")]))
    add("set in a macro", "values free, counting calls", lambda s: ["la set ", H(s, "a", 2), "\nm1 macro\nla set la+\\1\n fcb la\n endm\n m1 1\n m1 ", H(s, "b", 2), "\n m1 la\n fcb la\n"],
        lambda e: iter([(True, Ok(be(e.num("a") + 1, 1) + be(e.num("a") + 1 + e.num("b"), 1) + be(2 * (e.num("a") + 1 + e.num("b")), 1) * 2), "ok")]))
    add("set over others", "how the symbol was defined before", lambda s: ["lz equ 5\n", s.choice("a", [d[0] + "\n" for d in DEF if d[1]] + ["la set lz\n", "la set la0\nla0 equ 1\n", "la set 1\nla set 2\n", "la set *\n", " if 0\nla set 1\n endif\n", "* la\n"], pad="\n"), "la set ", H(s, "v", 2), "\n fcb la\n"], lambda e: iter([(True, Pred(lambda r: eq_last(r, e.num("v", 8)), "the last byte is the latest value"), "ok")]))

    def eq_last(r, v):
        f = r.files.get("out")
        return False if not f else eq8(f[-1], v)
    add("set in a condition", "branch chosen and value free", lambda s: ["la set 1\n if ", s.choice("k", ["0", "1", "la", "la-1"]), "\nla set ", H(s, "v", 2), "\n endif\n fcb la\n"], lambda e: iter([(True, Ok(be(e.num("v"), 1) if e.idx("k") in (1, 2) else [1]), "ok")]))
    # ---- -d
    OPT = lambda s, p: ["-d", p]
    add("option hex", "value free", lambda s: [" fqb la\n ldx #la\n"], lambda e: iter([(True, Ok([0, 0] + be(e.num("v"), 2) + [0x8E] + be(e.num("v"), 2)), "ok")]), ["ok"], lambda s: ["-d", ["la=", "0x", s.hex("v", 4)]])
    add("option hex, dollar", "value free, either case", lambda s: [" fqb la\n"], lambda e: iter([(True, Ok(W(e.num("v"))), "ok")]), ["ok"], lambda s: ["-d", ["la=$", s.hex("v", 8, "0123456789abcdef")]])
    add("option decimal", "digits free", lambda s: [" fqb la\n"], lambda e: iter([(True, Ok(W(e.num("v"))), "ok")]), ["ok"], lambda s: ["-d", ["la=", s.dec("v", 5)]])
    add("option octal", "digits free", lambda s: [" fqb la\n"], lambda e: iter([(True, Ok(W(e.num("v"))), "ok")]), ["ok"], lambda s: ["-d", ["la=@", s.octal("v", 6)]])
    for p in ("%", "0b"):
        add("option binary " + p, "digits free", lambda s: [" fqb la\n"], lambda e: iter([(True, Ok(W(e.num("v"))), "ok")]), ["ok"], lambda s, p=p: ["-d", ["la=" + p, s.binary("v", 10)]])
    BADV = ["", "x", "la", "-1", "+1", "5x", "0x", "$", "@", "%", "0xg", "@8", "%2", "0b2", "1 ", " 1", "1.5", "$0x1", "0x0x1", "\"a\"", "1+1", "1=1", "--1", "12a", "@-1", "$ 1"]
    add("option bad", "a value that is no number", lambda s: [" fcb 1\n if la\n nop\n endif\n"], lambda e: iter([(True, Fail(), "fail")]), ["fail"], lambda s: ["-d", ["la="] + s.choice("k", BADV, pad="\0")])
    add("option forms", "how the option is given", lambda s: [" fcb la\n"], lambda e: iter([(True, Ok([[1, 5, 5, 5, 5, 0, 255][e.idx("k")]]), "ok")]), ["ok"], lambda s: [s.choice("k", ["-dla", "-dla=5", "--define=la=5", "--def=la=5", "-qdla=5", "-dla=0", "-dla=0xff"], pad="\0")])
    add("option names", "which of several options defines the symbol used", lambda s: [" fcb ", s.choice("k", ["la", "lA", "l", "la1", "l.a", "lb"]), "\n"], lambda e: iter([(True, Ok([e.idx("k") + 1]) if e.idx("k") < 5 else Fail(), "ok" if e.idx("k") < 5 else "fail")]), ["ok", "fail"], ["-d", "la=1", "-d", "lA=2", "-dl=3", "--define", "la1=4", "-d", "l.a=5"])
    add("option in a condition", "value and where it is used", lambda s: [" if la\n fcb 1\n else\n fcb 2\n endif\n if la==", H(s, "w", 2), "\n fcb 3\n endif\n"], lambda e: ocs(e), ["ok"], lambda s: ["-d", ["la=$", s.hex("v", 2)]])

    def ocs(e):
        v, w = e.num("v"), e.num("w")
        for c, b in ((v == 0, [2]), (v != 0, [1])):
            yield z3.And(c, v == w), Ok(b + [3]), "ok"
            yield z3.And(c, v != w), Ok(b), "ok"
    # ---- exec address given by name
    add("exec name", "which symbol -e names", lambda s: ["la equ $1234\nlA equ $2345\nlb nop\n"], lambda e: iter([(True, Ok([0, 0, 1, 0, 0, 0x12, 0xFF, 0, 0] + [[0x12, 0x34], [0x23, 0x45], [0, 0]][e.idx("k")]) if e.idx("k") < 3 else Fail(), "ok" if e.idx("k") < 3 else "fail")]), ["ok", "fail"], lambda s: ["-C", "-e", s.choice("k", ["la", "lA", "lb", "lB", "LA", "l", "lab"], pad="\0")])
    return out


VALS_ = [("la equ 5\n", " fcb la\n", [5]), (" fcb la\n", "la equ 5\n", [5]), ("la equ -1\n", " fqb la,la>>32\n", [255] * 8), (" fqb la,la>>32\n", "la equ -1\n", [255] * 8), ("la equ 1.5\n", " fcb la*2\n", [3]), (" fcb la*2\n", "la equ 1.5\n", [3]), ("la equ \"ab\"\n", " fcc la,la\n", [97, 98, 97, 98]), (" fcc la\n", "la equ \"ab\"\n", [97, 98]), ("la equ \"ab\"\n", " fdb la\n", [97, 98]), ("la equ \"ab\"\n", " fcb la==\"ab\",la==\"ac\"\n", [1, 0]),
         ("la equ x\n", " lda ,la\n", [0xA6, 0x84]), ("la equ y\n", " tfr la,x\n", [0x1F, 0x21]), ("la equ b\n", " pshs la\n", [0x34, 4]), ("la equ $123456789\n", " fqb la,la>>32\n", [0x23, 0x45, 0x67, 0x89, 0, 0, 0, 1]), ("la equ 7/2\n", " fcb la*2\n", [7]), ("la equ 7.0/2\n", " fcb la*2\n", [7]), ("la equ 'a\n", " fcb la\n", [97]), ("la equ lb\nlb equ \"q\"\n", " fcc la\n", [113]), ("la equ u\nlb equ la\n", " lda ,lb+\n" if False else " lda ,lb\n", [0xA6, 0xC4])]
# floor of 7/2 as the assembler defines division
