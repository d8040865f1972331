"""Literals."""
import z3
from ..scen import *

BOUNDS = ["hexadecimal literals of 1 to 15 digits (either case of every letter up to 4 digits), octal of 1 to 20, binary of 1 to 63, decimal of 1 to 18 digits: every digit string",
          "every printable ASCII character after a quote, with and without closing quote", "floating-point literals of up to 3+1, 2+2 and 1+2 digits, integral floating-point values below 2^40", "strings of up to 6 printable characters used as integers"]
MIX = "0123456789ABCDEFabcdef"
MIXV = list(range(16)) + list(range(10, 16))
PRINT = [chr(c) for c in range(32, 127)]


def mixhex(s, name, n):
    out = []
    for i in range(n):
        v = "%s_%d" % (name, i)
        s.var(v, 5, range(22))
        out.append((v, [ord(c) for c in MIX]))
    return out


def mixval(e, name, n, width=64):
    return z3.ZeroExt(width - 4 * n, z3.Concat([e.tab("%s_%d" % (name, i), MIXV, 4) for i in range(n)])) if n > 1 else z3.ZeroExt(width - 4, e.tab(name + "_0", MIXV, 4))


def scenarios(tier):
    out = []

    def add(name, what, parts, spec, need, args=()):
        s = Scn(name, what=what)
        s.src(*parts(s), args=args)
        s.spec = spec
        s.need = need
        out.append(s)

    def full(e):
        v = e.num("n", 64)
        yield True, Ok(be(z3.Extract(31, 0, z3.LShR(v, 32)), 4) + be(z3.Extract(31, 0, v), 4)), "ok"

    def low(e):
        yield True, Ok(be(z3.Extract(31, 0, e.num("n", 64)), 4)), "ok"

    def lit(name, pre, piece, lens):
        for k, p in enumerate(pre):
            for n in lens:
                for w in ((False, True) if n > 4 else (False,)):
                    add("%s%d%s%s" % (name, n, "w" if w else "", "'" * k), "all %d digits free" % n, lambda s: (lambda l: [" fqb ", ["(", l, ")>>32,", l] if w else l, "\n"])([p, piece(s, n)]), full if w else low, ["ok"])
    th = tier != "quick"
    lit("hex", ["$", "0x"], lambda s, n: s.hex("n", n), range(1, 16) if th else [1, 2, 3, 4, 7, 8, 9, 15])
    lit("hexlow", ["$", "0x"], lambda s, n: s.hex("n", n, "0123456789abcdef"), range(1, 16) if th else [2, 8])
    lit("oct", ["@", "0"], lambda s, n: s.octal("n", n), range(1, 21) if th else [1, 2, 3, 6, 11, 20])
    lit("bin", ["%", "0b"], lambda s, n: s.binary("n", n), range(1, 64) if th else [1, 2, 3, 8, 16, 31, 33, 63])
    lit("dec", [""], lambda s, n: s.dec("n", n, 1), range(1, 19) if th else [1, 2, 3, 5, 6, 10, 15])
    lit("dec0", ["-0+", "1-1+", "+"], lambda s, n: s.dec("n", n, 1), [2])
    for n in (1, 2, 3, 4):
        def sp(e, n=n):
            yield True, Ok(be(z3.Extract(31, 0, mixval(e, "n", n)), 4)), "ok"
        for k, p in enumerate(["$", "0x"]):
            add("mixed%d%s" % (n, "'" * k), "hexadecimal digits in either case", lambda s: [" fqb ", p, mixhex(s, "n", n), "\n"], sp, ["ok"])

    # a literal in each place a number can stand
    P = [" ldx #%s\n", " ldx >%s\n", " ldx %s,y\n", "v equ %s\n ldx #v\n", " org %s\nq ldx #q\n", " ldx #q+%s-q\nq equ 9\n"]
    RAD = [("$", 16, 4), ("@", 8, 5), ("%", 2, 15), ("0x", 16, 4), ("0", 8, 5), ("0b", 2, 15), ("", 10, 4)]
    for pre, base, n in RAD:
        def parts(s, pre=pre, base=base, n=n):
            l = [pre, {16: s.hex, 8: s.octal, 2: s.binary, 10: s.dec}[base]("n", n)] if base != 10 else [s.dec("n", n, 1)]
            return [" ldx #", l, "\nv equ ", l, "\n ldx #v\n put 0\n org ", l, "-", l, "+", l, "\n put 100\nq ldx >q+", l, "\n"]

        def spec(e, n=n):
            v = e.num("n", 64)
            w = be(z3.Extract(15, 0, v), 2)
            yield v <= 0xFFFD, Ok([0x8E] + w + [0x8E] + w + [0] * 94 + [0xBE] + be(z3.Extract(15, 0, v + v), 2)), "ok"
        add("places" + (pre if pre.isalnum() else {"$": "hex", "@": "oct", "%": "bin"}.get(pre, "dec")), "the literal as immediate value, EQU, ORG and address operand", parts, spec, ["ok"])
    # characters
    CHARS = [c for c in range(1, 256) if c not in (10, 13)]
    add("char", "the character free", lambda s: [" fdb '", s.char("c", CHARS), ",'", s.char("c", CHARS), "'\n"],
        lambda e: iter([(True, Ok([0, e.raw("c"), 0, e.raw("c")]), "ok")]), ["ok"])
    add("charexpr", "two characters free, in an expression", lambda s: [" fdb 2*'", s.char("c", CHARS), "'+'", s.char("d", CHARS), "\nv equ '", s.char("c", CHARS), "\n lda #v\n lda #'", s.char("d", CHARS), "\n"],
        lambda e: iter([(True, Ok(be(2 * z3.ZeroExt(8, e.raw("c")) + z3.ZeroExt(8, e.raw("d")), 2) + [0x86, e.raw("c"), 0x86, e.raw("d")]), "ok")]), ["ok"])
    # a digit the radix does not have
    bad = ["$G", "$", "0xg", "0x", "%2", "%12", "0b12", "0b", "@8", "@18", "12a", "1x", "$1g", "1..2", "1.2.3"]
    add("bad", "malformed literals", lambda s: [" fdb ", s.choice("k", bad), "\n"], lambda e: iter([(True, Fail(), "fail")]), ["fail"])
    add("badtail", "a literal directly followed by a letter", lambda s: [" fdb ", s.padl("k", ["$1", "0x1", "%1", "0b1", "@7", "07", "12", "'a'"]), s.char("c", "GHQTYZghqtyz_"), "\n"], lambda e: iter([(True, Fail(), "fail")]), ["fail"])

    # floating point
    def fl(name, a, b, tail=""):
        def parts(s):
            l = [s.dec("a", a) if a else [], ".", s.dec("b", b) if b else []]
            return [" fdb ", l, ",0-", l, "\n ldx #", l, "\n lda #", l, "\n rmb ", l, "-", l, "\n"]

        def spec(e):
            v = e.num("a", 64) if a else bv(0)
            w = be(z3.Extract(15, 0, v), 2)
            n = be(z3.Extract(15, 0, -v), 2)
            yield True, Ok(w + n + [0x8E] + w + [0x86, w[1]]), "ok"
        add(name, "digits of a floating-point literal free", parts, spec, ["ok"])
    for a, b in ((1, 1), (2, 1), (1, 2), (2, 0), (0, 1), (3, 0)) + (((3, 1), (2, 2), (1, 3)) if th else ()):
        fl("float%d.%d" % (a, b), a, b)

    def flm(e):
        a, b = e.num("a", 64), e.num("b", 64)
        yield True, Ok(be(z3.Extract(15, 0, a * 4 + b), 2)), "ok"
    add("floatmul", "a literal with a binary fraction times four", lambda s: [" fdb ", s.dec("a", 2), ".", s.choice("f", ["00", "25", "50", "75"]), "*4\n"],
        lambda e: iter([(True, Ok(be(z3.Extract(15, 0, e.num("a", 64) * 4 + e.idx("f")), 2)), "ok")]), ["ok"])
    # float stored by the byte-sized pseudo-ops
    add("floatbig", "a large floating-point value stored in a byte and in words", lambda s: [" fcb $", s.hex("n", 10), "*1.0\n fdb $", s.hex("n", 10), "*1.0\n fqb $", s.hex("n", 10), "*1.0,0-$", s.hex("n", 10), "*1.0\n"],
        lambda e: iter([(True, Ok(be(z3.Extract(7, 0, e.num("n", 64)), 1) + be(z3.Extract(15, 0, e.num("n", 64)), 2) + be(z3.Extract(31, 0, e.num("n", 64)), 4) + be(z3.Extract(31, 0, -e.num("n", 64)), 4)), "ok")]), ["ok"])

    # strings as integers
    SC = [c for c in PRINT if c not in '"\\&']
    SL = [c for c in PRINT if c not in '/\\&']
    for d, dom in (('"', SC), ("/", SL)):
        for n in range(1, 7):
            def sp(e, n=n):
                t = z3.Concat([z3.BitVecVal(0, 64)] + [e.raw("c%d" % i) for i in range(n)])
                yield True, Ok(be(z3.Extract(31, 0, t), 4) + be(z3.Extract(15, 0, t + 1), 2)), "ok"
            add("string%d%s" % (n, "q" if d == '"' else "s"), "characters of a string free", lambda s: [" fqb ", d, [s.char("c%d" % i, dom) for i in range(n)], d, "\n fdb 1+", d, [s.char("c%d" % i, dom) for i in range(n)], d, "\n"], sp, ["ok"])
    add("stringesc", "an escaped character in a string used as integer", lambda s: [' fdb "a\\', s.char("c", [c for c in PRINT if c not in "nr0123456789{"]), '"\n fdb /a\\', s.char("c", [c for c in PRINT if c not in "nr0123456789{"]), '/\n fdb "\\n\\r"\n'],
        lambda e: iter([(True, Ok([97, e.raw("c"), 97, e.raw("c"), 10, 13]), "ok")]), ["ok"])
    return out
