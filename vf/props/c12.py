"""FCB, FCC, FCN, FCS, FCV, FCI."""
import z3
from ..scen import *

BOUNDS = ["every operation; strings of 1 to 4 free characters (every byte except NUL and line ends), between either delimiter", "every 60-bit number of either sign, floating-point numbers, symbols with integer and string values",
          "up to five operands of mixed kinds; strings of 500 characters across buffer growth, two free characters anywhere in them"]
OPS = ["fcb", "fcc", "fcn", "fcs", "fcv", "fci"]
PRINT = [chr(c) for c in range(32, 127)]
ANY = [chr(c) for c in range(1, 256) if c not in (10, 13)]


def vdg(c, inv):
    z = lambda k: z3.BitVecVal(k, 8)
    r = z3.If(z3.ULT(c, z(0x20)), c, z3.If(z3.ULT(c, z(0x40)), c + 0x40, z3.If(z3.ULT(c, z(0x60)), c, z3.If(c == 0x60, z(0x20), c - 0x60))))
    return z3.If(z3.ULT(c, z(0x80)), r ^ (0x40 if inv else 0), c)


def stored(op, vals):
    """vals: list of ('n', 8-bit term) or ('s', [8-bit terms])"""
    out = []
    t = lambda x: z3.BitVecVal(x, 8) if isinstance(x, int) else x
    for k, v in vals:
        bs = [t(v)] if k == "n" else [t(x) for x in v]
        if op in ("fcv", "fci") and k == "s":
            bs = [vdg(b, op == "fci") for b in bs]
        if op == "fcs":
            bs[-1] = bs[-1] | 0x80
        out += bs
    if op == "fcn":
        out.append(0)
    return [x if isinstance(x, int) else z3.simplify(x) for x in out]


def lo8(t):
    return z3.Extract(7, 0, t)


def scenarios(tier):
    out = []
    th = tier != "quick"

    def add(name, what, parts, spec, need=("ok",), args=()):
        s = Scn(name, what=what)
        s.src(*parts(s), args=args)
        s.spec = spec
        s.need = list(need)
        out.append(s)

    def data(vals):
        def sp(e):
            yield True, Ok(stored(OPS[e.idx("op")], vals(e))), "ok"
        return sp

    def op(s):
        return s.choice("op", OPS)
    for nm, d in (("q", '"'), ("s", "/")):
        dom = [c for c in ANY if c not in d + "\\&"]
        for n in range(1, 7 if th else 5):
            dm = dom if n <= 2 else [c for c in dom if ord(c) >= 32 and ord(c) < 160]
            add("string%d%s" % (n, nm), "operation and every character free", lambda s: [" ", op(s), " ", d, [s.char("c%d" % i, dm) for i in range(n)], d, "\n"],
                data(lambda e, n=n: [("s", [e.raw("c%d" % i) for i in range(n)])]))
        add("escape" + nm, "an escaped character", lambda s: [" ", op(s), " ", d, "x\\", s.char("c", [c for c in ANY if c not in "nr0123456789{"]), "y\\", s.char("e", [c for c in PRINT if c not in "nr0123456789{"]), d, "\n"],
            data(lambda e: [("s", [120, e.raw("c"), 121, e.raw("e")])]))
        add("newline" + nm, "escapes n and r", lambda s: [" ", op(s), " ", d, "\\", s.choice("k", ["n", "r"]), s.char("c", dom[60:120]), "\\", s.choice("l", ["n", "r"]), d, "\n"],
            data(lambda e: [("s", [[10, 13][e.idx("k")], e.raw("c"), [10, 13][e.idx("l")]])]))
        amp = [c for c in PRINT if c not in "0123456789{\\&" + d]
        add("ampersand" + nm, "an ampersand and what follows it", lambda s: [" ", op(s), " ", d, "a&", s.char("c", amp), "&&", s.char("e", [c for c in PRINT if c not in d + "\\&"]), "&", d, "\n"],
            data(lambda e: [("s", [97, 38, e.raw("c"), 38, e.raw("e"), 38])]))
    add("number", "operation, sign, value free", lambda s: [" ", op(s), " ", s.choice("sg", ["", "-"]), "$", s.hex("n", 15), "\n"],
        data(lambda e: [("n", lo8(-e.num("n", 64) if e.idx("sg") else e.num("n", 64)))]))
    add("decimal", "operation, sign, value free", lambda s: [" ", op(s), " ", s.choice("sg", ["", "-"]), s.dec("n", 4, 1), "\n"],
        data(lambda e: [("n", lo8(-e.num("n", 64) if e.idx("sg") else e.num("n", 64)))]))
    add("float", "operation and a floating-point number", lambda s: [" ", op(s), " ", s.choice("sg", ["", "-"]), s.dec("n", 2), s.choice("f", [".9", ".0", ".5"]), "\n"],
        data(lambda e: [("n", lo8(-e.num("n", 64) if e.idx("sg") else e.num("n", 64)))]))
    add("floatdiv", "operation and a quotient", lambda s: [" ", op(s), " $", s.hex("n", 4), "0/16,-$", s.hex("n", 4), "8/16\n"],
        data(lambda e: [("n", lo8(e.num("n", 64))), ("n", lo8(-e.num("n", 64)))]))
    SC = [c for c in PRINT if c not in '"/\\&']
    ch = lambda s, n: s.char(n, SC)

    def mix(pat):
        """pat: sequence of n, s (string), t (slash string)"""
        def parts(s):
            l = [" ", op(s), " "]
            for i, p in enumerate(pat):
                if i:
                    l.append(",")
                if p == "n":
                    l += ["$", s.hex("n%d" % i, 2)]
                elif p == "v":
                    l += ["v%d" % i]
                elif p == "w":
                    l += ["w%d" % i]
                elif p == "s":
                    l += ['"', ch(s, "a%d" % i), ch(s, "b%d" % i), '"']
                else:
                    l += ["/", ch(s, "a%d" % i), "/"]
            l.append("\n")
            for i, p in enumerate(pat):
                if p == "v":
                    l += ["v%d equ $" % i, s.hex("n%d" % i, 4), "\n"]
                elif p == "w":
                    l += ["w%d equ \"" % i, ch(s, "a%d" % i), ch(s, "b%d" % i), '"\n']
            return l

        def vals(e):
            r = []
            for i, p in enumerate(pat):
                if p in "nv":
                    r.append(("n", lo8(e.num("n%d" % i, 64))))
                else:
                    r.append(("s", [e.raw("a%d" % i)] + ([e.raw("b%d" % i)] if p in "sw" else [])))
            return r
        add("mix-" + pat, "operation, numbers and characters free (v, w: symbols defined later)", parts, data(vals))
    for pat in ["nn", "ns", "sn", "tt", "nsn", "snt", "nnnnn", "v", "w", "vw", "wvw", "swn"] + (["nsnsn", "stnst", "stvwn"] if th else []):
        mix(pat)
    add("cond", "a conditional chooses between strings", lambda s: [" ", op(s), " $", s.hex("n", 1), '>7?"', ch(s, "a"), '":"', ch(s, "b"), '"\n'],
        data(lambda e: [("s", [z3.If(z3.UGT(e.num("n", 64), 7), e.raw("a"), e.raw("b"))])]))
    # comment characters and spacing
    add("spaces", "a character between blanks; a comment after", lambda s: [" ", op(s), '  " ', ch(s, "a"), ' ;" ,  "*', ch(s, "b"), '"  ; ', s.char("x", PRINT), "\n"],
        data(lambda e: [("s", [32, e.raw("a"), 32, 59]), ("s", [42, e.raw("b")])]))
    # long data
    L = 500 if th else 270
    body = bytes(33 + (i * 7) % 80 for i in range(L)).replace(b"&", b"(").replace(b"/", b")").replace(b'"', b"'").replace(b"\\", b"[")
    for p in ([0, 127, 128, 129, 255, 256, L - 1] if not th else range(0, L, 9)):
        def parts(s, p=p):
            return [" ", op(s), ' "', body[:p].decode(), ch(s, "a"), body[p + 1:].decode(), '","', ch(s, "b"), '"\n fcb 1,2,3\n']
        add("long%d" % p, "a long string with one character free", parts, (lambda p: lambda e: iter([(True, Ok(stored(OPS[e.idx("op")], [("s", list(body[:p]) + [e.raw("a")] + list(body[p + 1:])), ("s", [e.raw("b")])]) + [1, 2, 3]), "ok")]))(p))
    for n in ([126, 127, 128] if not th else range(120, 136)):
        add("run%d" % n, "a string after %d bytes" % n, lambda s: [" fcb ", ",".join(["9"] * n), "\n ", op(s), ' "', ch(s, "a"), ch(s, "b"), ch(s, "c"), '",$', s.hex("n", 2), "\n"],
            (lambda n: lambda e: iter([(True, Ok([9] * n + stored(OPS[e.idx("op")], [("s", [e.raw("a"), e.raw("b"), e.raw("c")]), ("n", lo8(e.num("n", 64)))])), "ok")]))(n))
    # rejected
    fail = lambda e: iter([(True, Fail(), "fail")])
    add("unterminated", "a string that does not end", lambda s: [" ", op(s), " ", s.choice("d", ['"', "/"]), ch(s, "a"), ch(s, "b"), "\n nop\n"], fail, ["fail"])
    add("mismatch", "delimiters do not match", lambda s: [" ", op(s), " ", s.choice("d", ['"x/', '/x"', '"x', 'x"']), "\n nop\n"], fail, ["fail"])
    add("none", "no operand", lambda s: [" ", op(s), s.choice("k", ["", " ", " ;x"]), "\n"], fail, ["fail"])
    add("kind", "an operand without a value", lambda s: [" ", op(s), " 1,", s.choice("k", ["x", "nosuch", "[1,2]", "x+", "pcr"]), "\n"], fail, ["fail"])
    return out
