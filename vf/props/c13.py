"""FDB, FQB, RZB, FILL, ALIGN."""
import z3
from ..scen import *

BOUNDS = ["FDB, FQB: every 60-bit value of either sign, up to five values, floating-point values, strings, symbols", "RZB and aliases, FILL: every count 0..31 (0..511 in the thorough tier) and selected counts to 65536, every fill value",
          "ALIGN: every alignment 1..64 at every location 0..63, selected larger ones to 4096, every fill value"]


def scenarios(tier):
    out = []
    th = tier != "quick"

    def add(name, what, parts, spec, need=("ok",), args=()):
        s = Scn(name, what=what)
        s.src(*parts(s), args=args)
        s.spec = spec
        s.need = list(need)
        out.append(s)
    fail = lambda e: iter([(True, Fail(), "fail")])
    x = lambda v, w: be(z3.Extract(8 * w - 1, 0, v), w)
    OPS = [("fdb", 2), ("fqb", 4)]

    def op(s):
        return s.choice("op", [o for o, _ in OPS])

    def words(vals):
        def sp(e):
            w = OPS[e.idx("op")][1]
            yield True, Ok([b for v in vals(e) for b in x(v, w)]), "ok"
        return sp
    sgn = lambda e, v, k="sg": -v if e.idx(k) else v
    add("value", "operation, sign, value free", lambda s: [" ", op(s), " ", s.choice("sg", ["", "-"]), "$", s.hex("n", 15), "\n"], words(lambda e: [sgn(e, e.num("n", 64))]))
    add("decimal", "operation, sign, value free", lambda s: [" ", op(s), " ", s.choice("sg", ["", "-"]), s.dec("n", 8, 1), "\n"], words(lambda e: [sgn(e, e.num("n", 64))]))
    add("values", "operation and five values free", lambda s: [" ", op(s), " ", [[["", ",", ",-", ",1+", ","][i], "$", s.hex("n%d" % i, 9)] for i in range(5)], "\n"],
        words(lambda e: [e.num("n0", 64), e.num("n1", 64), -e.num("n2", 64), e.num("n3", 64) + 1, e.num("n4", 64)]))
    add("symbols", "operation and the values of symbols defined before and after", lambda s: ["a1 equ $", s.hex("n0", 10), "\n ", op(s), " a1,b2,*,b2-a1\nb2 equ -$", s.hex("n1", 10), "\n"],
        words(lambda e: [e.num("n0", 64), -e.num("n1", 64), bv(0), -e.num("n1", 64) - e.num("n0", 64)]))
    add("float", "operation and a floating-point value", lambda s: [" ", op(s), " ", s.choice("sg", ["", "-"]), s.dec("n", 2), s.choice("f", [".9", ".0"]), "\n"],
        words(lambda e: [sgn(e, e.num("n", 64))]))
    add("floatmul", "operation and a product with a floating-point value", lambda s: [" ", op(s), " $", s.hex("m", 8), "*1.0\n"], words(lambda e: [e.num("m", 64)]))
    add("floatdiv", "operation and a quotient", lambda s: [" ", op(s), " ", s.choice("sg", ["", "-"]), "$", s.hex("m", 6), "/16\n"], words(lambda e: [sgn(e, z3.LShR(e.num("m", 64), 4))]))
    ch = [chr(c) for c in range(32, 127) if chr(c) not in '"\\&']
    add("string", "operation and a string", lambda s: [" ", op(s), ' "', [s.char("c%d" % i, ch) for i in range(4)], '",1\n'],
        words(lambda e: [z3.ZeroExt(32, z3.Concat([e.raw("c%d" % i) for i in range(4)])), bv(1)]))
    for n in ([125, 126, 127, 128, 254] if not th else list(range(120, 132)) + list(range(250, 260))):
        add("run%d" % n, "words after %d bytes" % n, lambda s: [" rzb %d,9\n " % n, op(s), " $", s.hex("n", 8), ",$", s.hex("m", 8), "\n fcb 7\n"],
            (lambda n: lambda e: iter([(True, Ok([9] * n + [b for v in ("n", "m") for b in x(e.num(v, 64), OPS[e.idx("op")][1])] + [7]), "ok")]))(n))
    add("wkind", "an operand without a value, no operand", lambda s: [" ", op(s), s.choice("k", ["", " ", " x", " 1,nosuch", " [1,2]", " 1,x+", " 2,pcr", " 1/0"]), "\n"], fail, ["fail"])

    # RZB, FILL
    RZ = ["rzb", "zmb", "bsz", "fzb"]

    def counted(count, fill):
        def sp(e):
            yield from count(e, fill(e))
        return sp
    for nm, pre in (("", ["1,$", "$"]),):
        pass
    cd = 3 if th else 2

    def cnt(s, digits="0123456789ABCDEF"):
        # the count decides how much is stored: enumerated by the solver path by path
        return ["$", [(lambda v: (s.vars.get(v) or s.var(v, 4, range(16) if v != "k_0" or cd == 3 and False else range(2), split=True)) and (v, [ord(digits[q]) for q in s.vars[v].vals]))("k_%d" % i) for i in range(cd)]]

    def cval(e):
        r = 0
        for i in range(cd):
            r = r * 16 + e.idx("k_%d" % i)
        return r
    add("rzb", "operation and count free", lambda s: [" fcb 1\n ", s.choice("op", RZ), " ", cnt(s), "\n fcb 2\n"], lambda e: iter([(True, Ok([1] + [0] * cval(e) + [2]), "ok")]))
    add("rzbfill", "operation, count and value free", lambda s: [" fcb 1\n ", s.choice("op", RZ), " ", cnt(s), ",", s.choice("sg", ["", "-"]), "$", s.hex("n", 3), "\n fcb 2\n"],
        lambda e: iter([(True, Ok([1] + be(z3.Extract(7, 0, sgn(e, e.num("n", 64))), 1) * cval(e) + [2]), "ok")]))
    add("fill", "count and value free", lambda s: [" fcb 1\n fill ", s.choice("sg", ["", "-"]), "$", s.hex("n", 3), ",", cnt(s), "\n fcb 2\n"],
        lambda e: iter([(True, Ok([1] + be(z3.Extract(7, 0, sgn(e, e.num("n", 64))), 1) * cval(e) + [2]), "ok")]))
    add("rzbsym", "the count is a symbol defined later", lambda s: [" rzb k\n fdb *\nk equ ", cnt(s), "\n"], lambda e: iter([(True, Ok([0] * cval(e) + be(bv(cval(e), 16), 2)), "ok")]))
    BIG = [127, 128, 129, 255, 256, 257, 1000, 4095] + ([32767, 65534] if th else [])
    add("big", "selected counts, value free", lambda s: [" fill $", s.hex("n", 2), ",", s.choice("k", map(str, BIG)), "\n fcb 2\n"],
        lambda e: iter([(True, Ok(be(z3.Extract(7, 0, e.num("n", 64)), 1) * BIG[e.idx("k")] + [2]), "ok")]))
    add("negative", "operation and a negative count", lambda s: [" ", s.choice("op", ["rzb ", "zmb ", "bsz ", "fzb ", "fill 1,"]), "-", s.dec("n", 2, 1), "\n"], fail, ["fail"])
    add("huge", "operation and a count over 65536", lambda s: [" ", s.choice("op", ["rzb ", "zmb ", "bsz ", "fzb ", "fill 1,"]), "$", s.choice("h", ["10001", "20000", "100000000", "7FFFFFFFFFFFFFFF", "FFFFFFF0"]), "\n"], fail, ["fail"])
    add("args", "wrong number or kind of operands", lambda s: [" ", s.choice("k", ["rzb", "rzb 1,2,3", "fill 1", "fill", "fill 1,2,3", "align", "align 1,2,3", "rzb x", "fill x,1", "fill 1,x", "align x", "rzb nosuch", "align nosuch", "rzb [1,2]", "rzb 1,y"]), "\n"], fail, ["fail"])

    # ALIGN
    AL = list(range(1, 65)) if th else [1, 2, 3, 4, 5, 7, 8, 10, 16, 33, 64]
    P = list(range(0, 66)) if th else [0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65]

    def al(e):
        a, p = AL[e.idx("a")], P[e.idx("p")]
        return a, p, -p % a
    add("align", "alignment and location from lists", lambda s: [" rzb ", s.choice("p", map(str, P)), "\n align ", s.choice("a", map(str, AL)), "\nq fdb q\n"],
        lambda e: iter([(lambda a, p, k: (True, Ok([0] * (p + k) + be(bv(p + k, 16), 2)), "ok"))(*al(e))]))
    add("alignfill", "alignment and location from lists, fill value free", lambda s: [" rzb ", s.choice("p", map(str, P)), "\n align ", s.choice("a", map(str, AL)), ",", s.choice("sg", ["", "-"]), "$", s.hex("n", 3), "\nq fdb q\n"],
        lambda e: iter([(lambda a, p, k: (True, Ok([0] * p + be(z3.Extract(7, 0, sgn(e, e.num("n", 64))), 1) * k + be(bv(p + k, 16), 2)), "ok"))(*al(e))]))

    def algen(k):
        pow2 = k & (k - 1) == 0
        base = 0 if pow2 else max(0, 0xFFFF - 0xFFFF % k - 0x80) if k > 16 else 0x1000

        def parts(s):
            return [" org $", s.hex("o", 4) if pow2 else ["%X+$" % base, s.hex("o", 2)], "\n align $%X\nq fdb q\n" % k]

        def spec(e):
            o = e.num("o", 64) + base
            if pow2:
                r = (o + (k - 1)) & ~(k - 1)
            else:
                r = bv(base + (-base % k))
                for j in range(1, 256 // k + 2):
                    r = z3.If(z3.UGT(o, base + (-base % k) + (j - 1) * k), bv(base + (-base % k) + j * k), r)
            yield r <= 0xFFFE, Ok(be(z3.Extract(15, 0, r), 2)), "ok"
            yield r > 0xFFFE, Fail(), "fail"
        add("alignany%d" % k, "location free", parts, spec, ["ok", "fail"] if pow2 or k > 256 else ["ok"])
    for k in (2, 16, 256, 3, 1000, 4096) + ((5, 7, 10, 64, 100, 32768) if th else ()):
        algen(k)

    def alfill(k, lo):
        # the padding is stored byte by byte; addresses near the boundary
        def parts(s):
            return [" org $%X+" % lo, s.dec("o", 1), "\np align %d,$" % k, s.hex("n", 2), "\nq fdb q,p\n"]

        def spec(e):
            for o in e.dom["o_0"] if "o_0" not in e.fixed else [e.fixed["o_0"]]:
                a = lo + o
                r = a + (-a % k)
                f = be(z3.Extract(7, 0, e.num("n", 64)), 1)
                yield e.raw("o_0") == o, Ok(f * (r - a) + be(bv(r, 16), 2) + be(bv(a, 16), 2)), "ok"
        add("alignfill%d" % k, "location near a multiple and fill value free", parts, spec)
    for k, lo in ((256, 0x12F8), (3, 0x1000), (128, 0x7FFC), (16, 0xFF0)):
        alfill(k, lo)
    # aligning depends on the location counter, not on where the data is put
    add("alignput", "location and PUT address free", lambda s: [" org $", s.hex("o", 3), "\n put $", s.hex("p", 3), "\n align 16\nq fdb q\n"],
        lambda e: iter([(True, Ok(be(z3.Extract(15, 0, (e.num("o", 64) + 15) & ~15), 2)), "ok")]))
    add("alignbad", "alignment zero or negative", lambda s: [" fcb 1\n align ", s.choice("k", ["0", "-1", "-256", "1-1", "0.5"]), s.choice("f", ["", ",1"]), "\n fcb 2\n"], fail, ["fail"])
    # operands of other kinds
    KD = [(" rzb 4/2", [0, 0]), (" rzb 2.9,7/2", [3, 3]), (" fill 9/2,2.5", [4, 4]), (" fill \"a\",2", [97, 97]), (" fill 1,\"a\"-95", [1, 1]), (" align 9/2,3/2", [1, 1, 1]), (" align 4.9,\"c\"", [99, 99, 99]), (" fdb 601/2", [1, 44]), (" fdb -1.5,lf", [255, 255, 0, 4]), (" fqb \"abcde\",7/2", [98, 99, 100, 101, 0, 0, 0, 3]), (" fill lg,lf", [114] * 4), (" bsz lf", [0] * 4), (" rzb 0.9", []), (" align lf,lg", [114] * 3), (" fill 0.5,1.5", [0])]
    add("kinds", "values and counts that are quotients, floating-point values, strings", lambda s: [" fcb $", s.hex("v", 2), "\n", s.choice("k", [k for k, _ in KD]), "\n fcb $", s.hex("v", 2), "\nlf equ 4.5\nlg equ \"qr\"\n"],
        lambda e: iter([(True, Ok(be(e.num("v", 8), 1) + KD[e.idx("k")][1] + be(e.num("v", 8), 1)), "ok")]), ["ok"])
    return out
