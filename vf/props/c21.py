"""Well-formed output records."""
import z3
from ..scen import *
from .. import fmt
from .c20 import spansof

BOUNDS = ["every 16-bit address and exec address, up to three free data bytes in a record, spans of 1 to 100 bytes (1 to 300, 1000, 65535 in the thorough tier)", "two spans with free addresses; all four record formats"]
FO = list(fmt.READ)


def scenarios(tier):
    out = []
    th = tier != "quick"

    def add(name, what, parts, spec, need=("ok",), args=()):
        s = Scn(name, what=what)
        s.argv(*(list(args(s) if callable(args) else args) + ["-o", "out", "in.s"]))
        s.src(*parts(s))
        s.spec = spec
        s.need = list(need)
        out.append(s)
    lo = lambda t: z3.Extract(15, 0, t)
    H = lambda s, n, k=4: ["$", s.hex(n, k)]

    def good(f, want, exec_):
        """well formed, holds the wanted spans and exec address (None: the format's default)"""
        def fn(r):
            if r.files.get("<stderr>") or "out" not in r.files:
                return False
            c, spans, ex = fmt.READ[f](r.files["out"])
            if c is False:
                return False
            d = exec_
            if d is None:
                d = want[0][0] if f in ("-C", "-D") else 0
            return fmt.fin([c, fmt.eq16(ex, d), fmt.same_image(spans, want)])
        return Pred(fn, "exit 0 and a well-formed file of format %s" % f)

    def each(f):
        F = [f]

        def bytesn(n, k):
            def spec(e):
                o = e.num("o", 64)
                vs = [be(e.num("v%d" % i, 8), 1)[0] for i in range(n)]
                ok = z3.ULE(o + n, 0x10000)
                yield ok, good(f, [(lo(o), vs)], None), "ok"
                yield z3.Not(ok), Fail(), "fail"
            add("bytes%d%s" % (n, f), "%d address digits and %d data bytes free" % (k, n), lambda s: [" org $", s.hex("o", k), "\n fcb ", [x for i in range(n) for x in ([44] if i else []) + T("$", s.hex("v%d" % i, 2))], "\n"], spec, ["ok"], F)
        bytesn(1, 4)
        bytesn(2, 2)
        if th:
            bytesn(3, 1)

        def word(e):
            v = e.num("v", 64)
            yield True, good(f, [(0x12F0, be(v, 4) + [5])], None), "ok"
        add("word" + f, "32 free data bits", lambda s: [" org $12f0\n fqb ", H(s, "v", 8 if th else 5), "\n fcb 5\n"], word, ["ok"], F)

        # lengths: every length 1..
        def lens(tag, what, ns, base):
            def spec(e):
                n = ns[e.idx("n")]
                yield True, good(f, [(base, [0xA5] * (n - 1) + [n & 255])], None), "ok"
            add("%s%s" % (tag, f), "every length %s" % what, lambda s: [" org %d\nla fill $a5," % base, s.padl("n", ["%d" % (n - 1) for n in ns]), "\n fcb *-la+1\n"], spec, ["ok"], F)
        lens("len", "1 to 100", list(range(1, 101)) if th else [1, 2, 16, 30, 31, 32, 33, 34, 48, 62, 63, 64, 65, 66, 80, 95, 96, 97, 98, 100], 0x7FF0)
        if th:
            lens("lenb", "100 to 300", list(range(100, 301)), 0x40)
            lens("lenc", "large", [1000, 4095, 4096, 65535], 1)

        def long(e):
            o, v = e.num("o", 64), be(e.num("v", 8), 1)[0]
            bs = [0] * 31 + [v] + [0] * 31 + [v, v]
            yield True, good(f, [(lo(o), bs)], None), "ok"
        add("long" + f, "address below $1000 and a byte in two records of a span free", lambda s: [" org ", H(s, "o", 3), "\n rzb 31\n fcb ", H(s, "v", 2), "\n rzb 31\n fcb ", H(s, "v", 2), ",", H(s, "v", 2), "\n"], long, ["ok"], F)
        # exec

        def ex(e):
            yield True, good(f, [(0x2000, [1, 2, 3])], lo(e.num("x", 64))), "ok"
        add("exec" + f, "exec address free", lambda s: [" org $2000\n fcb 1,2,3\n end ", H(s, "x"), "\n"], ex, ["ok"], F)
        # two spans
        if f != "-D":
            def two(e):
                a, b = e.num("o", 64), e.num("p", 64)
                x, y = [1, 2], [3]
                ok = z3.ULE(a + 2, 0x10000)
                yield z3.And(ok, z3.ULT(a + 2, b)), good(f, [(lo(a), x), (lo(b), y)], None), "below"
                yield z3.And(ok, a + 2 == b), good(f, [(lo(a), x + y)], None), "joined"
                yield z3.And(ok, z3.ULT(b + 1, a)), good(f, [(lo(b), y), (lo(a), x)], None), "above"
                yield z3.And(ok, b + 1 == a), good(f, [(lo(b), y + x)], None), "joined2"
            add("two" + f, "addresses of two spans free", lambda s: [" org ", H(s, "o"), "\n fcb 1,2\n org ", H(s, "p"), "\n fcb 3\n"], two, ["below", "joined", "above", "joined2"], F)
    for f in FO:
        each(f)
    # DragonDOS limits
    add("limit", "DragonDOS cannot hold 65536 bytes", lambda s: [" org 0\n fcb 1\n org $ffff\n fcb 2\n"], lambda e: iter([(True, Fail(), "fail")]), ["fail"], ["-D"])
    return out
