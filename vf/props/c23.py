"""Overlapping data and data outside the address space."""
import itertools
import z3
from ..scen import *
from .. import fmt
from .c14 import placed, PL

BOUNDS = ["two spans with both 16-bit addresses free and lengths of 1 to 4 bytes, three spans with free addresses within 64 bytes, placed by ORG, PUT, sections or RMB", "every statement kind crossing $FFFF, by ORG and by PUT, at every address; all five formats"]
FO = list(fmt.FMT)
SPARSE = ["-C", "-S", "-H"]


def scenarios(tier):
    out = []
    th = tier != "quick"

    def add(name, what, parts, spec, need=("ok",), args=()):
        s = Scn(name, what=what)
        s.argv(*(list(args(s) if callable(args) else args) + ["-o", "out", "in.s"]))
        s.src(*parts(s))
        s.spec = spec
        s.need = list(need)
        out.append(s)
    lo = lambda t: z3.Extract(15, 0, t)
    W = lambda t: be(lo(t), 2)
    H = lambda s, n, k=4: ["$", s.hex(n, k)]
    C = ["-C"]
    BITS = {1: [7], 2: [7, 8], 3: [7, 8, 9], 4: [7, 8, 9, 10]}

    # two spans, every pair of lengths
    def two(how, parts, sp):
        for m, n in ((1, 1), (1, 3), (4, 2)) if not th else itertools.product((1, 2, 4), repeat=2):
            def spec(e, m=m, n=n):
                yield from placed([(e.num("o", 64), BITS[m]), (e.num("p", 64), [x + 16 for x in BITS[n]])])
            d = lambda k, z: "fcb " + ",".join(str(x + z) for x in BITS[k])
            add("two %s %d %d" % (how, m, n), "both addresses free, %s" % how, lambda s, m=m, n=n: parts(s, d(m, 0), d(n, 16)), spec, PL, C)
    two("org", lambda s, a, b: [" org ", H(s, "o"), "\n ", a, "\n org ", H(s, "p"), "\n ", b, "\n"], None)
    two("sections", lambda s, a, b: [" org ", H(s, "o"), "\n ", a, "\n data\n org ", H(s, "p"), "\n ", b, "\n"], None)
    two("put", lambda s, a, b: [" put ", H(s, "o"), "\n ", a, "\n put ", H(s, "p"), "\n ", b, "\n"], None)
    if th:
        two("files", lambda s, a, b: [" section \"x\"\n put ", H(s, "o"), "\n ", a, "\n section \"y\"\n org ", H(s, "p"), "\n ", b, "\n"], None)

    # reserved bytes are no data: an ORG back into them is fine
    def rmb(e):
        o, n = e.num("o", 64), e.num("n", 64)
        # data at 0,1 ; rmb n ; data at 2+n ; then org o, one byte
        q = 2 + n
        ok = z3.ULE(q + 1, 0x10000)
        free = z3.And(z3.UGT(o, 2), z3.ULT(o, q))
        f = fmt.coco
        yield z3.And(ok, free, o + 1 != q), Ok(f([(0, [1, 2]), (lo(o), [4]), (lo(q), [3])])), "inside"
        yield z3.And(ok, o == 2, q != 2, q != 3), Ok(f([(0, [1, 2, 4]), (lo(q), [3])])), "joined"
        yield z3.And(ok, z3.UGT(o, q + 1), q != 2), Ok(f([(0, [1, 2]), (lo(q), [3]), (lo(o), [4])])), "after"
        yield z3.And(ok, z3.Or(z3.ULT(o, 2), o == q)), Fail(), "overlap"
        yield z3.Not(ok), Fail(), "fail"
    add("rmb", "length of a reserved area and address of a piece free", lambda s: [" fcb 1,2\n rmb ", H(s, "n"), "\n fcb 3\n org ", H(s, "o"), "\n fcb 4\n"], rmb, ["inside", "joined", "after", "overlap", "fail"], C)

    # three spans close together, any format
    def three(e):
        a, b, c = [e.num(x, 64) for x in "opq"]
        x, y, z = [1, 2], [3], [4, 5, 6]
        ov = lambda u, m, v, n: z3.And(z3.ULT(u, v + n), z3.ULT(v, u + m))
        bad = z3.Or(ov(a, 2, b, 1), ov(a, 2, c, 3), ov(b, 1, c, 3))
        yield bad, Fail(), "overlap"
        yield z3.Not(bad), Pred(lambda r: len(r.files.get("<stderr>", [])) == 0, "exit 0, nothing reported"), "ok"
    add("three", "three pieces of 1 to 3 bytes at free addresses within 16 bytes, all formats", lambda s: [" org $012", s.hex("o", 1), "\n fcb 1,2\n org $012", s.hex("p", 1), "\n fcb 3\n org $012", s.hex("q", 1), "\n fcb 4,5,6\n"], three, ["ok", "overlap"], lambda s: [s.choice("f", FO if th else ["-C", "-B"])])

    # overlap is an error in every format, whatever is between
    def every(e):
        k = e.idx("k")
        o = e.num("o", 64)
        n = [1, 2, 127, 128, 129, 300][k]
        bad = z3.And(z3.UGE(o, 0x100), z3.ULT(o, 0x100 + n))
        yield bad, Fail(), "overlap"
        yield z3.Not(bad), Pred(lambda r: len(r.files.get("<stderr>", [])) == 0, "exit 0, nothing reported"), "ok"
    for f in SPARSE:
        add("every" + f, "length of the first and address of the second piece free", lambda s: [" org $100\n rzb ", s.choice("k", ["1", "2", "127", "128", "129", "300"]), "\n org $", s.hex("o", 4), "\n fcb 9\n"], every, ["overlap", "ok"], [f])
    add("flat", "address of the second piece free in $00F0..$01FF", lambda s: [" org $100\n rzb ", s.choice("k", ["1", "2", "127", "128", "129"]), "\n org $01", s.hex("o", 2), "\n fcb 9\n"],
        lambda e: iter([(e.num("o", 64) < [1, 2, 127, 128, 129][e.idx("k")], Fail(), "overlap"), (z3.Not(z3.ULT(e.num("o", 64), [1, 2, 127, 128, 129][e.idx("k")])), Pred(lambda r: len(r.files.get("<stderr>", [])) == 0, "exit 0, nothing reported"), "ok")]), ["overlap", "ok"], lambda s: [s.choice("f", ["-B", "-D"])])

    # running into data that is already there, across several statements
    def into(e):
        p = e.num("p", 64)
        # 12 bytes by several statements from p; a byte at $2000
        bad = z3.And(z3.ULE(p, 0x2000), z3.UGT(p + 12, 0x2000))
        top = z3.UGT(p + 12, 0x10000)
        yield z3.Or(bad, top), Fail(), "fail"
        yield z3.Not(z3.Or(bad, top)), Pred(lambda r: len(r.files.get("<stderr>", [])) == 0, "exit 0, nothing reported"), "ok"
    add("into", "address of a run of statements free, all sparse formats", lambda s: [" org $2000\n fcb 1\n org ", H(s, "p"), "\n ldy #5\n nop\n fdb 1\n fcc /abc/\n rzb 2\n"], into, ["fail", "ok"], lambda s: [s.choice("f", SPARSE)])

    # the end of the address space
    STM = [("nop", 1), ("ldx #5", 3), ("ldy $1234", 4), ("lbra *", 3), ("lda 500,x", 4), ("leax *+5,pcr", 3), ("pshs a", 2), ("tfr a,b", 2), ("fcb 1", 1), ("fcb 1,2,3", 3), ("fdb 1", 2), ("fqb 1", 4), ("fcc /ab/", 2), ("fcn /a/", 2), ("rzb 3", 3), ("fill 1,5", 5), ("rzb 300", 300)]
    ST = [x for x in STM if x[1] < 300]

    def end(e, base):
        o, n = e.num("o", 64) + base, ST[e.idx("k")][1]
        ok = z3.ULE(o + n, 0x10000)
        yield ok, Pred(lambda r: len(r.files.get("<stderr>", [])) == 0 and len(r.files["out"]) == 10 + n, "exit 0, %d bytes" % n), "ok"
        yield z3.Not(ok), Fail(), "fail"
    add("end org", "statement and address in $FF00..$FFFF free", lambda s: [" org $ff", s.hex("o", 2), "\n ", s.choice("k", [t for t, _ in ST]), "\n"], lambda e: end(e, 0xFF00), ["ok", "fail"], C)
    add("end put", "statement and address in $FF00..$FFFF free", lambda s: [" org $100\n put $ff", s.hex("o", 2), "\n ", s.choice("k", [t for t, _ in ST]), "\n"], lambda e: end(e, 0xFF00), ["ok", "fail"], C)
    # both limits: ORG counts as well as PUT
    def both(e):
        o, p = e.num("o", 64), e.num("p", 64)
        ok = z3.And(z3.ULE(o + 3, 0x10000), z3.ULE(p + 3, 0x10000))
        yield ok, Ok(fmt.coco([(lo(p), [1, 2, 3])])), "ok"
        yield z3.Not(ok), Fail(), "fail"
    add("both", "ORG and PUT address free", lambda s: [" org ", H(s, "o"), "\n put ", H(s, "p"), "\n fcb 1,2,3\n"], both, ["ok", "fail"], C)
    # addresses that are no addresses
    def orgbig(e):
        o = e.num("o", 64)
        ok = z3.ULE(o, 0xFFFF)
        yield ok, Ok(fmt.coco([(lo(o), [1])])), "ok"
        yield z3.Not(ok), Fail(), "fail"
    add("orgbig", "ORG address of 24 bits free", lambda s: [" org $", s.hex("o", 6), "\n fcb 1\n"], orgbig, ["ok", "fail"], C)
    add("putbig", "PUT address of 24 bits free", lambda s: [" put $", s.hex("o", 6), "\n fcb 1\n"], orgbig, ["ok", "fail"], C)
    add("orgneg", "negative ORG address", lambda s: [" org -", s.dec("o", 5, 1), "\n fcb 1\n"], lambda e: iter([(True, Fail(), "fail")]), ["fail"], C)
    add("putneg", "negative PUT address", lambda s: [" put -", s.dec("o", 5, 1), "\n fcb 1\n"], lambda e: iter([(True, Fail(), "fail")]), ["fail"], C)

    def rmbout(e):
        o, n = e.num("o", 64), e.num("n", 64)
        ok = z3.ULE(o + n + 1, 0x10000)
        yield ok, Ok(fmt.coco([(lo(o + n), [1])])), "ok"
        yield z3.Not(ok), Fail(), "fail"
    add("rmbout", "ORG address and RMB count free", lambda s: [" org ", H(s, "o"), "\n rmb ", H(s, "n"), "\n fcb 1\n"], rmbout, ["ok", "fail"], C)
    # sections that follow one another
    add("follow", "ORG of the first section free, the second follows it", lambda s: [" org $ff", s.hex("o", 2), "\n fcb 1\n data\n fcb 2,3\n code\n fcb 4\n"],
        lambda e: iter([(z3.ULE(e.num("o", 64), 0xFC), Ok(fmt.coco([(lo(e.num("o", 64) + 0xFF00), [1, 4, 2, 3])])), "ok"), (z3.UGT(e.num("o", 64), 0xFC), Fail(), "fail")]), ["ok", "fail"], C)
    # nothing overlaps when a section is only continued elsewhere
    add("same", "the same address twice", lambda s: [" org $", s.hex("o", 4), "\n fcb 1\n ", s.choice("k", ["org", "put"]), " $", s.hex("o", 4), "\n fcb ", s.choice("v", ["1", "2"]), "\n"], lambda e: iter([(True, Fail(), "fail")]), ["fail"], lambda s: [s.choice("f", FO)])
    return out
