"""ORG, PUT, RMB, labels, *."""
import z3
from ..scen import *
from .. import fmt

BOUNDS = ["every ORG and PUT address 0..$FFFF (16 bits free), RMB counts 0..$FFFF", "up to three ORGs, two PUTs and eight statements; instructions of every length; two free placements in either order, adjacent, apart or overlapping"]

INS = [("nop", [0x12]), ("lda #1", [0x86, 1]), ("ldx #1", [0x8E, 0, 1]), ("ldy #1", [0x10, 0x8E, 0, 1]), ("lda 300,x", [0xA6, 0x89, 1, 0x2C]), ("ldy 300,x", [0x10, 0xAE, 0x89, 1, 0x2C]), ("fcb 1,2,3,4,5,6,7", [1, 2, 3, 4, 5, 6, 7]), ('fcc "abc"', [97, 98, 99]), ("fqb 1,2", [0, 0, 0, 1, 0, 0, 0, 2]), ("rzb 9", [0] * 9), ("fcn /ab/", [97, 98, 0])]


def placed(spans, f=fmt.coco, exec_=None):
    """outcomes for two spans with free addresses (17-bit ints as 64-bit terms): (cond, Outcome, label)"""
    (a, x), (b, y) = spans
    m, n = len(x), len(y)
    lo = lambda t: z3.Extract(15, 0, t)
    fits = z3.And(z3.ULE(a + m, 0x10000), z3.ULE(b + n, 0x10000))
    yield z3.And(fits, z3.ULT(a + m, b)), Ok(f([(lo(a), x), (lo(b), y)], exec_)), "below"
    yield z3.And(fits, a + m == b), Ok(f([(lo(a), x + y)], exec_)), "joined"
    yield z3.And(fits, z3.ULT(b + n, a)), Ok(f([(lo(b), y), (lo(a), x)], exec_)), "above"
    yield z3.And(fits, b + n == a), Ok(f([(lo(b), y + x)], exec_)), "joined2"
    yield z3.Or(z3.Not(fits), z3.And(z3.ULT(a, b + n), z3.ULT(b, a + m))), Fail(), "fail"


PL = ["below", "joined", "above", "joined2", "fail"]


def scenarios(tier):
    out = []
    th = tier != "quick"

    def add(name, what, parts, spec, need=("ok",), args=()):
        s = Scn(name, what=what)
        s.src(*parts(s), args=args)
        s.spec = spec
        s.need = list(need)
        out.append(s)
    fail = lambda e: iter([(True, Fail(), "fail")])
    S = ["-C"]
    lo = lambda t: z3.Extract(15, 0, t)
    W = lambda t: be(lo(t), 2)
    H = lambda s, n, k=4: ["$", s.hex(n, k)]

    # labels and * through a sequence of statements
    def seq(e):
        o = e.num("o", 64)
        i, j = INS[e.idx("i")][1], INS[e.idx("j")][1]
        b = o + len(i)
        c = b + 6
        d = c + len(j)
        data = i + W(b) + W(b) + W(o) + j + W(d) + W(c) + W(o) + W(d)
        ok = z3.ULE(o + len(data), 0x10000)
        yield ok, Ok(fmt.coco([(lo(o), data)])), "ok"
        yield z3.Not(ok), Fail(), "fail"
    names = [t for t, _ in INS]
    add("sequence", "ORG address and two statements free", lambda s: ["lo org ", H(s, "o"), "\nla ", s.choice("i", names), "\nlb fdb lb,*,la\nlc ", s.choice("j", names), "\n fdb *,lc,lo,ld\nld equ *-8\n"],
        lambda e: seq(e), ["ok", "fail"], S)

    def org2(e):
        yield from placed([(e.num("o", 64), W(e.num("o", 64)) + [1]), (e.num("p", 64), W(e.num("p", 64)) + W(e.num("o", 64)) + W(e.num("p", 64) + 4))])
    add("org2", "two ORG addresses free", lambda s: [" org ", H(s, "o"), "\nla fdb *\n fcb 1\n org ", H(s, "p"), "\nlb fdb lb,la\nlc fdb lc\n"],
        lambda e: org2(e), PL, S)

    def put(e):
        o, p = e.num("o", 64), e.num("p", 64)
        data = W(o) + W(o) + [0xBE] + W(o + 7) + W(o + 7)
        ok = z3.And(z3.ULE(o + 9, 0x10000), z3.ULE(p + 9, 0x10000))
        yield ok, Ok(fmt.coco([(lo(p), data)])), "ok"
        yield z3.Not(ok), Fail(), "fail"
    add("put", "ORG and PUT address free", lambda s: ["lo org ", H(s, "o"), "\n put ", H(s, "p"), "\nla fdb la,lo\n ldx >lb\nlb fdb *\n"], put, ["ok", "fail"], S)

    def put2(e):
        # code at $100, moved to p; a second piece follows in address but is put at q
        p, q = e.num("p", 64), e.num("q", 64)
        yield from placed([(p, [1, 0, 1, 1, 1]), (q, [1, 5, 1, 8, 1, 7])])
    add("put2", "two PUT addresses free", lambda s: [" org $100\n put ", H(s, "p"), "\nla fdb la\n fcb 1\n fdb 257\n put ", H(s, "q"), "\nlb fdb lb\n fdb lb+3,*\n"],
        put2, PL, S)

    def putorg(e):
        # ORG after PUT places again at its own address
        p, o = e.num("p", 64), e.num("o", 64)
        yield from placed([(p, [2, 0]), (o, W(o))])
    add("putorg", "PUT, then ORG; both addresses free", lambda s: [" org $200\n put ", H(s, "p"), "\n fdb *\n org ", H(s, "o"), "\n fdb *\n"], putorg, PL, S)
    # a piece before PUT, the location counter running on
    def putmid(e):
        o, p = e.num("o", 64), e.num("p", 64)
        ok = z3.ULE(o + 4, 0x10000)
        for c, oc, l in placed([(o, W(o)), (p, W(o + 2))]):
            if l == "fail":
                yield z3.Or(c, z3.Not(ok)), oc, l
            else:
                yield z3.And(c, ok), oc, l
    add("putmid", "PUT after data; ORG and PUT address free", lambda s: [" org ", H(s, "o"), "\n fdb *\n put ", H(s, "p"), "\n fdb *\n"], putmid, PL, S)

    # RMB
    def rmb(e):
        o, n = e.num("o", 64), e.num("n", 64)
        b = o + 2 + n
        ok = z3.ULE(b + 8, 0x10000)
        z = z3.And(ok, n == 0)
        yield z, Ok(fmt.coco([(lo(o), W(o + 2) + W(b) + W(b) + W(b) + W(o + 2))])), "zero"
        yield z3.And(ok, n != 0), Ok(fmt.coco([(lo(o), W(o + 2)), (lo(b), W(b) + W(b) + W(b) + W(o + 2))])), "ok"
        yield z3.Not(ok), Fail(), "fail"
    add("rmb", "ORG address and RMB count free", lambda s: [" org ", H(s, "o"), "\n fdb lr\nlr rmb ", H(s, "n"), "\nlb fdb *,lb,lc,lr\nlc equ lb\n"], rmb, ["zero", "ok", "fail"], S)

    def rmb2(e):
        m, n = e.num("m", 64), e.num("n", 64)
        yield True, Ok(fmt.coco([(0, W(m) + W(m + n) + W(m + n + 1))])), "ok"
    add("rmb2", "two RMB counts free, no data in between", lambda s: [" org 0\n rmb 0\n fdb lb,lc,ld\n org 0\nla rmb ", H(s, "m"), "\nlb rmb ", H(s, "n"), "\nlc rmb 1\nld\n"],
        rmb2, ["ok"], S)

    def rmbput(e):
        p, n = e.num("p", 64), e.num("n", 64)
        q = p + 1 + n
        ok = z3.And(z3.ULE(q + 2, 0x10000), z3.ULE(0x303 + n, 0x10000))
        yield z3.And(ok, n != 0), Ok(fmt.coco([(lo(p), [9]), (lo(q), W(0x301 + n))])), "ok"
        yield z3.And(ok, n == 0), Ok(fmt.coco([(lo(p), [9, 3, 1])])), "zero"
        yield z3.Not(ok), Fail(), "fail"
    add("rmbput", "PUT address and RMB count free", lambda s: [" org $300\n put ", H(s, "p"), "\n fcb 9\n rmb ", H(s, "n"), "\n fdb *\n"], rmbput, ["ok", "zero", "fail"], S)
    # binary output: the gap is zero-filled
    add("gap", "RMB count free, raw binary", lambda s: [" fcb 1\n rmb ", s.choice("k", map(str, range(0, 300, 1 if th else 23))), "\n fdb *\n"],
        lambda e: iter([(lambda k: (True, Ok([1] + [0] * k + W(bv(k + 1))), "ok"))(range(0, 300, 1 if th else 23)[e.idx("k")])]))
    add("rmbbad", "a negative or huge count", lambda s: [" fcb 1\n rmb ", s.choice("k", ["-1", "-65536", "$10001", "$7FFFFFFFFFFFFFFF", "nosuch", "x"]), "\n fcb 2\n"], fail, ["fail"])
    # expressions and forward references
    def fwd(e):
        o, d = e.num("o", 64), e.num("d", 64)
        a = o + d
        ok = z3.ULE(a + 6, 0x10000)
        yield ok, Ok(fmt.coco([(lo(a), W(a) + W(a + 4) + W(a + 4))])), "ok"
        yield z3.Not(ok), Fail(), "fail"
    add("forward", "ORG address and offset defined later", lambda s: ["la org base+off\n fdb la,lb\nlb fdb *\nbase equ ", H(s, "o"), "\noff equ ", H(s, "d", 3), "\n"], fwd, ["ok", "fail"], S)

    def star(e):
        o, d = e.num("o", 64), e.num("d", 64)
        yield from placed2(o, d)

    def placed2(o, d):
        a, b = o + 2, o + 2 + d
        ok = z3.ULE(b + 2, 0x10000)
        yield z3.And(ok, d == 0), Ok(fmt.coco([(lo(o), W(o) + W(b))])), "zero"
        yield z3.And(ok, d != 0), Ok(fmt.coco([(lo(o), W(o)), (lo(b), W(b))])), "ok"
        yield z3.Not(ok), Fail(), "fail"
    add("orgstar", "ORG relative to *", lambda s: [" org ", H(s, "o"), "\n fdb *\n org *+", H(s, "d"), "\n fdb *\n"], star, ["zero", "ok", "fail"], S)
    # labels in every kind of statement
    def lab(e):
        o = e.num("o", 64)
        kinds = [2, 0, 2, 3, 5]
        a = [o]
        data = [0x20, 0xFE] + [0x16, 0xFF, 0xFD - 0] 
        return None
    def where(e):
        o = e.num("o", 64)
        ok = z3.ULE(o + 22, 0x10000)
        L = [o, o + 2, o + 2, o + 5, o + 5, o + 8, o + 10, o + 10, o + 14]
        data = [0x20, 0xFE] + [0x16, 0xFF, 0xFD] + [7, 0, 0] + [0x86, 5] + [0x10, 0x8E] + W(L[7]) + [b for i in (0, 1, 3, 8) for b in W(L[i])]
        yield ok, Ok(fmt.coco([(lo(o), data)])), "ok"
        yield z3.Not(ok), Fail(), "fail"
    add("labels", "labels on their own line, on pseudo-ops and on instructions; ORG address free", lambda s: [" org ", H(s, "o"), "\nl0 bra *\nl1\nl2 lbra l2\nl3 equ *\nl4 fcb 7,0,0\nl5 lda #5\nl6 setdp -1\nl7 ldy #*\nl8 fdb l0,l1,l3,l8\n"],
        where, ["ok", "fail"], S)
    # addresses beyond the address space
    add("orghigh", "ORG above $10000", lambda s: [" org $", s.char("c", "123456789ABCDEF"), s.hex("o", 4), "+1\n nop\n"], fail, ["fail"])
    add("puthigh", "PUT above $FFFF or negative", lambda s: [" org 0\n put ", s.padl("sg", ["$1", "-$1"]), s.hex("o", 4), "\n nop\n"], fail, ["fail"])
    add("orgneg", "data at a negative address", lambda s: [" org -$", s.char("d", "123456789ABCDEF"), s.hex("o", 2), "\n nop\n"], fail, ["fail"])
    def edge(e):
        k = e.idx("k")
        n = [1, 2, 4, 2, 4][k]
        o = e.num("o", 64) + 0xFFF0
        data = [[0x12], [0x86, 1], [0x10, 0x8E, 0, 1], [1, 2], [1, 2, 3, 4]][k]
        ok = z3.ULE(o + n, 0x10000)
        yield ok, Ok(fmt.coco([(lo(o), data)])), "ok"
        yield z3.Not(ok), Fail(), "fail"
    add("top", "data at the top of the address space", lambda s: [" org $FFF", s.hex("o", 1), "\n ", s.choice("k", ["nop", "lda #1", "ldy #1", "fdb $102", "fqb $1020304"]), "\n"], edge, ["ok", "fail"], S)
    def ptop(e):
        n = [1, 2, 4][e.idx("k")]
        o = e.num("o", 64) + 0xFFF0
        ok = z3.ULE(o + n, 0x10000)
        yield ok, Ok(fmt.coco([(lo(o), [[0x12], [0x86, 1], [1, 2, 3, 4]][e.idx("k")])])), "ok"
        yield z3.Not(ok), Fail(), "fail"
    add("puttop", "data put at the top of the address space", lambda s: [" org $100\n put $FFF", s.hex("o", 1), "\n ", s.choice("k", ["nop", "lda #1", "fqb $1020304"]), "\n"], ptop, ["ok", "fail"], S)
    add("argsbad", "wrong number or kind of operands", lambda s: [s.choice("k", [" org", " org 1,2", " org x", " org nosuch", " put", " put 1,2", " put x", " put nosuch", " rmb", " rmb 1,2", ' org [1]', "q put *+,1"]), "\n nop\n"], fail, ["fail"])
    # operands of other kinds
    KD = [(" org 7/2", 3, 3), (" org 300.9", 300, 300), (" org \"ab\"", 0x6162, 0x6162), (" org 'a", 97, 97), (" rmb 7/2", 3, 3), (" rmb 2.9", 2, 2), (" rmb \"a\"-90", 7, 7), (" put 601/2", 0, 300), (" put 2.5", 0, 2), (" put \"ab\"", 0, 0x6162), (" org lf\n put lg", 4, 0x7172), (" org lg\n rmb lf", 0x7176, 0x7176), (" rmb 0.9", 0, 0), (" align 17/2\n rmb 1", 1, 1)]

    def kinds(e):
        _, a, p = KD[e.idx("k")]
        v = e.num("v", 16)
        yield True, Ok(fmt.coco([(z3.BitVecVal(p, 16), be(z3.BitVecVal(a, 16), 2) + be(v, 2))])), "ok"
    add("kinds", "addresses and counts that are quotients, floating-point values, strings", lambda s: [s.choice("k", [k[0] for k in KD]), "\nla fdb la,$", s.hex("v", 4), "\nlf equ 4.5\nlg equ \"qr\"\n"], kinds, ["ok"], S)
    return out
