"""Sections."""
import itertools
import z3
from ..scen import *
from .. import fmt

BOUNDS = ["every sequence of up to five switches among four sections (six in the thorough tier), pieces of 1 to 3 bytes or reserved bytes", "free 16-bit ORG and PUT addresses in one or two sections, free RMB counts",
          "free direct pages per section and free operand addresses"]
NAMES = [" code", " data", " section \"foo\"", " section \"bar\""]
ID = ["CODE", "DATA", "foo", "bar"]


def model(seq, size, org=None, rounds=8):
    """addresses at which the pieces of seq are placed: seq of section numbers, size(i) of piece i"""
    first = []
    for s in [0] + seq:
        if s not in first:
            first.append(s)
    tot = {s: sum(size(i) for i, q in enumerate(seq) if q == s) for s in first}
    start, a = {}, 0
    for s in first:
        start[s] = a
        a += tot[s]
    at, cur = [], dict(start)
    for i, s in enumerate(seq):
        at.append(cur[s])
        cur[s] += size(i)
    return at, a


def scenarios(tier):
    out = []
    th = tier != "quick"

    def add(name, what, parts, spec, need=("ok",), args=()):
        s = Scn(name, what=what)
        s.src(*parts(s), args=args)
        s.spec = spec
        s.need = list(need)
        out.append(s)
    fail = lambda e: iter([(True, Fail(), "fail")])
    C = ["-C"]
    lo = lambda t: z3.Extract(15, 0, t)
    W = lambda t: be(lo(t), 2) if not isinstance(t, int) else be(t, 2)
    H = lambda s, n, k=4: ["$", s.hex(n, k)]

    # every interleaving; each piece records its own address
    def inter(n, sizes, nm):
        def parts(s):
            l = []
            for i in range(n):
                l += [s.choice("s%d" % i, NAMES), "\nl%d " % i, s.choice("k%d" % i, sizes) if len(sizes) > 1 else sizes[i % len(sizes)], "\n fdb l%d\n" % i]
            l += [NAMES[0], "\n fdb ", ",".join("l%d" % i for i in range(n)), "\n"]
            return l

        def spec(e):
            seq = [e.idx("s%d" % i) for i in range(n)] + [0]
            kinds = [sizes[e.idx("k%d" % i) if len(sizes) > 1 else 0] for i in range(n)]
            b = [{"nop": [0x12], "ldx #1": [0x8E, 0, 1], "rmb 2": [None, None], "rzb 130": [0] * 130}[k] for k in kinds]
            sz = lambda i: 2 * n if i == n else len(b[i]) + 2
            at, end = model(seq, sz)
            img = {}
            for i in range(n):
                for j, x in enumerate(b[i] + list(be(at[i], 2))):
                    if x is not None:
                        img[at[i] + j] = x
            for i in range(n):
                for j in range(2):
                    img[at[n] + 2 * i + j] = be(at[i], 2)[j]
            # binary output starts at the lowest address that holds data
            a0 = min(img)
            yield True, Ok([img.get(a, 0) for a in range(a0, max(img) + 1)]), "ok"
        add(nm, "the section of each of %d pieces free, and their kind" % n, parts, spec)
    inter(4, ["nop"], "inter4")
    inter(6 if th else 5, ["ldx #1"], "inter5")
    inter(3, ["nop", "ldx #1", "rmb 2"], "kinds3")
    inter(2, ["nop", "ldx #1", "rmb 2", "rzb 130"], "kinds2")

    # section names
    FIRST = ["DATA", "BSS", "RAM", "AUTO", "CODE"]
    for nme in FIRST:
        sec = ' section "%s"' % nme

        add("name" + nme, "section name against pseudo-op in any letter case, and against a name in lower case", lambda s: [sec, "\n fcb 1\n section \"zz\"\n fcb 2\n", " ", s.case("n", nme), "\n fcb 3\n"],
            lambda e: iter([(True, Ok([1, 3, 2]), "ok")]))
        add("lower" + nme, "the lower-case name is another section", lambda s: [sec, "\n fcb 1\n section \"zz\"\n fcb 2\n ", s.case("n", "section"), ' "', nme.lower(), '"\n fcb 3\n ', nme.lower(), "\n fcb 4\n"],
            lambda e: iter([(True, Ok([1, 4, 2, 3]), "ok")]))
    ch = "abcdXYZ0123._- "

    def two(e):
        same = z3.And(e.raw("a") == e.raw("c"), e.raw("b") == e.raw("f"))
        yield same, Ok([1, 3, 2]), "same"
        yield z3.Not(same), Ok([1, 2, 3]), "other"
    add("names", "two section names of two characters free", lambda s: [' section "', s.char("a", ch), s.char("b", ch), '"\n fcb 1\n data\n fcb 2\n section "', s.char("c", ch), s.char("f", ch), '"\n fcb 3\n'],
        two, ["same", "other"])

    # placement with free addresses (CoCo output)
    def follow(e):
        # CODE at o, DATA follows; CODE grows after the switch
        o = e.num("o", 64)
        d = o + 5
        data = [1, 2] + [3] + W(d) + W(d) + [4]
        ok = z3.ULE(o + len(data), 0x10000)
        yield ok, Ok(fmt.coco([(lo(o), data)])), "ok"
        yield z3.Not(ok), Fail(), "fail"
    add("follow", "ORG address of the first section free", lambda s: [" org ", H(s, "o"), "\n fcb 1,2\n data\nld fdb ld\n fcb 4\n code\n fcb 3\n fdb ld\n"], follow, ["ok", "fail"], C)

    def followput(e):
        o, p = e.num("o", 64), e.num("p", 64)
        d = o + 5
        data = [1, 2] + [3] + W(d) + W(d) + [4]
        ok = z3.And(z3.ULE(o + len(data), 0x10000), z3.ULE(p + len(data), 0x10000))
        yield ok, Ok(fmt.coco([(lo(p), data)])), "ok"
        yield z3.Not(ok), Fail(), "fail"
    add("followput", "ORG and PUT address of the first section free", lambda s: [" org ", H(s, "o"), "\n put ", H(s, "p"), "\n fcb 1,2\n data\nld fdb ld\n fcb 4\n code\n fcb 3\n fdb ld\n"], followput, ["ok", "fail"], C)

    def followrmb(e):
        n = e.num("n", 64)
        d = n + 3
        ok = z3.ULE(d + 3, 0x10000)
        yield z3.And(ok, n != 0), Ok(fmt.coco([(0, [1] + W(d)), (lo(n + 3), W(d) + [4])])), "ok"
        yield z3.And(ok, n == 0), Ok(fmt.coco([(0, [1] + W(d) + W(d) + [4])])), "zero"
        yield z3.Not(ok), Fail(), "fail"
    add("followrmb", "the first section ends in a free number of reserved bytes", lambda s: [" fcb 1\n fdb ld\n data\nld fdb ld\n fcb 4\n code\n rmb ", H(s, "n"), "\n"],
        followrmb, ["ok", "zero", "fail"], C)

    def org2(e):
        # DATA has its own ORG; a third section follows DATA, not CODE
        o = e.num("o", 64)
        x = o + 4
        ok = z3.And(z3.ULE(o + 6, 0x10000), z3.UGT(o, 4))
        yield ok, Ok(fmt.coco([(0, [1] + W(x) + [5]), (lo(o), W(o) + [2, 3] + W(x))])), "ok"
        low = z3.ULT(o, 4)
        yield low, Fail(), "overlap"
        yield z3.UGT(o + 6, 0x10000), Fail(), "fail"
    add("orgdata", "ORG address of the second section free, a third follows it", lambda s: [" fcb 1\n fdb lx\n data\n org ", H(s, "o"), "\nld fdb ld\n section \"x\"\nlx fdb lx\n data\n fcb 2,3\n code\n fcb 5\n"], org2, ["ok", "fail", "overlap"], C)

    def reorg(e):
        # a section with ORG continues at the address it had reached
        o, p = e.num("o", 64), e.num("p", 64)
        from .c14 import placed
        yield from placed([(o, W(o) + W(o + 2)), (p, W(p) + W(p + 2))], fmt.coco)
    add("continue", "ORG addresses of two sections free, both continued", lambda s: [" org ", H(s, "o"), "\n fdb *\n data\n org ", H(s, "p"), "\n fdb *\n code\n fdb *\n data\n fdb *\n"], reorg, ["below", "joined", "above", "joined2", "fail"], C)

    def putin(e):
        # PUT inside a section carries over when it is continued, and to the section after it
        p = e.num("p", 64)
        ok = z3.And(z3.UGT(p, 1), z3.ULE(p + 7, 0x10000))
        yield ok, Ok(fmt.coco([(0, [1]), (lo(p), W(1) + W(3) + [7] + W(6))])), "ok"
        yield z3.ULT(p, 1), Fail(), "overlap"
        yield p == 1, Ok(fmt.coco([(0, [1] + W(1) + W(3) + [7] + W(6))])), "joined"
        yield z3.UGT(p + 7, 0x10000), Fail(), "fail"
    add("putin", "PUT address inside the first section free", lambda s: [" fcb 1\n put ", H(s, "p"), "\n fdb *\n data\n fdb *\n code\n fdb *\n fcb 7\n"], putin, ["ok", "joined", "overlap", "fail"], C)
    # labels on section switches
    add("labels", "a label on each kind of switch", lambda s: [" fdb l1,l2,l3,l4\nl1 ", s.choice("k", ["data", 'section "DATA"', "Data", "SECTION /DATA/"]), "\n fcb 1,2\nl2 code\n fcb 3\nl3 ", s.choice("m", ["auto", 'section "AUTO"']), "\n fcb 4\nl4 data\n fcb 5\n"],
        lambda e: iter([(True, Ok(W(9) + W(8) + W(12) + W(11) + [3, 1, 2, 5, 4]), "ok")]))
    # direct page
    def dp(e):
        o, c, d = e.num("o", 64), e.num("c", 64), e.num("d", 64)
        hi = z3.LShR(o, 8)
        for inC in (True, False):
            for inD in (True, False):
                cc = z3.And(hi == c if inC else hi != c, hi == d if inD else hi != d)
                one = lambda t: [0x96] + be(z3.Extract(7, 0, o), 1) if t else [0xB6] + W(o)
                yield cc, Ok(one(inC) + [1] + one(inC) + one(inD) + [2] + one(inD)), "ok"
    add("setdp", "direct page of two sections and the operand address free", lambda s: [" setdp ", H(s, "c", 2), "\n lda ", H(s, "o"), "\n fcb 1\n data\n setdp ", H(s, "d", 2), "\n lda ", H(s, "o"), "\n code\n lda ", H(s, "o"), "\n data\n fcb 2\n lda ", H(s, "o"), "\n"], dp)

    def dp2(e):
        # a new section starts with the initial page
        o, c = e.num("o", 64), e.num("c", 64)
        hi = z3.LShR(o, 8)
        for init in range(3):
            if e.idx("p") != init:
                continue
            pg = [None, 0, 0x20][init]
            for inC in (True, False):
                for inD in (True, False):
                    cd = (hi == pg if inD else hi != pg) if pg is not None else z3.BoolVal(not inD)
                    one = lambda t: [0x96] + be(z3.Extract(7, 0, o), 1) if t else [0xB6] + W(o)
                    yield z3.And(hi == c if inC else hi != c, cd), Ok(one(inC) + one(inD)), "ok"
    s = Scn("setdpinit", what="initial page from a list, page of the first section and operand address free")
    s.argv("--setdp", s.padl("p", ["-1", "0", "32"]), "-o", "out", "in.s")
    s.src(" setdp ", H(s, "c", 2), "\n lda ", H(s, "o"), "\n data\n lda ", H(s, "o"), "\n")
    s.spec = dp2
    s.need = ["ok"]
    out.append(s)
    # forward references across sections decide instruction sizes
    def sizes(e):
        c = e.num("c", 64)
        n = 300
        # CODE: lda lbl (3 or 2 bytes) then DATA at its end
        for direct in (True, False):
            a = (2 if direct else 3) + 256
            cond = c == (a >> 8) if direct else c != (a >> 8)
            yield cond, Ok(([0x96, a & 255] if direct else [0xB6] + W(a)) + [0] * 256 + [9]), "ok"
    add("sizes", "page free; the operand lies in the next section", lambda s: [" setdp ", H(s, "c", 2), "\n lda ld\n data\nld fcb 9\n code\n rzb 256\n"], sizes)
    add("bad", "wrong operand of SECTION", lambda s: [" ", s.choice("k", ["section", "section nosuch", "section 5", 'section "a","b"', "section x", 'section [1]']), "\n fcb 1\n"], fail, ["fail"])
    return out
