"""Forward references and passes: a successful assembly is self-consistent."""
import itertools
import z3
from ..scen import *
from .. import fmt

BOUNDS = ["programs of up to eight instructions whose sizes depend on symbols defined later; 16-bit symbol values, addresses and direct pages free; distances around every size boundary",
          "chains of up to 14 symbols each defined by the next, pass limits 2 to 16", "conditions, ORG, RMB, ALIGN, FILL and PUT that depend on later symbols; programs without a consistent assembly"]


# ---- a reference that judges a finished program, not how it is reached
class Lay:
    """one choice of form for every item of a program: its bytes, and the condition
    that they are what the final values of all symbols ask for.

    items: ("l", name)              a label
           ("e", name, fn)          EQU
           ("b", byte...)           bytes
           ("c"/"w"/"q", fn)        FCB, FDB, FQB of an expression
           ("m", direct, ext, fn, page)      memory operand; page a term, int or None
           ("i", op, reg bits, fn)  n,R
           ("p", op, fn)            n,PCR
           ("r", op, fn)            short branch
           ("lr", [op...], fn)      long branch
           ("skip", fn)             RMB of a concrete count (fn gives an int)
           ("org", fn)              ORG
           ("if", fn, items, items) conditional
    fn(env) gives a 64-bit term; env("name") the value of a symbol, env.pc the address of the line."""

    def __init__(self, items, start=0):
        self.items, self.start = items, start

    def variants(self):
        """every combination of forms"""
        def forms(items):
            """list of flat item lists with the form chosen"""
            acc = [[]]
            for it in items:
                k = it[0]
                if k == "m":
                    alts = [[(it, f)] for f in ("d", "x")]
                elif k == "i":
                    alts = [[(it, f)] for f in (0, 5, 8, 16)]
                elif k == "p":
                    alts = [[(it, f)] for f in (8, 16)]
                elif k == "if":
                    alts = [[(("cond", it[1], True), None)] + v for v in forms(it[2])] + [[(("cond", it[1], False), None)] + v for v in forms(it[3])]
                else:
                    alts = [[(it, None)]]
                acc = [a + b for a in acc for b in alts]
            return acc
        return forms(self.items)

    def solve(self, flat):
        """(condition, spans) for a flat list of items with forms"""
        C = lambda v: z3.BitVecVal(v, 64)
        w = lambda t: C(t) if isinstance(t, int) else (z3.ZeroExt(64 - t.size(), t) if t.size() < 64 else t)
        syms = {}
        busy = set()

        class E:
            def __init__(self, pc):
                self.pc = pc

            def __call__(self, name):
                if name not in syms:
                    if name not in defs:
                        raise KeyError(name)
                    if name in busy:
                        raise RecursionError(name)
                    busy.add(name)
                    fn, pc = defs[name]
                    syms[name] = z3.simplify(w(fn(E(pc))))
                    busy.discard(name)
                return syms[name]
        defs = {}
        pc = w(self.start)
        place = []
        for it, f in flat:
            k = it[0]
            place.append(pc)
            if k == "l":
                syms[it[1]] = pc
            elif k == "e":
                defs[it[1]] = (it[2], pc)
            elif k == "org":
                try:
                    pc = w(it[1](E(pc)))
                except KeyError:
                    return None
                place[-1] = pc
                if len(it) > 2:
                    syms[it[2]] = pc
            else:
                pc = pc + self.size(it, f, E(pc))
            pc = z3.simplify(pc)
        cond = []
        spans = []
        cur, at = [], None
        fresh = True
        for (it, f), pc in zip(flat, place):
            k = it[0]
            e = E(pc)
            if k in ("l", "e"):
                if k == "e":
                    e(it[1])
                continue
            if k == "org" or k == "skip":
                if k == "org" or it[1]:
                    fresh = True
                continue
            if k == "cond":
                c = w(it[1](e)) != 0
                cond.append(c if it[2] else z3.Not(c))
                continue
            bs, c = self.bytes(it, f, e, w)
            cond += c
            if fresh and bs:
                spans.append((z3.simplify(z3.Extract(15, 0, pc)), []))
                fresh = False
            spans[-1][1].extend(bs) if bs else None
        c = z3.simplify(z3.And(cond)) if cond else z3.BoolVal(True)
        return c, spans

    @staticmethod
    def size(it, f, e):
        k = it[0]
        if k == "b":
            return len(it) - 1
        if k in "cwq" and len(k) == 1:
            return {"c": 1, "w": 2, "q": 4}[k]
        if k == "m":
            return 2 if f == "d" else 3
        if k == "i":
            return {0: 2, 5: 2, 8: 3, 16: 4}[f]
        if k == "p":
            return 3 if f == 8 else 4
        if k == "r":
            return 2
        if k == "lr":
            return len(it[1]) + 2
        if k == "skip":
            return it[1]
        return 0

    @staticmethod
    def bytes(it, f, e, w):
        k = it[0]
        ex = lambda t, n: [z3.simplify(z3.Extract(8 * (n - i) - 1, 8 * (n - i) - 8, t)) for i in range(n)]
        if k == "b":
            return list(it[1:]), []
        if k in ("c", "w", "q"):
            return ex(w(it[1](e)), {"c": 1, "w": 2, "q": 4}[k]), []
        fits = lambda v, lo, hi: z3.And(v >= lo, v <= hi)
        s16 = lambda v: z3.SignExt(48, z3.Extract(15, 0, v))
        if k == "m":
            _, d, x, fn, page = it
            v = w(fn(e))
            if page is None:
                c = z3.BoolVal(f == "x")
            else:
                p = page if not isinstance(page, int) else z3.BitVecVal(page, 8)
                c = z3.Extract(15, 8, v) == z3.Extract(7, 0, p)
                if f == "x":
                    c = z3.Not(c)
            return ([d] + ex(v, 1) if f == "d" else [x] + ex(v, 2)), [c]
        if k == "i":
            _, op, reg, fn = it
            v = w(fn(e))
            z, five, eight = v == 0, fits(v, -16, 15), fits(v, -128, 127)
            if f == 0:
                return [op, 0x84 | reg], [z]
            if f == 5:
                return [op, z3.simplify(z3.BitVecVal(reg, 8) | z3.Extract(7, 0, v) & 0x1F)], [five, z3.Not(z)]
            if f == 8:
                return [op, 0x88 | reg] + ex(v, 1), [eight, z3.Not(five)]
            return [op, 0x89 | reg] + ex(v, 2), [z3.Not(eight)]
        if k == "p":
            _, op, fn = it
            v = w(fn(e))
            d8 = s16(v - (e.pc + 3))
            c = fits(d8, -128, 127)
            return ([op, 0x8C] + ex(v - (e.pc + 3), 1), [c]) if f == 8 else ([op, 0x8D] + ex(v - (e.pc + 4), 2), [z3.Not(c)])
        if k == "r":
            _, op, fn = it
            d = w(fn(e)) - (e.pc + 2)
            return [op] + ex(d, 1), [fits(s16(d), -128, 127)]
        if k == "lr":
            _, op, fn = it
            return list(op) + ex(w(fn(e)) - (e.pc + len(op) + 2), 2), []
        raise KeyError(k)


def judge(items, image, start=0, may_fail=False, extra=True):
    """(condition, outcome, label) cases: where some consistent assembly exists the result
    must be one of those (or a failure if may_fail); where none does, assembly must fail"""
    alts = []
    lay = Lay(items, start)
    for flat in lay.variants():
        try:
            r = lay.solve(flat)
        except RecursionError:
            r = None
        if r is None or z3.is_false(r[0]):
            continue
        alts.append((r[0], Ok(image(r[1]), quiet=False)))
    some = z3.simplify(z3.Or([c for c, _ in alts])) if alts else z3.BoolVal(False)
    if extra is not True:
        yield z3.Not(extra), Fail(), "fail"
    if may_fail:
        yield some if extra is True else z3.And(some, extra), Any(*(alts + [(True, Fail())])), "ok"
    else:
        yield some if extra is True else z3.And(some, extra), Any(*alts), "ok"
    if not z3.is_true(some):
        yield z3.Not(some) if extra is True else z3.And(z3.Not(some), extra), Fail(), "fail"


def scenarios(tier):
    out = []
    th = tier != "quick"

    def add(name, what, parts, spec, need=("ok",), args=(), files={}, ins=("in.s",)):
        s = Scn(name, what=what)
        p = parts(s)
        s.argv(*(list(args(s) if callable(args) else args) + ["-o", "out"] + list(ins)))
        s.src(*p)
        for n, t in files.items():
            s.file(n, t)
        s.spec = spec
        s.need = list(need)
        out.append(s)
    H = lambda s, n, k=4: ["$", s.hex(n, k)]
    raw = lambda spans: [b for _, bs in spans for b in bs]
    coco = lambda spans: fmt.coco(spans)
    S = lambda n: (lambda e: e(n))
    N = lambda e, n: e.num(n, 64)

    # sizes chosen by symbols defined later
    add("memory", "page and address of a later EQU free", lambda s: [" setdp ", H(s, "p", 2), "\n lda la\nlb fdb lb,lc\nla equ ", H(s, "a"), "\n ldb lc\nlc nop\n"],
        lambda e: judge([("m", 0x96, 0xB6, S("la"), e.num("p", 8)), ("l", "lb"), ("w", S("lb")), ("w", S("lc")), ("e", "la", lambda x: N(e, "a")), ("m", 0xD6, 0xF6, S("lc"), e.num("p", 8)), ("l", "lc"), ("b", 0x12)], raw))
    # the label an instruction refers to moves with the instruction's own size
    add("edge", "a memory operand whose target's page depends on the size of the instruction; address free", lambda s: [" setdp ", H(s, "p", 2), "\n org ", H(s, "o", 3), "\n lda la\nla fcb 1\n"],
        lambda e: judge([("org", lambda x: N(e, "o")), ("m", 0x96, 0xB6, S("la"), e.num("p", 8)), ("l", "la"), ("b", 1)], coco), ["ok", "fail"], ["-C"])
    add("edge2", "two such operands", lambda s: [" setdp ", H(s, "p", 1), "\n org ", H(s, "o", 3), "\n lda la\n ldb lb\nla fcb 1\nlb fdb la,lb\n"],
        lambda e: judge([("org", lambda x: N(e, "o")), ("m", 0x96, 0xB6, S("la"), e.num("p", 8)), ("m", 0xD6, 0xF6, S("lb"), e.num("p", 8)), ("l", "la"), ("b", 1), ("l", "lb"), ("w", S("la")), ("w", S("lb"))], coco, may_fail=True), ["ok", "fail"], ["-C"])
    # distances around the boundary of the one-byte form
    R = list(range(120, 136)) + [0, 1, 2, 250] if not th else list(range(0, 12)) + list(range(110, 145)) + [250, 300, 32760, 32765, 32767, 32768, 32770, 65000]

    def dist(e, items):
        return judge(items, coco)
    pad = lambda s, n="n": s.padl(n, [str(k) for k in R])
    add("pcr", "distance to a later label", lambda s: [" org $1000\n lda la,pcr\n rmb ", pad(s), "\nla fdb la\n"],
        lambda e: judge([("org", lambda x: 0x1000), ("p", 0xA6, S("la")), ("skip", R[e.idx("n")]), ("l", "la"), ("w", S("la"))], coco), ["ok"], ["-C"])
    R2 = list(range(121, 132))
    add("pcr two", "two overlapping distances", lambda s: [" org $1000\n lda la,pcr\n ldb lb,pcr\n rmb ", s.padl("n", [str(k) for k in R2]), "\nla nop\n rmb ", s.choice("m", ["0", "1", "2"]), "\nlb fdb la,lb\n"],
        lambda e: judge([("org", lambda x: 0x1000), ("p", 0xA6, S("la")), ("p", 0xE6, S("lb")), ("skip", R2[e.idx("n")]), ("l", "la"), ("b", 0x12), ("skip", e.idx("m")), ("l", "lb"), ("w", S("la")), ("w", S("lb"))], coco), ["ok"], ["-C"])
    add("pcr back", "a forward and a backward distance over each other", lambda s: [" org $1000\nla lda lb,pcr\n rmb ", s.padl("n", [str(k) for k in R2]), "\nlb ldb la,pcr\n fdb la,lb\n"],
        lambda e: judge([("org", lambda x: 0x1000), ("l", "la"), ("p", 0xA6, S("lb")), ("skip", R2[e.idx("n")]), ("l", "lb"), ("p", 0xE6, S("la")), ("w", S("la")), ("w", S("lb"))], coco), ["ok"], ["-C"])
    add("pcr free", "address of a later EQU free", lambda s: [" org ", H(s, "o", 3), "\n lda la,pcr\nlb fdb lb\nla equ ", H(s, "a"), "\n"],
        lambda e: judge([("org", lambda x: N(e, "o")), ("p", 0xA6, S("la")), ("l", "lb"), ("w", S("lb")), ("e", "la", lambda x: N(e, "a"))], coco), ["ok"], ["-C"])
    add("index", "offset of a later EQU free", lambda s: [" lda la,x\n sta lb,u\nlc fdb lc\nla equ ", s.padl("m", ["", "-"]), H(s, "a"), "\nlb equ la+lc\n"],
        lambda e: judge([("i", 0xA6, 0, S("la")), ("i", 0xA7, 0x40, S("lb")), ("l", "lc"), ("w", S("lc")), ("e", "la", lambda x: -N(e, "a") if e.idx("m") else N(e, "a")), ("e", "lb", lambda x: x("la") + x("lc"))], raw))
    add("index distance", "an offset that is a distance between later labels", lambda s: [" lda lb-la,x\nla rmb ", s.padl("n", [str(k) for k in range(0, 20)] + [str(k) for k in range(124, 132)]), "\nlb ldb lb-lc,y\nlc fdb la,lb,lc\n"],
        lambda e: judge([("i", 0xA6, 0, lambda x: x("lb") - x("la")), ("l", "la"), ("skip", ([*range(0, 20)] + [*range(124, 132)])[e.idx("n")]), ("l", "lb"), ("i", 0xE6, 0x20, lambda x: x("lb") - x("lc")), ("l", "lc"), ("w", S("la")), ("w", S("lb")), ("w", S("lc"))], coco), ["ok"], ["-C"])
    add("own size", "an offset that is the size of its own instruction", lambda s: ["la lda lb-la", s.choice("k", ["+0 ", "-3 ", "-2 ", "+11", "+12", "+13", "+14", "-18", "-19", "-20", "+99"]), ",x\nlb fdb lb\n"],
        lambda e: judge([("l", "la"), ("i", 0xA6, 0, lambda x: x("lb") - x("la") + [0, -3, -2, 11, 12, 13, 14, -18, -19, -20, 99][e.idx("k")]), ("l", "lb"), ("w", S("lb"))], raw, may_fail=True), ["ok"])
    for b, lead in (("bra", [0x20]), ("beq", [0x27])) if not th else (("bra", [0x20]), ("beq", [0x27]), ("bsr", [0x8D])):
        add(b, "short branch over instructions whose size is settled later", lambda s, b=b: [" org $1000\n setdp ", H(s, "p", 2), "\n " + b + " la\n lda lv\n rmb ", s.padl("n", ["0", "120", "124", "125", "126", "127"]), "\nla " + b + " *\nlv equ ", H(s, "v"), "\n"],
            lambda e, lead=lead: judge([("org", lambda x: 0x1000), ("r", lead[0], S("la")), ("m", 0x96, 0xB6, S("lv"), e.num("p", 8)), ("skip", [0, 120, 124, 125, 126, 127][e.idx("n")]), ("l", "la"), ("r", lead[0], lambda x: x.pc), ("e", "lv", lambda x: N(e, "v"))], coco), ["ok", "fail"], ["-C"])
    add("long", "long branches", lambda s: [" org ", H(s, "o", 3), "\n lbra la\n setdp ", H(s, "p", 2), "\n lda lv\n lbeq lb\nla nop\nlb equ *-la+", H(s, "b"), "\nlv equ ", H(s, "v"), "\n"],
        lambda e: judge([("org", lambda x: N(e, "o")), ("lr", [0x16], S("la")), ("m", 0x96, 0xB6, S("lv"), e.num("p", 8)), ("lr", [0x10, 0x27], S("lb")), ("l", "la"), ("b", 0x12), ("e", "lb", lambda x: x.pc - x("la") + N(e, "b")), ("e", "lv", lambda x: N(e, "v"))], coco), ["ok"], ["-C"])
    # a value out of range in an unfinished pass is not final
    add("transient", "a range-checked operand that is bad only in an unfinished pass", lambda s: ["x1 equ x0\nx0 equ la-", s.dec("k", 1), "\n lda tt,pcr\nla nop\n rmb ", s.padl("n", ["0", "123", "200"]), "\ntt nop\n ", s.choice("i", ["band a,x1,0,5", "band a,0,x1,5"]), "\n"],
        lambda e: trans(e), ["ok", "fail"], ["-3", "-C"])

    def trans(e):
        n = [0, 123, 200][e.idx("n")]
        i = e.idx("i")
        for size in (3, 4):
            if (size == 3) != (n + 1 <= 127):
                continue
            v = size - e.num("k", 64)
            c = z3.And(v >= 0, v <= 7)
            first = [0xA6, 0x8C, n + 1] if size == 3 else [0xA6, 0x8D] + be(n + 1, 2)
            v8 = z3.Extract(7, 0, v)
            tail = [0x12, 0x11, 0x30, 0x40 | (v8 << 3 if i == 0 else v8), 5]
            body = fmt.coco([(0, first + [0x12] + tail)] if n == 0 else [(0, first + [0x12]), (size + 1 + n, tail)])
            yield c, Ok(body), "ok"
            yield z3.Not(c), Fail(), "fail"
    # chains
    NS = [2, 3, 5, 8] if not th else list(range(2, 12))
    for n in NS:
        add("chain %d" % n, "%d symbols each defined by the next, value free" % n, lambda s, n=n: [" fdb s1\n"] + ["s%d equ s%d+1\n" % (i, i + 1) for i in range(1, n)] + ["s%d equ " % n, H(s, "v"), "\n fdb s%d\n" % (n // 2)],
            lambda e, n=n: iter([(True, Ok(be(N(e, "v") + n - 1, 2) + be(N(e, "v") + n - n // 2, 2)), "ok")]))
    L = list(range(2, 15))
    add("limit", "chain of symbols against the pass limit", lambda s: [" fdb s1\n"] + ["s%d equ s%d+1\n" % (i, i + 1) for i in range(1, 6)] + ["s6 equ ", H(s, "v"), "\n"],
        lambda e: iter([(True, Ok(be(N(e, "v") + 5, 2)) if L[e.idx("P")] > 8 else Fail() if L[e.idx("P")] < 6 else Any((True, Ok(be(N(e, "v") + 5, 2))), (True, Fail())), "ok" if L[e.idx("P")] > 8 else "fail")]), ["ok", "fail"], lambda s: ["-P", s.padl("P", [str(k) for k in L])])
    add("too long", "more symbols than the default limit of passes can settle", lambda s: [" fdb s1\n"] + ["s%d equ s%d+1\n" % (i, i + 1) for i in range(1, 14)] + ["s14 equ ", H(s, "v"), "\n"],
        lambda e: iter([(True, Any((True, Ok(be(N(e, "v") + 13, 2))), (True, Fail())), "any")]), ["any"])
    # the same value in a different notation or a difference that only shows in high bits
    add("high bits", "a symbol that changes only above bit 15 in the last pass", lambda s: [" setdp ", H(s, "p", 2), "\n fqb la\nla equ lb*65536\n lda lc\nlb nop\nlc equ ", H(s, "v", 3), "\n"],
        lambda e: judge([("q", S("la")), ("e", "la", lambda x: x("lb") << 16), ("m", 0x96, 0xB6, S("lc"), e.num("p", 8)), ("l", "lb"), ("b", 0x12), ("e", "lc", lambda x: N(e, "v"))], raw))
    add("very high bits", "a symbol that changes only above bit 31", lambda s: [" setdp ", H(s, "p", 2), "\n fqb la>>32,la\nla equ lb<<32\n lda lc\nlb nop\nlc equ ", H(s, "v", 3), "\n"],
        lambda e: judge([("q", S("lb")), ("q", lambda x: 0), ("m", 0x96, 0xB6, S("lc"), e.num("p", 8)), ("l", "lb"), ("b", 0x12), ("e", "lc", lambda x: N(e, "v"))], raw))
    add("float change", "a symbol whose value changes by a fraction", lambda s: [" setdp ", H(s, "p", 2), "\n fcb la*4\nla equ lb/4\n lda lc\nlb nop\nlc equ ", H(s, "v", 3), "\n"],
        lambda e: judge([("c", S("lb")), ("m", 0x96, 0xB6, S("lc"), e.num("p", 8)), ("l", "lb"), ("b", 0x12), ("e", "lc", lambda x: N(e, "v"))], raw))
    add("string change", "a symbol that is one string or another", lambda s: [" setdp ", H(s, "p", 2), "\n fcc la\nla equ lb==7?\"a\":\"b\"\n lda lc\n fdb *\nlb nop\nlc equ ", H(s, "v", 3), "\n"],
        lambda e: judge([("c", lambda x: z3.If(x("lb") == 7, bv(97), bv(98))), ("m", 0x96, 0xB6, S("lc"), e.num("p", 8)), ("w", lambda x: x.pc), ("l", "lb"), ("b", 0x12), ("e", "lc", lambda x: N(e, "v"))], raw))
    add("local", "a local label whose address settles later", lambda s: [" setdp ", H(s, "p", 2), "\n fdb 1f\n lda lc\n1 ldx 2f\n nop\n2 fdb 1b,2b\nlc equ ", H(s, "v"), "\n"],
        lambda e: judge([("w", S("l1")), ("m", 0x96, 0xB6, S("lc"), e.num("p", 8)), ("l", "l1"), ("m", 0x9E, 0xBE, S("l2"), e.num("p", 8)), ("b", 0x12), ("l", "l2"), ("w", S("l1")), ("w", S("l2")), ("e", "lc", lambda x: N(e, "v"))], raw))
    # conditions on later symbols
    add("condition", "a condition on a later EQU", lambda s: [" if la>", H(s, "k"), "\n fcb 1\n else\n fdb 2\n endif\nlb fdb lb\nla equ ", H(s, "a"), "\n"],
        lambda e: judge([("if", lambda x: z3.If(z3.UGT(N(e, "a"), N(e, "k")), bv(1), bv(0)), [("b", 1)], [("b", 0, 2)]), ("l", "lb"), ("w", S("lb"))], raw))
    REL = ["<", ">", "==", "!=", "<=", ">="]
    FN = [lambda a, b: a < b, lambda a, b: a > b, lambda a, b: a == b, lambda a, b: a != b, lambda a, b: a <= b, lambda a, b: a >= b]
    add("condition own", "a condition on a label that the condition moves", lambda s: [" if la", s.padl("r", REL), H(s, "k", 2), "\n fcb 1\n endif\nla fdb la\n"],
        lambda e: judge([("if", lambda x: z3.If(FN[e.idx("r")](x("la"), N(e, "k")), bv(1), bv(0)), [("b", 1)], []), ("l", "la"), ("w", S("la"))], raw, may_fail=True), ["ok", "fail"])
    add("condition two", "two conditions that move each other's labels", lambda s: [" if la>", H(s, "k", 1), "\n fcb 1,1\n endif\nlb nop\n if lb>", H(s, "m", 1), "\n fcb 2\n endif\nla fcb la,lb\n"],
        lambda e: judge([("if", lambda x: z3.If(x("la") > N(e, "k"), bv(1), bv(0)), [("b", 1, 1)], []), ("l", "lb"), ("b", 0x12), ("if", lambda x: z3.If(x("lb") > N(e, "m"), bv(1), bv(0)), [("b", 2)], []), ("l", "la"), ("c", S("la")), ("c", S("lb"))], raw, may_fail=True))
    add("condition size", "a condition on a symbol that instruction sizes settle", lambda s: [" setdp ", H(s, "p", 2), "\n if la==", H(s, "k", 1), "\n fcb 1\n else\n fcb 2\n endif\n lda lc\nla fdb la\nlc equ ", H(s, "v"), "\n"],
        lambda e: judge([("if", lambda x: z3.If(x("la") == N(e, "k"), bv(1), bv(0)), [("b", 1)], [("b", 2)]), ("m", 0x96, 0xB6, S("lc"), e.num("p", 8)), ("l", "la"), ("w", S("la")), ("e", "lc", lambda x: N(e, "v"))], raw))
    # addresses and counts on later symbols
    add("org", "ORG at a later symbol", lambda s: [" org la\nlb fdb la,lb\n lda >lb\nla equ ", H(s, "a", 3), "\n"],
        lambda e: judge([("org", lambda x: N(e, "a")), ("l", "lb"), ("w", lambda x: N(e, "a")), ("w", S("lb")), ("b", 0xB6), ("w", S("lb"))], coco), ["ok"], ["-C"])
    add("org own", "ORG depending on a label that it moves", lambda s: [" org la-", H(s, "k", 2), "\n fcb 1\nla fcb 2\n"],
        lambda e: iter([(N(e, "k") == 1, Any((True, Fail()), *[(True, Ok([1, 2]))]), "any"), (N(e, "k") != 1, Fail(), "fail")]), ["fail"])
    add("rmb", "count of a later symbol", lambda s: [" fcb 1\n rmb lc\nla fdb la\n rmb lc-la+", s.padl("k", ["0", "1", "5"]), "\n fcb 3\nlc equ ", s.padl("n", ["3", "4", "5", "9", "40", "129"]), "\n"], lambda e: rmb(e), ["ok", "fail"])

    def rmb(e):
        n = [3, 4, 5, 9, 40, 129][e.idx("n")]
        la = 1 + n
        m = n - la + [0, 1, 5][e.idx("k")]
        yield True, Fail() if m < 0 else Ok([1] + [0] * n + be(la, 2) + [0] * m + [3]), "ok" if m >= 0 else "fail"
    add("rmb ok", "count of a later symbol", lambda s: [" fcb 1\n ", s.choice("k", ["rmb lc  ", "rzb lc  ", "rzb lc,0", "fill 0,lc"]), "\nla fdb la\nlc equ ", s.padl("n", ["0", "1", "3", "40", "127", "128", "129"]), "\n"],
        lambda e: iter([(True, Ok([1] + [0] * [0, 1, 3, 40, 127, 128, 129][e.idx("n")] + be(1 + [0, 1, 3, 40, 127, 128, 129][e.idx("n")], 2)), "ok")]))
    add("align", "alignment of a later symbol, and a count that is a distance", lambda s: [" fcb 1\n align lc,0\nla fdb la,lb-la\n rmb lb-la\nlb2 fdb lb2\nlb equ la+5\nlc equ ", s.padl("n", ["1", "2", "3", "4", "7", "16"]), "\n"],
        lambda e: iter([(True, Ok([1] + [0] * ((-1) % [1, 2, 3, 4, 7, 16][e.idx("n")]) + be(1 + (-1) % [1, 2, 3, 4, 7, 16][e.idx("n")], 2) + [0, 5] + [0] * 5 + be(10 + (-1) % [1, 2, 3, 4, 7, 16][e.idx("n")], 2)), "ok")]))
    add("setdp", "page of a later symbol", lambda s: [" setdp la>>8\n lda la\n ldb lb\nlb fcb 1\nla equ ", H(s, "a"), "\n"],
        lambda e: judge([("m", 0x96, 0xB6, lambda x: N(e, "a"), z3.Extract(15, 8, N(e, "a"))), ("m", 0xD6, 0xF6, S("lb"), z3.Extract(15, 8, N(e, "a"))), ("l", "lb"), ("b", 1)], raw))
    add("put", "PUT at a later symbol", lambda s: [" org $100\n put la\nlb fdb la,lb\nla equ ", H(s, "a", 3), "\n"],
        lambda e: iter([(True, Ok(fmt.coco([(z3.Extract(15, 0, N(e, "a")), be(N(e, "a"), 2) + [1, 0])])), "ok")]), ["ok"], ["-C"])
    add("sections", "a section whose start depends on a size in another", lambda s: [" setdp ", H(s, "p", 2), "\n lda lv\n section \"x\"\nlx fdb lx,lc\n section \"CODE\"\n ldb lv\nlc fcb 1\nlv equ ", H(s, "v"), "\n"],
        lambda e: judge([("m", 0x96, 0xB6, S("lv"), e.num("p", 8)), ("m", 0xD6, 0xF6, S("lv"), e.num("p", 8)), ("l", "lc"), ("b", 1), ("l", "lx"), ("w", S("lx")), ("w", S("lc")), ("e", "lv", lambda x: N(e, "v"))], raw))
    add("macro", "macros whose size depends on later symbols", lambda s: ["m1 macro\n lda \\1\n if \\1>\\2\n fcb 1\n endif\n endm\n setdp ", H(s, "p", 2), "\n m1 lv,", H(s, "k"), "\n m1 lb,0\nlb fdb lb\nlv equ ", H(s, "v"), "\n"],
        lambda e: judge([("m", 0x96, 0xB6, S("lv"), e.num("p", 8)), ("if", lambda x: z3.If(N(e, "v") > N(e, "k"), bv(1), bv(0)), [("b", 1)], []), ("m", 0x96, 0xB6, S("lb"), e.num("p", 8)), ("b", 1), ("l", "lb"), ("w", S("lb")), ("e", "lv", lambda x: N(e, "v"))], raw))
    add("set", "SET after a forward reference: the value at that point", lambda s: ["la set lb\n fdb la\nla set la+1\n fdb la\nlb equ ", H(s, "v"), "\nla set 5\n"],
        lambda e: iter([(True, Ok(be(N(e, "v"), 2) + be(N(e, "v") + 1, 2)), "ok")]))
    add("file", "a symbol of the second file decides a size in the first", lambda s: [" setdp ", H(s, "p", 2), "\n lda lx\nlb fdb lb\n"],
        lambda e: judge([("m", 0x96, 0xB6, lambda x: bv(0x1234), e.num("p", 8)), ("l", "lb"), ("w", S("lb"))], raw), ["ok"], (), {"b.s": "lx equ $1234\n"}, ("in.s", "b.s"))
    # no value
    add("circular", "definitions that refer to each other", lambda s: [s.choice("k", [" fdb la\nla equ lb\nlb equ la", " fdb la\nla equ la+1", "la equ lb+1\nlb equ la+1\n fdb lb", "la equ la", " org la+1\nla fcb 1", "la fcb 1\n rmb lb\nlb fcb 2"], pad="\n"), "\n"],
        lambda e: iter([(True, Fail(), "fail")]), ["fail"])
    add("alternating", "values that never settle", lambda s: [" org ", H(s, "o", 3), "\n if ", s.choice("k", ["!la", "la==0", "la<5", "lb>la"]), "\nla equ 9\n else\nla equ 0\n endif\nlb equ 6\n fcb la\n"], lambda e: alt(e), ["fail"])

    def alt(e):
        yield True, Fail(), "fail"
    return out
