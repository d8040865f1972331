"""Operators."""
import z3
from ..scen import *

BOUNDS = ["integer operators: every pair of 64-bit operands (multiplication: signed 8-bit, any 64-bit value times constants, low byte of 32-bit operands; division and modulo: see the assumptions), each operand a symbol", "operands written as literals: every pair of signed 16-bit values",
          "strings: every pair of strings of zero... three printable characters", "floating-point operands with one decimal place"]
NOTES = ["modulo: every pair of signed 32-bit operands and 64-bit ones near the extremes; division: every pair of signed 32-bit operands",
         "a double that is the rounded quotient of two integers below 2^52 truncates to their integer quotient (argument in symx/core.cpp); other double arithmetic is decided in the theory of floating point"]


def s64(hi, lo, sg):
    return hi


def b64(c):
    return z3.If(c, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))


def shl(a, b):
    return z3.If(z3.ULE(b, 63), a << b, z3.BitVecVal(0, 64))


def shr(a, b):
    return z3.If(z3.ULE(b, 63), a >> b, z3.If(a < 0, z3.BitVecVal(-1, 64), z3.BitVecVal(0, 64)))


OPS = {
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "&": lambda a, b: a & b, "^": lambda a, b: a ^ b, "|": lambda a, b: a | b,
    "<": lambda a, b: b64(a < b), "<=": lambda a, b: b64(a <= b), ">": lambda a, b: b64(a > b), ">=": lambda a, b: b64(a >= b),
    "==": lambda a, b: b64(a == b), "!=": lambda a, b: b64(a != b), "&&": lambda a, b: b64(z3.And(a != 0, b != 0)), "||": lambda a, b: b64(z3.Or(a != 0, b != 0)),
    "<<": shl, ">>": shr,
}
UN = {"-": lambda a: -a, "+": lambda a: a, "~": lambda a: ~a, "!": lambda a: b64(a == 0)}
ON = list(OPS)
EMIT = "\n fqb (res)>>32,res\n"


def q(t):
    return Ok(be(t, 8))


def scenarios(tier):
    out = []

    def add(name, what, parts, spec, need, args=()):
        s = Scn(name, what=what)
        s.src(*parts(s), args=args)
        s.spec = spec
        s.need = need
        out.append(s)

    def wide(s, n):
        return [n, " equ ($", s.hex(n + "h", 8), "<<32)|$", s.hex(n + "l", 8), "\n"]

    def wval(e, n):
        return z3.Concat(e.num(n + "h", 32), e.num(n + "l", 32))

    def lit(e, n):
        v = e.num(n, 64)
        return -v if e.idx(n + "s") else v
    # 64-bit, both operands symbols
    def bin64(op):
        def spec(e):
            a, b = wval(e, "l"), wval(e, "r")
            if op in ("<<", ">>"):
                yield b >= 0, q(OPS[op](a, b)), "ok"
                yield b < 0, Fail(), "negative"
            else:
                yield True, q(OPS[op](a, b)), "ok"
        add("wide" + op, "both operands any 64-bit value", lambda s: [wide(s, "l"), wide(s, "r"), "res equ l", op, "r", EMIT], spec, ["ok"] + (["negative"] if op in ("<<", ">>") else []))
    for op in ON:
        if op != "*":
            bin64(op)
    ks = ["2", "3", "10", "-1", "255", "65537", "$7fffffffffffffff", "(1<<63)"]
    kv = [2, 3, 10, -1, 255, 65537, (1 << 63) - 1, 1 << 63]
    add("wide*", "one operand any 64-bit value, the other one of several constants", lambda s: [wide(s, "l"), "res equ l*", s.choice("k", ks), EMIT],
        lambda e: iter([(True, q(wval(e, "l") * kv[e.idx("k")]), "ok")]), ["ok"])
    add("mul", "both operands any signed 8-bit value", lambda s: ["l equ ", s.choice("ls", ["", "-"]), "$", s.hex("l", 2), "\nr equ ", s.choice("rs", ["", "-"]), "$", s.hex("r", 2), "\nres equ l*r", EMIT],
        lambda e: iter([(True, q(lit(e, "l") * lit(e, "r")), "ok")]), ["ok"])
    add("mullow", "both operands any 32-bit value, the low 8 bits of the product", lambda s: ["l equ $", s.hex("l", 8), "\nr equ $", s.hex("r", 8), "\n fcb l*r\n"],
        lambda e: iter([(True, Ok(be(e.num("l", 8) * e.num("r", 8), 1)), "ok")]), ["ok"])
    for op in UN:
        add("unary" + op, "operand any 64-bit value", lambda s, op=op: [wide(s, "l"), "res equ ", op, "l", EMIT], lambda e, op=op: iter([(True, q(UN[op](wval(e, "l"))), "ok")]), ["ok"])
    add("ternary", "condition and both branches any 64-bit value", lambda s: [wide(s, "c"), wide(s, "l"), wide(s, "r"), "res equ c?l:r", EMIT],
        lambda e: iter([(True, q(z3.If(wval(e, "c") != 0, wval(e, "l"), wval(e, "r"))), "ok")]), ["ok"])

    # literals
    def lit(e, n):
        v = e.num(n, 64)
        return -v if e.idx(n + "s") else v
    lo = [o for o in ON if o != "*"]

    def litspec(e):
        op = lo[e.idx("op")]
        a, b = lit(e, "l"), lit(e, "r")
        if op in ("<<", ">>"):
            yield b >= 0, q(OPS[op](a, b)), "ok"
            yield b < 0, Fail(), "negative"
        else:
            yield True, q(OPS[op](a, b)), "ok"
    add("literals", "operator, signs and 4 hex digits each free, spaces around the operator", lambda s: ["res equ ", s.choice("ls", ["", "-"]), "$", s.hex("l", 4), " ", s.choice("op", lo), " ", s.choice("rs", ["", "-"]), "$", s.hex("r", 4),
        EMIT], litspec, ["ok", "negative"])
    if True:
        # left to the fields: the expression directly as an operand
        add("operand", "operator and 2 hex digits each free, as an immediate operand", lambda s: [" ldd #$", s.hex("l", 2), s.choice("op", lo), "$", s.hex("r", 2), "\n"],
            lambda e: iter([(True, Ok([0xCC] + be(OPS[lo[e.idx("op")]](e.num("l", 64), e.num("r", 64)), 2)), "ok")]), ["ok"])

    # modulo
    def mod(name, what, parts, a, b):
        def spec(e):
            x, y = a(e), b(e)
            yield y == 0, Fail(), "zero"
            yield y != 0, q(z3.If(y == -1, z3.BitVecVal(0, 64), z3.SRem(x, y))), "ok"
        add(name, what, parts, spec, ["zero", "ok"])
    mod("mod", "both operands any signed 32-bit value", lambda s: ["l equ ", s.choice("ls", ["", "-"]), "$", s.hex("l", 8), "\nr equ ", s.choice("rs", ["", "-"]), "$", s.hex("r", 8), "\nres equ l%r", EMIT],
        lambda e: lit(e, "l"), lambda e: lit(e, "r"))
    mod("modmin", "most negative value modulo any signed 8-bit value", lambda s: ["l equ 1<<63\nres equ l % ", s.choice("rs", ["", "-"]), "$", s.hex("r", 2), EMIT],
        lambda e: z3.BitVecVal(1 << 63, 64), lambda e: lit(e, "r"))

    # division
    def div(e):
        x, y = lit(e, "l"), lit(e, "r")
        yield y == 0, Fail(), "zero"
        yield y != 0, q(x / y), "ok"
    add("div8", "both operands any signed 8-bit value", lambda s: ["l equ ", s.choice("ls", ["", "-"]), "$", s.hex("l", 2), "\nr equ ", s.choice("rs", ["", "-"]), "$", s.hex("r", 2), "\nres equ l/r", EMIT],
        div, ["zero", "ok"])

    add("div32", "both operands any signed 32-bit value", lambda s: ["l equ ", s.choice("ls", ["", "-"]), "$", s.hex("l", 8), "\nr equ ", s.choice("rs", ["", "-"]), "$", s.hex("r", 8), "\nres equ l/r", EMIT],
        div, ["zero", "ok"])
    # the quotient is not rounded: it keeps its fraction until used as an integer
    pairs = [(x, y) for x in range(1, 13) for y in range(1, 13)]
    txt = ["%d/%d" % p for p in pairs]

    def quot(e):
        x, y = pairs[e.idx("p")]
        yield True, Ok([x * 2 // y & 255, (x + y) // y & 255, (2 * x < 3 * y) * 1, x * y % 251]), "ok"
    add("quotient", "small operands; the quotient enters further arithmetic", lambda s: [" fcb ", s.choice("p", txt), "*2+0.001,1.001+", s.choice("p", txt), ",", s.choice("p", txt), "<1.5,(",
        s.choice("p", txt), "*", s.choice("p", [t.split("/")[1] for t in txt]), "*", s.choice("p", [t.split("/")[1] for t in txt]), "+0.001)%251\n"], quot, ["ok"])

    # floats
    FOPS = ["+", "-", "*", "<", "<=", ">", ">=", "==", "!=", "&", "|", "^", "&&", "||", "%"]

    def fval(e, n):
        # tenths
        v = 10 * (e.idx(n + "i")) + 5 * e.idx(n + "f")
        return -v if e.idx(n + "s") else v

    def tr(v, d):
        return abs(v) // d * (1 if v >= 0 else -1)

    def fl(e):
        a, b = fval(e, "l"), fval(e, "r")
        op = FOPS[e.idx("op")]
        ai, bi = tr(a, 10), tr(b, 10)
        if op == "%" and bi == 0:
            yield True, Fail(), "zero"
            return
        r = {"+": lambda: tr(a + b, 10), "-": lambda: tr(a - b, 10), "*": lambda: tr(a * b, 100), "<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b,
             "==": lambda: a == b, "!=": lambda: a != b, "&": lambda: ai & bi, "|": lambda: ai | bi, "^": lambda: ai ^ bi, "&&": lambda: ai != 0 and bi != 0,
             "||": lambda: ai != 0 or bi != 0, "%": lambda: ai - tr(ai * 1, abs(bi)) * abs(bi)}[op]()
        yield True, Ok([int(r) & 255]), "ok"

    def flit(s, n):
        return [s.choice(n + "s", ["", "-"]), s.choice(n + "i", ["0", "1", "2", "3"]), s.choice(n + "f", [".0", ".5"])]
    add("float", "operator and two values with a fraction", lambda s: [" fcb (", flit(s, "l"), ")", s.choice("op", FOPS), "(", flit(s, "r"), ")\n"], fl, ["ok", "zero"])
    add("floatint", "a value with a fraction and an integer", lambda s: [" fcb (", flit(s, "l"), ")", s.choice("op", FOPS), "(", s.choice("rs", ["", "-"]), s.choice("ri", ["0", "1", "2", "3"]), ")\n"],
        lambda e: fl2(e), ["ok", "zero"])

    def fl2(e):
        class E2:
            def idx(self, n):
                return 0 if n == "rf" else e.idx(n)
        return fl(E2())
    add("floatunary", "unary operators on a value with a fraction", lambda s: [" fcb ", s.choice("u", ["-", "+", "~", "!"]), "(", flit(s, "l"), ")\n"],
        lambda e: iter([(True, Ok([int([-tr(fval(e, "l"), 10), tr(fval(e, "l"), 10), ~tr(fval(e, "l"), 10), tr(fval(e, "l"), 10) == 0][e.idx("u")]) & 255]), "ok")]), ["ok"])

    # strings
    CMP = ["<", "<=", ">", ">=", "==", "!="]
    chars = [c for c in range(0x21, 0x7F) if chr(c) not in "\"\\&/"]

    def strings(la, lb, esc=False):
        def spec(e):
            A = [e.raw("a%d" % i) for i in range(la)]
            B = [e.raw("b%d" % i) for i in range(lb)]
            lt, eq = z3.BoolVal(False), z3.BoolVal(True)
            for i in range(max(la, lb)):
                x = A[i] if i < la else z3.BitVecVal(0, 8)
                y = B[i] if i < lb else z3.BitVecVal(0, 8)
                lt = z3.Or(lt, z3.And(eq, z3.ULT(x, y)))
                eq = z3.And(eq, x == y)
            t = {"<": lt, "<=": z3.Or(lt, eq), ">": z3.Not(z3.Or(lt, eq)), ">=": z3.Not(lt), "==": eq, "!=": z3.Not(eq)}[CMP[e.idx("op")]]
            yield True, Ok([z3.If(t, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))]), "ok"
        add("strings%d%d" % (la, lb), "operator and every character free", lambda s: [" fcb \"", [s.char("a%d" % i, chars) for i in range(la)], "\"", s.choice("op", CMP), "\"", [s.char("b%d" % i, chars) for i in range(lb)], "\"\n"],
            spec, ["ok"])
    for la, lb in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 3)) + (((4, 4), (5, 3), (3, 5)) if tier != "quick" else ()):
        strings(la, lb)
    # a string and an integer: the string counts as its packed value
    def mixed(e):
        v = z3.ZeroExt(48, z3.Concat(e.raw("a0"), e.raw("a1")))
        n = lit(e, "n")
        a, b = (v, n) if e.idx("ord") == 0 else (n, v)
        op = MX[e.idx("op")]
        yield True, q(OPS[op](a, b)), "ok"
    MX = ["+", "-", "&", "|", "^", "<", "<=", ">", ">=", "==", "!=", "&&", "||"]
    for o in (0, 1):
        S = lambda s: ["\"", s.char("a0", chars), s.char("a1", chars), "\""]
        N = lambda s: ["(", s.choice("ns", ["", "-"]), "$", s.hex("n", 4), ")"]
        def sp(e, o=o):
            v = z3.ZeroExt(48, z3.Concat(e.raw("a0"), e.raw("a1")))
            n = lit(e, "n")
            a, b = (n, v) if o else (v, n)
            yield True, q(OPS[MX[e.idx("op")]](a, b)), "ok"
        add("stringint%d" % o, "operator, two characters and an integer free", lambda s, o=o: ["res equ ", (N if o else S)(s), s.choice("op", MX), (S if o else N)(s), EMIT], sp, ["ok"])
    # two strings under an arithmetic operator
    AR = ["+", "-", "&", "|", "^", "&&", "||"]
    add("stringarith", "operator and one character each free", lambda s: ["res equ \"", s.char("a0", chars), "\"", s.choice("op", AR), "\"", s.char("b0", chars), "\"", EMIT],
        lambda e: iter([(True, q(OPS[AR[e.idx("op")]](z3.ZeroExt(56, e.raw("a0")), z3.ZeroExt(56, e.raw("b0")))), "ok")]), ["ok"])
    add("stringunary", "unary operator and two characters free", lambda s: ["res equ ", s.choice("u", list(UN)), "\"", s.char("a0", chars), s.char("a1", chars), "\"", EMIT],
        lambda e: iter([(True, q(list(UN.values())[e.idx("u")](z3.ZeroExt(48, z3.Concat(e.raw("a0"), e.raw("a1"))))), "ok")]), ["ok"])
    # what is no operand
    ALLB = ON + ["/", "%"]
    add("registers", "registers are no operands", lambda s: [" fcb ", s.choice("k", ["(x)%s5" % o for o in ALLB] + ["5%sx" % o for o in ALLB] + [o + "x" for o in ("~", "!")]), "\n"],
        lambda e: iter([(True, Fail(), "fail")]), ["fail"])
    add("zero", "division and modulo by zero, in any kind of operand", lambda s: [" ", s.choice("i", ["fcb", "fdb", "fqb", "lda", "ldx #", "bra", "rmb", "org", "leax 1,x\n fcb"]), " ", s.choice("l", ["0", "1", "-5", "2.5"]), s.choice("op", ["/", "%"]),
        s.choice("r", ["0", "(1-1)", "zz", "0.0", "(!1)"]), "\nzz equ 0\n"], lambda e: iter([(True, Fail(), "fail")]), ["fail"])
    return [s for s in out if s is not None]
