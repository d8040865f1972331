"""Exec address."""
import z3
from ..scen import *
from .. import fmt

BOUNDS = ["every 16-bit exec and load address (20-bit operands of END), all five formats", "END operands: number, symbol, expression, local label, symbol depending on instruction sizes, symbol of another file; -e as a number in six notations or a symbol"]
FO = list(fmt.FMT)


def scenarios(tier):
    out = []
    th = tier != "quick"

    def add(name, what, parts, spec, need=("ok",), args=(), files={}, ins=("in.s",)):
        s = Scn(name, what=what)
        p = parts(s)
        s.argv(*(list(args(s) if callable(args) else args) + ["-o", "out"] + list(ins)))
        s.src(*p)
        for n, t in files.items():
            s.file(n, t)
        s.spec = spec
        s.need = list(need)
        out.append(s)
    lo = lambda t: z3.Extract(15, 0, t)
    H = lambda s, n, k=4: ["$", s.hex(n, k)]
    opt = lambda s: [s.choice("f", FO)]
    f = lambda e: fmt.FMT[FO[e.idx("f")]]
    fail = lambda e: iter([(True, Fail(), "fail")])
    D = [(0x2000, [1, 2])]
    B = " org $2000\n fcb 1,2\n"
    add("none", "address free, no exec address given", lambda s: [" org $", s.hex("o", 4), "\n fcb 1\n", s.choice("k", [" end", "", " END ", "la equ 5", " end ;x"]), "\n"], lambda e: iter([(True, Ok(f(e)([(lo(e.num("o", 64)), [1])])), "ok")]), ["ok"], opt)
    add("none2", "two spans, the lower one second", lambda s: [" org $", s.hex("o", 2), "80\n fcb 1\n org $0002\n fcb 2\n"], lambda e: iter([(e.num("o", 64) != 0, Ok(f(e)([(2, [2]), (lo(e.num("o", 64)) * 256 + 128, [1])])), "ok")]), ["ok"], lambda s: [s.choice("f", FO[:3])])
    add("end", "20-bit END operand free", lambda s: [B, " end $", s.hex("x", 5), "\n"], lambda e: iter([(True, Ok(f(e)(D, lo(e.num("x", 64)))), "ok")]), ["ok"], opt)
    add("endexpr", "expression in END", lambda s: ["la equ ", H(s, "x"), "\nlb equ 9\n", B, " end ", s.choice("k", ["la+1", "2*la", "la&$ff00", "la+$100+lb", "la>>1"]), "\n"],
        lambda e: iter([(True, Ok(f(e)(D, lo([lambda x: x + 1, lambda x: 2 * x, lambda x: x & 0xff00, lambda x: x + 0x109, lambda x: z3.LShR(x, 1)][e.idx("k")](e.num("x", 64))))), "ok")]), ["ok"], opt)
    add("endfloat", "END operand that is not an integer", lambda s: [B, " end ", s.choice("k", ["4.75", "9/2", "2.25*2", '"A"']), "\n"], lambda e: iter([(True, Ok(f(e)(D, 4 if e.idx("k") < 3 else 65)), "ok")]), ["ok"], opt)
    add("endlabel", "load address free; END operand is a label", lambda s: [" org $0", s.hex("o", 3), "\n fcb 1\n", s.choice("l", ["la", "1"]), "  fcb 2\n end ", s.choice("l", ["la", "1b"]), "\n"],
        lambda e: iter([(True, Ok(f(e)([(lo(e.num("o", 64)), [1, 2])], lo(e.num("o", 64)) + 1)), "ok")]), ["ok"], opt)
    add("endpc", "END *; address free, PUT elsewhere", lambda s: [" org $0", s.hex("o", 3), "\n put $4000\n fcb 1\n end *\n"],
        lambda e: iter([(True, Ok(f(e)([(0x4000, [1])], lo(e.num("o", 64)) + 1)), "ok")]), ["ok"], opt)

    def final(e):
        # lda lv is 2 bytes if lv is in page c, else 3
        c = e.num("c", 64)
        for direct in (True, False):
            a = (2 if direct else 3) + 0x2000
            yield (c == 0x20 if direct else c != 0x20), Ok(f(e)([(0x2000, ([0x96, a & 255] if direct else [0xB6] + be(a, 2)) + [1])], a)), "ok"
    add("final", "END operand depends on instruction sizes fixed in a later pass", lambda s: [" org $2000\n setdp $", s.hex("c", 2), "\n lda lv\nlv fcb 1\n end lv\n"], final, ["ok"], opt)
    add("other", "END operand of the first file is defined in the second", lambda s: [B, " end lx\n"] + [], lambda e: iter([(True, Ok(f(e)(D, 0x1234)), "ok")]), ["ok"], opt, {"b.s": "lx equ $1234\n"}, ("in.s", "b.s"))
    add("second", "END in the second of two files", lambda s: [B], lambda e: iter([(True, Ok(f(e)(D, 0x1234)), "ok")]), ["ok"], opt, {"b.s": " end $1234\n"}, ("in.s", "b.s"))
    add("negative", "END operand negative: no exec address", lambda s: [B, " end -", s.dec("x", 3, 1), "\n"], lambda e: iter([(True, Ok(f(e)(D)), "ok")]), ["ok"], opt)
    # after END
    add("after", "text after END", lambda s: [B, " ", s.case("e", "end"), " $10\n", s.char("a", " ab;*$\"(\n"), s.char("b", " fx1(\"\t\n"), s.char("c", " ab,\n)")], lambda e: iter([(True, Ok(f(e)(D, 0x10)), "ok")]), ["ok"], opt)
    add("after2", "statements after END", lambda s: [B, "la end\n", s.choice("k", [" fcb 3", " end 5", " bogus", " if", " include \"nosuch\"", "x y z", "la equ 5", " org 5", " macro"]), "\n"], lambda e: iter([(True, Ok(f(e)(D)), "ok")]), ["ok"], opt)
    add("skipped", "END under a false condition does not set the address; exec of the other branch", lambda s: [B, " if 0\n fcb 9\n endif\nlb equ 7\n end lb\n"], lambda e: iter([(True, Ok(f(e)(D, 7)), "ok")]), ["ok"], opt)
    add("endbad", "operand of END that is no address", lambda s: [B, " end ", s.choice("k", ["nosuch", "1,2", "x", "[5]", "1f"]), "\n"], fail, ["fail"], opt)
    # -e
    NUM = [("$", lambda s: s.hex("x", 4)), ("0x", lambda s: s.hex("x", 4)), ("@", lambda s: s.octal("x", 6)), ("%", lambda s: s.binary("x", 16)), ("0b", lambda s: s.binary("x", 16)), ("", lambda s: s.dec("x", 5, 1))]
    for pre, mk in NUM:
        add("opt" + pre, "-e with a number in this notation, END operand free", lambda s: [B, " end $", s.hex("y", 2), "\n"],
            lambda e: iter([(True, Ok(f(e)(D, lo(e.num("x", 64)))), "ok")]), ["ok"], lambda s: [s.choice("f", FO), "-e", T(pre, mk(s))] if th or pre in ("$", "") else ["-S", "-e", T(pre, mk(s))])
    # for the fixed format the choice variable does not exist
    for s in out:
        if s.name.startswith("opt") and "f" not in s.vars:
            s.spec = lambda e: iter([(True, Ok(fmt.srec(D, lo(e.num("x", 64)))), "ok")])
    add("opt long", "--exec=number", lambda s: [B], lambda e: iter([(True, Ok(f(e)(D, lo(e.num("x", 64)))), "ok")]), ["ok"], lambda s: [s.choice("f", FO), T("--exec=$", s.hex("x", 4))])
    add("opt symbol", "-e with a symbol of free value (20 bits), with and without END", lambda s: ["go equ $", s.hex("x", 5), "\n", B, s.choice("k", [" end 5", "", " end", " end go+1"]), "\n"], lambda e: iter([(True, Ok(f(e)(D, lo(e.num("x", 64)))), "ok")]), ["ok"], lambda s: [s.choice("f", FO), "-e", "go"])
    add("opt label", "-e with a label at a free address", lambda s: [" org $0", s.hex("o", 3), "\n nop\ngo nop\n"], lambda e: iter([(True, Ok(f(e)([(lo(e.num("o", 64)), [0x12, 0x12])], lo(e.num("o", 64)) + 1)), "ok")]), ["ok"], lambda s: [s.choice("f", FO), "-e", "go"])
    add("opt final", "-e with a label whose value changes between passes", lambda s: [" org $2000\n setdp $", s.hex("c", 2), "\n lda lv\nlv fcb 1\n end 5\n"], final, ["ok"], lambda s: [s.choice("f", FO), "-e", "lv"])
    add("opt define", "-e with a symbol of -d", lambda s: [B], lambda e: iter([(True, Ok(f(e)(D, lo(e.num("x", 64)))), "ok")]), ["ok"], lambda s: [s.choice("f", FO), "-d", T("go=$", s.hex("x", 4)), "-e", "go"])
    add("opt bad", "-e with an unknown symbol", lambda s: ["go equ 5\n", B], fail, ["fail"], lambda s: [s.choice("f", FO), "-e", s.choice("k", ["gp", "Go", "", "go1"])])
    add("opt twice", "the last -e counts", lambda s: [B], lambda e: iter([(True, Ok(f(e)(D, 0x22)), "ok")]), ["ok"], lambda s: [s.choice("f", FO), "-e", "0x11", "-e", "0x22"])
    return out
