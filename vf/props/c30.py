"""Comments, blanks, line ends, letter case and reporting options leave the code as it is."""
import itertools, re
import z3
from ..scen import *
from .c29 import PROGS

# ~ blanks that must be there, ^ blanks that may be, {xx} words of either letter case
LINES = [l for l in r"""
la~{lda}~#^lv^&^255
~{ldx}~#^lv
~{lda}~lv
~{lda}~<^$12
~{sta}~^[^lv^]
~{leax}~lv^,^{x}
~{leay}~ly^,^{pcr}
~{leay}~[^lv^,^{pcr}^]
~{lda}~^,^{x}^++
~{lda}~^,^{y}^+
~{ldb}~^,^--^{y}
~{ldb}~^,^-^{u}
~{ldd}~[^,^{u}^++^]
~{lda}~{b}^,^{s}
~{lda}~[^{d}^,^{x}^]
~{lda}~<^lv^,^{x}
~{lda}~<<^5^,^{x}
~{tfr}~{a}^,^{b}
~{exg}~{x}^,^{pc}
~{pshs}~{a}^,^{b}^,^{x}
~{puls}~{cc}^,^{dp}^,^{pc}
~{pshu}~{s}^,^{y}
~{andcc}~#^lv^&^255
~{lda}~#^(^lv^)^/^256
~{bra}~*^+^5
~{lbsr}~ly
~{nop}
la~{nop}
la
~{swi2}
la~{asla}
~{fcb}~1^,^lv^&^255^,^'a^,^-^1
~{fdb}~lv^,^ly^,^lv^^^ly
~{fqb}~lv^*^65536^|^ly
~{fcc}~"a b;c"
~{fcc}~/q* r/^,^13^,^"x"
~{fcn}~"ab"
~{fcs}~"ab"
~{fcv}~"ab"
~{fci}~"ab"
~{rmb}~3
~{zmb}~3
~{fill}~lv^&^255^,^3
~{align}~4^,^lv^&^255
lb~{equ}~lv^+^1
lb~{set}~lv^-^(^1^+^2^)^*^2
lb~{equ}~lv^?^ly^:^3
lb~{equ}~lv^<^5^||^!^ly^&&^lv^>=^3^||^lv^!=^ly
lb~{equ}~lv^%^7^/^2^<<^1^>>^(^-^ly^+^9^)
lb~{equ}~"ab"
~{org}~*^+^(^lv^&^7^)
~{setdp}~lv^>>^8
~{put}~$300
~{section}~"p"
~{code}
~{data}
~{export}~ly
1~{fdb}~1b^,^1b^+^1
~{if}~lv^==^5§~{fcb}~1§~{else}§~{fcb}~2§~{endif}
~{if}~0§~{fcb}~1§~{elsif}~lv^>^7§~{fcb}~2§~{endif}
m1~{macro}§~{fcb}~\1^,^\2§lb\1~{equ}~*§~{endm}§~m1~1^,^lv^&^255
m1~{macro}§~{fcc}~"\1"§~{lda}~#^\{2}§~{endm}§~m1~"a;b"^,^'c
~{includebin}~"f"
~{include}~"g"
~{ttl}~"abc"
~{end}~ly
~{ldq}~#^lv^*^65537
~{aim}~#^1^,^lv
~{eim}~#^lv^&^255^,^3^,^{x}
~{tfm}~{x}^+^,^{y}^+
~{band}~{a}^,^1^,^2^,^$40
~{addr}~{d}^,^{w}
~{lda}~^,^{w}^++
~{lda}~lv^,^{w}
~{sta}~{e}^,^{x}
""".strip("\n").split("\n")]
BOUNDS = ["each of %d kinds of line with a free 16-bit value: every mixture of blanks and tabs, in several amounts at every place they may be; every case of each letter of mnemonics, pseudo-ops and registers; trailing comments of free bytes" % len(LINES),
          "comment lines of free bytes, and blank lines, between any two lines of %d programs; line ends LF and CR LF per line, and none at the end" % len(PROGS), "comments and runs of blanks up to 20000 characters", "reporting options in combination, on the programs, in every format"]
NOTES = ["comments without a semicolon: text starting with a word, after operands"]
NASTY = ["\\1", "\\{1}", "&{1}", "\"", "'", "/", "endm", " endm", "endif", " endif", " end", "; ;", "*", "\\", " nop", ",", "include \"x\"", "1", "\t", " \r", "\"a\\", "(", "<<", "\xff", "%", "@", "&", "&&", "!", "#", "0x", "+x"]


def scenarios(tier):
    out = []
    th = tier != "quick"
    H = lambda s, n, w=4: ["$", s.hex(n, w)]
    flat = lambda ps: [y for x in ps for y in (x if isinstance(x, list) else [x])]
    FREE = [c for c in range(1, 256) if c != 10]
    WORD = "ABCXYZabcxyz_"

    def mk(name, what, files, args, ins=("in.s",)):
        s = Scn(name, what=what)
        for n, t in files.items():
            s.file(n, *flat(t(s) if callable(t) else [t]))
        s.argv(*(list(args(s) if callable(args) else args) + ["-o", "out"] + list(ins)))
        return s

    def pair(name, what, fa, fb, args=(), argsb=None, need=("ok",), both=("out",)):
        ss = [mk(name, what, fa, args), mk(name, what, fb, args if argsb is None else argsb)]
        for s, t in ((ss[0], ss[1]), (ss[1], ss[0])):
            for n, v in t.vars.items():
                if n not in s.vars:
                    s.vars[n] = v
        ss[0].need = list(need)
        out.append(Pair(ss[0], ss[1], what=what, files=both))

    def render(s, line, blank, case=False, tail=None, eol=None):
        """a line with its marks filled in: blank(s, must) gives the blanks at a place"""
        r = []
        for part in line.split("§"):
            for m in re.finditer(r"~|\^\^\^|\^|\{[a-z0-9]+\}|[^~^{]+|\{", part):
                t = m.group()
                if t == "^^^":
                    r += [blank(s, False), "^", blank(s, False)]
                elif t in "~^":
                    r.append(blank(s, t == "~"))
                elif len(t) > 2 and t[0] == "{" and not (r and isinstance(r[-1], str) and r[-1].endswith("\\")):
                    w = t[1:-1]
                    if case:
                        s.ncase = getattr(s, "ncase", 0) + 1
                        r.append(s.case("c%d" % s.ncase, w))
                    else:
                        r.append(w)
                else:
                    r.append(t)
            if tail:
                r.append(tail(s))
            r.append(eol(s) if eol else "\n")
        return r

    plain = lambda s, must: " " if must else ""

    def free(n, o):
        def f(s, must):
            s.nbl = getattr(s, "nbl", 0)
            k = n if must else o
            r = []
            for i in range(k):
                s.nbl += 1
                r.append(s.char("b%d" % s.nbl, " \t"))
            return flat(r)
        return f
    FS = {"f": b"\x01\x02", "g": " fcb 7\n"}
    PRE = lambda s: ["ly equ 7\nlv equ ", H(s, "v"), "\n"]
    POST = "lz nop\n fdb lz,*\n"
    opt = lambda l: ["-3"] if any("{%s}" % w in l for w in "ldq aim eim tfm band addr w e".split()) else []
    T = lambda l: re.sub(r"[~^{}]", "", l.replace("~", " ").replace("§", "; "))[:40]

    for i, l in enumerate(LINES):
        A = dict({"in.s": lambda s, l=l: flat([PRE(s)] + render(s, l, plain) + [POST])}, **FS)
        for n, o in ((1, 0), (2, 1)) + (((1, 1), (1, 2), (3, 3)) if th else ()):
            if n == 1 and o == 0 and l.count("~") == 0:
                continue
            pair("blanks %d %d: %s" % (n, o, T(l)), "a value, every blank a space or tab, case of letters", A, dict({"in.s": lambda s, l=l, n=n, o=o: flat([PRE(s)] + render(s, l, free(n, o), True) + [POST])}, **FS), opt(l))

        def com(k, pre, mark, first=None):
            def f(s):
                s.ncom = getattr(s, "ncom", 0) + 1
                return flat([pre, mark] + [s.char("t%d_%d" % (s.ncom, j), FREE if j or not first else first) for j in range(k)])
            return f
        for nm, t in (("", com(3, "", ";")), (" after blanks", com(2, " \t", ";"))) + ((("5", com(5, " ", ";")),) if th else ()):
            pair("comment%s: %s" % (nm, T(l)), "a value, bytes of the comment", A, dict({"in.s": lambda s, l=l, t=t: flat([PRE(s)] + render(s, l, plain, False, t) + [POST])}, **FS), opt(l))
        pair("listed comments: %s" % T(l), "a value, which comment", A, dict({"in.s": lambda s, l=l: flat([PRE(s)] + render(s, l, plain, False, lambda s: flat([" ;", s.choice("n", NASTY, pad="x")])) + [POST])}, **FS), opt(l))
        pair("line ends: %s" % T(l), "a value; blanks, CR before the line end", A, dict({"in.s": lambda s, l=l: flat([PRE(s)] + render(s, l, plain, False, None, lambda s: s.choice("e", ["\n", "\r\n", " \n", "\t\r\n", " ;\r\n"], pad="\n")) + [POST])}, **FS), opt(l))
        # a last line with no line end
        if "§" not in l:
            pair("no line end: %s" % T(l), "a value; what ends the file", dict({"in.s": lambda s, l=l: flat([PRE(s)] + render(s, l, plain))}, **FS), dict({"in.s": lambda s, l=l: flat([PRE(s)] + render(s, l, plain)[:-1] + [s.choice("e2", ["   ", " ; ", ";x\t", " \r\n", "\n\n\n", "\n* ", "\n ;", "\n\r\n", ";\r\n"])])}, **FS), opt(l))
            pair("no line end at all: %s" % T(l), "a value", dict({"in.s": lambda s, l=l: flat([PRE(s)] + render(s, l, plain))}, **FS), dict({"in.s": lambda s, l=l: flat([PRE(s)] + render(s, l, plain)[:-1])}, **FS), opt(l))
        # text after the operands
        last = l.split("§")[-1]
        if "~" in last.strip("~").replace("~{", "~", 1) and len(last.split("~")) > 2:
            pair("text: %s" % T(l), "a value, a comment without a semicolon", A, dict({"in.s": lambda s, l=l: flat([PRE(s)] + render(s, l, plain)[:-1] + [com(3 if th else 2, "  ", "", [ord(c) for c in WORD])(s), "\n"] + [POST])}, **FS), opt(l))
            pair("listed text: %s" % T(l), "a value, which comment, a blank or tab before it", A, dict({"in.s": lambda s, l=l: flat([PRE(s)] + render(s, l, plain)[:-1] + [s.char("b", " \t"), s.choice("n", ["x" + t for t in NASTY] + ["x  " + t for t in NASTY], pad="x"), "\n"] + [POST])}, **FS), opt(l))

    # ---- between the lines of programs
    FP = [[x for l in p for x in l.split("\n")] for p in PROGS]
    J = lambda ls: "".join(x + "\n" for x in ls)
    IP = [(p, i) for p in FP for i in range(len(p) + 1)]
    LV = lambda s: ["lv equ ", H(s, "v"), "\n"]
    n = (len(IP) + 59) // 60
    for h in range(n):
        S = IP[h::n]
        for nm, mid in (("*", lambda s: ["*"] + [s.char("t%d" % j, FREE) for j in range(3)]), (";", lambda s: [";"] + [s.char("t%d" % j, FREE) for j in range(3)]), (" *", lambda s: [s.char("b", " \t"), s.char("m", "*;")] + [s.char("t%d" % j, FREE) for j in range(2)]),
                        ("blanks", lambda s: [s.choice("q", ["\n", "  \n", "\t", "\r\n", " \r\n", "\n\n"], pad="\n")]), ("listed", lambda s: [s.choice("m", "*;"), s.choice("q", NASTY, pad="x")])):
            pair("between %s %d" % (nm, h), "program, place, the text put there", {"in.s": lambda s, S=S: flat([LV(s), s.choice("k", [J(p) for p, i in S], pad="\n")])}, {"in.s": lambda s, S=S, mid=mid: flat([LV(s), s.choice("k", [J(p[:i]).rjust(200, "\n") for p, i in S])] + mid(s) + ["\n", s.choice("k", [J(p[i:]) for p, i in S], pad="\n")])})
    for nm, e in (("CR LF", "\r\n"), ("blanks", " \t\n"), ("comments", " ; x\n"), ("double", "\n\n"), ("mixed", None)):
        def prog(s, e=e):
            k = [J(p) for p in FP]
            ks = [x.replace("\n", e) if e else "".join(l + ["\r\n", "\n", " ;\"\n", "\n\r\n"][j % 4] for j, l in enumerate(x.split("\n")[:-1])) for x in k]
            return flat([LV(s), s.choice("k", ks, pad="\n")])
        pair("whole %s" % nm, "program, a value", {"in.s": lambda s: flat([LV(s), s.choice("k", [J(p) for p in FP], pad="\n")])}, {"in.s": prog})
    # ---- long
    for k in [100, 1000, 8180, 8185, 8189, 8190, 8191, 8192, 8193, 8194, 16370, 16380, 16384, 16390, 20000] + ([8170 + i for i in range(10)] + [16372 + i for i in range(8)] + [65000, 200000] if th else []):
        for nm, t in (("comment", lambda s, k=k: [" nop ;" + "x" * k + "\n"]), ("line", lambda s, k=k: ["*" + "\"" * k + "\n"]), ("blanks", lambda s, k=k: [" " * k + "nop" + "\t" * 3 + "\n"]), ("operand", lambda s, k=k: [" fcb " + " " * (k - 30) + "1,2\n"])):
            base = {"comment": " nop\n", "line": "", "blanks": " nop\n", "operand": " fcb 1,2\n"}[nm]
            if k > 20000 and nm != "comment":
                continue
            pair("long %s %d" % (nm, k), "a value", {"in.s": lambda s, base=base: flat([LV(s), base, " fdb lv\n"])}, {"in.s": lambda s, t=t: flat([LV(s)] + t(s) + [" fdb lv\n"])})
            (out[-1].a).limit = (out[-1].b).limit = 2000000000
    # ---- reporting options
    OPT = [["-l", "o1"], ["-s", "o2"], ["-E", "o3"], ["-q"], ["-v"]]
    sets = [sum(c, []) for r in range(1, 6) for c in itertools.combinations(OPT, r)] if th else [o for o in OPT] + [sum(OPT, []), ["-q", "-q"], ["-v", "-v"], ["--quiet"], ["--verbose"], ["--listing=o1"], ["--symbols=o2"], ["--exports=o3"], ["-vq", "-lo1"]]
    W = [" ldx 5,x+\n", " lda lz\nlz equ 4\n", " lbra *\n", " jmp ,x+\n ldd [,x+]\n", " tfr a,x\n", " fcb 300\n", " lda\n", " nosuch\n", " fdb lq\n", " export lv,lz\nlz equ lv\nm1 macro\n nop\n endm\n export m1\n", " org -1\n fcb 1\n", " bra 300\n", " leax <<300,x\n", " if\n"]
    for o in sets:
        for f in (["-B"], ["-D"], ["-C"], ["-S"], ["-H"]) if th or len(o) > 4 else ([],):
            pair("options %s" % " ".join(o + f), "program, a value", {"in.s": lambda s: flat([LV(s), s.choice("k", [J(p) for p in FP] + W, pad="\n")])}, {"in.s": lambda s: flat([LV(s), s.choice("k", [J(p) for p in FP] + W, pad="\n")])}, f, o + f, ("ok", "fail"))
    return out
