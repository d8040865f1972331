"""Conditional assembly."""
import itertools
import z3
from ..scen import *

BOUNDS = ["chains of up to five conditions, nestings up to three deep, every condition value (16-bit symbol values, 64-bit constants)", "every sequence of five (thorough: six) lines among IF, ELSIF, ELSE, ENDIF and data, with true and false conditions",
          "skipped lines of twenty kinds; conditions in macros, in included files and on symbols defined later"]


def run(prog, truth):
    """prog: list of ('if', c) ('elsif', c) ('else',) ('endif',) ('b', bytes); truth(c) -> bool.
    Returns the bytes, 'fail', or None where nothing is required."""
    out = []
    stack = []          # [state, active]; state: 0 no branch taken yet, 1 taken, 2 in ELSE
    for l in prog:
        on = all(s[1] for s in stack)
        if l[0] == "b":
            if on:
                out += l[1]
        elif l[0] == "if":
            if on:
                t = truth(l[1])
                stack.append([1 if t else 0, t])
            else:
                stack.append([3, False])     # skipped whole
        elif not stack:
            return "fail"
        elif l[0] == "endif":
            stack.pop()
        elif stack[-1][0] == 3:
            if l[0] == "else":
                stack[-1] = [4, False]
            continue
        elif stack[-1][0] == 4:
            return None                       # malformed chain in skipped lines
        elif stack[-1][0] == 2:
            return "fail"
        elif l[0] == "elsif":
            if stack[-1][0] == 0:
                t = truth(l[1])
                stack[-1] = [1 if t else 0, t]
            else:
                stack[-1][1] = False
        else:
            if stack[-1][0] == 0:
                stack[-1] = [2, True]
            else:
                stack[-1] = [2, False]
    return "fail" if stack else out


def cases(prog, conds, wrap=lambda x: x):
    """every combination of truth values of the conditions (name -> z3 Bool)"""
    names = sorted(conds)
    for combo in itertools.product((True, False), repeat=len(names)):
        tr = dict(zip(names, combo))
        c = z3.And([conds[n] if tr[n] else z3.Not(conds[n]) for n in names]) if names else True
        r = run(prog, lambda n: tr[n])
        if r is None:
            continue
        yield c, Fail() if r == "fail" else Ok(wrap(r)), "fail" if r == "fail" else "ok"


def text(prog, cond):
    """source text of a program; cond(name) gives the condition's text"""
    o = []
    for l in prog:
        if l[0] == "b":
            o += [" fcb ", ",".join(map(str, l[1])), "\n"]
        elif len(l) > 1:
            o += [" ", l[0], " ", cond(l[1]), "\n"]
        else:
            o += [" ", l[0], "\n"]
    return o


def parse(t):
    """compact notation: 'if a; 1; elsif b; 2; else; 3; endif'"""
    r = []
    for w in t.split(";"):
        w = w.split()
        r.append(("b", [int(w[0])]) if w[0].isdigit() else tuple(w))
    return r


def scenarios(tier):
    out = []
    th = tier != "quick"

    def add(name, what, parts, spec, need=("ok",), args=(), files={}):
        s = Scn(name, what=what)
        p = parts(s)
        s.argv(*(list(args(s) if callable(args) else args) + ["-o", "out", "in.s"]))
        s.src(*p)
        for n, t in files.items():
            s.file(n, t)
        s.spec = spec
        s.need = list(need)
        out.append(s)
    H = lambda s, n, k=4: ["$", s.hex(n, k)]
    fail = lambda e: iter([(True, Fail(), "fail")])
    ok = lambda *bs: lambda e: iter([(True, Ok(list(bs)), "ok")])

    PROGS = {
        "chain": "if a; 1; elsif b; 2; elsif c; 3; else; 4; endif; 5",
        "chain5": "if a; 1; elsif b; 2; elsif c; 3; elsif d; 4; elsif e; 5; endif; 6",
        "two": "if a; 1; else; 2; endif; 3; if b; 4; elsif c; 5; endif; 6",
        "nest": "if a; 1; if b; 2; elsif c; 3; else; 4; endif; 5; else; 6; if b; 7; else; 8; endif; 9; endif; 10",
        "nestelsif": "if a; 1; elsif b; 2; if c; 3; elsif d; 4; endif; 5; elsif c; 6; if d; 7; endif; else; if a; 8; else; 9; endif; endif; 10",
        "deep": "if a; 1; if b; 2; if c; 3; else; 4; endif; 5; elsif d; 6; else; 7; endif; 8; else; if d; if b; 9; endif; 10; endif; endif; 11",
        "empty": "if a; elsif b; else; endif; if c; endif; 1; if d; else; 2; endif",
        "bare": "if a; if b; if c; 1; endif; endif; endif; 2",
    }
    for n, t in PROGS.items():
        prog = parse(t)
        names = sorted({l[1] for l in prog if len(l) > 1 and l[0] != "b"})

        def parts(s, prog=prog, names=names):
            return [["k%s equ $" % k, s.hex(k, 2), "\n"] for k in names] + text(prog, lambda k: "k" + k)
        add(n, "values of the condition symbols free", lambda s, parts=parts: [x for p in parts(s) for x in (p if isinstance(p, list) else [p])],
            lambda e, prog=prog, names=names: cases(prog, {k: e.num(k, 8) != 0 for k in names}))
        # the same with the symbols defined after their use
        if n in ("chain", "nest", "deep") or th:
            add(n + " later", "condition symbols defined later", lambda s, prog=prog, names=names: text(prog, lambda k: "k" + k) + [x for k in names for x in ("k%s equ $" % k, s.hex(k, 2), "\n")],
                lambda e, prog=prog, names=names: cases(prog, {k: e.num(k, 8) != 0 for k in names}))
    # one value decides a chain of comparisons

    def sel(e):
        v = e.num("v", 16)
        c = {"a": v == 5, "b": z3.ULT(v, 0x10), "c": z3.UGT(v, 0x8000), "d": (v & 1) != 0}
        return cases(parse("if a; 1; elsif b; 2; elsif c; 3; elsif d; 4; else; 5; endif"), c)
    add("compare", "one 16-bit value free", lambda s: ["v1 equ ", H(s, "v"), "\n if v1==5\n fcb 1\n elsif v1<$10\n fcb 2\n elsif v1>$8000\n fcb 3\n elsif v1&1\n fcb 4\n else\n fcb 5\n endif\n"], sel)
    add("words", "comparison and logic operators", lambda s: ["v1 equ $", s.hex("v", 2), "\nv2 equ $", s.hex("w", 2), "\n if (v1&&v2)\n fcb 1\n endif\n if v1||v2\n fcb 2\n endif\n if !v1\n fcb 3\n endif\n if v1-v2\n fcb 4\n endif\n"],
        lambda e: cases(parse("if a; 1; endif; if b; 2; endif; if c; 3; endif; if d; 4; endif"), {"a": z3.And(e.num("v", 8) != 0, e.num("w", 8) != 0), "b": z3.Or(e.num("v", 8) != 0, e.num("w", 8) != 0), "c": e.num("v", 8) == 0, "d": e.num("v", 8) != e.num("w", 8)}))
    add("wide", "constant of 15 hex digits free, with either sign", lambda s: [" if ", s.padl("m", ["", "-"]), "$", s.hex("v", 15), "\n fcb 1\n else\n fcb 2\n endif\n"], lambda e: cases(parse("if a; 1; else; 2; endif"), {"a": e.num("v") != 0}))
    add("float", "condition that is not an integer", lambda s: [" if ", s.choice("k", ["0.0", "1.5", "3/2", "0.0*5", "2.0-1"]), "\n fcb 1\n else\n fcb 2\n endif\n"], lambda e: iter([(True, Ok([2 if e.idx("k") in (0, 3) else 1]), "ok")]))

    # every sequence of lines
    KW = [("if", "0"), ("if", "1"), ("elsif", "0"), ("elsif", "1"), ("else",), ("endif",), None]
    TX = ["if 0", "if 1", "elsif 0", "elsif 1", "else", "endif"]
    N = 6 if th else 5

    def seq(e):
        prog = []
        for i in range(N):
            k = KW[e.idx("k%d" % i)]
            prog.append(k if k else ("b", [i]))
            prog.append(("b", [i + 16]))
        r = run(prog, lambda c: c == "1")
        if r is not None:
            yield True, Fail() if r == "fail" else Ok(r), "fail" if r == "fail" else "ok"
    add("lines", "every sequence of %d lines" % N, lambda s: [x for i in range(N) for x in (" ", s.choice("k%d" % i, TX + ["fcb %d" % i]), "\n fcb %d\n" % (i + 16))], seq, ["ok", "fail"])

    # undefined symbols count as zero
    add("undefined", "undefined symbol in a condition", lambda s: [" if ", s.choice("k", ["nosuch", "!nosuch", "nosuch+1", "nosuch==0", "nosuch!=0", "-nosuch", "nosuch||0", "nosuch&1", "nosuch<1", "5-nosuch", "nosuch*3", "(nosuch)"]), "\n fcb 1\n elsif ", s.choice("m", ["nosuch", "!nosuch", "other==nosuch"]), "\n fcb 2\n else\n fcb 3\n endif\n"],
        lambda e: iter([(True, Ok([1 if e.idx("k") in (1, 2, 3, 8, 9) else [3, 2, 2][e.idx("m")]]), "ok")]))
    add("undefined value", "an undefined symbol beside a free value", lambda s: ["v1 equ $", s.hex("v", 2), "\n if nosuch+v1\n fcb 1\n else\n fcb 2\n endif\n if nosuch==v1\n fcb 3\n endif\n"], lambda e: cases(parse("if a; 1; else; 2; endif; if b; 3; endif"), {"a": e.num("v", 8) != 0, "b": e.num("v", 8) == 0}))
    # undefined symbols elsewhere are still errors
    add("undefined outside", "an undefined symbol after a condition with one", lambda s: [" if nosuch\n fcb 1\n endif\n fcb ", s.choice("k", ["nosuch", "nosuc2"]), "\n"], fail, ["fail"])
    add("set", "SET symbols: the value at that point", lambda s: ["v1 set $", s.hex("v", 2), "\n if v1\n fcb 1\nv1 set 0\n else\n fcb 2\nv1 set 1\n endif\n if v1\n fcb 3\n else\n fcb 4\n endif\n"],
        lambda e: iter([(e.num("v", 8) != 0, Ok([1, 4]), "ok"), (e.num("v", 8) == 0, Ok([2, 3]), "ok")]))
    add("option", "symbol of -d", lambda s: [" if foo==", H(s, "v", 2), "\n fcb 1\n else\n fcb 2\n endif\n"], lambda e: iter([(e.num("v", 8) == 0x5A, Ok([1]), "ok"), (e.num("v", 8) != 0x5A, Ok([2]), "ok")]), ["ok"], ["-d", "foo=90"])

    # skipped lines have no effect
    SK = [" fcb 9", " bogus 5", " lda nosuch", "la equ 9", "la nop", "1 nop", " org $9000", " put $9000", " section \"x\"", " data", " setdp 5", " rmb 5", " include \"nosuch\"", " includebin \"nosuch\"", "la set 3", " export nosuch", " if 1,2\n endif", " if nosuch,\n endif", " if 1\n fcb 9\n else\n fcb 8\n endif", " if 0\n elsif 1\n fcb 7\n endif",
          " fcb \\1", " \\1 5", "\\1 equ 7", "la macro\n fcb 9\n endm", " macro", " endm", " align 0", " rzb -1", " lda #1,2,3", " fcb 1/0", " abx 5", " tfr a", "la", "*comment", ""]
    add("skipped", "kind of a skipped line, in each place", lambda s: [" fcb 1\n if ", s.choice("c", ["0", "1"]), "\n", " fcb 2\n", " else\n", s.choice("k", SK, pad="\n"), "\n endif\n fcb 3\nla equ 4\n ldb <la\n fdb *\n"],
        lambda e: iter([(True, Ok([1, 2, 3, 0xD6, 4, 0, 5]), "ok")] if e.idx("c") == 1 else []), ["ok"])
    add("skipped if", "kind of a line skipped by IF", lambda s: [" fcb 1\n if 0\n", s.choice("k", SK, pad="\n"), "\n endif\n fcb 3\nla equ 4\n ldb <la\n fdb *\n"], lambda e: iter([(True, Ok([1, 3, 0xD6, 4, 0, 4]), "ok")]))
    add("skipped elsif", "kind of a line skipped by ELSIF", lambda s: [" fcb 1\n if 1\n elsif 1\n", s.choice("k", SK, pad="\n"), "\n else\n", s.choice("m", SK[:6] if not th else SK, pad="\n"), "\n endif\n fcb 3\nla equ 4\n ldb <la\n fdb *\n"], lambda e: iter([(True, Ok([1, 3, 0xD6, 4, 0, 4]), "ok")]))
    add("skipped nested", "kind of a line in a chain inside skipped lines", lambda s: [" fcb 1\n if 0\n if ", s.choice("c", ["0", "1", "nosuch", "1/0", "\\1"]), "\n", s.choice("k", SK, pad="\n"), "\n elsif ", s.choice("d", ["0", "1"]), "\n fcb 5\n else\n fcb 6\n endif\n fcb 7\n endif\n fcb 3\nla equ 4\n ldb <la\n fdb *\n"], lambda e: iter([(True, Ok([1, 3, 0xD6, 4, 0, 4]), "ok")]))
    add("skipped condition", "a condition that is not reached is not evaluated", lambda s: [" if 1\n fcb 1\n elsif ", s.choice("k", ["1", "1/0", "\\1", "1,2", '"a"', "nosuch"]), "\n fcb 2\n elsif 1\n fcb 3\n endif\n"], ok(1))

    # in a macro; balanced within the macro
    add("macro", "positional variables in conditions", lambda s: ["m1 macro\n if \\1==1\n fcb 1\n elsif \\1==2\n fcb 2,\\2\n else\n fcb 3\n \\2 4\n endif\n endm\n m1 ", H(s, "v", 1), ",\"fcb\"\n m1 1\n"],
        lambda e: iter([(e.num("v", 8) == 1, Ok([1, 1]), "ok"), (e.num("v", 8) == 2, Ok([2, 0x66, 0x63, 0x62, 1]), "ok"), (z3.And(e.num("v", 8) != 1, e.num("v", 8) != 2), Ok([3, 4, 1]), "ok")]))
    add("macro skip", "macro calls and definitions in branches", lambda s: ["m1 macro\n fcb 1\n endm\nv1 equ ", H(s, "v", 1), "\n if v1\nm2 macro\n fcb 2\n endm\n else\nm2 macro\n fcb 3\n endm\n endif\n m1\n m2\n if v1\n m2\n else\n m1\n endif\n"],
        lambda e: iter([(e.num("v", 8) != 0, Ok([1, 2, 2]), "ok"), (e.num("v", 8) == 0, Ok([1, 3, 1]), "ok")]))
    add("macro body", "conditions inside a definition are left to the expansion", lambda s: ["m1 macro\n if \\1\n fcb 1\n else\n fcb 2\n endif\n endm\n if ", H(s, "v", 1), "\n m1 0\n else\n m1 1\n endif\n"],
        lambda e: iter([(e.num("v", 8) != 0, Ok([2]), "ok"), (e.num("v", 8) == 0, Ok([1]), "ok")]))
    add("include", "a chain in an included file inside a chain", lambda s: [" if ", H(s, "v", 1), "\n include \"b.s\"\n else\n fcb 9\n endif\n fcb 8\n"],
        lambda e: iter([(e.num("v", 8) != 0, Ok([2, 8]), "ok"), (e.num("v", 8) == 0, Ok([9, 8]), "ok")]), ["ok"], (), {"b.s": " if 0\n fcb 1\n else\n fcb 2\n endif\n"})
    # unbalanced
    UN = [" else", " elsif 1", " endif", " if 1", " if 0", " if 1\n else\n else\n endif", " if 0\n else\n else\n endif", " if 1\n else\n elsif 1\n endif", " if 0\n else\n elsif 0\n endif", " if 1\n if 0\n endif", " if 0\n if 1\n endif", " if 1\n endif\n endif", " if", " if 1,2\n endif", " if x\n endif", " if [1]\n endif", " if 0\n elsif\n endif", " if 0\n elsif 1,2\n endif", " if 1f\n endif", " if 1/0\n endif"]
    add("unbalanced", "kind of mistake, in the program", lambda s: [" fcb 1\n", s.choice("k", UN, pad="\n"), "\n fcb 2\n"], fail, ["fail"])
    add("unbalanced macro", "kind of mistake, in a macro", lambda s: ["m1 macro\n", s.choice("k", UN, pad="\n"), "\n endm\n if 1\n m1\n endif\n fcb 2\n"], fail, ["fail"])
    for k, u in enumerate(UN):
        if not th and k not in (0, 2, 3, 4):
            continue
        add("unbalanced include %d" % k, "mistake in an included file", lambda s: [" if 1\n include \"b.s\"\n endif\n"], fail, ["fail"], (), {"b.s": u + "\n fcb 1\n"})
    # known finding: what a line did in an earlier pass, before it was skipped
    add("stale symbol", "a symbol defined only by a line that the last pass skips", lambda s: [" if !foo\nbar equ 5\n endif\nfoo equ 1\n fcb bar\n"], fail, [])
    add("stale local", "a local label defined only by a line that the last pass skips", lambda s: [" if !foo\n1\n endif\nfoo equ 1\n nop\n bra 1b\n"], fail, [])
    add("case", "letter case and spacing of the keywords", lambda s: [" ", s.case("a", "if"), "  ", s.choice("v", ["0", "1", "2"]), " ; x\n fcb 1\n\t", s.case("b", "elsif"), "\t1\n fcb 2\n ", s.case("c", "else"), " foo\n fcb 3\n ", s.case("d", "endif"), "\n"] if th else
        [" ", s.case("a", "if"), "  ", s.choice("v", ["0", "1", "2"]), " ; x\n fcb 1\n\telsIF\t1\n fcb 2\n eLse foo\n fcb 3\n ", s.case("d", "endif"), "\n"],
        lambda e: iter([(True, Ok([1 if e.idx("v") else 2]), "ok")]))
    return out
