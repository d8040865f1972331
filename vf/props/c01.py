"""Opcode map, ISA gating, letter case."""
import z3
from ..scen import *
from .. import isa

BOUNDS = ["every mnemonic of both instruction sets in every addressing form of the CPU, with one operand per form",
          "upper or lower case chosen freely for every letter of every mnemonic",
          "unknown mnemonics: every word of two letters and every one-letter change of selected mnemonics"]
NOTES = ["operand values are fixed here; C02 to C08 vary them"]

A3 = ["-3"]


def forms(tab):
    """(mnemonic, operand, bytes) for every form of memory instructions"""
    r = []
    for m, (w, imm, d, i, x) in sorted(tab.items()):
        if imm is not None:
            r.append((m, "#$12345678", isa.ob(imm) + [0x12, 0x34, 0x56, 0x78][4 - w:]))
        if d is not None:
            r.append((m, "<$34", isa.ob(d) + [0x34]))
        if i is not None:
            r.append((m, ",y", isa.ob(i) + [0xA4]))
        if x is not None:
            r.append((m, ">$5678", isa.ob(x) + [0x56, 0x78]))
    return r


def others(six):
    r = [(m, "", isa.ob(o)) for m, o in sorted((isa.INH63 if six else isa.INH).items())]
    r += [(m, "#$9a", isa.ob(o) + [0x9A]) for m, o in sorted((isa.IMMONLY63 if six else isa.IMMONLY).items())]
    r += [(m, "x,y", isa.ob(o) + [0x12]) for m, o in sorted((isa.PAIR63 if six else isa.PAIR).items())]
    if not six:
        r += [(m, "a,b", isa.ob(o) + [0x06]) for m, o in sorted(isa.STACK.items())]
        r += [(m, ",u", isa.ob(o) + [0xC4]) for m, o in sorted(isa.LEA.items())]
        r += [(m, "*+4", isa.ob(o) + [4 - len(isa.ob(o)) - 1]) for m, o in sorted(isa.SHORT.items())]
        r += [(m, ">*+7", isa.ob(o) + [0, 7 - len(isa.ob(o)) - 2]) for m, o in sorted(isa.LONG.items())]
    else:
        for m, o in sorted(isa.IMMMEM63.items()):
            r.append((m, "#$12,<$34", [o, 0x12, 0x34]))
            r.append((m, "#$12,,y", [o + 0x60, 0x12, 0xA4]))
            r.append((m, "#$12,>$5678", [o + 0x70, 0x12, 0x56, 0x78]))
        r += [(m, "a,1,2,$34", isa.ob(o) + [0x4A, 0x34]) for m, o in sorted(isa.BIT63.items())]
        for k, t in enumerate(["x+,y+", "x-,y-", "x+,y", "x,y+"]):
            r.append(("tfm", t, [0x11, 0x38 + k, 0x12]))
    return r


ALL09 = others(False) + forms(isa.MEM)
ALL63 = others(True) + forms(isa.MEM63)


def scenarios(tier):
    out = []

    def oneof(name, args, items, bad=False):
        s = Scn(name, what="one line, mnemonic and form chosen freely")
        s.src(" ", s.choice("op", ["%s %s" % (m, o) for m, o, _ in items]), "\n", args=args)

        def spec(e):
            yield True, (Fail() if bad else Ok(items[e.idx("op")][2])), "fail" if bad else "ok"
        s.spec = spec
        s.need = ["fail" if bad else "ok"]
        out.append(s)

    def chunks(l, n):
        return [l[i:i + n] for i in range(0, len(l), n)]

    for k, c in enumerate(chunks(ALL09, 200)):
        oneof("forms6809-%d" % k, ["-9"], c)
        oneof("forms6809on6309-%d" % k, A3, c)
    for k, c in enumerate(chunks(ALL63, 200)):
        oneof("forms6309-%d" % k, A3, c)
        oneof("gate6309-%d" % k, [], c, bad=True)

    # forms the CPU does not have
    bad = [(m, "#1", 0) for m, t in sorted(isa.MEM.items()) if t[1] is None]
    bad += [(m, "5", 0) for m in sorted(list(isa.INH) + list(isa.PAIR) + list(isa.STACK))]
    bad += [(m, o, 0) for m in sorted(isa.IMMONLY) for o in ("5", ",x", "<5", "")]
    bad += [(m, o, 0) for m in sorted(isa.LEA) for o in ("#5", "")]
    bad += [(m, "", 0) for m in sorted(list(isa.MEM) + list(isa.SHORT) + list(isa.LONG) + list(isa.PAIR))]
    bad += [(m, "x", 0) for m in sorted(list(isa.SHORT) + list(isa.LONG))]
    for k, c in enumerate(chunks(bad, 220)):
        oneof("badform-%d" % k, [], c, bad=True)
    bad3 = [(m, "#1", 0) for m, t in sorted(isa.MEM63.items()) if t[1] is None]
    bad3 += [(m, "5", 0) for m in sorted(list(isa.INH63) + list(isa.PAIR63) + ["tfm"])]
    bad3 += [(m, "", 0) for m in sorted(list(isa.MEM63) + list(isa.PAIR63) + list(isa.BIT63) + list(isa.IMMMEM63) + ["tfm"])]
    bad3 += [(m, "#1", 0) for m in sorted(isa.IMMMEM63)] + [(m, "a,1,2", 0) for m in sorted(isa.BIT63)]
    oneof("badform6309", A3, bad3, bad=True)

    # letter case: all mnemonics, every letter free
    def case(name, args, items):
        s = Scn(name, what="letter case of every letter of %d mnemonics free" % len(items))
        t, exp = [], []
        for i, (m, o, b) in enumerate(items):
            t += [" ", s.case("m%d" % i, m), " ", s.case("o%d" % i, o), "\n"]
            exp += b
        s.src(*t, args=args)
        s.spec = lambda e, exp=exp: iter([(True, Ok(exp), "ok")])
        s.need = ["ok"]
        out.append(s)
    seen, one = set(), []
    for it in ALL09:
        if it[0] not in seen:
            seen.add(it[0])
            one.append(it)
    for k, c in enumerate(chunks(one, 45)):
        case("case6809-%d" % k, [], c)
    seen, one = set(), []
    for it in ALL63:
        if it[0] not in seen:
            seen.add(it[0])
            one.append(it)
    for k, c in enumerate(chunks(one, 35)):
        case("case6309-%d" % k, A3, c)

    # words that are no mnemonic
    known = set(m for m, _, _ in ALL09)
    s = Scn("words2", what="two-letter instruction name: every pair of letters")
    letters = [chr(c) for c in range(97, 123)]
    s.src(" fcb 1\n ", s.char("c0", letters), s.char("c1", letters), " #5\n")

    def spec2(e):
        w = z3.Concat(e.raw("c0"), e.raw("c1"))
        ok = z3.Or([w == (ord(m[0]) << 8 | ord(m[1])) for m in known if len(m) == 2 and (m in isa.MEM and isa.MEM[m][1])] + [z3.BoolVal(False)])
        skip = z3.Or([w == (ord(m[0]) << 8 | ord(m[1])) for m in ("if",)])
        yield z3.And(z3.Not(ok), z3.Not(skip)), Fail(), "unknown"
    s.spec = spec2
    s.need = ["unknown"]
    out.append(s)
    base = ["lda", "leax", "nop", "cmpx", "lbra", "swi2"]
    if tier != "quick":
        base = sorted(known)
    pseudo = set("equ set org section code data bss ram auto fcb fcc fcn fcs fcv fci fdb fqb rzb fzb zmb bsz fill rmb align includebin put setdp "
                 "include lib end page opt spc ttl sttl nam name if elsif else endif macro endm export".split())
    for m in base:
        for p in range(len(m)):
            s = Scn("near-%s-%d" % (m, p), what="one character of a mnemonic replaced by any letter, digit, '.' or '_'")
            dom = [c for c in "abcdefghijklmnopqrstuvwxyz_0123456789." if not (p == 0 and (c.isdigit() or c == "."))]
            op = next(o for mm, o, _ in ALL09 if mm == m)
            s.src(" ", m[:p], s.char("c", dom), m[p + 1:], " ", op, "\n")
            hits = {c: [b for mm, o, b in ALL09 if mm == m[:p] + c + m[p + 1:] and o == op] for c in dom}

            def spec(e, hits=hits, m=m, p=p):
                for c, h in hits.items():
                    w = m[:p] + c + m[p + 1:]
                    cond = e.raw("c") == ord(c)
                    if w in pseudo:
                        continue
                    if h:
                        yield cond, Ok(h[0]), "known"
                    elif w not in known:
                        yield cond, Fail(), "unknown"
            s.spec = spec
            s.need = ["unknown"]
            out.append(s)
    return out
