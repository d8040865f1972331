"""Wrong programs, and failing files, make the run fail with a message."""
import z3
from ..scen import *
from .. import fmt

# each is wrong wherever it stands
SYNTAX = [" lda #(1", " lda #1)", " lda 1+", " fcb (", " lda [1", " fcc \"abc", " ? 5", "la$ nop", " lda #1++2", " lda ,,x", " fdb )", "la+ nop", " lda #@9", " fcb $", " fcb [", " fcb ]", " 5", "(la nop"]
UNKNOWN = [" bogus", " bogus 1", " ldz #1", " nopp", " fcbb 1", " lda# 1", " lda.b 1", " muld 5", " ldq #1", " tfm x+,y+", " sexw", "lb equq 1"]
UNDEF = [" lda nosuch", " lda #nosuch", " fcb nosuch", " fdb 1+nosuch", " bra nosuch", " lda nosuch,x", " lda [nosuch]", " leax nosuch,pcr", " rmb nosuch", " fill nosuch,2", " fill 0,nosuch", " align nosuch", " org nosuch", " put nosuch", " setdp nosuch", "lx equ nosuch",
         "lx set nosuch", " fcb 1b", " fcb 1f", " bra 9f", " fcb NOP", " end nosuch", " fcc nosuch", " rzb 1,nosuch", " fcb -nosuch", " fcb 1?nosuch:2", " section nosuch", " include nosuch", " jmp >nosuch"]
DOUBLE = ["ly equ 1\nly equ 2", "ly nop\nly nop", "ly equ 1\nly nop", "ly nop\nly equ 5", "ly rmb 1\nly fcb 1", "ly equ 1\nly equ 1", "m8 macro\n endm\nm8 macro\n endm", "ly org 5\nly equ 5"]
COUNT = [" nop 1", " abx 5", " rts 1", " lda", " lda #1,2", " lda #", " lda 1,2", " sta #1", " leax #1", " jsr #5", " bra", " bra 1,2", " lda 1,x,y", " tfr a", " tfr a,b,cc", " exg", " pshs #1,2", " lbra", " org", " org 1,2", " equ 5", "lz equ", "lz equ 1,2", " rmb", " rmb 1,2", " align", " fill 1", " fill 1,2,3",
         " setdp", " setdp 1,2", " put", " put 1,2", " section", " section \"a\",1", " include", " include \"a\",\"b\"", " includebin", " includebin \"a\",\"b\"", " rzb", " set 5", " if\n endif", " if 1,2\n endif", " endm", " endif", " else", " elsif 1", " if 1", " export", " macro", "m7 macro\n nop", " end 1,2", " fcc", " fcb", " fdb", " fqb", " fcn", " fcs", " fcv", " fci"]
KIND = [" lda #x", " lda x", " lda [x]", " ldx #[1]", " pshs nosuch", " pshs 5,b", " pshs s", " pshu u", " bra x", " bra #5", " bra [5]", " lda 5,a", " lda a,a", " lda 5,cc", " leax x", " fcb x", " fdb a", " fdb [1]", " fcb [1,2]", " fqb x", " fdb x+", " rmb x", " org x", " setdp x", " put x", " align x", " section 5", " section x", " include 5",
        " includebin 5", " export 5", " export x", " fcn 5,x", " fcc x", " end x", " fcb x+1", " fcb 1/0", " fcb 1%0", " fdb 5%0.0", " tfr s,a,b", " exg pcr,x", " lda ,x+5", " lda 5,x+", " lda [5,x++]", " lda 5,-y", " lda b,y+", " andcc b", " andcc", " andcc 5", " cwai 5", " orcc [1]"]
RANGE = [" bra *+130", " bra *-127", " bne *+$7000", " rmb -1", " rzb -1", " fill 0,-5", " align 0", " align -4", " org $10001", " org -$10001", " put $12345", " rmb $20000", " rzb $20001", " org 1<<40", " rmb 1<<33"]
FILES = [" include \"nosuch.s\"", " includebin \"nosuch.bin\"", " include \"\"", " includebin \"\"", " include \"dd\"", " includebin \"dd\"", " include \"loop.s\""]
BAD = SYNTAX + UNKNOWN + UNDEF + DOUBLE + COUNT + KIND + RANGE + FILES
MORE = [" put -1", " put -$8000", " fill 0,$10001", " fill 0,70000", " rzb 70000", "m9 macro\n endm 1,2", "m9 macro\n endm 5", " if 1\n else\n else\n endif", " if 1\n else\n elsif 1\n endif", " if 0\n else\n else\n endif", " if 0\n else\n elsif 1\n endif", "m9 macro\n\\1 nop\n endm\n m9 1.5", "m9 macro\n\\1 nop\n endm\n m9 [1]", "m9 macro\nl\\1 nop\n endm\n m9 [1]", "m9 macro\nl\\1 nop\n endm\n m9 1.5", "m9 macro\n fcb \\1+1\n endm\n m9 x", "m9 macro\n fcb \\1+1\n endm\n m9 [1]", "m9 macro\n fcb \\2\n endm\n m9 1", "m9 macro\n fcb \\0\n endm\n m9 1", "m9 macro\n fcb \\{12}\n endm\n m9 1", " fcb \\1", " m9", "m9 macro\n m9\n endm\n m9", "lq equ x\n fcb lq", "lq equ x\n fcb lq+1", "lq equ x\n fcb -lq", "lq equ x\n fcb 1+lq", "lq equ x\n lda #lq", "lq equ x\n bra lq", "lq equ x\n fcb lq?1:2", "lq equ x\n fcb lq<5", " fcb 1<<-1", " fcb 1>>-1", " fcb 1.0/0", " leax 1,2,3", " leax", " lda 1,,x", " pshs #x", " pshs #300", ' pshs "a"', " pshs 1", " pshs a,5", ' tfr "a",b', " tfr 16,a", " tfr -1,a", " tfr a,16", " tfr pcr,a", " tfr a,pcr", " exg a,[b]", " tfr nosuch,a", " org 5\n fcb 1,2\n org 6\n fcb 3", " org $ffff\n fcb 1,2", " org -1\n fcb 1", " org $fffe\n rmb 3\n fcb 1", " put $ffff\n fcb 1,2", " bra 2f\n nop\n1 nop", " bra 1b\n1 nop", " lda [5,-x]", " lda ,x+1", " jmp #5", " jsr", " jmp", " clr #1", " inc #1", " asl", " neg #5", " tst", " sty #5", " std #5", " leas a", " lbra #5", " bsr", " bsr x", " swi 1", " sync 2", " mul 3", " sex a", " daa b", " asla 1", " incb b", " rti x", " cwai", " cwai #", " orcc", " andcc #1,2", " fdb 1,x", " fqb [5]", " fcn [5]", " fcv [5]", " fci x", " includebin x", " include x", " include [5]", " section [5]", " section 1.5", " setdp [5]", " end [5]", " export [5]", " export 5.5", "1x nop", "1.5 nop", "5+ nop", '"a" nop', " equ", "lq equ [5]\n fcb lq", "lq set [5]\n fcb lq", "x equ 5", "a nop", "pc nop", " org [5]", " align x,1", " align 4,x", " fill x,1", " fill 1,x", " rzb x", " lda #5,x", " ldx #5,y", " lda #5,#6", " lda >#5", " lda <<5", " lda <", " lda >", " lda <<", " lda []", " lda [,]", " lda ,", " lda [5],x", " lda x,5", " lda x,x", " lda pc,x", " lda s,u", " lda 5,pc,x", " lda ,-", " lda ,--", " lda ,x-", " lda ,-x+", " lda ,--x+", " lda ,x+++", " lda 5,x++", " lda [5,x+]", " lda d,x+", " lda ,a", " lda ,d", " lda ,dp", " lda ,cc", " lda ,pc+", " lda ,pcr+", " lda 5,s+"]
MORE_6309 = [" tfm x,y", " tfm x+", " tfm x+,y+,u", " tfm pc+,x+", " tfm 5+,x+", " tfm x-,y+", " tfm cc+,x", " tfm x+,5+", " tfm x++,y+", " tfm a+,b+", " tfm d+,-x", " tfm e+,x+", " tfm x,y-", " tfm [x]+,y+", " tfm", " band", " band a", " band a,8,1,$40", " band a,1,8,$40", " band a,-1,1,$40", " band a,1,-1,$40", " band x,1,1,$40", " band d,1,1,2", " band dp,1,1,2", " band a,1,1", " band a,1,1,2,3", ' band a,"x",1,2', " band a,x,1,2", " band a,1,x,2", " band a,1,1,x", " band [a],1,1,2", " stbt a,1,9,4", " ldbt b,9,1,4", " bitmd", " bitmd 5", " ldmd 5", " ldmd", " ldmd #1,2", " ldmd #x", " aim", " aim 5", " aim #1", " aim #1,#2", " aim #1,2,3,x", " aim x,5", " aim #x,5", " oim #1,x", " tim 1", " eim #nosuch,5", " addr", " addr a", " addr a,b,d", " addr 5.0", " addr 20,a", " addr a,-1", " addr [a],b", " sexw 1", " ldq", " ldq #x", " ldq #1,2", " stq #1", " divq", " divd #1,2", " muld x", " pshsw 1", " pulsw x", " ldw x", " lde #x", " cmpe", " addf [5,]", " tfr w,v,x", " tfr q,a", " lda ,w+", " lda ,-w", " lda [,w+]", " lda 5,w+", " lda e+,x", " lda w,w", " clrq 1", " comd 5", " lsrw x", " tstq", " ldq [1", " sbcr s,pcr", " pshs w", " pshs v", " pshs e", " pshu q", " pshs 0", " subw #"]
SOME = [SYNTAX[0], SYNTAX[6], UNKNOWN[0], UNDEF[0], UNDEF[4], UNDEF[17], DOUBLE[0], DOUBLE[1], COUNT[0], COUNT[17], KIND[0], KIND[9], KIND[36], RANGE[0], RANGE[3], RANGE[8], FILES[0]]
WARN = [" tfr a,x", " lda [,x+]", " fcc", " tfr 5,a"]
BOUNDS = ["%d kinds of mistake in each of sixteen contexts, and %d more in each of eight contexts (alone, among other lines, in macros, included files, further files, sections, conditions, after warnings, with forward references, with each output format and verbosity)" % (len(BAD), len(MORE + MORE_6309)),
          "every ordered pair of %d kinds; values free around the ranges of branches, counts and addresses" % len(SOME), "every combination of output, listing, exports and symbols files that cannot be opened; writes failing after every number of bytes; files missing or unreadable at each place"]


def scenarios(tier):
    out = []
    th = tier != "quick"

    def add(name, what, parts, spec, need=("ok",), args=(), files={}, ins=("in.s",), **kw):
        s = Scn(name, what=what)
        p = []
        for x in parts(s):
            p += x if isinstance(x, list) else [x]
        s.file("in.s", *p)
        a = list(args(s) if callable(args) else args)
        s.argv(*(a + ([] if kw.get("noout") else ["-o", "out"]) + list(ins(s) if callable(ins) else ins)))
        for n, t in files.items():
            s.file(n, *(t(s) if callable(t) else [t]))
        s.spec = spec
        s.need = list(need)
        s.unreadable = kw.get("unreadable", [])
        s.nowrite = kw.get("nowrite", [])
        s.writefail = kw.get("writefail")
        out.append(s)
        return s
    ok = lambda *b: (lambda e: iter([(True, Ok(list(b)), "ok")]))
    fail = lambda e: iter([(True, Fail(), "fail")])
    H = lambda s, n, w=4: ["$", s.hex(n, w)]
    L = {"loop.s": " include \"loop.s\"\n"}

    def ctx(name, what, parts, args=(), files={}, ins=("in.s",), bad=BAD):
        # the mistake is chosen by one variable
        B = lambda s: s.choice("k", [b + "\n" for b in bad], pad="\n")
        add(name, what, lambda s: parts(s, B(s)), fail, ["fail"], args, dict(L, **{n: (lambda s, t=t: t(s, B(s))) if callable(t) else t for n, t in files.items()}), ins, unreadable=["dd"])
    ctx("alone", "kind of mistake, the only line", lambda s, b: [b])
    ctx("among", "kind of mistake among other lines", lambda s, b: [" org $100\nla lda #1\n fcb la>>8\n* text\n", b, "lb ldx #la\n fdb lb\n"])
    ctx("last", "kind of mistake in a last line without a line end", lambda s, b: [" nop\n"] + b[:-1], bad=[b for b in BAD if "\n" not in b])
    ctx("macro", "kind of mistake in a macro", lambda s, b: ["m1 macro\n fcb \\1\n", b, " fcb \\2\n endm\n nop\n m1 1,2\n nop\n"])
    ctx("macro twice", "kind of mistake in a macro called by another", lambda s, b: ["m1 macro\n", b, " endm\nm2 macro\n nop\n m1\n nop\n endm\n nop\n m2\n nop\n"])
    ctx("include", "kind of mistake in an included file", lambda s, b: [" nop\n include \"b.s\"\n nop\n"], (), {"b.s": lambda s, b: [" nop\n", b, " nop\n"]})
    ctx("first file", "kind of mistake in the first of two files", lambda s, b: [" nop\n", b], (), {"b.s": " nop\n"}, ("in.s", "b.s"))
    ctx("second file", "kind of mistake in the second of two files", lambda s, b: [" nop\n"], (), {"b.s": lambda s, b: [" nop\n", b, " nop\n"]}, ("in.s", "b.s"))
    ctx("section", "kind of mistake in a section other than the last", lambda s, b: [" section \"x\"\n nop\n", b, " section \"y\"\n nop\n"])
    ctx("condition", "kind of mistake in a branch that is taken", lambda s, b: [" if 0\n nop\n elsif 1\n", b, " else\n nop\n endif\n nop\n"], bad=[b for b in BAD if not b.startswith((" else", " elsif", " endif"))])
    ctx("warned before", "kind of mistake after lines with warnings, and warnings hidden or not", lambda s, b: [" tfr a,x\n lda [,x+]\n", b, " nop\n"], lambda s: [s.choice("q", ["-q", "-v", "-8"])])
    ctx("warned after", "kind of mistake before lines with warnings", lambda s, b: [" nop\n", b, " tfr a,x\n lda [,x+]\n"])
    ctx("passes", "kind of mistake in a program that needs several passes", lambda s, b: [" setdp 0\n lda lv\n lda lw\n bra lx1\n", b, "lx1 nop\nlv equ lw+1\nlw equ $55\n"])
    ctx("forward", "kind of mistake, in a branch chosen by a symbol defined later", lambda s, b: [" if lv\n nop\n endif\n lda lv,x\n if lv\n", b, " endif\nlv equ 200\n"], bad=[b for b in BAD if not b.startswith((" else", " elsif", " endif")) and "macro" not in b and "include" not in b and "loop" not in b])
    ctx("format", "kind of mistake with each output format", lambda s, b: [" nop\n", b], lambda s: [s.choice("f", ["-B", "-D", "-C", "-S", "-H"])], bad=BAD if th else BAD[::3])
    ctx("files", "kind of mistake with listing, exports and symbols files", lambda s, b: ["la nop\n export la\n", b], ["-l", "lst", "-E", "exp", "-s", "sym"])
    for nm, lst, a in (("", MORE, []), (" 6309", MORE_6309, ["-3"])):
        ctx("more alone" + nm, "kind of mistake, the only line", lambda s, b: [b], a, bad=lst)
        ctx("more among" + nm, "kind of mistake among other lines, the last without a line end", lambda s, b: [" org $100\nla lda #1\n fcb la>>8\n* text\n", b, "lb ldx #la\n fdb lb"], a, bad=lst)
        ctx("more include" + nm, "kind of mistake in an included file", lambda s, b: [" nop\n include \"b.s\"\n nop\n"], a, {"b.s": lambda s, b: [" nop\n", b, " nop\n"]}, bad=lst)
        ctx("more second file" + nm, "kind of mistake in the second of two files", lambda s, b: [" nop\n"], a, {"b.s": lambda s, b: [" nop\n", b, " nop\n"]}, ("in.s", "b.s"), bad=lst)
        ctx("more passes" + nm, "kind of mistake in a program that needs several passes", lambda s, b: [" setdp 0\n lda lv\n lda lw\n bra lx1\n", b, "lx1 nop\nlv equ lw+1\nlw equ $55\n"], a, bad=lst)
        ctx("more in a macro" + nm, "kind of mistake in a macro called by another", lambda s, b: ["m1 macro\n", b, " endm\nm2 macro\n nop\n m1\n nop\n endm\n nop\n m2\n nop\n"], a, bad=[b for b in lst if "macro" not in b and "\\" not in b])
        ctx("more in a branch" + nm, "kind of mistake in a branch chosen by a symbol defined later", lambda s, b: [" if lv\n nop\n endif\n lda lv,x\n if lv\n", b, " endif\nlv equ 200\n"], a, bad=[b for b in lst if "macro" not in b])
        ctx("more format" + nm, "kind of mistake with each output format and a listing", lambda s, b: [" nop\n", b], lambda s, a=a: a + ["-l", "lst", s.choice("f", ["-D", "-C", "-S", "-H"])], bad=lst if th else lst[::2])
    # two mistakes, of any two kinds
    add("two", "every ordered pair of kinds of mistake", lambda s: [" nop\n", s.choice("k", [b + "\n" for b in SOME], pad="\n"), " nop\n", s.choice("m", [b.replace("ly", "lw") + "\n" for b in SOME], pad="\n"), " nop\n"], fail, ["fail"])
    add("mistake and inconsistency", "a mistake and a value that settles late, either first", lambda s: [" setdp 0\n", s.choice("p", [" lda lv\n bra lw\n", " lda lw,x\n", " nop\n"], pad="\n"), s.choice("k", [b + "\n" for b in SOME], pad="\n"), s.choice("q", [" ldb lw\n ldb lv,y\n", " nop\n"], pad="\n"), "lw nop\nlv equ lx\nlx equ 99\n"], fail, ["fail"])
    # where it does no harm
    PARSE = SYNTAX + [" lda# 1", " lda #", " lda #x", " ldx #[1]", " fcb x+1", " lda ,x+5", " include \"\"", " includebin \"\""]      # not even a line
    OKB = [b for b in BAD if b not in PARSE and not any(w in b for w in ("macro", "endm", " if", "else", "elsif", "endif", " end"))]
    add("skipped", "kind of mistake in a branch that is not taken", lambda s: [" fcb 1\n if 0\n", s.choice("k", [b + "\n" for b in OKB], pad="\n"), " endif\n fcb 2\n"], ok(1, 2), ["ok"], (), L, unreadable=["dd"])
    add("after end", "kind of mistake after END", lambda s: [" fcb 1\n end\n", s.choice("k", [b + "\n" for b in OKB], pad="\n"), " fcb 2\n"], ok(1), ["ok"], (), L, unreadable=["dd"])
    add("not called", "kind of mistake in a macro that is never called", lambda s: [" fcb 1\nm1 macro\n", s.choice("k", [b + "\n" for b in OKB], pad="\n"), " endm\n fcb 2\n"], ok(1, 2), ["ok"], (), L, unreadable=["dd"])
    add("comment", "kind of mistake in a comment", lambda s: [" fcb 1\n", s.choice("c", ["*", ";", " ;", "\t;", " nop ;", "la ;"]), s.choice("k", [b.replace("\n", "|") for b in BAD]), "\n fcb 2\n"],
        lambda e: iter([(True, Ok([1] + ([0x12] if e.idx("c") == 4 else []) + [2]), "ok")]))
    add("warnings only", "warnings do not fail the run", lambda s: [s.choice("k", [" tfr a,x", " lda [,x+]", " exg d,a"]), "\n fcb 2\n"], lambda e: iter([(True, Ok([[0x1F, 0x81], [0xA6, 0x90], [0x1E, 0x08]][e.idx("k")] + [2], quiet=e.idx("q") == 0), "ok")]), ["ok"], lambda s: [s.choice("q", ["-q", "-v"])])
    GOOD = [" lda #1", " fcb 1", "la nop", " bra *+129", " bra *-126", " rmb 0", " rzb 0", " align 1", " org $100", " setdp -1", "", "* x", "la equ 1", "la set 1\nla set 2", " section \"x\"", " if 1\n endif", "m1 macro\n endm", " end", " end 5", " include \"e.s\"", " includebin \"e.s\"", " include \"b.s\"", "1 nop\n bra 1b", " bra 1f\n1", " export la\nla", " put 5", " opt x", " lda 65535", " lda -32768,x", " fqb $ffffffff", " lbra $4000", " put $ffff", " org $ffff\n nop", " pshs a,b",
            " page", " spc 3", " spc", " nam \"x\"", " name \"x\"", " ttl foo", " sttl foo", " opt c,foo", " nam", " ttl", " sttl \"a\"", " opt", " data", " bss\n rmb 1", " ram", " auto", " code", " section \"a b\"", " csect" if 0 else " data\n code", " end la\nla nop" if 0 else "la nop\n end la", "\tnop", " NOP", " Nop ; c", "la: nop" if 0 else "la ; c",
            " fcb 'a", " fcb 'a'", " fcb \"a\",'b,1,-1,255,256", " fcc /ab/", " fcc \"a\",13,\"b\"", " fcb *", " fdb *+1,la\nla", " fqb la-*\nla", " lda [$1234]", " lda [la]\nla", " ldb ,x", " ldb ,x+", " ldb ,--y", " ldb a,u", " ldb 0,s", " ldb -5,x", " ldb <5,x", " ldb >5,x", " ldb <<5,x", " ldb [,x++]", " ldb [5,pcr]", " ldb la,pcr\nla", " ldb 3,pc", " cwai #$ff", " sync", " tfr a,b", " exg x,y", " pshu s,pc", " puls cc,pc", " pulu a", " lbsr $7000", " brn *", " stb <$12", " jmp >$12", " jsr [$1000,x]",
            " if 0\n bogus\n else\n endif", " if nosuch\n fcb 1\n elsif nosuch\n fcb 2\n endif", "m1 macro\n fcb \\1\n endm\n m1 5", "m1 macro\nl\\1 nop\n endm\n m1 \"a\"\n m1 \"b\"", "m1 macro\n m2\n endm\nm2 macro\n endm\n m1", " align 4,0", " align 16", " fill 1,0", " fill 255,3", " rzb 3,1", " zmb 2", " bsz 2", " fzb 2", " org 0", " org la\nla equ 7", "la org 5", " rmb la\nla equ 3", " put 0", " setdp 0", " setdp $ff", " setdp -1", " export m1\nm1 macro\n endm", " export la,lb\nla\nlb", "1\n1\n1 bra 1b", "! bra <", " bra >\n!", "la equ $8000000000000000-1\nlb equ -la", " fcb 1+2*3-4/2%5", " fcb 1<<2>>1&3|4^5", " fcb (1<2)&&(3>=4)||!0", " fcb ~1", " fcb 1==2?3:4", " fcb %101,@17,$1f,0x1f,0b11,017", " fcb 1.5", "la equ 1.5\nlb equ la*2", "la equ \"x\"\n fcc la", "la equ 5 comment", " nop ; comment here", " fcb 1 , 2", "\n\n\n", ";", "*", " ;", "la set la2\nla2 equ 5", " asla", " lsl 5,x", " lsla", " ldaa #1", " staa 5", " oraa #1", " cpx #5", " bhs *", " blo *", " lbhs *+500", " lblo *+500", " swi", " swi2", " swi3"]
    add("good", "correct lines exit zero without a message", lambda s: [s.choice("k", [g + "\n" for g in GOOD], pad="\n")], lambda e: iter([(True, Ok(), "ok")]), ["ok"], lambda s: [s.choice("q", ["-q", "-v", "-8"])], {"e.s": "", "b.s": " nop\n"})

    # ranges
    def rng(name, what, parts, lo, hi, width, args=()):
        def spec(e):
            v = e.num("v") if "sg" not in e.scn.vars else (-e.num("v") if e.idx("sg") else e.num("v"))
            c = z3.And(v >= lo, v <= hi)
            yield c, Ok(quiet=True), "ok"
            yield z3.Not(c), Fail(), "fail"
        add(name, what, lambda s: [x for p in parts(s) for x in (p if isinstance(p, list) else [p])], spec, ["ok", "fail"], args)
    SG = lambda s: s.padl("sg", ["", "-"])
    add("branch", "distance of a short branch free", lambda s: ["m1 macro\n beq \\1\n endm\n org $8000\n m1 *", s.choice("sg", ["+", "-"]), H(s, "v"), "\n"], lambda e: brs(e), ["ok", "fail"])

    def brs(e):
        v = e.num("v", 16)
        d = (v if e.idx("sg") == 0 else -v) - 2
        c = z3.And(d >= -128, d <= 127)
        yield c, Ok([0x27, z3.Extract(7, 0, d)]), "ok"
        yield z3.Not(c), Fail(), "fail"
    rng("org", "ORG free", lambda s: [" org ", SG(s), H(s, "v", 15), "\n"], -0x10000, 0x10000, 64)
    rng("org data", "ORG before data free", lambda s: [" org ", SG(s), H(s, "v", 8), "\n fcb 1,2\n"], 0, 0xFFFE, 64, ["-C"])
    rng("include symbol", "a range decided by a symbol of another file", lambda s: [" org $8000\n bra *+2+lv\nlv equ ", SG(s), H(s, "v", 3), "\n"], -128, 127, 64)

    # files that cannot be opened or written
    def opens(e):
        bad = any(e.idx(k) for k in "olEs")
        yield True, (Fail() if bad else Ok([5])), "fail" if bad else "ok"
    NW = ["x/o", "x/l", "x/e", "x/s"]
    OP = lambda s: [y for k, w, g, b in (("o", "-o", "out", "x/o"), ("l", "-l", "lst", "x/l"), ("E", "-E", "exp", "x/e"), ("s", "-s", "sym", "x/s")) for y in (w, s.choice(k, [g, b]))]
    add("open", "each of the four files cannot be opened or can", lambda s: ["la fcb 5\n export la\n"], opens, ["ok", "fail"], OP, nowrite=NW, noout=True)
    add("open format", "output file that cannot be opened, each format", lambda s: [" fcb 5\n"], fail, ["fail"], lambda s: [s.choice("f", ["-B", "-D", "-C", "-S", "-H"]), "-o", s.choice("o", ["x/o", "dir"])], nowrite=["x/o", "dir"], noout=True)

    # bytes that cannot stand where they stand
    CTL = list(range(1, 9)) + [11, 12] + list(range(14, 32)) + list(range(127, 256)) + [ord(c) for c in "`{}"]
    for nm, a, dom, b in (("at the start of a line", "", CTL + [0] + [ord(c) for c in "\"#$(),-.:=>?@[]^|~+<&/"], " nop\n"), ("as label", "", CTL + [0], "\n"), ("in a label", "la", CTL + [0] + [ord(c) for c in "\"#$(),-:=>?@[]^|~+<&/"], "b nop\n"), ("as opcode", " ", CTL + [0] + [ord(c) for c in "\"#$(),-.:=>?@[]^|~+<&/0123456789%"], "\n"), ("in an opcode", " n", CTL + [0], "op\n"),
                          ("as operand", " fcb ", CTL + [0] + [ord(c) for c in "$%@[]()&/\\={}"], "\n"), ("after a comma", " fcb 3,", CTL + [0], "\n"), ("in an operand", " fcb 3", CTL + [0] + [ord(c) for c in "$@'(={"], "4\n"), ("after an operand", " fcb 3", CTL + [0] + [ord(c) for c in "$@'([#={"], "\n"), ("before an operator", " fcb 3", CTL + [0], "+1\n"), ("in a string", " fcc \"a", [0], "b\"\n")):
        add("byte " + nm, "the byte free", lambda s, a=a, dom=dom, b=b: [" fcb 1\n", a, s.char("c", dom), b, " fcb 2\n"], fail, ["fail"])

    FM = ["-B", "-D", "-C", "-S", "-H"]
    data = list(range(1, 6))
    sizes = [5, 14, 15, None, None]

    def wr(e, k, sz):
        n = e.raw("n")
        yield z3.ULT(n, sz), Fail(), "fail"
        yield z3.UGE(n, sz), Ok(quiet=True), "ok"
    for k, f in enumerate(FM):
        src = " org $100\n fcb 1,2,3,4,5\n"
        size = [5, 9 + 5, 5 + 5 + 5, None, None][k]
        if size is None:
            # S1 + count, address, data, checksum; S9 record
            size = {3: len("S1080100") + 10 + 2 + 1 + len("S9030000FC") + 1, 4: len(":05010000") + 10 + 2 + 1 + len(":00000001FF") + 1}[k]
        s = add("write %s" % f, "number of bytes after which writing fails free", lambda s, src=src: [src], lambda e, k=k, size=size: wr(e, k, size), ["ok", "fail"], lambda s, f=f: (s.var("n", 8, range(64)), [f])[1], writefail="n")
    for k, (o, size) in enumerate((("-l", 2 * 23 + len(" org $100") + len("la fcb 5")), ("-s", len("la\tequ\t256\n")), ("-E", len("la\tequ\t256\n")))):
        add("write %s" % o, "number of bytes after which writing the file fails free", lambda s: ([" org $100\nla fcb 5\n"] if o == "-l" else [" org $100\nla fcb 5\n export la\n"]), lambda e, size=size: wr(e, 0, size), ["ok", "fail"], lambda s, o=o: (s.var("n", 8, range(1, 120)), [o, "x"])[1], writefail="n")
    add("write large", "an output longer than a buffer", lambda s: [" rzb 9000,1\n"], lambda e: wr2(e), ["fail"], lambda s: (s.var("n", 16, [0, 1, 4095, 4096, 4097, 8191, 8192, 8999, 9000, 9001]), [])[1], writefail="n")

    def wr2(e):
        n = e.raw("n")
        yield z3.ULT(n, 9000), Fail(), "fail"
        yield z3.UGE(n, 9000), Ok([1] * 9000), "ok"
    # inputs
    IN = ["in.s", "no.s", "dirs"]
    add("inputs", "each of three source files there, missing or a directory", lambda s: [" fcb 1\n"], lambda e: iter([(True, Ok([1, 1, 1]) if all(e.idx(k) == 0 for k in "abc") else Fail(), "ok" if all(e.idx(k) == 0 for k in "abc") else "fail")]), ["ok", "fail"], (), {}, lambda s: [s.choice(k, IN) for k in "abc"], unreadable=["dirs"])
    add("no input", "no source file", lambda s: [" nop\n"], fail, ["fail"], (), {}, ())
    add("include place", "a missing file at each level of nested includes", lambda s: [" include \"b.s\"\n fcb 1\n"], lambda e: iter([(True, *((Ok([3, 2, 1]), "ok") if (e.idx("b"), e.idx("c")) == (0, 0) else (Fail(), "fail")))]), ["ok", "fail"], (),
        {"b.s": lambda s: [s.choice("b", [" include", " includf"]), " \"", s.choice("c", ["c.s", "d.s"]), "\"\n fcb 2\n"], "c.s": " fcb 3\n"})
    add("include read", "a directory included at any place", lambda s: [" fcb 1\n ", s.choice("k", ["include   ", "includebin"]), " \"", s.choice("n", ["b.s", "dir", "no."]), "\"\n fcb 2\n"], lambda e: iter([(True, Fail() if e.idx("n") else Ok([1, 32, 110, 111, 112, 10, 2] if e.idx("k") else [1, 0x12, 2]), "fail" if e.idx("n") else "ok")]), ["ok", "fail"], (), {"b.s": " nop\n"}, unreadable=["dir"])
    # options
    OB = [(["-P", "1"], 0), (["-P", "0"], 0), (["-P", "x"], 0), (["-P", "256"], 0), (["-P", "-3"], 0), (["-e", "nosuch"], 0), (["--bogus"], 0), (["-Z"], 0), (["-o"], 0), (["-e", "la"], 1), (["-P", "2"], 1)]
    for k, (a, good) in enumerate(OB):
        add("option %d" % k, "option %s" % " ".join(a), lambda s: ["la fcb 5\n"], (lambda e: iter([(True, Ok([5]), "ok")])) if good else fail, ["ok"] if good else ["fail"], a if a != ["-o"] else [], {}, ["in.s"] if a != ["-o"] else ["in.s", "-o"])
    add("exports", "an exported name that is not defined", lambda s: ["la equ 5\nm1 macro\n endm\n export ", s.choice("a", ["la", "lb", "m1", "m2", "LA"]), "\n export ", s.choice("b", ["la", "m1", "lb"]), "\n fcb 1\n"],
        lambda e: iter([(True, Ok([1]) if e.idx("a") in (0, 2) and e.idx("b") != 2 else Fail(), "ok" if e.idx("a") in (0, 2) and e.idx("b") != 2 else "fail")]), ["ok", "fail"], ["-E", "exp"])
    return out
