"""The same scenario in other surroundings, in which it must come out the same:
after lines that force further passes, in a macro, an included file, a taken
branch, another section, with the data put elsewhere, with reports written."""
import copy
from .scen import *

# lines that need four passes to settle and emit nothing
PASSES = b"lzz1 equ lzz2\nlzz2 equ lzz3\nlzz3 equ lzz4\nlzz4 equ 1\n"
KINDS = ["passes", "macro", "include", "branch", "section", "put", "reports", "skipped", "deep", "late"]


def lit(t):
    return list(t if isinstance(t, bytes) else t.encode("latin-1"))


def one(s, kind):
    f = "in.s"
    if s.args is None or f not in s.files or not s.args or s.args[-1] != lit(f) or s.runs:
        return None
    if any(a == lit(n) for n in s.files for a in s.args[:-1]):
        return None
    s = copy.copy(s)
    s.files = dict(s.files)
    s.args = list(s.args)
    src = list(s.files[f])
    if kind == "passes":
        s.files["zz.s"] = lit(PASSES)
        s.args.insert(len(s.args) - 1, lit("zz.s"))
    elif kind == "put":
        s.files["zz.s"] = lit(" put $40\n")
        s.args.insert(len(s.args) - 1, lit("zz.s"))
    elif kind == "skipped":
        s.files["zz.s"] = lit(" if 0\n fcb 1\nla nop\n if 1\n lda #5\n else\n nop\n endif\n setdp 3\n else\nlzz1 equ 4\n endif\n")
        s.args.insert(len(s.args) - 1, lit("zz.s"))
    elif kind == "section":
        s.files["zz.s"] = lit(" section \"zz\"\n")
        s.files[f] = lit(" section \"zz\"\n") + src
    elif kind == "include":
        s.files["zz.s"] = src
        s.files[f] = lit(" include \"zz.s\"\n")
    elif kind == "deep":
        s.files["zz.s"] = lit(" include \"zy.s\"\n")
        s.files["zy.s"] = src
        s.files[f] = lit("mzz macro\n include \"zz.s\"\n endm\nlzz equ 5\n if lzz\n mzz 1\n endif\n")
    elif kind == "late":
        # expanded only from the fourth pass on
        s.files["zz.s"] = src
        s.files[f] = lit(PASSES + b" if lzz1\n include \"zz.s\"\n endif\n")
    elif kind == "branch":
        s.files[f] = lit("lzz equ 5\n if 0\n nop\n elsif lzz\n") + src + lit("\n else\n fcb 5\n endif\n")
    elif kind == "macro":
        s.files[f] = lit("mzz macro\n") + src + lit("\n endm\n mzz 1,2\n")
    elif kind == "reports":
        s.args = [lit("-l"), lit("zz.l"), lit("-s"), lit("zz.y"), lit("-E"), lit("zz.e")] + s.args
    else:
        raise ValueError(kind)
    return s


def wrap(item, kind):
    if isinstance(item, Pair):
        a, b = one(item.a, kind), one(item.b, kind)
        if a is None or b is None:
            return None
        r = Pair(a, b, item.files, item.what)
        r.name = item.name + " [" + kind + "]"
        a.name = b.name = r.name
        return r
    r = one(item, kind)
    if r is not None:
        r.name = item.name + " [" + kind + "]"
    return r


def extend(items, kinds, tier, skip=lambda name, kind: False):
    """items, and each again in one of the surroundings (all of them in the thorough tier)"""
    out = list(items)
    for i, it in enumerate(items):
        ks = kinds if tier != "quick" else [kinds[i % len(kinds)]]
        for k in ks:
            if not skip(it.name, k):
                w = wrap(it, k)
                if w is not None:
                    out.append(w)
    return out
