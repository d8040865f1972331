"""Reference encoders of the output formats.  An image is a list of spans
(address, bytes); addresses are ints or 16-bit terms, spans are given in
ascending address order, not touching each other."""
import z3
from .scen import be


def hexd(n):
    """ASCII of a 4-bit term or int"""
    if isinstance(n, int):
        return b"0123456789ABCDEF"[n]
    n8 = z3.ZeroExt(8 - n.size(), n)
    return z3.simplify(z3.If(z3.ULT(n8, 10), n8 + 48, n8 + 55))


def hex8(b):
    if isinstance(b, int):
        return [hexd((b >> 4) & 15), hexd(b & 15)]
    b = z3.simplify(b)
    if z3.is_bv_value(b):
        return hex8(b.as_long())
    return [hexd(z3.Extract(7, 4, b)), hexd(z3.Extract(3, 0, b))]


def w16(a):
    """[high, low] of an int or a term of at least 16 bits"""
    return be(a, 2)


def t8(b):
    return z3.BitVecVal(b & 255, 8) if isinstance(b, int) else b


def total(bs):
    if all(isinstance(b, int) for b in bs):
        return sum(bs) & 255
    r = z3.BitVecVal(sum(b for b in bs if isinstance(b, int)) & 255, 8)
    for b in bs:
        if not isinstance(b, int):
            r = r + b
    return z3.simplify(r)


def inv(b):
    return (~b) & 255 if isinstance(b, int) else z3.simplify(~b)


def neg(b):
    return (-b) & 255 if isinstance(b, int) else z3.simplify(-b)


def plus(a, k):
    if isinstance(a, int):
        return a + k
    return z3.simplify(a + k)


def records(spans):
    for a, bs in spans:
        for i in range(0, len(bs), 32):
            yield w16(plus(a, i)), bs[i:i + 32]


def srec(spans, exec_=None):
    out = []
    for a, bs in records(spans):
        rec = [len(bs) + 3] + a + list(bs)
        rec.append(inv(total(rec)))
        out += [83, 49] + [h for b in rec for h in hex8(b)] + [10]
    rec = [3] + (w16(exec_) if exec_ is not None else [0, 0])
    rec.append(inv(total(rec)))
    return out + [83, 57] + [h for b in rec for h in hex8(b)] + [10]


def ihex(spans, exec_=None):
    out = []
    for a, bs in records(spans):
        rec = [len(bs)] + a + [0] + list(bs)
        rec.append(neg(total(rec)))
        out += [58] + [h for b in rec for h in hex8(b)] + [10]
    rec = [0] + (w16(exec_) if exec_ is not None else [0, 0]) + [1]
    rec.append(neg(total(rec)))
    return out + [58] + [h for b in rec for h in hex8(b)] + [10]


def coco(spans, exec_=None):
    out = []
    for a, bs in spans:
        base = 0
        while base < len(bs):
            part = bs[base:base + 0xFFFF]
            out += [0] + be(len(part), 2) + w16(plus(a, base)) + list(part)
            base += len(part)
    if exec_ is None:
        exec_ = spans[0][0] if spans else 0xFFFF
    return out + [255, 0, 0] + w16(exec_)


def flat(spans):
    """addresses must be ints; lowest address, bytes"""
    if not spans:
        return 0, []
    a0 = spans[0][0]
    out = []
    for a, bs in spans:
        out += [0] * (a - a0 - len(out)) + list(bs)
    return a0, out


def dragondos(spans, exec_=None):
    a, bs = flat(spans) if len(spans) != 1 else spans[0]
    return [0x55, 2] + w16(a) + be(len(bs), 2) + w16(a if exec_ is None else exec_) + [0xAA] + list(bs)


def raw(spans, exec_=None):
    return list((flat(spans) if len(spans) != 1 else spans[0])[1])


FMT = {"-S": srec, "-H": ihex, "-C": coco, "-D": dragondos, "-B": raw}


# ---- reading files back: each returns (condition, [(address, bytes)], exec) or
# (False, [], None); the condition says that every record is well formed

def unhex(c):
    """(is an upper-case hex digit, 4-bit value as an int or an 8-bit term)"""
    if isinstance(c, int):
        k = b"0123456789ABCDEF".find(bytes([c]))
        return k >= 0, max(k, 0)
    dig = z3.And(z3.UGE(c, 48), z3.ULE(c, 57))
    let = z3.And(z3.UGE(c, 65), z3.ULE(c, 70))
    return z3.Or(dig, let), z3.If(let, c - 55, c - 48)


def unhex8(a, b, conds):
    ca, x = unhex(a)
    cb, y = unhex(b)
    conds += [c for c in (ca, cb) if c is not True]
    if isinstance(x, int) and isinstance(y, int):
        return x * 16 + y
    return z3.simplify((t8(x) << 4) | t8(y))


def lines(bs):
    out, cur = [], []
    for b in bs:
        if isinstance(b, int) and b == 10:
            out.append(cur)
            cur = []
        else:
            cur.append(b)
    return out, not cur


def fin(conds):
    if any(c is False for c in conds):
        return False
    conds = [c for c in conds if c is not True]
    return z3.And(conds) if conds else True


def eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return t8(a) == t8(b)


def pair16(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * 256 + b
    return z3.simplify(z3.Concat(t8(a), t8(b)))


def read_srec(bs, maxdata=32):
    ls, whole = lines(bs)
    conds, spans, ex = [whole and len(ls) >= 1], [], None
    for i, l in enumerate(ls):
        if len(l) < 10 or len(l) % 2 or l[0] != 83 or l[1] not in (49, 57):
            return False, [], None
        rec = [unhex8(l[j], l[j + 1], conds) for j in range(2, len(l), 2)]
        conds.append(eq(rec[0], len(rec) - 1))
        conds.append(eq(total(rec), 255))
        last = i == len(ls) - 1
        conds.append((l[1] == 57) == last)
        if last:
            conds.append(len(rec) == 4)
            ex = pair16(rec[1], rec[2])
        else:
            conds.append(1 <= len(rec) - 4 <= maxdata)
            spans.append((pair16(rec[1], rec[2]), rec[3:-1]))
    return fin(conds), spans, ex


def read_ihex(bs, maxdata=32):
    ls, whole = lines(bs)
    conds, spans, ex = [whole and len(ls) >= 1], [], None
    for i, l in enumerate(ls):
        if len(l) < 11 or len(l) % 2 == 0 or l[0] != 58:
            return False, [], None
        rec = [unhex8(l[j], l[j + 1], conds) for j in range(1, len(l), 2)]
        conds.append(eq(rec[0], len(rec) - 5))
        conds.append(eq(total(rec), 0))
        last = i == len(ls) - 1
        conds.append(eq(rec[3], 1 if last else 0))
        if last:
            conds.append(len(rec) == 5)
            ex = pair16(rec[1], rec[2])
        else:
            conds.append(1 <= len(rec) - 5 <= maxdata)
            spans.append((pair16(rec[1], rec[2]), rec[4:-1]))
    return fin(conds), spans, ex


def read_coco(bs, maxdata=None):
    spans, i = [], 0
    while i + 5 <= len(bs) and bs[i] == 0:
        if not (isinstance(bs[i + 1], int) and isinstance(bs[i + 2], int)):
            return False, [], None
        n = bs[i + 1] * 256 + bs[i + 2]
        if n == 0:
            return False, [], None
        spans.append((pair16(bs[i + 3], bs[i + 4]), bs[i + 5:i + 5 + n]))
        i += 5 + n
    if len(bs) - i != 5 or bs[i:i + 3] != [255, 0, 0]:
        return False, [], None
    return True, spans, pair16(bs[i + 3], bs[i + 4])


def read_dragondos(bs, maxdata=None):
    if len(bs) < 9 or bs[:2] != [0x55, 2] or bs[8] != 0xAA or pair16(bs[4], bs[5]) != len(bs) - 9:
        return False, [], None
    return True, [(pair16(bs[2], bs[3]), bs[9:])], pair16(bs[6], bs[7])


READ = {"-S": read_srec, "-H": read_ihex, "-C": read_coco, "-D": read_dragondos}


def eq16(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a & 0xFFFF) == (b & 0xFFFF)
    a = z3.BitVecVal(a & 0xFFFF, 16) if isinstance(a, int) else a
    b = z3.BitVecVal(b & 0xFFFF, 16) if isinstance(b, int) else b
    return a == b


def same_image(spans, want):
    """spans as read, possibly cut into pieces, hold exactly the wanted spans in order"""
    conds = []
    it = iter(spans)
    for a, bs in want:
        k = 0
        while k < len(bs):
            n = next(it, None)
            if n is None:
                return False
            addr, part = n
            conds.append(eq16(addr, plus(a, k)))
            if k + len(part) > len(bs):
                return False
            conds += [eq(x, y) for x, y in zip(part, bs[k:])]
            k += len(part)
    if next(it, None) is not None:
        return False
    return fin(conds)
