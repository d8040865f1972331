"""Scenarios: source texts, arguments and files some of whose characters are
symbolic variables, with what is required of the program for every assignment."""
import z3


class Var:
    def __init__(self, name, bits, vals, split=False):
        self.name, self.bits, self.vals, self.split = name, bits, list(vals), split


def bitsfor(n):
    b = 1
    while (1 << b) < n:
        b += 1
    return b


def T(*parts):
    """Concatenate literals and symbolic pieces into a text."""
    r = []
    for p in parts:
        if isinstance(p, str):
            r += list(p.encode("latin-1"))
        elif isinstance(p, (bytes, bytearray)):
            r += list(p)
        elif isinstance(p, int):
            r.append(p)
        elif isinstance(p, tuple):
            r.append(p)
        else:
            for q in p:
                r += T(q)
    return r


class Ok:
    """exit 0, the named files have exactly these bytes (ints or 8-bit terms)"""
    def __init__(self, out=None, quiet=True, **files):
        self.files = dict(files)
        if out is not None:
            self.files["out"] = out
        self.quiet = quiet

    def match(self, r):
        if r.status != "exit" or r.code != 0:
            return False
        if self.quiet and r.files.get("<stderr>"):
            return False
        conj = []
        for name, exp in self.files.items():
            if name not in r.files:
                return False
            got = r.files[name]
            if len(got) != len(exp):
                return False
            for g, x in zip(got, exp):
                c = eq8(g, x)
                if c is False:
                    return False
                if c is not True:
                    conj.append(c)
        if not conj:
            return True
        return z3.And(conj)

    def show(self, m):
        return "exit 0, " + ", ".join("%s = %s" % (k, hexs([conc(b, m) for b in v])) for k, v in self.files.items())


class Fail:
    """non-zero exit status and something on standard error"""
    def match(self, r):
        return r.status == "exit" and r.code != 0 and len(r.files.get("<stderr>", [])) > 0

    def show(self, m):
        return "failing exit status with a message on standard error"


class Warned:
    """something is reported, whatever the exit status"""
    def match(self, r):
        return r.status == "exit" and len(r.files.get("<stderr>", [])) > 0

    def show(self, m):
        return "a warning or an error"


class Ends:
    """the program ends by itself with an exit status of its own"""
    def match(self, r):
        return r.status == "exit"

    def show(self, m):
        return "ends normally"


class Pred:
    """exit 0 (unless any_code) and fn(result) holds (bool or z3 Bool)"""
    def __init__(self, fn, text, any_code=False):
        self.fn, self.text, self.any_code = fn, text, any_code

    def match(self, r):
        if r.status != "exit" or (r.code != 0 and not self.any_code):
            return False
        return self.fn(r)

    def show(self, m):
        return self.text


class Any:
    """one of several (condition, outcome) pairs holds"""
    def __init__(self, *alts):
        self.alts = alts

    def match(self, r):
        conj = []
        for c, o in self.alts:
            m = o.match(r)
            if m is False:
                continue
            x = c if m is True else m if c is True else z3.And(c, m)
            if x is True:
                return True
            conj.append(x)
        return z3.Or(conj) if conj else False

    def show(self, m):
        return " or ".join(o.show(m) for c, o in self.alts if c is True or conc(c, m)) or "nothing possible"


def hexs(bs):
    bs = list(bs)
    if len(bs) > 8 and all(isinstance(b, int) and (32 <= b < 127 or b in (9, 10, 13)) for b in bs):
        return repr(bytes(bs).decode())
    return " ".join("%02X" % b if isinstance(b, int) else "??" for b in bs)


def eq8(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a & 255) == (b & 255)
    if isinstance(a, int):
        a = z3.BitVecVal(a, 8)
    if isinstance(b, int):
        b = z3.BitVecVal(b, 8)
    c = z3.simplify(a == b)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return c


def conc(t, m):
    """concrete value of a term under assignment m (name -> int)"""
    if isinstance(t, int):
        return t
    if isinstance(t, bool):
        return t
    subs = [(z3.BitVec(n, b), z3.BitVecVal(v, b)) for n, (b, v) in m.items()]
    r = z3.simplify(z3.substitute(t, *subs))
    if z3.is_bool(r):
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        raise ValueError("not concrete: %s" % r)
    return r.as_long()


class Env:
    """the variables of a scenario, as terms (or constants where one value is left)"""
    def __init__(self, scn, dom, fixed):
        self.scn, self.dom, self.fixed = scn, dom, fixed

    def raw(self, name):
        v = self.scn.vars[name]
        d = [self.fixed[name]] if name in self.fixed else self.dom[name]
        if len(d) == 1:
            return z3.BitVecVal(d[0], v.bits)
        return z3.BitVec(name, v.bits)

    def idx(self, name):
        if name in self.fixed:
            return self.fixed[name]
        d = self.dom[name]
        if len(d) != 1:
            raise ValueError("variable %s is not split" % name)
        return d[0]

    def tab(self, name, table, width):
        """table lookup on a variable as a term"""
        x = self.raw(name)
        vals = self.scn.vars[name].vals
        if z3.is_bv_value(x):
            return z3.BitVecVal(table[vals.index(x.as_long())], width)
        r = z3.BitVecVal(table[0], width)
        for v, t in zip(vals[1:], table[1:]):
            r = z3.If(x == v, z3.BitVecVal(t, width), r)
        return r

    def num(self, name, width=64):
        """value of a numeric literal piece, zero-extended to width"""
        base, vs = self.scn.nums[name]
        if base in (2, 4, 8, 16):
            k = {2: 1, 4: 2, 8: 3, 16: 4}[base]
            parts = []
            for v in vs:
                r = self.raw(v)
                w = self.scn.vars[v].bits
                parts.append(z3.Extract(k - 1, 0, r) if w > k else r)
            t = z3.Concat(parts) if len(parts) > 1 else parts[0]
        else:
            w = max(8, int(len(vs) * 3.33) + 2)
            t = z3.BitVecVal(0, w)
            for v in vs:
                r = self.raw(v)
                t = t * base + z3.ZeroExt(w - r.size(), r)
        t = z3.simplify(t)
        if t.size() < width:
            t = z3.ZeroExt(width - t.size(), t)
        elif t.size() > width:
            t = z3.Extract(width - 1, 0, t)
        return z3.simplify(t)


class Scn:
    def __init__(self, name, spec=None, args=None, what=""):
        self.name = name
        self.vars = {}
        self.nums = {}
        self.files = {}
        self.args = None
        self.runs = []             # command lines of further runs, each after one that exits 0
        self.nowrite = []
        self.unreadable = []       # directories given as input files
        self.writefail = None      # variable: size beyond which writing a file fails
        self.nodirs = []
        self.constraints = []      # SMT2 text over variables
        self.spec = spec
        self.what = what
        self.limit = 60000000
        self.need = None           # labels that must be reachable
        self.allow_undef = True
        self.maxpaths = 200000
        self.asan_replay = False
        if args is not None:
            self.argv(*args)

    # ---- variables
    def var(self, name, bits, vals=None, split=False):
        assert name not in self.vars, name
        self.vars[name] = Var(name, bits, vals if vals is not None else range(1 << bits), split)
        return self.vars[name]

    def choice(self, name, strings, split=True, pad=" "):
        """one of several strings, padded with spaces on the right"""
        strings = list(strings)
        n = len(strings)
        assert n <= 256
        if name not in self.vars:
            self.var(name, bitsfor(n), range(n), split)
        w = max(len(s) for s in strings)
        st = [s.encode("latin-1").ljust(w, pad.encode()) for s in strings]
        out = []
        for i in range(w):
            col = [s[i] for s in st]
            out.append(col[0] if len(set(col)) == 1 else (name, col))
        return out

    def padl(self, name, strings, split=True):
        """as choice, padded on the left"""
        w = max(len(s) for s in strings)
        return self.choice(name, [s.rjust(w) for s in strings], split)

    def hex(self, name, n, digits="0123456789ABCDEF"):
        vs, out = [], []
        for i in range(n):
            v = "%s_%d" % (name, i)
            if v not in self.vars:
                self.var(v, 4)
            vs.append(v)
            out.append((v, [ord(c) for c in digits]))
        self.nums[name] = (16, vs)
        return out

    def binary(self, name, n):
        vs, out = [], []
        for i in range(n):
            v = "%s_%d" % (name, i)
            if v not in self.vars:
                self.var(v, 1)
            vs.append(v)
            out.append((v, [48, 49]))
        self.nums[name] = (2, vs)
        return out

    def octal(self, name, n):
        vs, out = [], []
        for i in range(n):
            v = "%s_%d" % (name, i)
            if v not in self.vars:
                self.var(v, 3)
            vs.append(v)
            out.append((v, [48 + k for k in range(8)]))
        self.nums[name] = (8, vs)
        return out

    def dec(self, name, n, first=0):
        """n decimal digits, the first at least `first`"""
        vs, out = [], []
        for i in range(n):
            v = "%s_%d" % (name, i)
            vals = list(range(first if i == 0 else 0, 10))
            if v not in self.vars:
                self.var(v, 4, vals)
            vs.append(v)
            out.append((v, [48 + k for k in vals]))
        self.nums[name] = (10, vs)
        return out

    def char(self, name, domain, split=False):
        """a single byte from a set"""
        domain = [ord(c) if isinstance(c, str) else c for c in domain]
        if name not in self.vars:
            self.var(name, 8, domain, split)
        return [(name, domain)]

    def case(self, name, text):
        """text with the case of every letter free"""
        out = []
        for i, c in enumerate(text):
            if c.isalpha():
                v = "%s_c%d" % (name, i)
                if v not in self.vars:
                    self.var(v, 1)
                out.append((v, [ord(c.lower()), ord(c.upper())]))
            else:
                out.append(ord(c))
        return out

    # ---- inputs
    def argv(self, *args):
        self.args = [T(a) for a in args]

    def again(self, *args):
        """run the program once more, with the files written so far"""
        self.runs.append([T(a) for a in args])

    def file(self, name, *parts):
        self.files[name] = T(*parts)

    def src(self, *parts, args=()):
        self.file("in.s", *parts)
        if self.args is None:
            self.argv(*(list(args) + ["-o", "out", "in.s"]))

    def assume(self, term):
        """a z3 condition over the variables"""
        s = z3.Solver()
        s.add(term)
        txt = term.sexpr().replace("\n", " ")
        self.constraints.append((txt, term))

    # ---- output
    def tok(self, b):
        if isinstance(b, int):
            return str(b)
        return "@%s:%s" % (b[0], ",".join(str(x) for x in b[1]))

    def write(self, path):
        q = lambda n: n.replace("%", "%25").replace(" ", "%20")
        with open(path, "w") as f:
            for v in self.vars.values():
                f.write("var %s %d %s\n" % (v.name, v.bits, " ".join(map(str, v.vals))))
            f.write("arg %s\n" % " ".join(str(b) for b in b"asm6809"))
            for a in self.args:
                f.write("arg %s\n" % " ".join(self.tok(b) for b in a))
            for r in self.runs:
                f.write("again\narg %s\n" % " ".join(str(b) for b in b"asm6809"))
                for a in r:
                    f.write("arg %s\n" % " ".join(self.tok(b) for b in a))
            for n, d in self.files.items():
                f.write("file %s %s\n" % (q(n), " ".join(self.tok(b) for b in d)))
            for n in self.nowrite:
                f.write("nowrite %s\n" % q(n))
            for n in self.unreadable:
                f.write("unreadable %s\n" % q(n))
            if self.writefail:
                f.write("writefail %s\n" % self.writefail)
            for t, _ in self.constraints:
                f.write("constraint %s\n" % t)
            f.write("limit %d\n" % self.limit)

    def byte(self, x, asg):
        if isinstance(x, int):
            return x
        v = self.vars[x[0]]
        return x[1][v.vals.index(asg[x[0]])]

    def concrete_runs(self, asg):
        """argv of every run"""
        return [[bytes(self.byte(x, asg) for x in a) for a in r] for r in [self.args] + self.runs]

    def concrete(self, asg):
        """argv and files under an assignment name -> value"""
        b = lambda x: self.byte(x, asg)
        return ([bytes(b(x) for x in a) for a in self.args],
                {n: bytes(b(x) for x in d) for n, d in self.files.items()})


class Pair:
    """two scenarios over the same variables that must behave alike"""
    def __init__(self, a, b, files=("out",), what=""):
        self.a, self.b, self.files, self.what = a, b, files, what
        self.name = a.name


# ---- helpers for expected bytes
def be(t, n):
    """the low 8n bits of a term or int, most significant byte first"""
    if isinstance(t, int):
        return [(t >> (8 * (n - 1 - i))) & 255 for i in range(n)]
    return [z3.simplify(z3.Extract(8 * (n - i) - 1, 8 * (n - i) - 8, t)) for i in range(n)]


def bv(v, w=64):
    return z3.BitVecVal(v, w)
