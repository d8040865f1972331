"""Run scenarios: symbolic execution of the program, one solver query per path
and requirement, replay of counterexamples and of sampled paths on the native
build, evidence."""
import os, sys, json, time, subprocess, shutil, itertools, traceback, concurrent.futures, multiprocessing, random
import z3
from .scen import *
from .build import Build, BuildError, VERIF, REPO

TIER = "quick"
SEED = 1
SYMX = os.path.join(VERIF, "build", "symx")


class Res:
    """what a path (or a native run) did"""
    def __init__(self, status, code, files, detail=""):
        self.status, self.code, self.files, self.detail = status, code, files, detail


def domcond(v, dom):
    if len(dom) == (1 << v.bits):
        return None
    x = z3.BitVec(v.name, v.bits)
    ds = sorted(dom)
    if len(ds) == 1:
        return x == ds[0]
    runs, a = [], ds[0]
    for p, q in zip(ds, ds[1:] + [None]):
        if q != p + 1:
            runs.append((a, p))
            a = q
    parts = []
    for lo, hi in runs:
        if lo == hi:
            parts.append(x == lo)
        else:
            c = []
            if lo > 0:
                c.append(z3.UGE(x, lo))
            if hi < (1 << v.bits) - 1:
                c.append(z3.ULE(x, hi))
            parts.append(z3.And(c))
    return z3.Or(parts) if len(parts) > 1 else parts[0]


def simp(c):
    if c is True or c is False:
        return c
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return c


def path_terms(p, suffix=""):
    """(path condition with output definitions, files as ints/terms)"""
    smt = p.get("smt")
    conds = []
    if smt:
        if suffix:
            smt = smt.replace("out!", "out%s!" % suffix).replace("undef!", "undef%s!" % suffix)
        conds = list(z3.parse_smt2_string(smt))
    files = {}
    for n, bs in p["files"].items():
        files[n] = [b if b >= 0 else z3.BitVec("out%s!%d" % (suffix, -b - 1), 8) for b in bs]
    return conds, Res(p["status"], p["code"], files, p["detail"])


def model_of(scn, m, p):
    asg = {}
    for v in scn.vars.values():
        x = m.eval(z3.BitVec(v.name, v.bits), model_completion=False)
        if z3.is_bv_value(x):
            asg[v.name] = x.as_long()
        else:
            asg[v.name] = p["cur"][v.name] if p["cur"][v.name] in p["dom"][v.name] else p["dom"][v.name][0]
    return asg


class TooHard(Exception):
    pass


class Stats:
    def __init__(self):
        self.q = 0
        self.unsat = 0
        self.t = 0.0
        self.labels = set()
        self.viol = []
        self.unknown = []
        self.maxq = 0.0


def hard():
    return 40000 if TIER == "quick" else 300000


def query(s, st, extra, what, soft=False):
    t = time.time()
    s.push()
    s.set("timeout", 4000 if soft else hard())
    s.add(extra)
    r = s.check()
    m = s.model() if r == z3.sat else None
    s.pop()
    if r == z3.unknown and not soft:
        # the same formula once more, from scratch
        s2 = z3.SolverFor("QF_BV")
        s2.set("timeout", hard())
        s2.add(s.assertions())
        s2.add(extra)
        r = s2.check()
        m = s2.model() if r == z3.sat else None
    dt = time.time() - t
    st.q += 1
    st.t += dt
    st.maxq = max(st.maxq, dt)
    if r == z3.unsat:
        st.unsat += 1
    if r == z3.unknown and not soft:
        st.unknown.append(what)
        if len(st.unknown) >= 4:
            raise TooHard()
    if time.time() > GLOBAL.get("deadline", 1e18):
        st.unknown.append(what + ": out of time")
        raise TooHard()
    return r, m


def conjuncts(x, limit=2000):
    """the parts of a conjunction"""
    out, todo = [], [x]
    while todo and len(out) + len(todo) < limit:
        e = todo.pop()
        if z3.is_bool(e) and z3.is_and(e):
            todo.extend(e.children())
        else:
            out.append(e)
    return out + todo


def refute(s, st, base, ok, what):
    """is there an assignment with base but not ok?"""
    if ok is False:
        return query(s, st, base, what)
    r, m = query(s, st, base + [z3.Not(ok)], what, soft=True)
    if r != z3.unknown:
        return r, m
    bad = z3.unsat
    for c in conjuncts(ok):
        r, m = query(s, st, base + [z3.Not(c)], what)
        if r == z3.sat:
            return r, m
        if r == z3.unknown:
            bad = r
    return bad, None


def check_paths(scn, paths, maxviol=3):
    st = Stats()
    for p in paths:
        try:
            conds, res = path_terms(p)
            dom = p["dom"]
            s = z3.Solver()
            s.add(conds)
            for v in scn.vars.values():
                c = domcond(v, dom[v.name])
                if c is not None:
                    s.add(c)
            splits = [v for v in scn.vars.values() if v.split and len(dom[v.name]) > 1]
            for combo in itertools.product(*[dom[v.name] for v in splits]):
                fixed = {v.name: k for v, k in zip(splits, combo)}
                fixc = [z3.BitVec(n, scn.vars[n].bits) == k for n, k in fixed.items()]
                env = Env(scn, dom, fixed)
                for case in scn.spec(env):
                    cond, outc = case[0], case[1]
                    label = case[2] if len(case) > 2 else ""
                    cond = simp(cond)
                    if cond is False:
                        continue
                    ok = outc.match(res)
                    ok = simp(ok)
                    base = fixc + ([] if cond is True else [cond])
                    if ok is True:
                        if label not in st.labels:
                            r, _ = query(s, st, base, scn.name)
                            if r == z3.sat:
                                st.labels.add(label)
                        continue
                    r, m = refute(s, st, base, ok, scn.name)
                    if r == z3.sat:
                        st.viol.append((model_of(scn, m, p), label, res.status, res.detail, p["events"]))
                        if len(st.viol) >= maxviol:
                            return st
                    elif r == z3.unsat and label not in st.labels:
                        r, _ = query(s, st, base, scn.name)
                        if r == z3.sat:
                            st.labels.add(label)
        except TooHard:
            return st
        except Exception:
            st.unknown.append("internal: " + traceback.format_exc())
            return st
    return st


def pair_match(ra, rb, files):
    if ra.status != "exit" or rb.status != "exit":
        return False
    if (ra.code == 0) != (rb.code == 0):
        return False
    if ra.code != 0:
        return True
    conj = []
    for f in files:
        if (f in ra.files) != (f in rb.files):
            return False
        x, y = ra.files.get(f, []), rb.files.get(f, [])
        if len(x) != len(y):
            return False
        for a, b in zip(x, y):
            c = eq8(a, b)
            if c is False:
                return False
            if c is not True:
                conj.append(c)
    return z3.And(conj) if conj else True


def check_pair(pair, paths, others, maxviol=3):
    st = Stats()
    scn = pair.a
    parsed = None
    for p in paths:
        try:
            conds, res = path_terms(p)
            s = z3.Solver()
            s.add(conds)
            for v in scn.vars.values():
                c = domcond(v, p["dom"][v.name])
                if c is not None:
                    s.add(c)
            for q in others:
                dom = {}
                empty = False
                for n in scn.vars:
                    d = set(p["dom"][n]) & set(q["dom"][n])
                    if not d:
                        empty = True
                        break
                    dom[n] = d
                if empty:
                    continue
                conds2, res2 = path_terms(q, "B")
                ok = simp(pair_match(res, res2, pair.files))
                if ok is True:
                    lab = "ok" if res.code == 0 else "fail"
                    if lab not in st.labels:
                        st.labels.add(lab)
                    continue
                ex = list(conds2)
                for v in scn.vars.values():
                    c = domcond(v, q["dom"][v.name])
                    if c is not None:
                        ex.append(c)
                r, m = refute(s, st, ex, ok, pair.name)
                if r == z3.sat:
                    pp = dict(p)
                    pp["dom"] = {n: sorted(d) for n, d in dom.items()}
                    st.viol.append((model_of(scn, m, pp), "pair", res.status, res.detail + "/" + res2.detail, p["events"]))
                    if len(st.viol) >= maxviol:
                        return st
                elif r == z3.unsat:
                    st.labels.add("ok" if res.code == 0 else "fail")
        except TooHard:
            return st
        except Exception:
            st.unknown.append("internal: " + traceback.format_exc())
            return st
    return st


# ---------------------------------------------------------------- native runs

def native_run(binary, scn, asg, timeout=20, pre=(), env=None):
    argv, files = scn.concrete(asg)
    import tempfile
    d = tempfile.mkdtemp(prefix="vfrun-")
    try:
        for n, data in files.items():
            os.makedirs(os.path.dirname(os.path.join(d, n)) or d, exist_ok=True)
            with open(os.path.join(d, n), "wb") as f:
                f.write(data)
        for n in scn.unreadable + [n for n in scn.nowrite if "/" not in n]:
            os.mkdir(os.path.join(d, n))
        limit = None
        if scn.writefail:
            lim = asg[scn.writefail]

            def limit():
                import resource, signal
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
        e = dict(os.environ, LC_ALL="C")
        if env:
            e.update(env)
        link = os.path.join(d, ".bin")
        os.mkdir(link)
        os.symlink(binary, os.path.join(link, "asm6809"))
        sout, serr = b"", b""
        for argv in scn.concrete_runs(asg):
            argv = [bytes(os.path.join(link, "asm6809"), "ascii")] + [a.split(b"\0")[0] for a in argv]
            try:
                p = subprocess.run(list(pre) + argv, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, timeout=timeout, env=e, preexec_fn=limit)
            except subprocess.TimeoutExpired:
                return Res("hang", -1, {}, "no exit within %d s" % timeout), b""
            sout, serr = sout + p.stdout, serr + p.stderr
            if p.returncode:
                break
        got = {}
        for root, ds, fs in os.walk(d):
            if root == d and ".bin" in ds:
                ds.remove(".bin")
            for n in fs:
                rel = os.path.relpath(os.path.join(root, n), d)
                with open(os.path.join(root, n), "rb") as f:
                    data = f.read()
                if rel in files and data == files[rel]:
                    continue
                got[rel] = list(data)
        got["<stdout>"] = list(sout)
        err = serr.replace(bytes(link + "/", "ascii"), b"")
        got["<stderr>"] = list(err)
        if p.returncode < 0:
            return Res("trap", p.returncode, got, "signal %d" % -p.returncode), serr
        return Res("exit", p.returncode, got), serr
    finally:
        shutil.rmtree(d, ignore_errors=True)


def spec_holds(item, asg, natres, natres2=None):
    """evaluate the requirement on a native result; returns (holds, shown)"""
    if isinstance(item, Pair):
        ok = pair_match(natres, natres2, item.files)
        return ok is True, "same result as the other form"
    scn = item
    env = Env(scn, {n: [asg[n]] for n in scn.vars}, {})
    m = {n: (scn.vars[n].bits, asg[n]) for n in scn.vars}
    for case in scn.spec(env):
        cond, outc = case[0], case[1]
        c = simp(cond)
        if c is not True and c is not False:
            c = conc(c, m)
        if not c:
            continue
        ok = simp(outc.match(natres))
        if ok is not True and ok is not False:
            ok = conc(ok, m)
        if not ok:
            return False, outc.show(m)
    return True, ""


def show_res(r):
    if r is None:
        return "not runnable"
    s = "%s %s" % (r.status, r.code)
    for n, b in sorted(r.files.items()):
        if n == "<stderr>":
            s += ", stderr=%r" % bytes(b[:200])
        elif n == "<stdout>":
            if b:
                s += ", stdout=%r" % bytes(b[:200])
        else:
            s += ", %s=%s" % (n, hexs(b[:400]))
    return s


# ---------------------------------------------------------------- the check

GLOBAL = {}


def _load(path, lo, hi):
    with open(path) as f:
        return [json.loads(l) for l in itertools.islice(f, lo, hi)]


def task_check(idx, lo, hi):
    item = GLOBAL["items"][idx]
    wd = GLOBAL["wd"]
    paths = _load("%s/%d.a" % (wd, idx), lo, hi)
    if isinstance(item, Pair):
        others = _load("%s/%d.b" % (wd, idx), 0, None)
        return check_pair(item, paths, others)
    return check_paths(item, paths)


def task_validate(idx, lines):
    """replay sampled paths natively and compare every output byte"""
    item = GLOBAL["items"][idx]
    scn = item.a if isinstance(item, Pair) else item
    wd = GLOBAL["wd"]
    n, bad = 0, []
    want = set(lines)
    with open("%s/%d.a" % (wd, idx)) as f:
        for i, l in enumerate(f):
            if i not in want:
                continue
            p = json.loads(l)
            if p["status"] != "exit" or p["events"]:
                continue
            try:
                asg = p["cur"]
                conds, res = path_terms(p)
                r, _ = native_run(GLOBAL["bin"], scn, asg)
                if r is None:
                    continue
                files = {}
                subs = [(z3.BitVec(v.name, v.bits), z3.BitVecVal(asg[v.name], v.bits)) for v in scn.vars.values()]
                vals = {}
                if conds:
                    s = z3.Solver()
                    s.add(conds)
                    for a, b in subs:
                        s.add(a == b)
                    if s.check() != z3.sat:
                        bad.append("path %d: recorded assignment does not satisfy its path condition" % i)
                        continue
                    m = s.model()
                    ev = lambda b: b if isinstance(b, int) else m.eval(b, model_completion=True).as_long()
                else:
                    ev = lambda b: b
                for k, bs in res.files.items():
                    files[k] = [ev(b) for b in bs]
                n += 1
                if r.status != "exit" or r.code != res.code:
                    bad.append("path %d: executor says exit %s, native %s %s\n%s" % (i, res.code, r.status, r.code, scn.concrete(asg)))
                    continue
                names = set(files) | set(r.files)
                if getattr(scn, "writefail", None) and r.code:
                    names &= {"<stdout>", "<stderr>"}       # how much of a file was written before the failure is not modelled
                for k in names:
                    if files.get(k, []) != r.files.get(k, []):
                        bad.append("path %d: file %s differs: executor %r native %r\n%s" % (
                            i, k, bytes(files.get(k, []))[:200], bytes(r.files.get(k, []))[:200], scn.concrete(asg)))
                        break
            except Exception:
                bad.append("path %d: %s" % (i, traceback.format_exc()))
    return n, bad


class Check:
    def __init__(self, pid, items, notes=(), bounds=(), tier="quick", seed=1, level="model_checking"):
        self.pid, self.items, self.tier, self.seed = pid, items, tier, seed
        self.notes, self.bounds = list(notes), list(bounds)
        self.errors = []
        global TIER
        TIER = tier
        self.level = level

    def symx(self, scn, out, timeout):
        sc = out + ".sc"
        scn.write(sc)
        timeout = max(5, min(timeout, GLOBAL["deadline"] - time.time() - 40))
        p = subprocess.run([SYMX, self.b.bc, sc, out, "8", str(scn.maxpaths), str(int(timeout))],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        try:
            return json.loads(p.stdout.decode().strip().splitlines()[-1])
        except Exception:
            return {"complete": False, "error": (p.stdout + p.stderr).decode("utf8", "replace")[-500:]}

    def run(self):
        t0 = time.time()
        rc = 2
        self.b = None
        try:
            if not os.path.exists(SYMX):
                subprocess.run([os.path.join(VERIF, "symx", "build.sh"), os.path.join(VERIF, "build")], check=True)
            self.b = Build()
            self.b.both()
            rc = self._run(t0)
        except BuildError as e:
            print("ERROR: cannot build the program under test:\n%s" % e)
            rc = 2
        finally:
            if self.b:
                self.b.close()
        sys.stdout.flush()
        return rc

    def _run(self, t0):
        wd = os.path.join(self.b.dir, "run")
        os.mkdir(wd)
        GLOBAL["deadline"] = t0 + (760 if self.tier == "quick" else 6000)
        GLOBAL.update(items=self.items, wd=wd, bin=self.b.bin)
        timeout = float(os.environ.get("VF_TIMEOUT", "600" if self.tier == "quick" else "3000"))
        nsym = 4
        mp = multiprocessing.get_context("fork")
        pool = concurrent.futures.ProcessPoolExecutor(8, mp_context=mp)
        # start workers before threads exist
        list(pool.map(int, range(8)))
        tot = dict(paths=0, forks=0, instrs=0, queries=0, solver_s=0.0, unknowns=0, concretised=0)
        funcs = set()
        futs = []
        per = []
        stopflag = []

        def one(idx):
            item = self.items[idx]
            if stopflag:
                return idx, None, 0, None
            if isinstance(item, Pair):
                sb = self.symx(item.b, "%s/%d.b" % (wd, idx), timeout)
                sa = self.symx(item.a, "%s/%d.a" % (wd, idx), timeout)
                if not sb.get("complete"):
                    sa["complete"] = False
                    sa["error"] = "second program: %s" % sb
                for k in ("paths", "forks", "instrs", "queries", "solver_s", "unknowns", "concretised"):
                    if k in sb and k in sa:
                        sa[k] += sb[k]
            else:
                sa = self.symx(item, "%s/%d.a" % (wd, idx), timeout)
            n = 0
            try:
                with open("%s/%d.a" % (wd, idx)) as f:
                    for _ in f:
                        n += 1
            except OSError:
                pass
            return idx, sa, n, item

        labels = {}
        viols = []
        q = unsat = 0
        qt = maxq = 0.0
        validated = 0
        badval = []
        rnd = random.Random(self.seed)
        samples = []
        with concurrent.futures.ThreadPoolExecutor(nsym) as tp:
            sf = [tp.submit(one, i) for i in range(len(self.items))]
            for f in concurrent.futures.as_completed(sf):
                idx, sm, n, item = f.result()
                if sm is None:
                    continue
                name = item.name
                if os.environ.get("VF_TRACE"):
                    print("%7.1f %-20s %6d paths %6.1f s" % (time.time() - t0, name, n, sm.get("wall_s") or -1), flush=True)
                for k in tot:
                    tot[k] += sm.get(k, 0)
                funcs.update(sm.get("functions", []))
                per.append({"scenario": name, "paths": n, "complete": bool(sm.get("complete")), "wall_s": sm.get("wall_s")})
                if not sm.get("complete"):
                    self.errors.append("%s: exploration incomplete: %s" % (name, {k: v for k, v in sm.items() if k != "functions"}))
                # unsupported / unknown paths
                st = {}
                with open("%s/%d.a" % (wd, idx)) as ff:
                    for l in ff:
                        k = l[11:l.index('"', 11)]
                        st[k] = st.get(k, 0) + 1
                        if k in ("unsupported", "unknown", "stopped", "limit") and len(self.errors) < 20:
                            self.errors.append("%s: %s" % (name, json.loads(l)["detail"] + " (" + k + ")"))
                per[-1]["ends"] = st
                step = max(1, min(40, n // 16 + 1))
                for lo in range(0, n, step):
                    futs.append((idx, pool.submit(task_check, idx, lo, lo + step)))
                kmax = 12 if self.tier == "quick" else 60
                pick = list(range(n)) if n <= kmax else sorted(rnd.sample(range(n), kmax))
                if pick:
                    for j in range(0, len(pick), 6):
                        futs.append((idx, pool.submit(task_validate, idx, pick[j:j + 6])))
                if n and len(samples) < 6:
                    p = _load("%s/%d.a" % (wd, idx), n // 2, n // 2 + 1)[0]
                    s = item.a if isinstance(item, Pair) else item
                    av, fl = s.concrete(p["cur"])
                    samples.append({"scenario": name, "argv": [a.decode("latin-1") for a in av],
                                    "files": {k: v.decode("latin-1")[:300] for k, v in fl.items()},
                                    "path_end": "%s %s" % (p["status"], p["code"])})
            for idx, f in futs:
                r = f.result()
                if isinstance(r, Stats):
                    q += r.q
                    unsat += r.unsat
                    qt += r.t
                    maxq = max(maxq, r.maxq)
                    labels.setdefault(idx, set()).update(r.labels)
                    for u in r.unknown[:3]:
                        self.errors.append("%s: undecided: %s" % (self.items[idx].name, u))
                    for v in r.viol:
                        viols.append((idx, v))
                else:
                    validated += r[0]
                    for x in r[1]:
                        badval.append("%s: %s" % (self.items[idx].name, x))
        pool.shutdown()
        # counterexamples: replay on the native build
        known = load_known(self.pid)
        confirmed, unconf = [], []
        seen = {}
        for idx, v in viols:
            if seen.get(idx, 0) >= 3:
                continue
            seen[idx] = seen.get(idx, 0) + 1
            if sum(not match_known(known, self.items[i].name, w[1]) for i, w, _ in confirmed) >= 5:
                break
            c = self.replay(self.items[idx], v)
            (confirmed if c else unconf).append((idx, v, c))
        new, told = [], set()
        for idx, v, c in confirmed:
            k = match_known(known, self.items[idx].name, v[1])
            if k:
                if k not in told:
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
                told.add(k)
            else:
                new.append((idx, v, c))
        for i, (idx, v, c) in enumerate(new):
            path = self.save(i, self.items[idx], v, c)
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("  scenario %s: %s" % (self.items[idx].name, self.items[idx].what))
            print("  expected: %s\n  got: %s" % (c[0][:400], c[1][:600]))
        if not new:
            for idx, v, c in unconf[:5]:
                self.errors.append("%s: counterexample not reproduced natively: %r %r" % (self.items[idx].name, v[1:], self.concrete_text(self.items[idx], v[0])))
            for x in badval[:5]:
                self.errors.append("executor and native build disagree: " + x)
            # vacuity: every labelled requirement must have been reachable
            for idx, item in enumerate(self.items):
                need = getattr(item, "need", None)
                if isinstance(item, Pair):
                    need = item.a.need if item.a.need is not None else ["ok"]
                if need is None:
                    continue
                miss = set(need) - labels.get(idx, set())
                if miss:
                    self.errors.append("%s: requirement never exercised: %s" % (item.name, sorted(miss)))
        cov = {
            "states": tot["paths"], "transitions": tot["instrs"], "traces_validated_against_impl": validated,
            "samples": samples,
            "scenarios": per, "functions_encoded": sorted(funcs), "functions_encoded_count": len(funcs),
            "bounds": self.bounds, "solver_queries_property": q, "solver_queries_property_unsat": unsat,
            "solver_queries_path_feasibility": tot["queries"],
            "solver_s_property": round(qt, 3), "solver_s_feasibility": round(tot["solver_s"], 3), "slowest_query_s": round(maxq, 3),
            "undecided": tot["unknowns"],
            "symbolic_variables": sum(len((i.a if isinstance(i, Pair) else i).vars) for i in self.items),
            "states_are": "complete execution paths of the whole program over symbolic source text",
            "transitions_are": "LLVM IR instructions executed symbolically",
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.notes, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d scenarios, %d paths, %d solver queries (%d + %d), %.1f s solver, %d paths replayed natively, %.1f s" % (
            self.pid, len(self.items), tot["paths"], q + tot["queries"], q, tot["queries"], qt + tot["solver_s"], validated, time.time() - t0))
        if new:
            return 1
        if self.errors:
            for e in self.errors[:12]:
                print("ERROR: " + e[:1500])
            return 2
        return 0

    def replay(self, item, v):
        asg, label, status = v[0], v[1], v[2]
        scn = item.a if isinstance(item, Pair) else item
        r, _ = native_run(self.b.bin, scn, asg)
        if r is None:
            return None
        r2 = None
        if isinstance(item, Pair):
            r2, _ = native_run(self.b.bin, item.b, asg)
        ok, exp = spec_holds(item, asg, r, r2)
        if not ok:
            got = show_res(r) + ("\n  other form: " + show_res(r2) if r2 else "")
            return exp, got
        if status in ("memerr", "trap", "abort") or v[4]:
            # needs a sanitizer to be visible
            for s in ([scn, item.b] if isinstance(item, Pair) else [scn]):
                r, err = native_run(self.b.asan(), s, asg, env={"ASAN_OPTIONS": "detect_leaks=0:exitcode=99", "UBSAN_OPTIONS": "exitcode=99"})
                if r.status != "exit" or r.code == 99:
                    return "no memory error", "sanitizer: " + err.decode("latin-1")[:1500]
                if shutil.which("valgrind"):
                    r, err = native_run(self.b.bin, s, asg, pre=["valgrind", "-q", "--error-exitcode=99"], timeout=60)
                    if r.code == 99:
                        return "no memory error", "valgrind: " + err.decode("latin-1")[:1500]
        return None

    def concrete_text(self, item, asg):
        scn = item.a if isinstance(item, Pair) else item
        return scn.concrete(asg)

    def save(self, i, item, v, c):
        scn = item.a if isinstance(item, Pair) else item
        rel = os.path.join("evidence", "replay-%s-%d" % (self.pid, i))
        d = os.path.join(VERIF, rel)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        argv, files = scn.concrete(v[0])
        for n, data in files.items():
            os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
            with open(os.path.join(d, n), "wb") as f:
                f.write(data)
        import shlex
        with open(os.path.join(d, "README"), "w") as f:
            f.write("property %s, scenario %s\n%s\n\nrun here:  /repo/src/asm6809 %s\n\nrequired: %s\nactual:   %s\n" % (
                self.pid, item.name, item.what, " && /repo/src/asm6809 ".join(" ".join(shlex.quote(a.decode("latin-1")) for a in r) for r in scn.concrete_runs(v[0])), c[0], c[1]))
        if isinstance(item, Pair):
            argv, files = item.b.concrete(v[0])
            os.makedirs(os.path.join(d, "other"))
            for n, data in files.items():
                with open(os.path.join(d, "other", n), "wb") as f:
                    f.write(data)
        return rel


def load_known(pid):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get("known", []) if k["property"] == pid]


def match_known(known, scenario, label):
    for k in known:
        if k["scenario"] == scenario and k["label"] == label:
            return k["what"]
    return None
