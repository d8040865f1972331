"""Build the program under test from /repo's working tree: LLVM bitcode for the
symbolic executor, and native binaries for replaying what it finds."""
import re, os, subprocess, shutil, tempfile, glob, concurrent.futures

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
CLANG = "/usr/bin/clang-18"
GNULIB = """asnprintf basename-lgpl bitrotate c-ctype c-strcasecmp c-strncasecmp dirname-lgpl
exitfail getprogname gl_avltree_list gl_list gl_xlist hash printf-args printf-parse stripslash
unistd vasnprintf xalloc-die xasprintf xmalloc xsize xvasprintf""".split()


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode("utf8", "replace")[-3000:])
    return p.stdout


class Build:
    """Scratch copy of the sources and everything built from it."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vf-")
        self.src = os.path.join(self.dir, "t")
        os.mkdir(self.src)
        for d in ("src", "dt101", "gnulib"):
            shutil.copytree(os.path.join(REPO, d), os.path.join(self.src, d),
                            ignore=shutil.ignore_patterns("*.o", "*.a", ".deps", ".dirstamp", "asm6809", "grammar.c",
                                                          "grammar.h", "lex.c", "*.Po"))
        sup = os.path.join(VERIF, "support")
        self.vendored = []
        for rel in self._walk(sup):
            have = os.path.join(REPO, rel)
            dst = os.path.join(self.src, rel)
            if os.path.exists(have):
                if not os.path.exists(dst):
                    shutil.copy(have, dst)
            else:
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copy(os.path.join(sup, rel), dst)
                self.vendored.append(rel)
        run(["bison", "-d", "-o", "grammar.c", "grammar.y"], cwd=os.path.join(self.src, "src"))
        run(["flex", "-o", "lex.c", "lex.l"], cwd=os.path.join(self.src, "src"))
        # the same scanner with uncompressed tables, for the symbolic run
        os.mkdir(os.path.join(self.dir, "lexsym"))
        run(["flex", "-Cf", "-8", "-o", os.path.join(self.dir, "lexsym", "lex.c"), "lex.l"], cwd=os.path.join(self.src, "src"))
        self._no_lookahead(os.path.join(self.dir, "lexsym", "lex.c"))
        self.units = sorted(glob.glob(self.src + "/src/*.c")) + \
            sorted(f for f in glob.glob(self.src + "/dt101/*.c")) + \
            [f for f in (self.src + "/gnulib/" + g + ".c" for g in GNULIB) if os.path.exists(f)]
        self.flags = ["-I.", "-Isrc", "-Idt101", "-Ignulib", "-DHAVE_CONFIG_H", "-w"]
        self._asan = None

    @staticmethod
    def _no_lookahead(path):
        """flex's full tables always read one character past a token; the scanner
        of the real build does not where no longer token is possible.  Make the
        full-table scanner stop there too."""
        t = open(path).read()
        m = re.search(r"yy_nxt\[\]\[256\] =\s*\{(.*?)\n    \} ;", t, re.S)
        rows = [r for r in re.findall(r"\{(.*?)\}", m.group(1), re.S)]
        dead = [int(all(int(x) <= 0 for x in r.split(",")[1:])) for r in rows]
        old = re.search(r"\t\twhile \( \(yy_current_state = yy_nxt\[yy_current_state\]\[ YY_SC_TO_UI\(\*yy_cp\) \]\) > 0 \)\n\t\t\t\{(.*?)\n\t\t\t\+\+yy_cp;\n\t\t\t\}\n\n\t\tyy_current_state = -yy_current_state;\n", t, re.S)
        new = """		for ( ;; )
			{
			int yy_n = yy_nxt[yy_current_state][ YY_SC_TO_UI(*yy_cp) ];
			if ( yy_n <= 0 )
				{
				yy_current_state = -yy_n;
				break;
				}
			yy_current_state = yy_n;
""" + old.group(1) + """
			++yy_cp;
			if ( yy_dead[yy_current_state] )
				break;
			}
"""
        t = t[:old.start()] + new + t[old.end():]
        table = "static const unsigned char yy_dead[%d] = {%s};\n" % (len(dead), ",".join(map(str, dead)))
        t = t[:m.end()] + "\n" + table + t[m.end():]
        with open(path, "w") as f:
            f.write(t)

    @staticmethod
    def _walk(top):
        for d, _, fs in os.walk(top):
            for f in fs:
                yield os.path.relpath(os.path.join(d, f), top)

    def _compile(self, cc, flags, ext, sub):
        out = os.path.join(self.dir, sub)
        os.makedirs(out, exist_ok=True)
        jobs = []
        for u in self.units:
            o = os.path.join(out, os.path.relpath(u, self.src).replace("/", "_")[:-2] + ext)
            if ext == ".bc" and u == self.src + "/src/lex.c":
                u = os.path.join(self.dir, "lexsym", "lex.c")
            jobs.append((cc + self.flags + flags + ["-c", u, "-o", o], o))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda j: run(j[0], cwd=self.src), jobs))
        return [o for _, o in jobs]

    def bitcode(self):
        bcs = self._compile([CLANG], ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-g0", "-emit-llvm",
                                      "-U_FORTIFY_SOURCE"], ".bc", "bc")
        self.bc = os.path.join(self.dir, "all.bc")
        run(["llvm-link-18"] + bcs + ["-o", self.bc])
        return self.bc

    def native(self):
        objs = self._compile(["gcc"], ["-g", "-O2"], ".o", "nat")
        self.bin = os.path.join(self.dir, "asm6809")
        run(["gcc"] + objs + ["-lm", "-o", self.bin])
        return self.bin

    def asan(self):
        if self._asan is None:
            fl = ["-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
            objs = self._compile(["gcc"], fl, ".o", "asan")
            self._asan = os.path.join(self.dir, "asm6809-asan")
            run(["gcc"] + fl + objs + ["-lm", "-o", self._asan])
        return self._asan

    def both(self):
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            a = ex.submit(self.bitcode)
            b = ex.submit(self.native)
            a.result(), b.result()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
