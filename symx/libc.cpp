// symx: models of the C library functions the program calls.
#include "core.h"
#include <ctype.h>
#include <climits>

std::vector<File> filetab;
extern std::map<std::string, std::vector<V>> inputFiles;
extern std::set<std::string> nowrite;
extern bool haveWriteLimit;
extern V writeLimit;
extern std::set<std::string> unreadable;
u64 globalAddr(const char *name);
void copyBytes(u64 dst, u64 src, u64 n);
u64 stdinP, stdoutP, stderrP;
bool moreRuns();
[[noreturn]] void nextRun();
static u64 errnoP, ctypeB, ctypeU, ctypeL, ctypeBP, ctypeUP, ctypeLP;

// ---------------------------------------------------------------- helpers

static u64 cc(V v, int w = 64) { return concretize(v, w) & maskw(w); }
static i64 ci(V v) { return sx(concretize(castV(X_TRUNC, v, 64, 32), 32), 32); }
static V i32(V v) { return v.s ? castV(X_TRUNC, v, 64, 32) : V(v.c & 0xffffffffu); }
static V arg32(V v) { if (!v.s) return V(v.c & 0xffffffffu); if (v.s->kind == AST && v.s->w == 64) return castV(X_TRUNC, v, 64, 32); if (v.s->w > 32) return castV(X_TRUNC, v, v.s->w, 32); return v; }
static int argi(V v) { return (int)sx(concretize(arg32(v), 32), 32); }
static void setErrno(int e) { store(V(errnoP), 4, V((u64)e)); }
static V ld1(u64 a) { return load(V(a), 1); }
static V ld8(u64 a) { return load(V(a), 8); }
static u64 ldp(u64 a) { return concretize(load(V(a), 8), 64); }
static void st1(u64 a, V v) { store(V(a), 1, v); }

static V mapSmall(V a, int fw, int tw, u64 (*f)(u64)) {
	if (!a.s) return V(f(a.c & maskw(fw)) & maskw(tw));
	if (a.s->kind == SMALL) {
		int x = a.s->var;
		u64 *t = newTab(x);
		for (int i = 0; i < vars[x].n; i++) if (vars[x].alive[i]) t[i] = f(a.s->tab[i] & maskw(fw)) & maskw(tw);
		return mkSmall(x, tw, t);
	}
	return V(f(concretize(a, fw) & maskw(fw)) & maskw(tw));
}

static u64 newStr(const std::string &s, int kind = OK_GLOBAL) {
	u64 a = mkobj(s.size() + 1, kind, false, "libc string");
	memcpy(objs[a >> 32].data, s.c_str(), s.size() + 1);
	return a;
}
// bytes of a C string, branching on where it ends
static std::vector<V> getStr(u64 a, u64 max = ~0ull) {
	std::vector<V> r;
	for (u64 i = 0; i < max; i++) {
		V b = ld1(a + i);
		if (branch(eqc(b, 0, 8))) break;
		r.push_back(b);
	}
	return r;
}
static std::string concStr(u64 a) {
	std::string s;
	for (u64 i = 0;; i++) { u64 c = cc(ld1(a + i), 8); if (!c) break; s += (char)c; }
	return s;
}
static u64 slen(u64 a) { u64 n = 0; while (!branch(eqc(ld1(a + n), 0, 8))) n++; return n; }

// ---------------------------------------------------------------- stdio

static int mkFile(const std::string &name, int mode) {
	File f;
	f.name = name; f.mode = mode; f.open = true;
	f.data = new std::vector<V>();
	filetab.push_back(f);
	return filetab.size() - 1;
}
static u64 filePtr(int idx) {
	u64 a = mkobj(8, OK_FILE, false, "FILE");
	objs[a >> 32].fid = idx;
	return a;
}
static File &fileOf(V p) {
	u64 a = cc(p);
	u64 id = a >> 32;
	if (id == 0 || id >= objs.size() || objs[id].kind != OK_FILE) finish("memerr", "bad FILE pointer");
	File &f = filetab[objs[id].fid];
	if (!f.open) finish("memerr", "use of closed FILE");
	return f;
}
// A write reaches the file when the buffer (4096 bytes) fills or is flushed;
// past the limit, a free variable of the scenario, it fails.
static bool wfail(File &f, bool flushing) {
	if (f.err) return true;
	if (f.mode != 1 || f.name[0] == '<') return false;
	u64 n = flushing ? f.data->size() : f.data->size() & ~4095ull;
	if (!n) return false;
	if (f.name == "/dev/full") return f.err = true;
	if (!haveWriteLimit) return false;
	if (branch(icmp(C_ULT, 64, writeLimit, V(n)))) return f.err = true;
	return false;
}
// "/", ".", "..", "./" and so on: directories that are always there
static bool isDir(const std::string &n) {
	if (n.empty()) return false;
	for (size_t i = 0; i <= n.size();) {
		size_t j = std::min(n.find('/', i), n.size());
		std::string c = n.substr(i, j - i);
		if (c != "" && c != "." && c != "..") return false;
		i = j + 1;
	}
	return true;
}
static V doFopen(std::vector<V> &a) {
	std::string name = concStr(cc(a[0])), mode = concStr(cc(a[1]));
	if (isDir(name)) {
		if (mode[0] != 'r') { setErrno(EISDIR); return V(0); }
		int k = mkFile(name, 0);
		filetab[k].broken = true;
		return V(filePtr(k));
	}
	while (name.compare(0, 2, "./") == 0) name.erase(0, std::min(name.find_first_not_of('/', 1), name.size()));
	if (mode[0] == 'r') {
		auto it = inputFiles.find(name);
		if (unreadable.count(name)) { int k = mkFile(name, 0); filetab[k].broken = true; return V(filePtr(k)); }
		if (it == inputFiles.end()) { setErrno(ENOENT); return V(0); }
		int k = mkFile(name, 0);
		*filetab[k].data = it->second;
		return V(filePtr(k));
	}
	if (name.empty()) { setErrno(ENOENT); return V(0); }
	if (nowrite.count(name) || unreadable.count(name)) { setErrno(name.find('/') != name.npos ? ENOENT : EISDIR); return V(0); }
	int k = mkFile(name, 1);
	if (mode[0] == 'a') {
		for (int i = k - 1; i >= 0; i--) if (filetab[i].mode == 1 && filetab[i].name == name) { *filetab[k].data = *filetab[i].data; break; }
	}
	return V(filePtr(k));
}
static V doFclose(std::vector<V> &a) {
	File &f = fileOf(a[0]);
	f.open = false;
	return V(wfail(f, true) ? 0xffffffffu : 0);
}
static V doFflush(std::vector<V> &a) {
	if (!a[0].s && a[0].c == 0) return V(0);
	return V(wfail(fileOf(a[0]), true) ? 0xffffffffu : 0);
}
static V doFgetc(std::vector<V> &a) {
	File &f = fileOf(a[0]);
	if (f.mode != 0 || f.broken) { f.err = true; setErrno(EISDIR); return V(0xffffffffu); }
	if (f.pos >= f.data->size()) { f.eof = true; return V(0xffffffffu); }
	return castV(X_ZEXT, (*f.data)[f.pos++], 8, 32);
}
static V doUngetc(std::vector<V> &a) {
	File &f = fileOf(a[1]);
	if (f.pos > 0) { f.pos--; (*f.data)[f.pos] = castV(X_TRUNC, arg32(a[0]), 32, 8); }
	f.eof = false;
	return a[0];
}
static V doFread(std::vector<V> &a) {
	u64 p = cc(a[0]), sz = cc(a[1]), n = cc(a[2]);
	File &f = fileOf(a[3]);
	u64 want = sz * n, i = 0;
	if (f.broken) { f.err = true; return V(0); }
	for (; i < want && f.pos < f.data->size(); i++) st1(p + i, (*f.data)[f.pos++]);
	if (i < want) f.eof = true;
	return V(sz ? i / sz : 0);
}
static V doFwrite(std::vector<V> &a) {
	u64 p = cc(a[0]), sz = cc(a[1]), n = cc(a[2]);
	File &f = fileOf(a[3]);
	if (f.mode != 1) { f.err = true; return V(0); }
	for (u64 i = 0; i < sz * n; i++) f.data->push_back(ld1(p + i));
	return V(sz ? n : 0);
}
static void out(File &f, V b) { if (f.mode == 1) f.data->push_back(b); else f.err = true; }
static V doFputc(std::vector<V> &a) {
	File &f = fileOf(a[1]);
	V b = arg32(a[0]);
	b = b.s ? castV(X_TRUNC, b, b.s->w, 8) : V(b.c & 0xff);
	out(f, b);
	return castV(X_ZEXT, b, 8, 32);
}
static V doPutchar(std::vector<V> &a) { std::vector<V> x { a[0], V(stdoutP) }; return doFputc(x); }
static V doFputs(std::vector<V> &a) {
	File &f = fileOf(a[1]);
	for (V &b : getStr(cc(a[0]))) out(f, b);
	return V(1);
}
static V doPuts(std::vector<V> &a) {
	File &f = fileOf(V(stdoutP));
	for (V &b : getStr(cc(a[0]))) out(f, b);
	out(f, V('\n'));
	return V(1);
}
static V doFgets(std::vector<V> &a) {
	u64 p = cc(a[0]);
	int n = argi(a[1]);
	File &f = fileOf(a[2]);
	int i = 0;
	if (f.broken) { f.err = true; setErrno(EISDIR); return V(0); }
	while (i < n - 1 && f.pos < f.data->size()) {
		V b = (*f.data)[f.pos++];
		st1(p + i++, b);
		if (branch(eqc(b, '\n', 8))) break;
	}
	if (i == 0) { f.eof = true; return V(0); }
	st1(p + i, V(0));
	return a[0];
}
static V doGetline(std::vector<V> &a) {
	File &f = fileOf(a[2]);
	if (f.broken) { f.err = true; return V(~0ull); }
	std::vector<V> ln;
	while (f.pos < f.data->size()) {
		V b = (*f.data)[f.pos++];
		ln.push_back(b);
		if (branch(eqc(b, '\n', 8))) break;
	}
	if (ln.empty()) { f.eof = true; return V(~0ull); }
	u64 o = mkobj(ln.size() + 1, OK_HEAP, true, "getline");
	for (size_t i = 0; i < ln.size(); i++) st1(o + i, ln[i]);
	st1(o + ln.size(), V(0));
	u64 old = ldp(cc(a[0]));
	if (old) objs[old >> 32].dead = 1;
	store(a[0], 8, V(o));
	store(a[1], 8, V(ln.size() + 1));
	return V(ln.size());
}
static V doFeof(std::vector<V> &a) { return V(fileOf(a[0]).eof); }
static V doFerror(std::vector<V> &a) { File &f = fileOf(a[0]); return V(wfail(f, false)); }
static V doClearerr(std::vector<V> &a) { File &f = fileOf(a[0]); f.eof = f.err = false; return V(0); }
static V doFseek(std::vector<V> &a) {
	File &f = fileOf(a[0]);
	i64 off = (i64)cc(a[1]);
	int wh = argi(a[2]);
	i64 base = wh == 0 ? 0 : wh == 1 ? (i64)f.pos : (i64)f.data->size();
	if (f.mode == 1) finish("unsupported", "fseek on output");
	if (base + off < 0) { setErrno(EINVAL); return V(0xffffffffu); }
	f.pos = base + off; f.eof = false;
	return V(0);
}
static V doFtell(std::vector<V> &a) { File &f = fileOf(a[0]); return V(f.mode ? f.data->size() : f.pos); }
static V doRewind(std::vector<V> &a) { File &f = fileOf(a[0]); f.pos = 0; f.eof = false; return V(0); }
static V doFileno(std::vector<V> &a) { fileOf(a[0]); u64 p = cc(a[0]); return V(p == stdinP ? 0 : p == stdoutP ? 1 : p == stderrP ? 2 : 3); }
static V ret0(std::vector<V> &) { return V(0); }
static V doRemove(std::vector<V> &a) {
	std::string n = concStr(cc(a[0]));
	for (auto &f : filetab) if (f.name == n && f.mode == 1) { f.mode = 2; return V(0); }
	setErrno(ENOENT); return V(0xffffffffu);
}

// ---------------------------------------------------------------- printf

struct Args {
	std::vector<V> *list = nullptr;
	size_t pos = 0;
	u64 va = 0;
	V next() {
		if (list) { if (pos >= list->size()) finish("memerr", "printf: missing argument"); return (*list)[pos++]; }
		u64 p = ldp(va + 8);
		V v = ld8(p);
		store(V(va + 8), 8, V(p + 8));
		return v;
	}
};

static V widen(V v, int bits, bool sgn) {
	// take the low 'bits' of an argument and extend to 64
	if (!v.s) return V(sgn ? (u64)sx(v.c, bits) : v.c & maskw(bits));
	int w = v.s->w;
	if (w > bits) { v = castV(X_TRUNC, v, w, bits); w = bits; }
	if (!v.s) return V(sgn ? (u64)sx(v.c, w) : v.c);
	if (w < 64) v = castV(sgn ? X_SEXT : X_ZEXT, v, w, 64);
	return v;
}
static u64 hexU(u64 n) { return "0123456789ABCDEF"[n & 15]; }
static u64 hexL(u64 n) { return "0123456789abcdef"[n & 15]; }
static u64 decD(u64 n) { return '0' + n; }
static V digitChar(V nib, int w, bool upper) {
	// nib: w-bit value < 16
	nib = castV(X_TRUNC, nib, w, 8);
	if (!nib.s || nib.s->kind == SMALL) return mapSmall(nib, 8, 8, upper ? hexU : hexL);
	return selectV(icmp(C_ULT, 8, nib, V(10)), bin(B_ADD, 8, nib, V('0')), bin(B_ADD, 8, nib, V((upper ? 'A' : 'a') - 10)), 8);
}
// digits of a non-negative 64-bit value, most significant first
static std::vector<V> digitsOf(V v, int base, bool upper) {
	std::vector<V> r;
	if (!v.s) {
		char b[72]; int n = 0; u64 x = v.c;
		do { int d = x % base; b[n++] = d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10; x /= base; } while (x);
		while (n) r.push_back(V((u64)(u8)b[--n]));
		return r;
	}
	if (base == 16 || base == 8 || base == 2) {
		int k = base == 16 ? 4 : base == 8 ? 3 : 1;
		int nd = 1;
		while (nd * k < 64 && !branch(icmp(C_ULT, 64, v, V(1ull << (nd * k))))) nd++;
		for (int i = nd - 1; i >= 0; i--)
			r.push_back(digitChar(bin(B_AND, 64, bin(B_LSHR, 64, v, V(i * k)), V(base - 1)), 64, upper));
		return r;
	}
	int nd = 1; u64 p = 10;
	while (nd < 20 && !branch(icmp(C_ULT, 64, v, V(p)))) { nd++; if (nd == 20) break; p *= 10; }
	if (nd == 20) { V c(concretize(v, 64)); return digitsOf(c, base, upper); }
	// narrow the division
	int w = 64 - __builtin_clzll(p);
	V q = castV(X_TRUNC, v, 64, w);
	u64 d = 1;
	for (int i = 1; i < nd; i++) d *= 10;
	for (int i = 0; i < nd; i++, d /= 10) {
		V x = d > 1 ? bin(B_UDIV, w, q, V(d)) : q;
		if (i) x = bin(B_UREM, w, x, V(10));
		x = castV(w >= 8 ? X_TRUNC : X_ZEXT, x, w, 8);
		if (w == 8) { /* width already right */ }
		if (!x.s || x.s->kind == SMALL) x = mapSmall(x, 8, 8, decD);
		else x = bin(B_ADD, 8, x, V('0'));
		r.push_back(x);
	}
	return r;
}

static void doFormat(u64 fmt, Args &ar, std::vector<V> &o) {
	std::string f = concStr(fmt);
	for (size_t i = 0; i < f.size(); i++) {
		if (f[i] != '%') { o.push_back(V((u64)(u8)f[i])); continue; }
		i++;
		std::string flags;
		while (i < f.size() && strchr("-+ #0'", f[i])) flags += f[i++];
		bool left = flags.find('-') != std::string::npos, zero = flags.find('0') != std::string::npos,
			plus = flags.find('+') != std::string::npos, alt = flags.find('#') != std::string::npos, space = flags.find(' ') != std::string::npos;
		int width = 0, prec = -1;
		if (f[i] == '*') { width = argi(ar.next()); if (width < 0) { left = true; width = -width; } i++; }
		else while (isdigit((u8)f[i])) width = width * 10 + f[i++] - '0';
		if (f[i] == '.') {
			i++; prec = 0;
			if (f[i] == '*') { prec = argi(ar.next()); i++; }
			else while (isdigit((u8)f[i])) prec = prec * 10 + f[i++] - '0';
		}
		int bits = 32;
		for (;; i++) {
			if (f[i] == 'l' || f[i] == 'j' || f[i] == 'z' || f[i] == 't' || f[i] == 'q' || f[i] == 'L') bits = 64;
			else if (f[i] == 'h') bits = bits == 16 ? 8 : 16;
			else break;
		}
		std::vector<V> body;
		std::string sign;
		bool numeric = false;
		switch (f[i]) {
		case '%': o.push_back(V('%')); continue;
		case 'c': { V v = ar.next(); v = v.s ? castV(X_TRUNC, v, v.s->w, 8) : V(v.c & 0xff); body.push_back(v); break; }
		case 's': {
			u64 p = cc(ar.next());
			if (p == 0) { for (char c : std::string("(null)")) body.push_back(V((u64)c)); }
			else body = getStr(p, prec >= 0 ? (u64)prec : ~0ull);
			break;
		}
		case 'd': case 'i': {
			numeric = true;
			V v = widen(ar.next(), bits, true);
			if (branch(icmp(C_SLT, 64, v, V(0)))) { sign = "-"; v = bin(B_SUB, 64, V(0), v); }
			else if (plus) sign = "+"; else if (space) sign = " ";
			body = digitsOf(v, 10, false);
			break;
		}
		case 'u': numeric = true; body = digitsOf(widen(ar.next(), bits, false), 10, false); break;
		case 'x': case 'X': case 'o': {
			numeric = true;
			V v = widen(ar.next(), bits, false);
			int base = f[i] == 'o' ? 8 : 16, k = base == 8 ? 3 : 4;
			// with zero padding the digit count need not be decided when it fits
			int pad = prec >= 0 ? prec : (zero && !left) ? width : 0;
			if (v.s && !alt && pad > 0 && pad * k < 64 && branch(icmp(C_ULT, 64, v, V(1ull << (pad * k))))) {
				for (int d = pad - 1; d >= 0; d--)
					body.push_back(digitChar(bin(B_AND, 64, bin(B_LSHR, 64, v, V(d * k)), V(base - 1)), 64, f[i] == 'X'));
			} else body = digitsOf(v, base, f[i] == 'X');
			if (alt && f[i] != 'o' && !(body.size() == 1 && !body[0].s && body[0].c == '0')) sign = std::string("0") + f[i];
			break;
		}
		case 'p': { std::string s = "0xptr"; cc(ar.next()); for (char c : s) body.push_back(V((u64)c)); break; }
		case 'n': finish("memerr", "%n");
		case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': case 'a': case 'A': {
			V v = ar.next();
			std::string spec = "%" + flags + (width ? std::to_string(width) : "") + (prec >= 0 ? "." + std::to_string(prec) : "") + f[i];
			if (v.s && v.s->kind == AST) finish("unsupported", "printing a symbolic float");
			u64 x = concretize(v, 64);
			double d; memcpy(&d, &x, 8);
			char b[512];
			int n = snprintf(b, sizeof b, spec.c_str(), d);
			for (int k = 0; k < n && k < 511; k++) o.push_back(V((u64)(u8)b[k]));
			continue;
		}
		default: finish("unsupported", "printf format in \"" + f + "\"");
		}
		if (numeric) {
			if (prec >= 0) {
				zero = false;
				if (prec == 0 && body.size() == 1 && !body[0].s && body[0].c == '0') body.clear();
				while ((int)body.size() < prec) body.insert(body.begin(), V('0'));
			} else if (zero && !left)
				while ((int)(body.size() + sign.size()) < width) body.insert(body.begin(), V('0'));
		}
		int tot = body.size() + sign.size();
		if (!left) for (int k = tot; k < width; k++) o.push_back(V(' '));
		for (char c : sign) o.push_back(V((u64)c));
		for (V &b : body) o.push_back(b);
		if (left) for (int k = tot; k < width; k++) o.push_back(V(' '));
	}
}
static Args listArgs(std::vector<V> &store_, std::vector<V> &a, size_t from) {
	store_.assign(a.begin() + std::min(from, a.size()), a.end());
	Args r; r.list = &store_; return r;
}
static V emitFile(V fp, u64 fmt, Args ar) {
	std::vector<V> o;
	doFormat(fmt, ar, o);
	File &f = fileOf(fp);
	for (V &b : o) out(f, b);
	return V(o.size());
}
static V emitBuf(u64 p, u64 n, bool bounded, u64 fmt, Args ar) {
	std::vector<V> o;
	doFormat(fmt, ar, o);
	if (bounded && n == 0) return V(o.size());
	u64 m = o.size();
	if (bounded && m > n - 1) m = n - 1;
	for (u64 i = 0; i < m; i++) st1(p + i, o[i]);
	st1(p + m, V(0));
	return V(o.size());
}
static V emitAlloc(u64 pp, u64 fmt, Args ar) {
	std::vector<V> o;
	doFormat(fmt, ar, o);
	u64 b = mkobj(o.size() + 1, OK_HEAP, true, "asprintf");
	for (size_t i = 0; i < o.size(); i++) st1(b + i, o[i]);
	st1(b + o.size(), V(0));
	store(V(pp), 8, V(b));
	return V(o.size());
}
static Args vaArgs(V v) { Args r; r.va = cc(v); return r; }
static std::vector<V> sl;
static V doPrintf(std::vector<V> &a) { std::vector<V> s; return emitFile(V(stdoutP), cc(a[0]), listArgs(s, a, 1)); }
static V doFprintf(std::vector<V> &a) { std::vector<V> s; return emitFile(a[0], cc(a[1]), listArgs(s, a, 2)); }
static V doSprintf(std::vector<V> &a) { std::vector<V> s; return emitBuf(cc(a[0]), 0, false, cc(a[1]), listArgs(s, a, 2)); }
static V doSnprintf(std::vector<V> &a) { std::vector<V> s; return emitBuf(cc(a[0]), cc(a[1]), true, cc(a[2]), listArgs(s, a, 3)); }
static V doAsprintf(std::vector<V> &a) { std::vector<V> s; return emitAlloc(cc(a[0]), cc(a[1]), listArgs(s, a, 2)); }
static V doVprintf(std::vector<V> &a) { return emitFile(V(stdoutP), cc(a[0]), vaArgs(a[1])); }
static V doVfprintf(std::vector<V> &a) { return emitFile(a[0], cc(a[1]), vaArgs(a[2])); }
static V doVsprintf(std::vector<V> &a) { return emitBuf(cc(a[0]), 0, false, cc(a[1]), vaArgs(a[2])); }
static V doVsnprintf(std::vector<V> &a) { return emitBuf(cc(a[0]), cc(a[1]), true, cc(a[2]), vaArgs(a[3])); }
static V doVasprintf(std::vector<V> &a) { return emitAlloc(cc(a[0]), cc(a[1]), vaArgs(a[2])); }
// fortified variants
static V doFprintfChk(std::vector<V> &a) { std::vector<V> s; return emitFile(a[0], cc(a[2]), listArgs(s, a, 3)); }
static V doPrintfChk(std::vector<V> &a) { std::vector<V> s; return emitFile(V(stdoutP), cc(a[1]), listArgs(s, a, 2)); }
static V doVfprintfChk(std::vector<V> &a) { return emitFile(a[0], cc(a[2]), vaArgs(a[3])); }
static V doSnprintfChk(std::vector<V> &a) { std::vector<V> s; return emitBuf(cc(a[0]), cc(a[1]), true, cc(a[4]), listArgs(s, a, 5)); }
static V doSprintfChk(std::vector<V> &a) { std::vector<V> s; return emitBuf(cc(a[0]), 0, false, cc(a[3]), listArgs(s, a, 4)); }
static V doPerror(std::vector<V> &a) {
	File &f = fileOf(V(stderrP));
	if (cc(a[0])) { for (V &b : getStr(cc(a[0]))) out(f, b); out(f, V(':')); out(f, V(' ')); }
	for (char c : std::string(strerror(cc(load(V(errnoP), 4), 32)))) out(f, V((u64)(u8)c));
	out(f, V('\n'));
	return V(0);
}

// ---------------------------------------------------------------- heap

static u64 heapNew(u64 n, bool undef) {
	if (n > (1ull << 30)) { setErrno(ENOMEM); return 0; }
	return mkobj(n, OK_HEAP, undef, "heap");
}
static V doMalloc(std::vector<V> &a) { return V(heapNew(cc(a[0]), true)); }
static V doCalloc(std::vector<V> &a) {
	u64 n = cc(a[0]), m = cc(a[1]);
	if (m && n > (1ull << 30) / m) { setErrno(ENOMEM); return V(0); }
	return V(heapNew(n * m, false));
}
static void heapFree(u64 p) {
	if (!p) return;
	u64 id = p >> 32;
	if (id >= objs.size() || objs[id].kind != OK_HEAP || (p & 0xffffffffu)) finish("memerr", "free of a non-heap pointer");
	Obj &o = objs[id];
	if (o.dead) finish("memerr", "double free");
	o.dead = 1;
	free(o.data); o.data = nullptr;
	if (o.st) { free(o.st); o.st = nullptr; }
	if (o.sb) { free(o.sb); o.sb = nullptr; }
}
static V doFree(std::vector<V> &a) { heapFree(cc(a[0])); return V(0); }
static V doRealloc(std::vector<V> &a) {
	u64 p = cc(a[0]), n = cc(a[1]);
	if (!p) return V(heapNew(n, true));
	if (n == 0) { heapFree(p); return V(0); }
	u64 id = p >> 32;
	if (id >= objs.size() || objs[id].kind != OK_HEAP || (p & 0xffffffffu)) finish("memerr", "realloc of a non-heap pointer");
	if (objs[id].dead) finish("memerr", "realloc after free");
	u64 q = heapNew(n, true);
	if (!q) return V(0);
	copyBytes(q, p, std::min(n, objs[id].size));
	heapFree(p);
	return V(q);
}
static V doReallocarray(std::vector<V> &a) {
	u64 n = cc(a[1]), m = cc(a[2]);
	if (m && n > (1ull << 30) / m) { setErrno(ENOMEM); return V(0); }
	std::vector<V> x { a[0], V(n * m) };
	return doRealloc(x);
}

// ---------------------------------------------------------------- strings

static V doMemcpy(std::vector<V> &a) { copyBytes(cc(a[0]), cc(a[1]), cc(a[2])); return a[0]; }
static V doMempcpy(std::vector<V> &a) { u64 d = cc(a[0]), n = cc(a[2]); copyBytes(d, cc(a[1]), n); return V(d + n); }
static V doMemset(std::vector<V> &a) {
	u64 d = cc(a[0]), n = cc(a[2]);
	V v = arg32(a[1]);
	v = v.s ? castV(X_TRUNC, v, v.s->w, 8) : V(v.c & 0xff);
	if (n) checkRange(d, n, "write");
	for (u64 i = 0; i < n; i++) st1(d + i, v);
	return a[0];
}
static V cmpBytes(V x, V y, bool fold) {
	// sign of x - y as a 32-bit value, deciding the order
	if (fold) {
		auto lo = [](u64 c) -> u64 { return c >= 'A' && c <= 'Z' ? c + 32 : c; };
		x = mapSmall(x, 8, 8, lo); y = mapSmall(y, 8, 8, lo);
	}
	if (branch(icmp(C_EQ, 8, x, y))) return V(0);
	return selectV(icmp(C_ULT, 8, x, y), V(0xffffffffu), V(1), 32);
}
static V genCmp(u64 p, u64 q, u64 n, bool str, bool fold) {
	for (u64 i = 0; i < n; i++) {
		V x = ld1(p + i), y = ld1(q + i);
		V c = cmpBytes(x, y, fold);
		if (c.s || c.c) return c;
		if (str && branch(eqc(x, 0, 8))) return V(0);
	}
	return V(0);
}
static V doMemcmp(std::vector<V> &a) { return genCmp(cc(a[0]), cc(a[1]), cc(a[2]), false, false); }
static V doStrcmp(std::vector<V> &a) { return genCmp(cc(a[0]), cc(a[1]), ~0ull, true, false); }
static V doStrncmp(std::vector<V> &a) { return genCmp(cc(a[0]), cc(a[1]), cc(a[2]), true, false); }
static V doStrcasecmp(std::vector<V> &a) { return genCmp(cc(a[0]), cc(a[1]), ~0ull, true, true); }
static V doStrncasecmp(std::vector<V> &a) { return genCmp(cc(a[0]), cc(a[1]), cc(a[2]), true, true); }
static V doStrlen(std::vector<V> &a) { return V(slen(cc(a[0]))); }
static V doStrnlen(std::vector<V> &a) { u64 p = cc(a[0]), n = cc(a[1]), i = 0; while (i < n && !branch(eqc(ld1(p + i), 0, 8))) i++; return V(i); }
static V doStrcpy(std::vector<V> &a) { u64 s = cc(a[1]); copyBytes(cc(a[0]), s, slen(s) + 1); return a[0]; }
static V doStpcpy(std::vector<V> &a) { u64 s = cc(a[1]), n = slen(s), d = cc(a[0]); copyBytes(d, s, n + 1); return V(d + n); }
static V doStrncpy(std::vector<V> &a) {
	u64 d = cc(a[0]), s = cc(a[1]), n = cc(a[2]), i = 0;
	for (; i < n; i++) { V b = ld1(s + i); st1(d + i, b); if (branch(eqc(b, 0, 8))) break; }
	for (; i < n; i++) st1(d + i, V(0));
	return a[0];
}
static V doStrcat(std::vector<V> &a) { u64 d = cc(a[0]), s = cc(a[1]); copyBytes(d + slen(d), s, slen(s) + 1); return a[0]; }
static V doStrncat(std::vector<V> &a) {
	u64 d = cc(a[0]), s = cc(a[1]), n = cc(a[2]), o = slen(d), i = 0;
	for (; i < n; i++) { V b = ld1(s + i); if (branch(eqc(b, 0, 8))) break; st1(d + o + i, b); }
	st1(d + o + i, V(0));
	return a[0];
}
static V chr8(V v) { v = arg32(v); return v.s ? castV(X_TRUNC, v, v.s->w, 8) : V(v.c & 0xff); }
static V doStrchr(std::vector<V> &a) {
	u64 p = cc(a[0]); V c = chr8(a[1]);
	for (;; p++) {
		V b = ld1(p);
		if (branch(icmp(C_EQ, 8, b, c))) return V(p);
		if (branch(eqc(b, 0, 8))) return V(0);
	}
}
static V doStrchrnul(std::vector<V> &a) {
	u64 p = cc(a[0]); V c = chr8(a[1]);
	for (;; p++) { V b = ld1(p); if (branch(icmp(C_EQ, 8, b, c)) || branch(eqc(b, 0, 8))) return V(p); }
}
static V doStrrchr(std::vector<V> &a) {
	u64 p = cc(a[0]), r = 0; V c = chr8(a[1]);
	for (;; p++) { V b = ld1(p); if (branch(icmp(C_EQ, 8, b, c))) r = p; if (branch(eqc(b, 0, 8))) return V(r); }
}
static V doMemchr(std::vector<V> &a) {
	u64 p = cc(a[0]), n = cc(a[2]); V c = chr8(a[1]);
	for (u64 i = 0; i < n; i++) if (branch(icmp(C_EQ, 8, ld1(p + i), c))) return V(p + i);
	return V(0);
}
static u64 spn(u64 p, std::vector<V> set, bool want) {
	u64 i = 0;
	for (;; i++) {
		V b = ld1(p + i);
		if (branch(eqc(b, 0, 8))) return i;
		V in(0);
		for (V &s : set) in = bin(B_OR, 1, in, icmp(C_EQ, 8, b, s));
		if (branch(in) != want) return i;
	}
}
static V doStrspn(std::vector<V> &a) { return V(spn(cc(a[0]), getStr(cc(a[1])), true)); }
static V doStrcspn(std::vector<V> &a) { return V(spn(cc(a[0]), getStr(cc(a[1])), false)); }
static V doStrpbrk(std::vector<V> &a) { u64 p = cc(a[0]); p += spn(p, getStr(cc(a[1])), false); return branch(eqc(ld1(p), 0, 8)) ? V(0) : V(p); }
static V doStrstr(std::vector<V> &a) {
	u64 p = cc(a[0]);
	std::vector<V> nd = getStr(cc(a[1]));
	for (;; p++) {
		size_t i = 0;
		for (; i < nd.size(); i++) if (!branch(icmp(C_EQ, 8, ld1(p + i), nd[i]))) break;
		if (i == nd.size()) return V(p);
		if (branch(eqc(ld1(p), 0, 8))) return V(0);
	}
}
static V dupBytes(std::vector<V> b) {
	u64 o = mkobj(b.size() + 1, OK_HEAP, true, "strdup");
	for (size_t i = 0; i < b.size(); i++) st1(o + i, b[i]);
	st1(o + b.size(), V(0));
	return V(o);
}
static V doStrdup(std::vector<V> &a) {
	u64 s = cc(a[0]), n = slen(s);
	u64 o = mkobj(n + 1, OK_HEAP, true, "strdup");
	copyBytes(o, s, n + 1);
	return V(o);
}
static V doStrndup(std::vector<V> &a) { return dupBytes(getStr(cc(a[0]), cc(a[1]))); }
static V tokR(u64 s, u64 delim, u64 save) {
	if (!s) s = ldp(save);
	if (!s) return V(0);
	std::vector<V> d = getStr(delim);
	s += spn(s, d, true);
	if (branch(eqc(ld1(s), 0, 8))) { store(V(save), 8, V(s)); return V(0); }
	u64 e = s + spn(s, d, false);
	if (branch(eqc(ld1(e), 0, 8))) store(V(save), 8, V(e));
	else { st1(e, V(0)); store(V(save), 8, V(e + 1)); }
	return V(s);
}
static V doStrtokR(std::vector<V> &a) { return tokR(cc(a[0]), cc(a[1]), cc(a[2])); }
static V doStrtok(std::vector<V> &a) { static u64 sv = 0; if (!sv) sv = mkobj(8, OK_GLOBAL, false, "strtok"); return tokR(cc(a[0]), cc(a[1]), sv); }
static V doStrerror(std::vector<V> &a) { return V(newStr(strerror(argi(a[0])))); }

// ---------------------------------------------------------------- ctype

#define CT(fn) static u64 ct_##fn(u64 c) { int x = (int)(int32_t)(uint32_t)c; if (x < -128 || x > 255) return 0; return fn(x) ? 1 : 0; } \
	static V do_##fn(std::vector<V> &a) { return mapSmall(arg32(a[0]), 32, 32, ct_##fn); }
CT(isalpha) CT(isdigit) CT(isalnum) CT(isspace) CT(isupper) CT(islower) CT(isxdigit) CT(ispunct) CT(isprint) CT(isgraph) CT(iscntrl) CT(isblank)
static u64 ct_up(u64 c) { int x = (int)(int32_t)(uint32_t)c; return (u64)(uint32_t)(x >= 'a' && x <= 'z' ? x - 32 : x); }
static u64 ct_lo(u64 c) { int x = (int)(int32_t)(uint32_t)c; return (u64)(uint32_t)(x >= 'A' && x <= 'Z' ? x + 32 : x); }
static V doToupper(std::vector<V> &a) { return mapSmall(arg32(a[0]), 32, 32, ct_up); }
static V doTolower(std::vector<V> &a) { return mapSmall(arg32(a[0]), 32, 32, ct_lo); }
static V doCtypeB(std::vector<V> &) { return V(ctypeBP); }
static V doCtypeU(std::vector<V> &) { return V(ctypeUP); }
static V doCtypeL(std::vector<V> &) { return V(ctypeLP); }

// ---------------------------------------------------------------- numbers

static u64 digVal(u64 c) {
	if (c >= '0' && c <= '9') return c - '0';
	if (c >= 'a' && c <= 'z') return c - 'a' + 10;
	if (c >= 'A' && c <= 'Z') return c - 'A' + 10;
	return 255;
}
static u64 isSp(u64 c) { return c == ' ' || (c >= 9 && c <= 13); }

static V strtoN(u64 p, u64 endp, int base, bool sgn) {
	u64 s = p;
	while (branch(mapSmall(ld1(s), 8, 1, isSp))) s++;
	bool neg = false;
	if (branch(eqc(ld1(s), '-', 8))) { neg = true; s++; }
	else if (branch(eqc(ld1(s), '+', 8))) s++;
	auto isX = [](u64 c) -> u64 { return c == 'x' || c == 'X'; };
	auto isB = [](u64 c) -> u64 { return c == 'b' || c == 'B'; };
	auto dv = [&](u64 a) { return mapSmall(ld1(a), 8, 8, digVal); };
	if (base == 0 || base == 16 || base == 2) {
		if (branch(eqc(ld1(s), '0', 8))) {
			if (base != 2 && branch(mapSmall(ld1(s + 1), 8, 1, isX)) && branch(icmp(C_ULT, 8, dv(s + 2), V(16)))) { base = 16; s += 2; }
			else if (base != 16 && branch(mapSmall(ld1(s + 1), 8, 1, isB)) && branch(icmp(C_ULT, 8, dv(s + 2), V(2)))) { base = 2; s += 2; }
			else if (base == 0) base = 8;
		} else if (base == 0) base = 10;
	}
	std::vector<V> d;
	while (branch(icmp(C_ULT, 8, dv(s), V(base)))) d.push_back(dv(s++));
	if (d.empty()) { if (endp) store(V(endp), 8, V(p)); return V(0); }
	if (endp) store(V(endp), 8, V(s));
	size_t lead = 0;
	while (lead < d.size() && !d[lead].s && d[lead].c == 0) lead++;
	d.erase(d.begin(), d.begin() + lead);
	double bitsPer = log2((double)base);
	bool over = false;
	V val(0);
	bool sym = false;
	for (V &x : d) if (x.s) sym = true;
	if (sym && d.size() * bitsPer > 63.0) { for (V &x : d) x = V(concretize(x, 8)); sym = false; }
	if (!sym) {
		unsigned __int128 acc = 0;
		for (V &x : d) { acc = acc * base + x.c; if (acc >> 64) { over = true; acc = acc & 0xffffffffffffffffull; } }
		u64 r = (u64)acc;
		if (sgn) {
			if (over || (!neg && r > (u64)LLONG_MAX) || (neg && r > (u64)LLONG_MAX + 1)) { setErrno(ERANGE); return V(neg ? (u64)LLONG_MIN : (u64)LLONG_MAX); }
		} else if (over) { setErrno(ERANGE); return V(~0ull); }
		return V(neg ? 0 - r : r);
	}
	int k = base == 16 ? 4 : base == 8 ? 3 : base == 2 ? 1 : base == 4 ? 2 : base == 32 ? 5 : 0;
	if (k) {
		for (V &x : d) val = bin(B_OR, 64, bin(B_SHL, 64, val, V(k)), castV(X_ZEXT, x, 8, 64));
	} else {
		int w = std::min(64, std::max(9, (int)ceil(d.size() * bitsPer) + 1));
		for (V &x : d) val = bin(B_ADD, w, bin(B_MUL, w, val, V(base)), castV(X_ZEXT, x, 8, w));
		if (w < 64) val = castV(X_ZEXT, val, w, 64);
	}
	return neg ? bin(B_SUB, 64, V(0), val) : val;
}
static V doStrtol(std::vector<V> &a) { return strtoN(cc(a[0]), cc(a[1]), argi(a[2]), true); }
static V doStrtoul(std::vector<V> &a) { return strtoN(cc(a[0]), cc(a[1]), argi(a[2]), false); }
static V doAtol(std::vector<V> &a) { return strtoN(cc(a[0]), 0, 10, true); }
static V doAtoi(std::vector<V> &a) { return i32(strtoN(cc(a[0]), 0, 10, true)); }

static V doStrtod(std::vector<V> &a) {
	u64 p = cc(a[0]), endp = a.size() > 1 ? cc(a[1]) : 0;
	std::vector<V> b;
	for (u64 i = 0; i < 4096; i++) { V c = ld1(p + i); if (!c.s && c.c == 0) break; b.push_back(c); }
	int var = -1; bool one = true;
	for (V &c : b) if (c.s) { if (c.s->kind != SMALL || (var >= 0 && c.s->var != var)) one = false; else var = c.s->var; }
	if (!one) {
		// digits [. digits], at most 15 of them: the integer without the point
		// divided by a power of ten, correctly rounded as both are exact
		auto isD = [](u64 c) -> u64 { return c >= '0' && c <= '9'; };
		std::vector<V> d;
		size_t i = 0;
		int frac = 0;
		bool ok = true;
		double combos = 1;
		for (V &c : b) if (c.s) combos *= c.s->kind == SMALL ? vars[c.s->var].nalive : 256;
		if (combos <= 2048) ok = false;
		while (ok && i < b.size() && branch(mapSmall(b[i], 8, 1, isD))) d.push_back(b[i++]);
		if (ok && i < b.size() && branch(eqc(b[i], '.', 8))) {
			i++;
			while (i < b.size() && branch(mapSmall(b[i], 8, 1, isD))) { d.push_back(b[i++]); frac++; }
		}
		if (ok && i < b.size()) { auto more = [](u64 c) -> u64 { return c == 'e' || c == 'E' || c == 'x' || c == 'X'; }; if (branch(mapSmall(b[i], 8, 1, more))) ok = false; }
		if (d.empty() || d.size() > 15) ok = false;
		if (ok) {
			V acc(0);
			for (V &x : d) acc = bin(B_ADD, 64, bin(B_MUL, 64, acc, V(10)), castV(X_ZEXT, mapSmall(x, 8, 8, digVal), 8, 64));
			u64 p10 = 1;
			for (int k = 0; k < frac; k++) p10 *= 10;
			if (endp) store(V(endp), 8, V(p + i));
			V r = castV(X_SITOFP, acc, 64, 64);
			if (frac) { double t = (double)p10; u64 u; memcpy(&u, &t, 8); r = bin(B_FDIV, 64, r, V(u)); }
			return r;
		}
		for (V &c : b) c = V(concretize(c, 8));
		var = -1;
	}
	auto conv = [&](int i, u64 &bits, u64 &len) {
		std::string s;
		for (V &c : b) s += (char)(c.s ? c.s->tab[i] : c.c);
		char *e;
		double d = strtod(s.c_str(), &e);
		memcpy(&bits, &d, 8);
		len = e - s.c_str();
	};
	u64 bits, len;
	if (var < 0) {
		conv(0, bits, len);
		if (endp) store(V(endp), 8, V(p + len));
		return V(bits);
	}
	u64 *t = newTab(var), *l = newTab(var);
	for (int i = 0; i < vars[var].n; i++) if (vars[var].alive[i]) { conv(i, bits, len); t[i] = bits; l[i] = p + len; }
	if (endp) store(V(endp), 8, mkSmall(var, 64, l));
	return mkSmall(var, 64, t);
}

static double asD(u64 x) { double d; memcpy(&d, &x, 8); return d; }
static u64 asU(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static V math1(std::vector<V> &a, u64 (*f)(u64), int tw = 64) {
	if (a[0].s && a[0].s->kind == AST) finish("unsupported", "math function on a symbolic term");
	return mapSmall(a[0], 64, tw, f);
}
#define M1(nm) static V do_m_##nm(std::vector<V> &a) { return math1(a, [](u64 x) -> u64 { return asU(nm(asD(x))); }); }
M1(floor) M1(ceil) M1(round) M1(trunc) M1(rint) M1(sqrt) M1(log2) M1(log) M1(exp) M1(fabs) M1(log10)
static V doLround(std::vector<V> &a) { return math1(a, [](u64 x) -> u64 { return (u64)llround(asD(x)); }); }
static V doPow(std::vector<V> &a) { return V(asU(pow(asD(concretize(a[0], 64)), asD(concretize(a[1], 64))))); }
static V doFmod(std::vector<V> &a) { return bin(B_FREM, 64, a[0], a[1]); }
static V doLdexp(std::vector<V> &a) { return V(asU(ldexp(asD(concretize(a[0], 64)), argi(a[1])))); }
static V doAbs32(std::vector<V> &a) { V v = arg32(a[0]); return selectV(icmp(C_SLT, 32, v, V(0)), bin(B_SUB, 32, V(0), v), v, 32); }
static V doAbs64(std::vector<V> &a) { return selectV(icmp(C_SLT, 64, a[0], V(0)), bin(B_SUB, 64, V(0), a[0]), a[0], 64); }

// ---------------------------------------------------------------- sorting

static int cmpCall(u64 f, u64 x, u64 y) {
	std::vector<V> a { V(x), V(y) };
	V r = arg32(callByAddr(f, a));
	if (branch(eqc(r, 0, 32))) return 0;
	return branch(icmp(C_SLT, 32, r, V(0))) ? -1 : 1;
}
static V doQsort(std::vector<V> &a) {
	u64 base = cc(a[0]), n = cc(a[1]), sz = cc(a[2]), f = cc(a[3]);
	// stable insertion sort, as glibc's merge sort is stable
	u64 t = mkobj(sz, OK_STACK, true, "qsort");
	for (u64 i = 1; i < n; i++) {
		u64 j = i;
		copyBytes(t, base + i * sz, sz);
		while (j > 0 && cmpCall(f, base + (j - 1) * sz, t) > 0) { copyBytes(base + j * sz, base + (j - 1) * sz, sz); j--; }
		copyBytes(base + j * sz, t, sz);
	}
	return V(0);
}
static V doBsearch(std::vector<V> &a) {
	u64 key = cc(a[0]), base = cc(a[1]), n = cc(a[2]), sz = cc(a[3]), f = cc(a[4]);
	u64 l = 0, u = n;
	while (l < u) {
		u64 i = (l + u) / 2;
		int c = cmpCall(f, key, base + i * sz);
		if (c < 0) u = i; else if (c > 0) l = i + 1; else return V(base + i * sz);
	}
	return V(0);
}

// ---------------------------------------------------------------- process

static std::vector<u64> atexits;
static V doAtexit(std::vector<V> &a) { atexits.push_back(cc(a[0])); return V(0); }
// With further command lines to run, files written so far become inputs of the
// next run, which starts over with fresh memory in the same path.
static u64 nextchar = 0;   // getopt: address inside current argv element
static u64 fakeInd = 0, fakeArg = 0;
static int nonopt = 0;     // getopt: operands skipped before the element being scanned
static V doExit(std::vector<V> &a) {
	V code = arg32(a[0]);
	while (!atexits.empty()) { u64 f = atexits.back(); atexits.pop_back(); std::vector<V> n; callByAddr(f, n); }
	if (moreRuns() && concretize(code, 32) == 0) {
		for (size_t i = 3; i < filetab.size(); i++) if (filetab[i].mode == 1) inputFiles[filetab[i].name] = *filetab[i].data;
		nextchar = fakeInd = fakeArg = 0; nonopt = 0;
		nextRun();
	}
	finish("exit", "", code);
}
static V doAbort(std::vector<V> &) { finish("abort", "abort()"); }
static V doAssertFail(std::vector<V> &a) {
	finish("abort", "assertion " + concStr(cc(a[0])) + " in " + concStr(cc(a[1])) + ":" + std::to_string(cc(a[2], 32)));
}
static V doErrno(std::vector<V> &) { return V(errnoP); }
static V doGetenv(std::vector<V> &) { return V(0); }
static V doTime(std::vector<V> &a) { if (cc(a[0])) store(a[0], 8, V(1700000000)); return V(1700000000); }

static void errStr(const std::string &s) { File &f = filetab[2]; for (char c : s) out(f, V((u64)(u8)c)); }

static V getopt(std::vector<V> &a, bool lng) {
	int argc = argi(a[0]);
	u64 argv = cc(a[1]);
	std::string spec = concStr(cc(a[2]));
	u64 lopts = lng ? cc(a[3]) : 0, longind = lng ? cc(a[4]) : 0;
	u64 pInd = globalAddr("optind"), pArg = globalAddr("optarg"), pOpt = globalAddr("optopt"), pErr = globalAddr("opterr");
	if (!pInd) { if (!fakeInd) { fakeInd = mkobj(8, OK_GLOBAL, false, "optind"); store(V(fakeInd), 4, V(1)); } pInd = fakeInd; }
	if (!pArg) { if (!fakeArg) fakeArg = mkobj(8, OK_GLOBAL, false, "optarg"); pArg = fakeArg; }
	bool posix = false, quiet = false;
	while (!spec.empty() && (spec[0] == '+' || spec[0] == '-')) { if (spec[0] == '+') posix = true; spec.erase(0, 1); }
	if (!spec.empty() && spec[0] == ':') quiet = true;
	if (pErr && cc(load(V(pErr), 4), 32) == 0) quiet = true;
	auto msg = [&](const std::string &m) { if (!quiet) errStr("asm6809: " + m + "\n"); };
	auto getInd = [&]() { return (int)cc(load(V(pInd), 4), 32); };
	auto setInd = [&](int v) { store(V(pInd), 4, V((u64)v)); };
	auto arg = [&](int i) { return ldp(argv + 8 * i); };
	auto rotate = [&](int from, int to) {
		u64 x = arg(from);
		for (int k = from; k > to; k--) store(V(argv + 8 * k), 8, V(arg(k - 1)));
		store(V(argv + 8 * to), 8, V(x));
	};
	auto setOpt = [&](int c) { if (pOpt) store(V(pOpt), 4, V((u64)c)); };
	store(V(pArg), 8, V(0));
	if (nextchar && branch(eqc(ld1(nextchar), 0, 8))) nextchar = 0;
	int ind = getInd();
	if (ind < 1) { ind = 1; setInd(1); }
	if (!nextchar) {
		int j = ind;
		while (j < argc) {
			u64 s = arg(j);
			if (branch(eqc(ld1(s), '-', 8)) && !branch(eqc(ld1(s + 1), 0, 8))) break;
			if (posix) return V(0xffffffffu);
			j++;
		}
		if (j >= argc) return V(0xffffffffu);
		u64 s = arg(j);
		nonopt = j - ind;
		rotate(j, ind);
		setInd(++ind);
		if (branch(eqc(ld1(s + 1), '-', 8))) {
			if (branch(eqc(ld1(s + 2), 0, 8))) return V(0xffffffffu);
			if (lng) {
				std::string full; u64 p = s + 2;
				for (;; p++) { u64 c = cc(ld1(p), 8); if (!c || c == '=') break; full += (char)c; }
				bool haveval = cc(ld1(p), 8) == '=';
				int best = -1, cnt = 0; bool exact = false;
				u64 bflag = 0; int bval = 0, bhas = 0;
				for (int k = 0;; k++) {
					u64 e = lopts + 32 * k;
					u64 np = ldp(e);
					if (!np) break;
					std::string nm = concStr(np);
					if (nm.compare(0, full.size(), full) != 0) continue;
					int has = (int)cc(load(V(e + 8), 4), 32), val = (int)cc(load(V(e + 24), 4), 32);
					u64 fl = ldp(e + 16);
					bool ex = nm == full;
					if (ex) { best = k; bflag = fl; bval = val; bhas = has; exact = true; break; }
					if (cnt == 0 || !(fl == bflag && val == bval && has == bhas)) cnt++;
					if (best < 0) { best = k; bflag = fl; bval = val; bhas = has; }
				}
				if (best < 0) { msg("unrecognized option '--" + full + "'"); setOpt(0); return V('?'); }
				if (!exact && cnt > 1) { msg("option '--" + full + "' is ambiguous"); setOpt(0); return V('?'); }
				std::string bname = concStr(ldp(lopts + 32 * best));
				if (bhas == 0 && haveval) { msg("option '--" + bname + "' doesn't allow an argument"); setOpt(bval); return V('?'); }
				if (haveval) store(V(pArg), 8, V(p + 1));
				else if (bhas == 1) {
					if (ind + nonopt >= argc) { msg("option '--" + bname + "' requires an argument"); setOpt(bval); return V(spec[0] == ':' ? ':' : '?'); }
					rotate(ind + nonopt, ind);
					store(V(pArg), 8, V(arg(ind)));
					setInd(++ind);
				}
				if (longind) store(V(longind), 4, V((u64)best));
				if (bflag) { store(V(bflag), 4, V((u64)(uint32_t)bval)); return V(0); }
				return V((u64)(uint32_t)bval);
			}
		}
		nextchar = s + 1;
	}
	char c = (char)cc(ld1(nextchar++), 8);
	size_t k = c == ':' || c == ';' ? std::string::npos : spec.find(c);
	bool last = cc(ld1(nextchar), 8) == 0;
	if (k == std::string::npos) {
		msg(std::string("invalid option -- '") + c + "'");
		setOpt(c);
		if (last) nextchar = 0;
		return V('?');
	}
	if (k + 1 < spec.size() && spec[k + 1] == ':') {
		bool optl = k + 2 < spec.size() && spec[k + 2] == ':';
		if (!last) store(V(pArg), 8, V(nextchar));
		else if (!optl) {
			if (ind + nonopt >= argc) { msg(std::string("option requires an argument -- '") + c + "'"); setOpt(c); nextchar = 0; return V(spec[0] == ':' ? ':' : '?'); }
			rotate(ind + nonopt, ind);
			store(V(pArg), 8, V(arg(ind)));
			setInd(++ind);
		}
		nextchar = 0;
	} else if (last) nextchar = 0;
	return V((u64)(u8)c);
}
static V doGetopt(std::vector<V> &a) { return getopt(a, false); }
static V doGetoptLong(std::vector<V> &a) { return getopt(a, true); }

// ---------------------------------------------------------------- table

static std::map<std::string, ExtFn> table = {
	{ "fopen", doFopen }, { "fopen64", doFopen }, { "fclose", doFclose }, { "fflush", doFflush }, { "fgetc", doFgetc }, { "getc", doFgetc }, { "_IO_getc", doFgetc },
	{ "getc_unlocked", doFgetc }, { "fgetc_unlocked", doFgetc }, { "ungetc", doUngetc }, { "fread", doFread }, { "fwrite", doFwrite }, { "fread_unlocked", doFread }, { "fwrite_unlocked", doFwrite },
	{ "fputc", doFputc }, { "putc", doFputc }, { "_IO_putc", doFputc }, { "putchar", doPutchar }, { "fputs", doFputs }, { "puts", doPuts }, { "fgets", doFgets }, { "getline", doGetline },
	{ "feof", doFeof }, { "ferror", doFerror }, { "clearerr", doClearerr }, { "fseek", doFseek }, { "fseeko", doFseek }, { "ftell", doFtell }, { "ftello", doFtell }, { "rewind", doRewind },
	{ "fileno", doFileno }, { "isatty", ret0 }, { "setvbuf", ret0 }, { "setbuf", ret0 }, { "setlocale", ret0 }, { "remove", doRemove }, { "unlink", doRemove },
	{ "printf", doPrintf }, { "fprintf", doFprintf }, { "sprintf", doSprintf }, { "snprintf", doSnprintf }, { "asprintf", doAsprintf },
	{ "vprintf", doVprintf }, { "vfprintf", doVfprintf }, { "vsprintf", doVsprintf }, { "vsnprintf", doVsnprintf }, { "vasprintf", doVasprintf },
	{ "__fprintf_chk", doFprintfChk }, { "__printf_chk", doPrintfChk }, { "__vfprintf_chk", doVfprintfChk }, { "__snprintf_chk", doSnprintfChk }, { "__sprintf_chk", doSprintfChk },
	{ "perror", doPerror },
	{ "malloc", doMalloc }, { "calloc", doCalloc }, { "realloc", doRealloc }, { "reallocarray", doReallocarray }, { "free", doFree },
	{ "memcpy", doMemcpy }, { "memmove", doMemcpy }, { "mempcpy", doMempcpy }, { "memset", doMemset }, { "memcmp", doMemcmp }, { "bcmp", doMemcmp }, { "memchr", doMemchr },
	{ "strcmp", doStrcmp }, { "strncmp", doStrncmp }, { "strcoll", doStrcmp }, { "strcasecmp", doStrcasecmp }, { "strncasecmp", doStrncasecmp }, { "strlen", doStrlen }, { "strnlen", doStrnlen },
	{ "strcpy", doStrcpy }, { "stpcpy", doStpcpy }, { "strncpy", doStrncpy }, { "strcat", doStrcat }, { "strncat", doStrncat }, { "strchr", doStrchr }, { "index", doStrchr }, { "strrchr", doStrrchr }, { "rindex", doStrrchr },
	{ "strchrnul", doStrchrnul }, { "strspn", doStrspn }, { "strcspn", doStrcspn }, { "strpbrk", doStrpbrk }, { "strstr", doStrstr }, { "strdup", doStrdup }, { "__strdup", doStrdup }, { "strndup", doStrndup }, { "__strndup", doStrndup },
	{ "strtok", doStrtok }, { "strtok_r", doStrtokR }, { "__strtok_r", doStrtokR }, { "strerror", doStrerror },
	{ "isalpha", do_isalpha }, { "isdigit", do_isdigit }, { "isalnum", do_isalnum }, { "isspace", do_isspace }, { "isupper", do_isupper }, { "islower", do_islower }, { "isxdigit", do_isxdigit },
	{ "ispunct", do_ispunct }, { "isprint", do_isprint }, { "isgraph", do_isgraph }, { "iscntrl", do_iscntrl }, { "isblank", do_isblank }, { "toupper", doToupper }, { "tolower", doTolower },
	{ "__ctype_b_loc", doCtypeB }, { "__ctype_toupper_loc", doCtypeU }, { "__ctype_tolower_loc", doCtypeL },
	{ "strtol", doStrtol }, { "strtoll", doStrtol }, { "strtoimax", doStrtol }, { "strtoul", doStrtoul }, { "strtoull", doStrtoul }, { "strtoumax", doStrtoul },
	{ "__isoc23_strtol", doStrtol }, { "__isoc23_strtoll", doStrtol }, { "__isoc23_strtoimax", doStrtol }, { "__isoc23_strtoul", doStrtoul }, { "__isoc23_strtoull", doStrtoul }, { "__isoc23_strtoumax", doStrtoul },
	{ "atoi", doAtoi }, { "atol", doAtol }, { "atoll", doAtol }, { "strtod", doStrtod }, { "atof", doStrtod },
	{ "floor", do_m_floor }, { "ceil", do_m_ceil }, { "round", do_m_round }, { "trunc", do_m_trunc }, { "rint", do_m_rint }, { "nearbyint", do_m_rint }, { "sqrt", do_m_sqrt }, { "log2", do_m_log2 }, { "log", do_m_log }, { "log10", do_m_log10 }, { "exp", do_m_exp }, { "fabs", do_m_fabs },
	{ "lround", doLround }, { "llround", doLround }, { "pow", doPow }, { "fmod", doFmod }, { "ldexp", doLdexp }, { "abs", doAbs32 }, { "labs", doAbs64 }, { "llabs", doAbs64 }, { "imaxabs", doAbs64 },
	{ "qsort", doQsort }, { "bsearch", doBsearch },
	{ "exit", doExit }, { "_exit", doExit }, { "_Exit", doExit }, { "abort", doAbort }, { "__assert_fail", doAssertFail }, { "atexit", doAtexit },
	{ "__errno_location", doErrno }, { "getenv", doGetenv }, { "secure_getenv", doGetenv }, { "time", doTime },
	{ "getopt", doGetopt }, { "getopt_long", doGetoptLong },
};
ExtFn findExternal(const std::string &n) {
	auto it = table.find(n);
	return it == table.end() ? nullptr : it->second;
}

void initLibc() {
	int k0 = mkFile("<stdin>", 0);
	int k1 = mkFile("<stdout>", 1);
	int k2 = mkFile("<stderr>", 1);
	stdinP = filePtr(k0); stdoutP = filePtr(k1); stderrP = filePtr(k2);
	errnoP = mkobj(4, OK_GLOBAL, false, "errno");
	ctypeB = mkobj(384 * 2, OK_CONST, false, "ctype");
	ctypeU = mkobj(384 * 4, OK_CONST, false, "toupper");
	ctypeL = mkobj(384 * 4, OK_CONST, false, "tolower");
	const unsigned short *hb = *__ctype_b_loc();
	const int *hu = *__ctype_toupper_loc(), *hl = *__ctype_tolower_loc();
	memcpy(objs[ctypeB >> 32].data, hb - 128, 384 * 2);
	memcpy(objs[ctypeU >> 32].data, hu - 128, 384 * 4);
	memcpy(objs[ctypeL >> 32].data, hl - 128, 384 * 4);
	auto cell = [](u64 target) { u64 a = mkobj(8, OK_GLOBAL, false, "ctype ptr"); memcpy(objs[a >> 32].data, &target, 8); return a; };
	ctypeBP = cell(ctypeB + 256); ctypeUP = cell(ctypeU + 512); ctypeLP = cell(ctypeL + 512);
}
