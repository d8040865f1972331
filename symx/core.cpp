// symx: values, SMT interface, path forking, memory.
#include "core.h"

Z3_context Z;
std::vector<Var> vars;
Shared *sh;
std::vector<Obj> objs;
static Z3_solver S;
std::vector<Z3_ast> pc;                       // term-level path condition
static std::unordered_map<Z3_ast, bool> known;
bool ownsSlot = false;
extern std::vector<std::string> events;
static std::vector<Z3_ast> undefVars;
static std::map<int, u64> undefModel;

// ---------------------------------------------------------------- terms

static Z3_sort bvs(int w) { return Z3_mk_bv_sort(Z, w); }
static Z3_ast num(u64 v, int w) {
	if (w == 1) return (v & 1) ? Z3_mk_true(Z) : Z3_mk_false(Z);
	return Z3_mk_unsigned_int64(Z, v & maskw(w), bvs(w));
}
static Z3_sort fps(int w) { return w == 32 ? Z3_mk_fpa_sort_32(Z) : Z3_mk_fpa_sort_64(Z); }
static bool isFpSort(Z3_ast a) {
	return Z3_get_sort_kind(Z, Z3_get_sort(Z, a)) == Z3_FLOATING_POINT_SORT;
}

u64 *newTab(int var) { return (u64 *)calloc(vars[var].n, sizeof(u64)); }

V mkSmall(int var, int w, u64 *tab) {
	Var &x = vars[var];
	u64 m = maskw(w), first = 0;
	bool have = false, same = true;
	for (int i = 0; i < x.n; i++) {
		if (!x.alive[i]) continue;
		tab[i] &= m;
		if (!have) { first = tab[i]; have = true; }
		else if (tab[i] != first) { same = false; break; }
	}
	if (same) { free(tab); return V(first); }
	for (int i = 0; i < x.n; i++) tab[i] &= m;
	Sym *s = (Sym *)calloc(1, sizeof(Sym));
	s->kind = SMALL; s->var = var; s->w = w; s->tab = tab;
	return V(0, s);
}

// Re-normalise a value after domains have shrunk.
static inline V norm(V a) {
	if (!a.s || a.s->kind != SMALL) return a;
	Var &x = vars[a.s->var];
	u64 first = 0; bool have = false;
	for (int i = 0; i < x.n; i++) {
		if (!x.alive[i]) continue;
		if (!have) { first = a.s->tab[i]; have = true; }
		else if (a.s->tab[i] != first) return a;
	}
	return V(first);
}

static std::unordered_map<Z3_ast, char> undefMemo;
static std::unordered_map<Z3_ast, std::set<int> *> suppMemo;
static std::unordered_map<Z3_ast, int> varOfAst;   // >=0 var index, <0 undef var

static std::set<int> *support(Z3_ast a) {
	auto it = suppMemo.find(a);
	if (it != suppMemo.end()) return it->second;
	std::set<int> *r = new std::set<int>();
	auto v = varOfAst.find(a);
	if (v != varOfAst.end()) r->insert(v->second);
	else if (Z3_get_ast_kind(Z, a) == Z3_APP_AST) {
		Z3_app ap = Z3_to_app(Z, a);
		unsigned n = Z3_get_app_num_args(Z, ap);
		for (unsigned i = 0; i < n; i++) {
			std::set<int> *q = support(Z3_get_app_arg(Z, ap, i));
			r->insert(q->begin(), q->end());
		}
	}
	suppMemo[a] = r;
	return r;
}
static bool hasUndef(Z3_ast a) {
	std::set<int> *q = support(a);
	return !q->empty() && *q->begin() < 0;
}

V fromAst(Z3_ast a, int w) {
	a = Z3_simplify(Z, a);
	if (w == 1) {
		Z3_lbool b = Z3_get_bool_value(Z, a);
		if (b == Z3_L_TRUE) return V(1);
		if (b == Z3_L_FALSE) return V(0);
		auto k = known.find(a);
		if (k != known.end()) return V(k->second ? 1 : 0);
	} else if (Z3_is_numeral_ast(Z, a)) {
		uint64_t v = 0;
		if (Z3_get_numeral_uint64(Z, a, &v)) return V(v);
	}
	Sym *s = (Sym *)calloc(1, sizeof(Sym));
	s->kind = AST; s->w = w; s->ast = a;
	return V(0, s);
}

V fromFp(Z3_ast a, int w) {
	a = Z3_simplify(Z, a);
	if (Z3_is_numeral_ast(Z, a)) {
		Z3_ast b = Z3_simplify(Z, Z3_mk_fpa_to_ieee_bv(Z, a));
		uint64_t v = 0;
		if (Z3_is_numeral_ast(Z, b) && Z3_get_numeral_uint64(Z, b, &v)) return V(v);
		return V(w == 64 ? 0x7ff8000000000000ull : 0x7fc00000ull);
	}
	Sym *s = (Sym *)calloc(1, sizeof(Sym));
	s->kind = AST; s->w = w; s->ast = a;
	return V(0, s);
}

static Z3_ast smallToAst(Sym *s) {
	Var &x = vars[s->var];
	int w = s->w;
	if (w == 1) {
		// disjunction of x == k for the smaller side
		std::vector<Z3_ast> t, f;
		for (int i = 0; i < x.n; i++) {
			if (!x.alive[i]) continue;
			Z3_ast e = x.bits == 1 ? nullptr : Z3_mk_eq(Z, x.ast, num(x.vals[i], x.bits));
			if (!e) e = Z3_mk_eq(Z, x.ast, Z3_mk_unsigned_int64(Z, x.vals[i], bvs(1)));
			(s->tab[i] & 1 ? t : f).push_back(e);
		}
		if (t.size() <= f.size()) return t.size() == 1 ? t[0] : Z3_mk_or(Z, t.size(), t.data());
		Z3_ast o = f.size() == 1 ? f[0] : Z3_mk_or(Z, f.size(), f.data());
		return Z3_mk_not(Z, o);
	}
	// affine in the variable?
	u64 m = maskw(w);
	int i0 = -1, i1 = -1;
	for (int i = 0; i < x.n; i++) if (x.alive[i]) { if (i0 < 0) i0 = i; else if (i1 < 0) { i1 = i; break; } }
	if (i1 >= 0) {
		i64 dx = (i64)x.vals[i1] - (i64)x.vals[i0];
		i64 dy = (i64)sx(s->tab[i1], w) - (i64)sx(s->tab[i0], w);
		if (dx && dy % dx == 0) {
			u64 a = (u64)(dy / dx), b = s->tab[i0] - a * x.vals[i0];
			bool ok = true;
			for (int i = 0; i < x.n && ok; i++)
				if (x.alive[i] && ((a * x.vals[i] + b) & m) != s->tab[i]) ok = false;
			if (ok) {
				Z3_ast xe = x.ast;
				if (w > x.bits) xe = Z3_mk_zero_ext(Z, w - x.bits, xe);
				else if (w < x.bits) xe = Z3_mk_extract(Z, w - 1, 0, xe);
				if ((a & m) != 1) xe = Z3_mk_bvmul(Z, num(a, w), xe);
				if ((b & m) != 0) xe = Z3_mk_bvadd(Z, xe, num(b, w));
				return xe;
			}
		}
	}
	std::map<u64, std::vector<int>> groups;
	for (int i = 0; i < x.n; i++) if (x.alive[i]) groups[s->tab[i]].push_back(i);
	u64 def = 0; size_t best = 0;
	for (auto &g : groups) if (g.second.size() > best) { best = g.second.size(); def = g.first; }
	Z3_ast r = num(def, w);
	for (auto &g : groups) {
		if (g.first == def) continue;
		std::vector<Z3_ast> o;
		for (int i : g.second) o.push_back(Z3_mk_eq(Z, x.ast, Z3_mk_unsigned_int64(Z, x.vals[i], bvs(x.bits))));
		Z3_ast c = o.size() == 1 ? o[0] : Z3_mk_or(Z, o.size(), o.data());
		r = Z3_mk_ite(Z, c, num(g.first, w), r);
	}
	return r;
}

Z3_ast toAst(V v, int w) {
	if (!v.s) return num(v.c, w);
	if (v.s->kind == AST) {
		Z3_ast a = v.s->ast;
		if (isFpSort(a)) return Z3_mk_fpa_to_ieee_bv(Z, a);
		return a;
	}
	if (!v.s->ast) v.s->ast = Z3_simplify(Z, smallToAst(v.s));
	return v.s->ast;
}

Z3_ast toFp(V v, int w) {
	if (v.s && v.s->kind == AST && isFpSort(v.s->ast)) return v.s->ast;
	return Z3_simplify(Z, Z3_mk_fpa_to_fp_bv(Z, toAst(v, w), fps(w)));
}

// ---------------------------------------------------------------- concrete operators

static double bd(u64 x) { double d; memcpy(&d, &x, 8); return d; }
static u64 db(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static float bf(u64 x) { uint32_t y = x; float d; memcpy(&d, &y, 4); return d; }
static u64 fb(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }

static u64 evalBin(int op, int w, u64 a, u64 b) {
	u64 m = maskw(w);
	switch (op) {
	case B_ADD: return (a + b) & m;
	case B_SUB: return (a - b) & m;
	case B_MUL: return (a * b) & m;
	case B_UDIV: return b ? (a / b) & m : 0;
	case B_UREM: return b ? (a % b) & m : 0;
	case B_SDIV: { i64 x = sx(a, w), y = sx(b, w); return y == 0 ? 0 : y == -1 ? (0 - (u64)x) & m : (u64)(x / y) & m; }
	case B_SREM: { i64 x = sx(a, w), y = sx(b, w); return y == 0 || y == -1 ? 0 : (u64)(x % y) & m; }
	case B_SHL: return (a << (b & (w == 64 ? 63 : 31))) & m;
	case B_LSHR: { unsigned k = b & (w == 64 ? 63 : 31); return (a & m) >> k; }
	case B_ASHR: { unsigned k = b & (w == 64 ? 63 : 31); return (u64)(sx(a, w) >> k) & m; }
	case B_AND: return a & b;
	case B_OR: return a | b;
	case B_XOR: return (a ^ b) & m;
	case B_FADD: return w == 64 ? db(bd(a) + bd(b)) : fb(bf(a) + bf(b));
	case B_FSUB: return w == 64 ? db(bd(a) - bd(b)) : fb(bf(a) - bf(b));
	case B_FMUL: return w == 64 ? db(bd(a) * bd(b)) : fb(bf(a) * bf(b));
	case B_FDIV: return w == 64 ? db(bd(a) / bd(b)) : fb(bf(a) / bf(b));
	case B_FREM: return w == 64 ? db(fmod(bd(a), bd(b))) : fb(fmodf(bf(a), bf(b)));
	}
	abort();
}
static bool evalCmp(int p, int w, u64 a, u64 b) {
	u64 m = maskw(w); a &= m; b &= m;
	i64 x = sx(a, w), y = sx(b, w);
	switch (p) {
	case C_EQ: return a == b; case C_NE: return a != b;
	case C_UGT: return a > b; case C_UGE: return a >= b; case C_ULT: return a < b; case C_ULE: return a <= b;
	case C_SGT: return x > y; case C_SGE: return x >= y; case C_SLT: return x < y; case C_SLE: return x <= y;
	}
	abort();
}
static bool evalFcmp(int p, int w, u64 a, u64 b) {
	double x = w == 64 ? bd(a) : bf(a), y = w == 64 ? bd(b) : bf(b);
	bool un = std::isnan(x) || std::isnan(y);
	bool eq = !un && x == y, gt = !un && x > y, lt = !un && x < y;
	return ((p & 1) && eq) || ((p & 2) && gt) || ((p & 4) && lt) || ((p & 8) && un);
}
static u64 evalCast(int op, u64 a, int fw, int tw) {
	u64 m = maskw(tw);
	a &= maskw(fw);
	switch (op) {
	case X_TRUNC: return a & m;
	case X_ZEXT: return a;
	case X_SEXT: return (u64)sx(a, fw) & m;
	case X_FPTOSI: {
		double d = fw == 64 ? bd(a) : bf(a);
		if (tw == 64) return (d >= -9223372036854775808.0 && d < 9223372036854775808.0) ? (u64)(i64)d : 0x8000000000000000ull;
		if (tw == 32) return (d > -2147483649.0 && d < 2147483648.0) ? (u64)(uint32_t)(int32_t)d : 0x80000000ull;
		return (d > -2147483649.0 && d < 2147483648.0) ? (u64)(int32_t)d & m : 0;
	}
	case X_FPTOUI: {
		double d = fw == 64 ? bd(a) : bf(a);
		if (!(d > -1.0) || d >= 18446744073709551616.0) return 0x8000000000000000ull & m;
		return (u64)d & m;
	}
	case X_UITOFP: return tw == 64 ? db((double)a) : fb((float)a);
	case X_SITOFP: return tw == 64 ? db((double)sx(a, fw)) : fb((float)sx(a, fw));
	case X_FPTRUNC: return fb((float)bd(a));
	case X_FPEXT: return db((double)bf(a));
	case X_BITCAST_I2F: case X_BITCAST_F2I: return a;
	}
	abort();
}

// ---------------------------------------------------------------- lifted operators

// variable shared by small operands, or -1 if none / -2 if mixed or AST
static bool fpiBin(int op, V a, V b, V &r);
static void fpiNote(V r, V n, V d);
static bool fpiInt(V a, V &r);
static u64 evalModel(Z3_ast a, int w);
static Z3_lbool check(Z3_ast extra, bool adopt);

static inline int commonVar(V a, V b) {
	if (a.s && a.s->kind == AST) return -2;
	if (b.s && b.s->kind == AST) return -2;
	if (a.s && b.s) return a.s->var == b.s->var ? a.s->var : -2;
	return a.s ? a.s->var : b.s->var;
}
static inline u64 at(const V &a, int i) { return a.s ? a.s->tab[i] : a.c; }

V bin(int op, int w, V a, V b) {
	if (!a.s && !b.s) return V(evalBin(op, w, a.c, b.c));
	a = norm(a); b = norm(b);
	if (!a.s && !b.s) return V(evalBin(op, w, a.c, b.c));
	int x = commonVar(a, b);
	if (x >= 0) {
		u64 *t = newTab(x);
		Var &v = vars[x];
		for (int i = 0; i < v.n; i++) if (v.alive[i]) t[i] = evalBin(op, w, at(a, i), at(b, i));
		return mkSmall(x, w, t);
	}
	// cheap identities
	if (!b.s) {
		u64 k = b.c & maskw(w);
		if (k == 0 && (op == B_ADD || op == B_SUB || op == B_OR || op == B_XOR || op == B_SHL || op == B_LSHR || op == B_ASHR)) return a;
		if (k == 0 && op == B_AND) return V(0);
		if (k == maskw(w) && op == B_AND) return a;
	}
	if (!a.s) {
		u64 k = a.c & maskw(w);
		if (k == 0 && (op == B_ADD || op == B_OR || op == B_XOR)) return b;
		if (k == 0 && op == B_AND) return V(0);
	}
	if (op >= B_FADD) {
		if (w == 64) { V r; if (fpiBin(op, a, b, r)) return r; }
		Z3_ast p = toFp(a, w), q = toFp(b, w);
		Z3_ast rm = Z3_mk_fpa_rne(Z);
		switch (op) {
		case B_FADD: return fromFp(Z3_mk_fpa_add(Z, rm, p, q), w);
		case B_FSUB: return fromFp(Z3_mk_fpa_sub(Z, rm, p, q), w);
		case B_FMUL: return fromFp(Z3_mk_fpa_mul(Z, rm, p, q), w);
		case B_FDIV: return fromFp(Z3_mk_fpa_div(Z, rm, p, q), w);
		}
		// fmod: fall back to enumerating one operand
		u64 k = concretize(a, w);
		u64 l = concretize(b, w);
		return V(evalBin(op, w, k, l));
	}
	Z3_ast p = toAst(a, w), q = toAst(b, w);
	if (w == 1) {
		Z3_ast pq[2] = { p, q };
		switch (op) {
		case B_AND: case B_MUL: return fromAst(Z3_mk_and(Z, 2, pq), 1);
		case B_OR: return fromAst(Z3_mk_or(Z, 2, pq), 1);
		case B_XOR: case B_ADD: case B_SUB: return fromAst(Z3_mk_xor(Z, p, q), 1);
		}
		finish("unsupported", "i1 operator");
	}
	if (op == B_SHL || op == B_LSHR || op == B_ASHR) {
		if (b.s) {
			// x86 masks shift counts; only constants are already in range
			q = Z3_mk_bvand(Z, q, num(w == 64 ? 63 : 31, w));
		} else q = num(b.c & (w == 64 ? 63 : 31), w);
	}
	switch (op) {
	case B_ADD: return fromAst(Z3_mk_bvadd(Z, p, q), w);
	case B_SUB: return fromAst(Z3_mk_bvsub(Z, p, q), w);
	case B_MUL: return fromAst(Z3_mk_bvmul(Z, p, q), w);
	case B_UDIV: return fromAst(Z3_mk_bvudiv(Z, p, q), w);
	case B_SDIV: return fromAst(Z3_mk_bvsdiv(Z, p, q), w);
	case B_UREM: return fromAst(Z3_mk_bvurem(Z, p, q), w);
	case B_SREM: return fromAst(Z3_mk_bvsrem(Z, p, q), w);
	case B_SHL: return fromAst(Z3_mk_bvshl(Z, p, q), w);
	case B_LSHR: return fromAst(Z3_mk_bvlshr(Z, p, q), w);
	case B_ASHR: return fromAst(Z3_mk_bvashr(Z, p, q), w);
	case B_AND: return fromAst(Z3_mk_bvand(Z, p, q), w);
	case B_OR: return fromAst(Z3_mk_bvor(Z, p, q), w);
	case B_XOR: return fromAst(Z3_mk_bvxor(Z, p, q), w);
	}
	abort();
}

V icmp(int pr, int w, V a, V b) {
	if (!a.s && !b.s) return V(evalCmp(pr, w, a.c, b.c));
	a = norm(a); b = norm(b);
	if (!a.s && !b.s) return V(evalCmp(pr, w, a.c, b.c));
	int x = commonVar(a, b);
	if (x >= 0) {
		u64 *t = newTab(x);
		Var &v = vars[x];
		for (int i = 0; i < v.n; i++) if (v.alive[i]) t[i] = evalCmp(pr, w, at(a, i), at(b, i));
		return mkSmall(x, 1, t);
	}
	Z3_ast p = toAst(a, w), q = toAst(b, w);
	if (w == 1) {
		if (pr == C_EQ) return fromAst(Z3_mk_iff(Z, p, q), 1);
		if (pr == C_NE) return fromAst(Z3_mk_xor(Z, p, q), 1);
		Z3_ast one = Z3_mk_unsigned_int64(Z, 1, bvs(1)), zero = Z3_mk_unsigned_int64(Z, 0, bvs(1));
		p = Z3_mk_ite(Z, p, one, zero); q = Z3_mk_ite(Z, q, one, zero);
	}
	switch (pr) {
	case C_EQ: return fromAst(Z3_mk_eq(Z, p, q), 1);
	case C_NE: return fromAst(Z3_mk_not(Z, Z3_mk_eq(Z, p, q)), 1);
	case C_UGT: return fromAst(Z3_mk_bvugt(Z, p, q), 1);
	case C_UGE: return fromAst(Z3_mk_bvuge(Z, p, q), 1);
	case C_ULT: return fromAst(Z3_mk_bvult(Z, p, q), 1);
	case C_ULE: return fromAst(Z3_mk_bvule(Z, p, q), 1);
	case C_SGT: return fromAst(Z3_mk_bvsgt(Z, p, q), 1);
	case C_SGE: return fromAst(Z3_mk_bvsge(Z, p, q), 1);
	case C_SLT: return fromAst(Z3_mk_bvslt(Z, p, q), 1);
	case C_SLE: return fromAst(Z3_mk_bvsle(Z, p, q), 1);
	}
	abort();
}

// Doubles known to be the correctly rounded quotient of two integers.  For
// |a| + |b| < 2^53 truncating fl(a/b) gives the truncated integer quotient:
// with k = trunc(|a/b|), k is a double so fl(|a/b|) >= k by monotonicity, and
// |a/b| <= k + 1 - 1/|b| where 1/|b| exceeds half an ulp below k + 1, which is
// at most (k + 1) * 2^-53, because (k + 1)|b| <= |a| + |b| < 2^53.

struct Fpi { V n, d; };
static std::map<Z3_ast, Fpi> fpis;

static void fpiNote(V r, V n, V d) {
	if (r.s && r.s->kind == AST) fpis[r.s->ast] = Fpi{ n, d };
}
void fpiRatio(V r, V n, V d) { fpiNote(r, n, d); }

static bool must(V c) {
	c = norm(c);
	if (!c.s) return c.c & 1;
	if (c.s->kind == SMALL) return false;
	Z3_ast a = c.s->ast;
	auto k = known.find(a);
	if (k != known.end()) return k->second;
	if (!evalModel(a, 1)) return false;
	Z3_ast na = Z3_simplify(Z, Z3_mk_not(Z, a));
	if (check(na, false) != Z3_L_FALSE) return false;
	known[a] = true; known[na] = false;
	return true;
}

static bool within(V a, int bits) {
	return must(icmp(C_ULT, 64, bin(B_ADD, 64, a, V(1ull << bits)), V(2ull << bits)));
}

static bool fpiGet(V v, Fpi &o) {
	v = norm(v);
	auto integral = [](u64 x) { double d = bd(x); return d == std::floor(d) && std::fabs(d) < 4503599627370496.0 && !(d == 0 && std::signbit(d)); };
	if (!v.s) {
		if (!integral(v.c)) return false;
		o.n = V((u64)(i64)bd(v.c)); o.d = V(1);
		return true;
	}
	if (v.s->kind == SMALL) {
		Var &x = vars[v.s->var];
		u64 *t = newTab(v.s->var);
		for (int i = 0; i < x.n; i++) if (x.alive[i]) {
			if (!integral(v.s->tab[i])) return false;
			t[i] = (u64)(i64)bd(v.s->tab[i]);
		}
		o.n = mkSmall(v.s->var, 64, t); o.d = V(1);
		return true;
	}
	auto k = fpis.find(v.s->ast);
	if (k == fpis.end()) return false;
	o = k->second;
	return true;
}

static bool isOne(V d) { return !d.s && d.c == 1; }

static bool fpiBin(int op, V a, V b, V &r) {
	Fpi p, q;
	if (!fpiGet(a, p) || !fpiGet(b, q) || !isOne(p.d) || !isOne(q.d)) return false;
	Z3_ast x = toFp(a, 64), y = toFp(b, 64), rm = Z3_mk_fpa_rne(Z);
	V n;
	switch (op) {
	case B_FDIV:
		if (!within(p.n, 52) || !within(q.n, 52) || !must(icmp(C_NE, 64, q.n, V(0)))) return false;
		r = fromFp(Z3_mk_fpa_div(Z, rm, x, y), 64);
		fpiNote(r, p.n, q.n);
		return true;
	case B_FADD: case B_FSUB:
		if (!within(p.n, 51) || !within(q.n, 51)) return false;
		n = bin(op == B_FADD ? B_ADD : B_SUB, 64, p.n, q.n);
		break;
	case B_FMUL:
		// the other factor a positive constant: no negative zero can arise
		if (p.n.s && q.n.s) return false;
		{
			u64 k = p.n.s ? q.n.c : p.n.c;
			if (k < 1 || k >= (1ull << 26)) return false;
			int kb = 1;
			while ((1ull << kb) < k) kb++;
			if (!within(p.n.s ? p.n : q.n, 52 - (k == 1 ? 0 : kb))) return false;
		}
		n = bin(B_MUL, 64, p.n, q.n);
		break;
	default: return false;
	}
	r = castV(X_SITOFP, n, 64, 64);
	return true;
}

static bool fpiCmp(int pr, V a, V b, V &r) {
	Fpi p, q;
	if (!fpiGet(a, p) || !fpiGet(b, q)) return false;
	if (a.s && b.s && a.s->kind == AST && b.s->kind == AST && a.s->ast == b.s->ast) { r = V(pr & 1); return true; }
	if (!isOne(p.d) && isOne(q.d) && !q.n.s && q.n.c == 0) ;       // the sign of a quotient is decided by its operands
	else if (!isOne(p.d) || !isOne(q.d)) return false;
	if (!isOne(p.d)) {
		if (pr & 6 && !must(icmp(C_SGT, 64, p.d, V(0)))) return false;
		p.d = V(1);
	}
	if (!within(p.n, 52) || !within(q.n, 52)) {
		// comparing a converted integer with zero needs no bound
		if (!(!q.n.s && q.n.c == 0)) return false;
	}
	V t(0);
	if (pr & 1) t = bin(B_OR, 1, t, icmp(C_EQ, 64, p.n, q.n));
	if (pr & 2) t = bin(B_OR, 1, t, icmp(C_SGT, 64, p.n, q.n));
	if (pr & 4) t = bin(B_OR, 1, t, icmp(C_SLT, 64, p.n, q.n));
	r = t;
	return true;
}

static bool fpiInt(V a, V &r) {
	Fpi p;
	if (!fpiGet(a, p)) return false;
	if (!within(p.n, 52) || !within(p.d, 52) || !must(icmp(C_NE, 64, p.d, V(0)))) return false;
	r = isOne(p.d) ? p.n : bin(B_SDIV, 64, p.n, p.d);
	return true;
}

V fcmp(int pr, int w, V a, V b) {
	if (pr == 0) return V(0);
	if (pr == 15) return V(1);
	a = norm(a); b = norm(b);
	if (!a.s && !b.s) return V(evalFcmp(pr, w, a.c, b.c));
	int x = commonVar(a, b);
	if (x >= 0) {
		u64 *t = newTab(x);
		Var &v = vars[x];
		for (int i = 0; i < v.n; i++) if (v.alive[i]) t[i] = evalFcmp(pr, w, at(a, i), at(b, i));
		return mkSmall(x, 1, t);
	}
	if (w == 64) { V r; if (fpiCmp(pr, a, b, r)) return r; }
	Z3_ast p = toFp(a, w), q = toFp(b, w);
	std::vector<Z3_ast> o;
	if (pr & 1) o.push_back(Z3_mk_fpa_eq(Z, p, q));
	if (pr & 2) o.push_back(Z3_mk_fpa_gt(Z, p, q));
	if (pr & 4) o.push_back(Z3_mk_fpa_lt(Z, p, q));
	if (pr & 8) { o.push_back(Z3_mk_fpa_is_nan(Z, p)); o.push_back(Z3_mk_fpa_is_nan(Z, q)); }
	return fromAst(Z3_mk_or(Z, o.size(), o.data()), 1);
}

V selectV(V c, V a, V b, int w, bool fp) {
	c = norm(c);
	if (!c.s) return (c.c & 1) ? a : b;
	a = norm(a); b = norm(b);
	if (!a.s && !b.s && a.c == b.c) return a;
	if (c.s->kind == SMALL) {
		int x = c.s->var;
		auto ok = [&](V &v) { return !v.s || (v.s->kind == SMALL && v.s->var == x); };
		if (ok(a) && ok(b)) {
			u64 *t = newTab(x);
			Var &v = vars[x];
			for (int i = 0; i < v.n; i++) if (v.alive[i]) t[i] = (c.s->tab[i] & 1) ? at(a, i) : at(b, i);
			return mkSmall(x, w, t);
		}
	}
	if (fp) return fromFp(Z3_mk_ite(Z, toAst(c, 1), toFp(a, w), toFp(b, w)), w);
	return fromAst(Z3_mk_ite(Z, toAst(c, 1), toAst(a, w), toAst(b, w)), w);
}

V castV(int op, V a, int fw, int tw) {
	if (!a.s) return V(evalCast(op, a.c, fw, tw));
	a = norm(a);
	if (!a.s) return V(evalCast(op, a.c, fw, tw));
	if (a.s->kind == SMALL) {
		int x = a.s->var;
		u64 *t = newTab(x);
		Var &v = vars[x];
		for (int i = 0; i < v.n; i++) if (v.alive[i]) t[i] = evalCast(op, a.s->tab[i], fw, tw);
		return mkSmall(x, tw, t);
	}
	switch (op) {
	case X_TRUNC: {
		Z3_ast p = toAst(a, fw);
		if (tw == 1) return fromAst(Z3_mk_eq(Z, Z3_mk_extract(Z, 0, 0, p), Z3_mk_unsigned_int64(Z, 1, bvs(1))), 1);
		return fromAst(Z3_mk_extract(Z, tw - 1, 0, p), tw);
	}
	case X_ZEXT: {
		Z3_ast p = toAst(a, fw);
		if (fw == 1) return fromAst(Z3_mk_ite(Z, p, num(1, tw), num(0, tw)), tw);
		return fromAst(Z3_mk_zero_ext(Z, tw - fw, p), tw);
	}
	case X_SEXT: {
		Z3_ast p = toAst(a, fw);
		if (fw == 1) return fromAst(Z3_mk_ite(Z, p, num(~0ull, tw), num(0, tw)), tw);
		return fromAst(Z3_mk_sign_ext(Z, tw - fw, p), tw);
	}
	case X_SITOFP: {
		Z3_ast p = toAst(a, fw);
		if (fw == 1) p = Z3_mk_ite(Z, p, Z3_mk_unsigned_int64(Z, 1, bvs(1)), Z3_mk_unsigned_int64(Z, 0, bvs(1)));
		V r = fromFp(Z3_mk_fpa_to_fp_signed(Z, Z3_mk_fpa_rne(Z), p, fps(tw)), tw);
		if (tw == 64 && fw > 1) fpiNote(r, fw == 64 ? a : castV(X_SEXT, a, fw, 64), V(1));
		return r;
	}
	case X_UITOFP: {
		Z3_ast p = toAst(a, fw);
		if (fw == 1) p = Z3_mk_ite(Z, p, Z3_mk_unsigned_int64(Z, 1, bvs(1)), Z3_mk_unsigned_int64(Z, 0, bvs(1)));
		return fromFp(Z3_mk_fpa_to_fp_unsigned(Z, Z3_mk_fpa_rne(Z), p, fps(tw)), tw);
	}
	case X_FPTRUNC: case X_FPEXT:
		return fromFp(Z3_mk_fpa_to_fp_float(Z, Z3_mk_fpa_rne(Z), toFp(a, fw), fps(tw)), tw);
	case X_FPTOSI: {
		if (fw == 64 && tw == 64) { V r; if (fpiInt(a, r)) return r; }
		Z3_ast p = toFp(a, fw);
		int iw = tw < 32 ? 32 : tw;
		// in range?  otherwise x86 yields the "integer indefinite" value
		Z3_ast lo, hi, c[2];
		if (iw == 64) {
			lo = toFp(V(fw == 64 ? db(-9223372036854775808.0) : fb(-9223372036854775808.0f)), fw);
			hi = toFp(V(fw == 64 ? db(9223372036854775808.0) : fb(9223372036854775808.0f)), fw);
			c[0] = Z3_mk_fpa_geq(Z, p, lo); c[1] = Z3_mk_fpa_lt(Z, p, hi);
		} else {
			lo = toFp(V(fw == 64 ? db(-2147483649.0) : fb(-2147483904.0f)), fw);
			hi = toFp(V(fw == 64 ? db(2147483648.0) : fb(2147483648.0f)), fw);
			c[0] = Z3_mk_fpa_gt(Z, p, lo); c[1] = Z3_mk_fpa_lt(Z, p, hi);
		}
		if (!branch(fromAst(Z3_mk_and(Z, 2, c), 1))) return V((1ull << (iw - 1)) & maskw(tw));
		V r = fromAst(Z3_mk_fpa_to_sbv(Z, Z3_mk_fpa_rtz(Z), p, iw), iw);
		return iw == tw ? r : castV(X_TRUNC, r, iw, tw);
	}
	case X_FPTOUI: {
		Z3_ast p = toFp(a, fw);
		Z3_ast c[2] = { Z3_mk_fpa_gt(Z, p, toFp(V(fw == 64 ? db(-1.0) : fb(-1.0f)), fw)),
			Z3_mk_fpa_lt(Z, p, toFp(V(fw == 64 ? db(18446744073709551616.0) : fb(18446744073709551616.0f)), fw)) };
		if (!branch(fromAst(Z3_mk_and(Z, 2, c), 1))) return V(0x8000000000000000ull & maskw(tw));
		V r = fromAst(Z3_mk_fpa_to_ubv(Z, Z3_mk_fpa_rtz(Z), p, 64), 64);
		return tw == 64 ? r : castV(X_TRUNC, r, 64, tw);
	}
	case X_BITCAST_I2F: case X_BITCAST_F2I: return a;
	}
	abort();
}

V eqc(V a, u64 k, int w) { return icmp(C_EQ, w, a, V(k)); }

// ---------------------------------------------------------------- solver and branching

static void initSolver() {
	S = Z3_mk_simple_solver(Z);
	Z3_solver_inc_ref(Z, S);
	Z3_params p = Z3_mk_params(Z);
	Z3_params_inc_ref(Z, p);
	Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), 400000000u);
	Z3_solver_set_params(Z, S, p);
}
void coreInit() {
	initSolver();
	for (size_t i = 0; i < vars.size(); i++) { varOfAst[vars[i].ast] = i; }
}

static void syncDomains() {
	for (size_t i = 0; i < vars.size(); i++) {
		Var &x = vars[i];
		if (!x.dirty) continue;
		x.dirty = false;
		if (x.nalive == (1 << x.bits)) continue;
		std::vector<Z3_ast> o;
		bool neg = x.nalive > (1 << x.bits) / 2;
		if (neg) {
			std::vector<char> in(1 << x.bits, 0);
			for (int k = 0; k < x.n; k++) if (x.alive[k]) in[x.vals[k]] = 1;
			for (int k = 0; k < (1 << x.bits); k++) if (!in[k])
				o.push_back(Z3_mk_eq(Z, x.ast, Z3_mk_unsigned_int64(Z, k, bvs(x.bits))));
		} else for (int k = 0; k < x.n; k++) if (x.alive[k])
			o.push_back(Z3_mk_eq(Z, x.ast, Z3_mk_unsigned_int64(Z, x.vals[k], bvs(x.bits))));
		Z3_ast c = Z3_mk_or(Z, o.size(), o.data());
		if (neg) c = Z3_mk_not(Z, c);
		Z3_solver_assert(Z, S, c);
	}
}

static void takeModel(Z3_model m) {
	for (size_t i = 0; i < vars.size(); i++) {
		Z3_ast r;
		if (Z3_model_eval(Z, m, vars[i].ast, true, &r)) {
			unsigned v = 0;
			if (Z3_is_numeral_ast(Z, r) && Z3_get_numeral_uint(Z, r, &v)) {
				for (int k = 0; k < vars[i].n; k++)
					if (vars[i].alive[k] && vars[i].vals[k] == v) { vars[i].cur = k; break; }
			}
		}
	}
	for (size_t i = 0; i < undefVars.size(); i++) {
		Z3_ast r;
		if (Z3_model_eval(Z, m, undefVars[i], true, &r)) {
			uint64_t v = 0;
			if (Z3_is_numeral_ast(Z, r) && Z3_get_numeral_uint64(Z, r, &v)) undefModel[i] = v;
		}
	}
}

// check pc & extra; on sat optionally adopt the model
static Z3_lbool check(Z3_ast extra, bool adopt) {
	syncDomains();
	double t0 = now();
	Z3_solver_push(Z, S);
	if (extra) Z3_solver_assert(Z, S, extra);
	Z3_lbool r = Z3_solver_check(Z, S);
	if (r == Z3_L_TRUE && adopt) {
		Z3_model m = Z3_solver_get_model(Z, S);
		Z3_model_inc_ref(Z, m);
		takeModel(m);
		Z3_model_dec_ref(Z, m);
	}
	Z3_solver_pop(Z, S, 1);
	__sync_fetch_and_add(&sh->queries, 1);
	__sync_fetch_and_add(&sh->solver_us, (long)((now() - t0) * 1e6));
	if (r == Z3_L_UNDEF) __sync_fetch_and_add(&sh->unknowns, 1);
	return r;
}

static u64 evalModel(Z3_ast a, int w) {
	// value of a under the current assignment
	std::set<int> *sp = support(a);
	std::vector<Z3_ast> from, to;
	for (int v : *sp) {
		if (v >= 0) {
			from.push_back(vars[v].ast);
			to.push_back(Z3_mk_unsigned_int64(Z, vars[v].vals[vars[v].cur], bvs(vars[v].bits)));
		} else {
			from.push_back(undefVars[-v - 1]);
			Z3_sort so = Z3_get_sort(Z, undefVars[-v - 1]);
			to.push_back(Z3_mk_unsigned_int64(Z, undefModel[-v - 1], so));
		}
	}
	Z3_ast r = from.empty() ? a : Z3_substitute(Z, a, from.size(), from.data(), to.data());
	r = Z3_simplify(Z, r);
	if (w == 1) {
		Z3_lbool b = Z3_get_bool_value(Z, r);
		if (b == Z3_L_UNDEF) finish("unknown", "model evaluation");
		return b == Z3_L_TRUE;
	}
	uint64_t v = 0;
	if (!Z3_is_numeral_ast(Z, r)) r = Z3_simplify(Z, Z3_mk_fpa_to_ieee_bv(Z, r));
	if (!Z3_is_numeral_ast(Z, r) || !Z3_get_numeral_uint64(Z, r, &v)) finish("unknown", "model evaluation");
	return v;
}

static void assertPc(Z3_ast c) {
	pc.push_back(c);
	Z3_solver_assert(Z, S, c);
	known[c] = true;
	Z3_ast n = Z3_simplify(Z, Z3_mk_not(Z, c));
	known[n] = false;
	for (int v : *support(c)) if (v >= 0) vars[v].entangled = true;
}

// returns true in the process that must take the "other" side
static bool forkPath() {
	if (sh->stop) finish("stopped", "exploration stopped");
	if (sh->forks >= sh->maxpaths) { sh->stop = 1; finish("limit", "path limit"); }
	__sync_fetch_and_add(&sh->forks, 1);
	fflush(stdout);
	int a = sh->active;
	bool par = false;
	if (a < sh->maxactive && __sync_bool_compare_and_swap(&sh->active, a, a + 1)) par = true;
	pid_t pid;
	for (int tries = 0; (pid = fork()) < 0; tries++) {
		if (tries > 200) { sh->stop = 1; finish("limit", "fork failed"); }
		usleep(20000);
	}
	if (pid == 0) { ownsSlot = par; return true; }
	if (!par) {
		int st;
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
		if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) sh->stop = 1;
	}
	return false;
}

static void restrict_(int var, u64 *tab, bool want) {
	Var &x = vars[var];
	for (int i = 0; i < x.n; i++)
		if (x.alive[i] && (bool)(tab[i] & 1) != want) { x.alive[i] = 0; x.nalive--; }
	x.dirty = true;
}

bool branch(V cond) {
	cond = norm(cond);
	if (!cond.s) return cond.c & 1;
	if (cond.s->kind == SMALL) {
		int var = cond.s->var;
		u64 *tab = cond.s->tab;
		Var &x = vars[var];
		bool cv = tab[x.cur] & 1;
		if (x.entangled) {
			Z3_ast a = toAst(cond, 1);
			Z3_ast other = cv ? Z3_mk_not(Z, a) : a;
			int save = x.cur;
			Z3_lbool r = check(other, false);
			if (r == Z3_L_UNDEF) finish("unknown", "solver gave up");
			(void)save;
			if (r == Z3_L_FALSE) { restrict_(var, tab, cv); return cv; }
			if (forkPath()) {
				restrict_(var, tab, !cv);
				if (check(nullptr, true) != Z3_L_TRUE) finish("unknown", "lost model");
				return !cv;
			}
			restrict_(var, tab, cv);
			return cv;
		}
		if (forkPath()) {
			restrict_(var, tab, !cv);
			for (int i = 0; i < x.n; i++) if (x.alive[i]) { x.cur = i; break; }
			return !cv;
		}
		restrict_(var, tab, cv);
		return cv;
	}
	Z3_ast a = cond.s->ast;
	auto k = known.find(a);
	if (k != known.end()) return k->second;
	if (hasUndef(a)) {
		if (events.empty() || events.back() != "uninit-branch") events.push_back("uninit-branch");
	}
	bool cv = evalModel(a, 1);
	Z3_ast na = Z3_simplify(Z, Z3_mk_not(Z, a));
	Z3_lbool r = check(cv ? na : a, false);
	if (r == Z3_L_UNDEF) finish("unknown", "solver gave up");
	if (r == Z3_L_FALSE) {
		known[a] = cv; known[na] = !cv;
		return cv;
	}
	if (forkPath()) {
		assertPc(cv ? na : a);
		if (check(nullptr, true) != Z3_L_TRUE) finish("unknown", "lost model");
		return !cv;
	}
	assertPc(cv ? a : na);
	return cv;
}

u64 concretize(V v, int w) {
	v = norm(v);
	if (!v.s) return v.c;
	__sync_fetch_and_add(&sh->concretised, 1);
	for (;;) {
		v = norm(v);
		if (!v.s) return v.c;
		u64 val;
		if (v.s->kind == SMALL) val = v.s->tab[vars[v.s->var].cur];
		else val = evalModel(v.s->ast, w == 1 ? 1 : w);
		if (isFpSort(toAst(v, w))) finish("unsupported", "concretising a float term");
		if (branch(icmp(C_EQ, w, v, V(val)))) return val;
	}
}

// ---------------------------------------------------------------- memory

u64 mkobj(u64 size, int kind, bool undef, const std::string &name) {
	Obj o;
	o.kind = kind; o.dead = 0; o.size = size;
	o.data = (u8 *)calloc(1, size ? size : 1);
	o.st = nullptr; o.sb = nullptr; o.fid = -1;
	o.name = name.empty() ? nullptr : new std::string(name);
	if (undef && size) { o.st = (u8 *)malloc(size); memset(o.st, 2, size); }
	objs.push_back(o);
	return (u64)(objs.size() - 1) << 32;
}

static std::string addrStr(u64 a) {
	char b[64];
	snprintf(b, sizeof b, "obj%llu+%lld", (unsigned long long)(a >> 32), (long long)(int32_t)a);
	return b;
}

void checkRange(u64 a, u64 n, const char *what) {
	u64 id = a >> 32, off = a & 0xffffffffu;
	if (id == 0) finish("memerr", std::string("null pointer ") + what);
	if (id >= objs.size()) finish("memerr", std::string("wild pointer ") + what + " " + addrStr(a));
	Obj &o = objs[id];
	if (o.dead) finish("memerr", std::string("use after free ") + what + " " + addrStr(a));
	if (o.kind == OK_FUNC || o.kind == OK_FILE) finish("memerr", std::string("bad object ") + what);
	if (off + n > o.size) finish("memerr", std::string("out of bounds ") + what + " " + addrStr(a) + " size " + std::to_string(o.size) + (o.name ? " " + *o.name : ""));
}

static Sym *undefSym() {
	static Sym u; u.kind = AST; return &u;
}
static V freshUndef(int w) {
	int k = undefVars.size();
	std::string nm = "undef!" + std::to_string(k);
	Z3_ast a = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), bvs(w));
	undefVars.push_back(a);
	undefModel[k] = 0;
	varOfAst[a] = -k - 1;
	Sym *s = (Sym *)calloc(1, sizeof(Sym));
	s->kind = AST; s->w = w; s->ast = a; s->undef = 1;
	return V(0, s);
}

static V byteOf(Sym *s, int idx, int n) {
	V v(0, s);
	if (n == 1) return v;
	if (s->kind == AST) {
		Z3_ast a = toAst(v, n * 8);
		return fromAst(Z3_mk_extract(Z, idx * 8 + 7, idx * 8, a), 8);
	}
	return castV(X_TRUNC, bin(B_LSHR, n * 8, v, V(idx * 8)), n * 8, 8);
}

static V loadAt(u64 a, int n, bool fp) {
	checkRange(a, n, "read");
	Obj &o = objs[a >> 32];
	u64 off = a & 0xffffffffu;
	u8 *d = o.data + off;
	bool plain = true, anyundef = false, allundef = true;
	if (o.st) for (int i = 0; i < n; i++) {
		if (o.st[off + i]) plain = false;
		if (o.st[off + i] == 2) anyundef = true; else allundef = false;
	}
	if (plain) {
		u64 r = 0;
		memcpy(&r, d, n);
		return V(r);
	}
	if (anyundef && allundef) return freshUndef(n * 8);
	// one whole symbolic value?
	SB *sb = o.sb;
	if (o.st[off] == 1 && sb[off].idx == 0 && sb[off].n == n) {
		bool whole = true;
		for (int i = 1; i < n && whole; i++)
			if (o.st[off + i] != 1 || sb[off + i].s != sb[off].s || sb[off + i].idx != i) whole = false;
		if (whole) return norm(V(0, sb[off].s));
	}
	V r(0);
	std::vector<V> bs;
	bool small = true; int var = -1;
	for (int i = 0; i < n; i++) {
		V b;
		if (o.st[off + i] == 0) b = V(o.data[off + i]);
		else if (o.st[off + i] == 2) b = freshUndef(8);
		else b = norm(byteOf(o.sb[off + i].s, o.sb[off + i].idx, o.sb[off + i].n));
		bs.push_back(b);
		if (b.s) {
			if (b.s->kind != SMALL) small = false;
			else if (var < 0) var = b.s->var;
			else if (var != b.s->var) small = false;
		}
	}
	if (n == 1) return bs[0];
	if (small) {
		for (int i = n - 1; i >= 0; i--)
			r = bin(B_OR, n * 8, bin(B_SHL, n * 8, r, V(8)), castV(X_ZEXT, bs[i], 8, n * 8));
		return r;
	}
	Z3_ast e = toAst(bs[n - 1], 8);
	for (int i = n - 2; i >= 0; i--) e = Z3_mk_concat(Z, e, toAst(bs[i], 8));
	return fromAst(e, n * 8);
}

V load(V addr, int n, bool fp) {
	if (addr.s) addr = norm(addr);
	if (!addr.s) return loadAt(addr.c, n, fp);
	if (addr.s->kind == SMALL) {
		int x = addr.s->var;
		Var &v = vars[x];
		// all addresses must be valid; otherwise split off the invalid ones
		u64 *bad = newTab(x);
		bool anybad = false, anyok = false;
		for (int i = 0; i < v.n; i++) if (v.alive[i]) {
			u64 a = addr.s->tab[i];
			u64 id = a >> 32, off = a & 0xffffffffu;
			bool b = id == 0 || id >= objs.size() || objs[id].dead || objs[id].kind == OK_FUNC || objs[id].kind == OK_FILE || off + n > objs[id].size;
			bad[i] = b;
			if (b) anybad = true; else anyok = true;
		}
		if (anybad && anyok) {
			if (branch(mkSmall(x, 1, bad))) return load(addr, n, fp);
			return load(addr, n, fp);
		}
		if (anybad) return loadAt(addr.s->tab[v.cur], n, fp);
		u64 *t = newTab(x);
		bool conc = true, big = false;
		for (int i = 0; i < v.n && conc; i++) if (v.alive[i]) {
			V r = loadAt(addr.s->tab[i], n, fp);
			if (r.s) conc = false;
			t[i] = r.c;
			Obj &o = objs[addr.s->tab[i] >> 32];
			if (o.size >= 4096 && o.kind == OK_CONST) big = true;
		}
		if (conc) {
			V r = mkSmall(x, n * 8, t);
			// scanner tables: fix the automaton state, keep the input symbolic
			if (r.s && big) return V(concretize(r, n * 8));
			return r;
		}
	}
	return loadAt(concretize(addr, 64), n, fp);
}

static void ensureSt(Obj &o) {
	if (!o.st) o.st = (u8 *)calloc(1, o.size ? o.size : 1);
}

void store(V addr, int n, V val, bool fp) {
	u64 a = addr.s ? concretize(addr, 64) : addr.c;
	checkRange(a, n, "write");
	Obj &o = objs[a >> 32];
	if (o.kind == OK_CONST) finish("memerr", "write to constant " + (o.name ? *o.name : addrStr(a)));
	u64 off = a & 0xffffffffu;
	if (val.s) val = norm(val);
	if (!val.s) {
		memcpy(o.data + off, &val.c, n);
		if (o.st) memset(o.st + off, 0, n);
		return;
	}
	ensureSt(o);
	if (!o.sb) o.sb = (SB *)calloc(o.size, sizeof(SB));
	for (int i = 0; i < n; i++) {
		o.st[off + i] = 1;
		o.sb[off + i].s = val.s;
		o.sb[off + i].idx = i;
		o.sb[off + i].n = n;
	}
}

// byte-wise copy that preserves symbolic and uninitialised state
void copyBytes(u64 dst, u64 src, u64 n) {
	if (n == 0) return;
	checkRange(src, n, "read");
	checkRange(dst, n, "write");
	Obj &s = objs[src >> 32];
	Obj &d = objs[dst >> 32];
	if (d.kind == OK_CONST) finish("memerr", "write to constant");
	u64 so = src & 0xffffffffu, dof = dst & 0xffffffffu;
	memmove(d.data + dof, s.data + so, n);
	if (s.st || d.st) {
		ensureSt(d);
		if (s.sb && !d.sb) d.sb = (SB *)calloc(d.size, sizeof(SB));
		if (s.st) memmove(d.st + dof, s.st + so, n); else memset(d.st + dof, 0, n);
		if (s.sb) memmove(d.sb + dof, s.sb + so, n * sizeof(SB));
	}
}

// path condition, domains
Z3_ast pcAst() {
	if (pc.empty()) return Z3_mk_true(Z);
	return Z3_mk_and(Z, pc.size(), pc.data());
}

// an assumption on the initial variables
void assumeTop(Z3_ast c) {
	c = Z3_simplify(Z, c);
	assertPc(c);
	if (check(nullptr, true) != Z3_L_TRUE) finish("unsupported", "unsatisfiable assumption");
}
