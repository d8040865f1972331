// symx: a small whole-program symbolic executor for LLVM IR.
// core.h: values, solver interface, path forking, memory objects.
#pragma once
#include <z3.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <set>
#include <functional>
#include <algorithm>
#include <cmath>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint8_t u8;

// ---------------------------------------------------------------- values

// A symbolic value is either a table over the domain of one small variable
// (kind SMALL; entry i is the value when the variable has its i-th domain
// value) or an SMT term (kind AST).  A V with s == nullptr is concrete.
enum { SMALL = 1, AST = 2 };
struct Sym {
	u8 kind;
	u8 undef;        // AST derived from uninitialised memory
	int var;
	int w;
	u64 *tab;
	Z3_ast ast;      // AST, or cached conversion of a SMALL
};
struct V {
	u64 c;
	Sym *s;
	V() : c(0), s(nullptr) {}
	V(u64 x) : c(x), s(nullptr) {}
	V(u64 x, Sym *y) : c(x), s(y) {}
};

struct Var {
	std::string name;
	int bits;
	int n;                     // size of initial domain
	std::vector<u8> vals;      // domain values
	std::vector<char> alive;
	int nalive;
	int cur;                   // index of current assignment
	bool entangled;            // occurs in a term-level path condition
	bool dirty;                // domain shrank since last told to solver
	Z3_ast ast;
};

extern Z3_context Z;
extern std::vector<Var> vars;

static inline u64 maskw(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, int w) {
	if (w >= 64) return (i64)v;
	u64 m = 1ull << (w - 1);
	v &= maskw(w);
	return (i64)((v ^ m) - m);
}

// ---------------------------------------------------------------- shared state

struct Shared {
	volatile int active, maxactive;
	volatile long forks, finished, paths, instrs, queries, concretised;
	volatile long solver_us;
	volatile long unknowns;
	volatile int stop;
	long maxpaths;
	double deadline;
	u8 fncov[1 << 16];
	u8 bbcov[1 << 18];
};
extern Shared *sh;

static inline double now() {
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}

// ---------------------------------------------------------------- memory

enum { OK_HEAP = 1, OK_STACK, OK_GLOBAL, OK_CONST, OK_FILE, OK_FUNC };
struct SB { Sym *s; u8 idx; u8 n; };
struct Obj {
	u8 kind;
	u8 dead;
	u64 size;
	u8 *data;
	u8 *st;      // per byte: 0 concrete, 1 symbolic, 2 uninitialised; or null
	SB *sb;      // symbolic bytes, or null
	int fid;     // OK_FILE / OK_FUNC index
	std::string *name;
};
extern std::vector<Obj> objs;

struct File {
	std::string name;
	int mode = 0;             // 0 read, 1 write
	bool open = false, eof = false, err = false, broken = false;
	size_t pos = 0;
	std::vector<V> *data = nullptr;
};
extern std::vector<File> filetab;

// ---------------------------------------------------------------- engine API

[[noreturn]] void finish(const char *status, const std::string &detail = "", V code = V(0));
bool branch(V cond);                    // forks if both sides are feasible
u64 concretize(V v, int w);             // forks over all feasible values
V fromAst(Z3_ast a, int w);
Z3_ast toAst(V v, int w);               // bit-vector (Bool if w == 1)
Z3_ast toFp(V v, int w);                // floating point term
V fromFp(Z3_ast a, int w);
V mkSmall(int var, int w, u64 *tab);
u64 *newTab(int var);
V bin(int op, int w, V a, V b);         // op: LLVM binary opcode
V icmp(int pred, int w, V a, V b);
V selectV(V c, V a, V b, int w, bool fp = false);
V castV(int op, V a, int fw, int tw);
V eqc(V a, u64 k, int w);               // a == k
bool allSmallSame(const std::vector<V> &vs, int *var);

u64 mkobj(u64 size, int kind, bool undef, const std::string &name = "");
V load(V addr, int nbytes, bool fp = false);
void store(V addr, int nbytes, V val, bool fp = false);
void checkRange(u64 addr, u64 n, const char *what);
V callByAddr(u64 fnaddr, std::vector<V> &args);
typedef V (*ExtFn)(std::vector<V> &args);
ExtFn findExternal(const std::string &name);
void initLibc();
extern u64 stdinP, stdoutP, stderrP;

enum { B_ADD, B_SUB, B_MUL, B_UDIV, B_SDIV, B_UREM, B_SREM, B_SHL, B_LSHR, B_ASHR, B_AND, B_OR, B_XOR,
       B_FADD, B_FSUB, B_FMUL, B_FDIV, B_FREM };
enum { C_EQ, C_NE, C_UGT, C_UGE, C_ULT, C_ULE, C_SGT, C_SGE, C_SLT, C_SLE };
enum { X_TRUNC, X_ZEXT, X_SEXT, X_FPTOUI, X_FPTOSI, X_UITOFP, X_SITOFP, X_FPTRUNC, X_FPEXT, X_BITCAST_I2F, X_BITCAST_F2I };
V fcmp(int pred, int w, V a, V b);      // pred: LLVM fcmp number 0..15
