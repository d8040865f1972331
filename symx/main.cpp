// symx: LLVM IR lowering, interpreter, scenario loading, result output.
#include "core.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/resource.h>
#include <sys/file.h>
#include <ucontext.h>
#include <signal.h>
#include <fstream>
#include <sstream>

using namespace llvm;

extern std::vector<Z3_ast> pc;
void coreInit();
void copyBytes(u64 dst, u64 src, u64 n);
Z3_ast pcAst();
extern bool ownsSlot;
std::vector<std::string> events;

enum Opc : uint16_t {
	I_BIN, I_ICMP, I_FCMP, I_CAST, I_SELECT, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET, I_UNREACH,
	I_CALL, I_MOV, I_EXTRACT, I_INSERT, I_FNEG, I_MEMCPY, I_MEMSET, I_MINMAX, I_SAT, I_OVF, I_CTPOP, I_CTLZ, I_CTTZ, I_ABS, I_BSWAP,
	I_FSH, I_VASTART, I_VACOPY, I_NOP, I_FABS, I_FMATH, I_TRAP, I_UNSUP, I_PTRMASK, I_BITREV, I_LOADAGG, I_STOREAGG, I_ISFPCLASS
};
struct Fn;
struct Move { int dst, src; };
struct Ins {
	Opc opc; uint16_t sub = 0; uint16_t w = 0, w2 = 0;
	int dst = -1;
	int a = 0, b = 0, c = 0;
	u64 imm = 0;
	bool fp = false;
	void *p = nullptr;                        // Fn* / ext
	std::vector<int> ops;
	std::vector<std::pair<int, i64>> gep;     // (slot, scale)
	std::vector<uint16_t> ws;
	std::string *str = nullptr;
	int t0 = -1, t1 = -1;                     // edge indices
	std::vector<std::pair<u64, int>> cases;
	std::vector<u64> byval;
};
struct Edge { int target; std::vector<Move> moves; int bb; };
struct Fn {
	Function *f = nullptr;
	std::string name;
	int idx = 0;
	bool lowered = false;
	int nslots = 0, nargs = 0;
	bool vararg = false;
	std::vector<Ins> code;
	std::vector<Edge> edges;
	std::vector<V> K;
	ExtFn ext = nullptr;
	std::vector<int> argslot;
	int entrybb = 0;
};

static LLVMContext LC;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::unordered_map<const Function *, Fn *> fns;
static std::vector<Fn *> fnList;
static std::unordered_map<const GlobalValue *, u64> gaddr;
static int bbCount = 0;
static long instrs = 0, instrLimit = 0;
static int depth = 0;

// ---------------------------------------------------------------- constants

static void writeConst(u64 addr, const Constant *c);
static u64 fnAddr(const Function *f) {
	auto it = gaddr.find(f);
	if (it != gaddr.end()) return it->second;
	u64 a = mkobj(1, OK_FUNC, false, f->getName().str());
	Fn *&fn = fns[f];
	if (!fn) { fn = new Fn(); fn->f = const_cast<Function *>(f); fn->name = f->getName().str(); fn->idx = fnList.size(); fnList.push_back(fn); }
	objs[a >> 32].fid = fn->idx;
	return gaddr[f] = a;
}
static Fn *getFn(const Function *f) { fnAddr(f); return fns[f]; }

static u64 evalConst(const Constant *c) {
	if (auto *ci = dyn_cast<ConstantInt>(c)) {
		if (ci->getBitWidth() > 64) return ci->getValue().trunc(64).getZExtValue();
		return ci->getZExtValue();
	}
	if (auto *cf = dyn_cast<ConstantFP>(c)) {
		if (cf->getType()->isFloatTy() || cf->getType()->isDoubleTy())
			return cf->getValueAPF().bitcastToAPInt().getZExtValue();
		return 0;
	}
	if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
	if (auto *f = dyn_cast<Function>(c)) return fnAddr(f);
	if (auto *ga = dyn_cast<GlobalAlias>(c)) return evalConst(ga->getAliasee());
	if (auto *g = dyn_cast<GlobalVariable>(c)) {
		auto it = gaddr.find(g);
		if (it == gaddr.end()) finish("unsupported", "global " + g->getName().str());
		return it->second;
	}
	if (auto *ce = dyn_cast<ConstantExpr>(c)) {
		switch (ce->getOpcode()) {
		case Instruction::GetElementPtr: {
			auto *g = cast<GEPOperator>(ce);
			APInt off(64, 0);
			if (!g->accumulateConstantOffset(*DL, off)) finish("unsupported", "constant gep");
			return evalConst(cast<Constant>(g->getPointerOperand())) + off.getSExtValue();
		}
		case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
			return evalConst(ce->getOperand(0));
		case Instruction::Trunc: return evalConst(ce->getOperand(0)) & maskw(ce->getType()->getIntegerBitWidth());
		case Instruction::ZExt: return evalConst(ce->getOperand(0));
		case Instruction::Add: return evalConst(ce->getOperand(0)) + evalConst(ce->getOperand(1));
		case Instruction::Sub: return evalConst(ce->getOperand(0)) - evalConst(ce->getOperand(1));
		default: break;
		}
	}
	finish("unsupported", "constant");
}

static void writeConst(u64 addr, const Constant *c) {
	Type *t = c->getType();
	if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
	if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
		u64 es = DL->getTypeAllocSize(cd->getElementType());
		for (unsigned i = 0; i < cd->getNumElements(); i++) {
			u64 v = cd->getElementType()->isFloatingPointTy()
				? cd->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue() : cd->getElementAsInteger(i);
			memcpy(objs[addr >> 32].data + (addr & 0xffffffffu) + i * es, &v, es > 8 ? 8 : es);
		}
		return;
	}
	if (auto *ca = dyn_cast<ConstantArray>(c)) {
		u64 es = DL->getTypeAllocSize(ca->getType()->getElementType());
		for (unsigned i = 0; i < ca->getNumOperands(); i++) writeConst(addr + i * es, ca->getOperand(i));
		return;
	}
	if (auto *cs = dyn_cast<ConstantStruct>(c)) {
		const StructLayout *sl = DL->getStructLayout(cs->getType());
		for (unsigned i = 0; i < cs->getNumOperands(); i++) writeConst(addr + sl->getElementOffset(i), cs->getOperand(i));
		return;
	}
	u64 v = evalConst(c);
	memcpy(objs[addr >> 32].data + (addr & 0xffffffffu), &v, std::min<u64>(8, DL->getTypeStoreSize(t)));
}

static void initGlobals() {
	for (Function &f : *M) if (!f.isIntrinsic()) fnAddr(&f);
	for (GlobalVariable &g : M->globals()) {
		std::string n = g.getName().str();
		if (n.rfind("llvm.", 0) == 0) continue;
		u64 sz = DL->getTypeAllocSize(g.getValueType());
		u64 a = mkobj(sz, OK_GLOBAL, false, n);
		gaddr[&g] = a;
	}
	for (GlobalVariable &g : M->globals()) {
		std::string n = g.getName().str();
		if (n.rfind("llvm.", 0) == 0) continue;
		u64 a = gaddr[&g];
		if (g.hasInitializer()) writeConst(a, g.getInitializer());
		else {
			u64 v = 0;
			if (n == "stdin") v = stdinP; else if (n == "stdout") v = stdoutP; else if (n == "stderr") v = stderrP;
			else if (n == "optind" || n == "opterr") v = 1;
			else if (n == "program_invocation_short_name" || n == "program_invocation_name") {
				v = mkobj(8, OK_GLOBAL, false, "progname");
				memcpy(objs[v >> 32].data, "asm6809", 8);
			}
			memcpy(objs[a >> 32].data, &v, std::min<u64>(8, objs[a >> 32].size));
		}
		if (g.isConstant()) objs[a >> 32].kind = OK_CONST;
	}
}
u64 globalAddr(const char *name) {
	GlobalVariable *g = M->getGlobalVariable(name, true);
	return g ? gaddr[g] : 0;
}

// ---------------------------------------------------------------- lowering

static int typeW(Type *t) {
	if (t->isIntegerTy()) return t->getIntegerBitWidth();
	if (t->isPointerTy() || t->isDoubleTy()) return 64;
	if (t->isFloatTy()) return 32;
	return 0;
}
static int nElems(Type *t) {
	if (auto *s = dyn_cast<StructType>(t)) { int n = 0; for (Type *e : s->elements()) n += nElems(e); return n; }
	if (auto *a = dyn_cast<ArrayType>(t)) return a->getNumElements() * nElems(a->getElementType());
	if (t->isVoidTy()) return 0;
	return 1;
}
static void flatten(Type *t, u64 base, std::vector<std::pair<Type *, u64>> &out) {
	if (auto *s = dyn_cast<StructType>(t)) {
		const StructLayout *sl = DL->getStructLayout(s);
		for (unsigned i = 0; i < s->getNumElements(); i++) flatten(s->getElementType(i), base + sl->getElementOffset(i), out);
	} else if (auto *a = dyn_cast<ArrayType>(t)) {
		for (unsigned i = 0; i < a->getNumElements(); i++) flatten(a->getElementType(), base + i * DL->getTypeAllocSize(a->getElementType()), out);
	} else out.push_back({ t, base });
}
static int aggIndex(Type *t, ArrayRef<unsigned> idx) {
	int off = 0;
	for (unsigned i : idx) {
		if (auto *s = dyn_cast<StructType>(t)) {
			for (unsigned k = 0; k < i; k++) off += nElems(s->getElementType(k));
			t = s->getElementType(i);
		} else {
			auto *a = cast<ArrayType>(t);
			off += i * nElems(a->getElementType());
			t = a->getElementType();
		}
	}
	return off;
}

struct Lower {
	Fn *fn;
	std::unordered_map<const Value *, int> slot;
	std::unordered_map<const BasicBlock *, int> bbStart, bbId;
	int alloc(Type *t) { int s = fn->nslots; fn->nslots += std::max(1, nElems(t)); return s; }
	int constSlot(u64 v) { fn->K.push_back(V(v)); return ~(int)(fn->K.size() - 1); }
	int op(const Value *v, int sub = 0) {
		auto it = slot.find(v);
		if (it != slot.end()) return it->second + sub;
		if (auto *c = dyn_cast<Constant>(v)) {
			if (nElems(c->getType()) != 1 || c->getType()->isAggregateType()) {
				// aggregate constant: find leaf
				const Constant *x = c;
				Type *t = c->getType();
				int k = sub;
				while (t->isAggregateType()) {
					unsigned i = 0;
					unsigned n = isa<StructType>(t) ? cast<StructType>(t)->getNumElements() : cast<ArrayType>(t)->getNumElements();
					for (; i < n; i++) {
						Type *et = isa<StructType>(t) ? cast<StructType>(t)->getElementType(i) : cast<ArrayType>(t)->getElementType();
						int ne = nElems(et);
						if (k < ne) { t = et; break; }
						k -= ne;
					}
					x = x->getAggregateElement(i);
				}
				return constSlot(evalConst(x));
			}
			return constSlot(evalConst(c));
		}
		finish("unsupported", "operand in " + fn->name);
	}
	int edge(const BasicBlock *from, const BasicBlock *to) {
		Edge e;
		e.target = -1;
		e.bb = bbId[to];
		for (const PHINode &ph : to->phis()) {
			const Value *in = ph.getIncomingValueForBlock(from);
			int n = std::max(1, nElems(ph.getType()));
			for (int k = 0; k < n; k++) {
				Move m { slot[&ph] + k, op(in, k) };
				if (m.dst != m.src) e.moves.push_back(m);
			}
		}
		e.target = -2 - bbId[to];   // fixed up after layout
		fn->edges.push_back(e);
		return fn->edges.size() - 1;
	}
	void run(Fn *f);
	void lower(const Instruction &I);
};

static int binop(unsigned o) {
	switch (o) {
	case Instruction::Add: return B_ADD; case Instruction::Sub: return B_SUB; case Instruction::Mul: return B_MUL;
	case Instruction::UDiv: return B_UDIV; case Instruction::SDiv: return B_SDIV; case Instruction::URem: return B_UREM;
	case Instruction::SRem: return B_SREM; case Instruction::Shl: return B_SHL; case Instruction::LShr: return B_LSHR;
	case Instruction::AShr: return B_ASHR; case Instruction::And: return B_AND; case Instruction::Or: return B_OR;
	case Instruction::Xor: return B_XOR; case Instruction::FAdd: return B_FADD; case Instruction::FSub: return B_FSUB;
	case Instruction::FMul: return B_FMUL; case Instruction::FDiv: return B_FDIV; case Instruction::FRem: return B_FREM;
	}
	return -1;
}
static int cmpPred(CmpInst::Predicate p) {
	switch (p) {
	case CmpInst::ICMP_EQ: return C_EQ; case CmpInst::ICMP_NE: return C_NE; case CmpInst::ICMP_UGT: return C_UGT;
	case CmpInst::ICMP_UGE: return C_UGE; case CmpInst::ICMP_ULT: return C_ULT; case CmpInst::ICMP_ULE: return C_ULE;
	case CmpInst::ICMP_SGT: return C_SGT; case CmpInst::ICMP_SGE: return C_SGE; case CmpInst::ICMP_SLT: return C_SLT;
	case CmpInst::ICMP_SLE: return C_SLE; default: return -1;
	}
}

void Lower::lower(const Instruction &I) {
	Ins n;
	n.opc = I_UNSUP;
	Type *ty = I.getType();
	int w = typeW(ty);
	if (!ty->isVoidTy()) n.dst = slot[&I];
	n.w = w;
	n.fp = ty->isFloatingPointTy();
	bool vec = ty->isVectorTy();
	for (const Use &u : I.operands()) if (u->getType()->isVectorTy()) vec = true;
	auto push = [&]() { fn->code.push_back(n); };
	if (vec || (w > 64)) {
		n.str = new std::string("vector/wide instruction in " + fn->name);
		push(); return;
	}
	unsigned oc = I.getOpcode();
	if (I.isBinaryOp()) {
		n.opc = I_BIN; n.sub = binop(oc); n.a = op(I.getOperand(0)); n.b = op(I.getOperand(1));
		push(); return;
	}
	switch (oc) {
	case Instruction::FNeg: n.opc = I_FNEG; n.a = op(I.getOperand(0)); break;
	case Instruction::ICmp: n.opc = I_ICMP; n.sub = cmpPred(cast<ICmpInst>(I).getPredicate()); n.w = typeW(I.getOperand(0)->getType()); n.a = op(I.getOperand(0)); n.b = op(I.getOperand(1)); break;
	case Instruction::FCmp: n.opc = I_FCMP; n.sub = (int)cast<FCmpInst>(I).getPredicate(); n.w = typeW(I.getOperand(0)->getType()); n.a = op(I.getOperand(0)); n.b = op(I.getOperand(1)); break;
	case Instruction::Select: {
		int k = nElems(ty);
		for (int i = 0; i < k; i++) {
			Ins m = n; m.opc = I_SELECT; m.dst = n.dst + i; m.c = op(I.getOperand(0)); m.a = op(I.getOperand(1), i); m.b = op(I.getOperand(2), i);
			if (k > 1) { m.w = 64; }
			fn->code.push_back(m);
		}
		return;
	}
	case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPToUI: case Instruction::FPToSI:
	case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt:
	case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: {
		int fw = typeW(I.getOperand(0)->getType());
		n.opc = I_CAST; n.w2 = w; n.w = fw; n.a = op(I.getOperand(0));
		switch (oc) {
		case Instruction::Trunc: n.sub = X_TRUNC; break;
		case Instruction::ZExt: n.sub = X_ZEXT; break;
		case Instruction::SExt: n.sub = X_SEXT; break;
		case Instruction::FPToUI: n.sub = X_FPTOUI; break;
		case Instruction::FPToSI: n.sub = X_FPTOSI; break;
		case Instruction::UIToFP: n.sub = X_UITOFP; break;
		case Instruction::SIToFP: n.sub = X_SITOFP; break;
		case Instruction::FPTrunc: n.sub = X_FPTRUNC; break;
		case Instruction::FPExt: n.sub = X_FPEXT; break;
		default:
			if (fw == w) n.opc = I_MOV;
			else n.sub = fw > w ? X_TRUNC : X_ZEXT;
		}
		break;
	}
	case Instruction::Freeze: n.opc = I_MOV; n.a = op(I.getOperand(0)); break;
	case Instruction::Alloca: {
		auto &A = cast<AllocaInst>(I);
		n.opc = I_ALLOCA; n.imm = DL->getTypeAllocSize(A.getAllocatedType());
		n.a = op(A.getArraySize());
		n.str = new std::string(fn->name + ":" + I.getName().str());
		break;
	}
	case Instruction::Load: {
		std::vector<std::pair<Type *, u64>> fl;
		flatten(ty, 0, fl);
		if (fl.size() == 1 && !ty->isAggregateType()) { n.opc = I_LOAD; n.a = op(I.getOperand(0)); n.imm = DL->getTypeStoreSize(ty); break; }
		int k = 0;
		for (auto &x : fl) {
			Ins m = n; m.opc = I_LOADAGG; m.dst = n.dst + k++; m.w = typeW(x.first); m.fp = x.first->isFloatingPointTy();
			m.a = op(I.getOperand(0)); m.imm = DL->getTypeStoreSize(x.first); m.b = (int)x.second;
			fn->code.push_back(m);
		}
		return;
	}
	case Instruction::Store: {
		Type *vt = I.getOperand(0)->getType();
		std::vector<std::pair<Type *, u64>> fl;
		flatten(vt, 0, fl);
		int k = 0;
		for (auto &x : fl) {
			Ins m = n; m.opc = I_STORE; m.w = typeW(x.first); m.fp = x.first->isFloatingPointTy();
			m.a = op(I.getOperand(1)); m.c = op(I.getOperand(0), k++); m.imm = DL->getTypeStoreSize(x.first); m.b = (int)x.second;
			fn->code.push_back(m);
		}
		return;
	}
	case Instruction::GetElementPtr: {
		n.opc = I_GEP; n.a = op(I.getOperand(0));
		i64 off = 0;
		for (gep_type_iterator gi = gep_type_begin(I), ge = gep_type_end(I); gi != ge; ++gi) {
			const Value *ix = gi.getOperand();
			if (StructType *st = gi.getStructTypeOrNull()) {
				off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
			} else {
				i64 sc = DL->getTypeAllocSize(gi.getIndexedType());
				if (auto *ci = dyn_cast<ConstantInt>(ix)) off += sc * ci->getSExtValue();
				else { n.gep.push_back({ op(ix), sc }); n.ws.push_back(typeW(ix->getType())); }
			}
		}
		n.imm = (u64)off;
		break;
	}
	case Instruction::ExtractValue: {
		auto &E = cast<ExtractValueInst>(I);
		int k = aggIndex(E.getAggregateOperand()->getType(), E.getIndices());
		int m = nElems(ty);
		for (int i = 0; i < m; i++) { Ins q = n; q.opc = I_MOV; q.dst = n.dst + i; q.a = op(E.getAggregateOperand(), k + i); fn->code.push_back(q); }
		return;
	}
	case Instruction::InsertValue: {
		auto &E = cast<InsertValueInst>(I);
		int k = aggIndex(ty, E.getIndices()), tot = nElems(ty), m = nElems(E.getInsertedValueOperand()->getType());
		for (int i = 0; i < tot; i++) {
			Ins q = n; q.opc = I_MOV; q.dst = n.dst + i;
			q.a = (i >= k && i < k + m) ? op(E.getInsertedValueOperand(), i - k) : op(E.getAggregateOperand(), i);
			fn->code.push_back(q);
		}
		return;
	}
	case Instruction::Br: {
		auto &B = cast<BranchInst>(I);
		if (B.isUnconditional()) { n.opc = I_BR; n.t0 = edge(I.getParent(), B.getSuccessor(0)); }
		else { n.opc = I_CBR; n.a = op(B.getCondition()); n.t0 = edge(I.getParent(), B.getSuccessor(0)); n.t1 = edge(I.getParent(), B.getSuccessor(1)); }
		break;
	}
	case Instruction::Switch: {
		auto &Sw = cast<SwitchInst>(I);
		n.opc = I_SWITCH; n.a = op(Sw.getCondition()); n.w = typeW(Sw.getCondition()->getType());
		n.t0 = edge(I.getParent(), Sw.getDefaultDest());
		std::unordered_map<const BasicBlock *, int> seen;
		for (auto &c : Sw.cases()) {
			auto it = seen.find(c.getCaseSuccessor());
			int e = it != seen.end() ? it->second : (seen[c.getCaseSuccessor()] = edge(I.getParent(), c.getCaseSuccessor()));
			n.cases.push_back({ c.getCaseValue()->getZExtValue(), e });
		}
		break;
	}
	case Instruction::Ret:
		n.opc = I_RET;
		if (I.getNumOperands()) {
			Type *t = I.getOperand(0)->getType();
			for (int i = 0; i < nElems(t); i++) n.ops.push_back(op(I.getOperand(0), i));
		}
		break;
	case Instruction::Unreachable: n.opc = I_UNREACH; break;
	case Instruction::Call: {
		auto &C = cast<CallInst>(I);
		const Function *cf = dyn_cast<Function>(C.getCalledOperand()->stripPointerCasts());
		if (cf && cf->isIntrinsic()) {
			Intrinsic::ID id = cf->getIntrinsicID();
			auto A = [&](int i) { return op(C.getArgOperand(i)); };
			switch (id) {
			case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare:
			case Intrinsic::dbg_value: case Intrinsic::vaend: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl:
			case Intrinsic::prefetch: case Intrinsic::sideeffect: case Intrinsic::dbg_label: case Intrinsic::stackrestore: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
				n.opc = I_NOP; break;
			case Intrinsic::stacksave: n.opc = I_MOV; n.a = constSlot(0); break;
			case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::ssa_copy:
				n.opc = I_MOV; n.a = A(0); break;
			case Intrinsic::objectsize: n.opc = I_MOV; n.a = constSlot(~0ull); break;
			case Intrinsic::is_constant: n.opc = I_MOV; n.a = constSlot(0); break;
			case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: n.opc = I_MEMCPY; n.a = A(0); n.b = A(1); n.c = A(2); break;
			case Intrinsic::memset: case Intrinsic::memset_inline: n.opc = I_MEMSET; n.a = A(0); n.b = A(1); n.c = A(2); break;
			case Intrinsic::smax: n.opc = I_MINMAX; n.sub = C_SGT; n.a = A(0); n.b = A(1); break;
			case Intrinsic::smin: n.opc = I_MINMAX; n.sub = C_SLT; n.a = A(0); n.b = A(1); break;
			case Intrinsic::umax: n.opc = I_MINMAX; n.sub = C_UGT; n.a = A(0); n.b = A(1); break;
			case Intrinsic::umin: n.opc = I_MINMAX; n.sub = C_ULT; n.a = A(0); n.b = A(1); break;
			case Intrinsic::uadd_sat: n.opc = I_SAT; n.sub = 0; n.a = A(0); n.b = A(1); break;
			case Intrinsic::usub_sat: n.opc = I_SAT; n.sub = 1; n.a = A(0); n.b = A(1); break;
			case Intrinsic::sadd_sat: n.opc = I_SAT; n.sub = 2; n.a = A(0); n.b = A(1); break;
			case Intrinsic::ssub_sat: n.opc = I_SAT; n.sub = 3; n.a = A(0); n.b = A(1); break;
			case Intrinsic::uadd_with_overflow: n.opc = I_OVF; n.sub = 0; goto ovf;
			case Intrinsic::usub_with_overflow: n.opc = I_OVF; n.sub = 1; goto ovf;
			case Intrinsic::umul_with_overflow: n.opc = I_OVF; n.sub = 2; goto ovf;
			case Intrinsic::sadd_with_overflow: n.opc = I_OVF; n.sub = 3; goto ovf;
			case Intrinsic::ssub_with_overflow: n.opc = I_OVF; n.sub = 4; goto ovf;
			case Intrinsic::smul_with_overflow: n.opc = I_OVF; n.sub = 5; goto ovf;
			ovf:	n.w = typeW(C.getArgOperand(0)->getType()); n.a = A(0); n.b = A(1); break;
			case Intrinsic::ctpop: n.opc = I_CTPOP; n.a = A(0); break;
			case Intrinsic::ctlz: n.opc = I_CTLZ; n.a = A(0); break;
			case Intrinsic::cttz: n.opc = I_CTTZ; n.a = A(0); break;
			case Intrinsic::abs: n.opc = I_ABS; n.a = A(0); break;
			case Intrinsic::bswap: n.opc = I_BSWAP; n.a = A(0); break;
			case Intrinsic::bitreverse: n.opc = I_BITREV; n.a = A(0); break;
			case Intrinsic::fshl: n.opc = I_FSH; n.sub = 0; n.a = A(0); n.b = A(1); n.c = A(2); break;
			case Intrinsic::fshr: n.opc = I_FSH; n.sub = 1; n.a = A(0); n.b = A(1); n.c = A(2); break;
			case Intrinsic::ptrmask: n.opc = I_BIN; n.sub = B_AND; n.w = 64; n.a = A(0); n.b = A(1); break;
			case Intrinsic::vastart: n.opc = I_VASTART; n.a = A(0); break;
			case Intrinsic::vacopy: n.opc = I_VACOPY; n.a = A(0); n.b = A(1); break;
			case Intrinsic::fabs: n.opc = I_FABS; n.a = A(0); break;
			case Intrinsic::floor: n.opc = I_FMATH; n.sub = 0; n.a = A(0); break;
			case Intrinsic::ceil: n.opc = I_FMATH; n.sub = 1; n.a = A(0); break;
			case Intrinsic::trunc: n.opc = I_FMATH; n.sub = 2; n.a = A(0); break;
			case Intrinsic::rint: case Intrinsic::nearbyint: n.opc = I_FMATH; n.sub = 3; n.a = A(0); break;
			case Intrinsic::round: n.opc = I_FMATH; n.sub = 4; n.a = A(0); break;
			case Intrinsic::trap: case Intrinsic::ubsantrap: n.opc = I_TRAP; break;
			default: n.str = new std::string("intrinsic " + cf->getName().str()); break;
			}
			break;
		}
		n.opc = I_CALL;
		if (cf) n.p = getFn(cf);
		else n.a = op(C.getCalledOperand());
		n.w2 = nElems(ty);
		for (unsigned i = 0; i < C.arg_size(); i++) {
			n.ops.push_back(op(C.getArgOperand(i)));
			n.ws.push_back(typeW(C.getArgOperand(i)->getType()) | (C.getArgOperand(i)->getType()->isFloatingPointTy() ? 0x100 : 0));
			n.byval.push_back(C.isByValArgument(i) ? DL->getTypeAllocSize(C.getParamByValType(i)) : 0);
		}
		break;
	}
	default:
		n.str = new std::string(std::string(I.getOpcodeName()) + " in " + fn->name);
	}
	push();
}

void Lower::run(Fn *f) {
	fn = f;
	Function &F = *f->f;
	f->nargs = F.arg_size();
	f->vararg = F.isVarArg();
	for (Argument &a : F.args()) { slot[&a] = alloc(a.getType()); f->argslot.push_back(slot[&a]); }
	for (BasicBlock &B : F) {
		bbId[&B] = bbCount++;
		for (Instruction &I : B) if (!I.getType()->isVoidTy()) slot[&I] = alloc(I.getType());
	}
	std::map<int, int> start;
	for (BasicBlock &B : F) {
		start[bbId[&B]] = f->code.size();
		for (Instruction &I : B) { if (isa<PHINode>(I)) continue; lower(I); }
	}
	for (Edge &e : f->edges) e.target = start[-2 - e.target];
	f->entrybb = bbId[&F.getEntryBlock()];
	f->lowered = true;
}

// ---------------------------------------------------------------- interpreter

static std::vector<std::string> callStack;

static V fpNeg(V a, int w) { 
	if (!a.s || a.s->kind == SMALL) return bin(B_XOR, w, a, V(1ull << (w - 1)));
	return fromFp(Z3_mk_fpa_neg(Z, toFp(a, w)), w);
}

void callFn(Fn *fn, const std::vector<V> &args, V *ret, int nret, const std::vector<std::pair<V, int>> *va);

static void doCall(Fn *t, const Ins &n, std::vector<V> &R, const V *K, V *ret) {
	auto get = [&](int i) -> const V & { return i >= 0 ? R[i] : K[~i]; };
	std::vector<V> args;
	args.reserve(n.ops.size());
	for (size_t i = 0; i < n.ops.size(); i++) {
		V v = get(n.ops[i]);
		if (n.byval[i]) {
			u64 o = mkobj(n.byval[i], OK_STACK, true, "byval");
			copyBytes(o, concretize(v, 64), n.byval[i]);
			v = V(o);
		}
		args.push_back(v);
	}
	if (t->f && !t->f->isDeclaration()) {
		std::vector<std::pair<V, int>> va;
		size_t np = t->f->arg_size();
		if (t->f->isVarArg())
			for (size_t i = np; i < args.size(); i++) va.push_back({ args[i], n.ws[i] });
		callFn(t, args, ret, n.w2, &va);
		return;
	}
	if (!t->ext) t->ext = findExternal(t->name);
	if (!t->ext) finish("unsupported", "external function " + t->name);
	if (ret) ret[0] = t->ext(args);
	else t->ext(args);
}

V callByAddr(u64 a, std::vector<V> &args) {
	u64 id = a >> 32;
	if (id == 0 || id >= objs.size() || objs[id].kind != OK_FUNC) finish("memerr", "call through bad pointer");
	Fn *t = fnList[objs[id].fid];
	V r;
	if (t->f && !t->f->isDeclaration()) { callFn(t, args, &r, 1, nullptr); return r; }
	if (!t->ext) t->ext = findExternal(t->name);
	if (!t->ext) finish("unsupported", "external function " + t->name);
	return t->ext(args);
}

void callFn(Fn *fn, const std::vector<V> &args, V *ret, int nret, const std::vector<std::pair<V, int>> *va) {
	if (!fn->lowered) { Lower L; L.run(fn); }
	if (++depth > 60000) finish("memerr", "stack overflow in " + fn->name);
	sh->fncov[fn->idx & 0xffff] = 1;
	sh->bbcov[fn->entrybb & 0x3ffff] = 1;
	callStack.push_back(fn->name);
	std::vector<V> R(fn->nslots);
	const V *K = fn->K.data();
	for (int i = 0; i < fn->nargs && i < (int)args.size(); i++) R[fn->argslot[i]] = args[i];
	std::vector<u64> allocas;
	auto get = [&](int i) -> const V & { return i >= 0 ? R[i] : K[~i]; };
	const Ins *code = fn->code.data();
	int ip = 0;
	std::vector<V> tmp;
	auto take = [&](int ei) {
		const Edge &e = fn->edges[ei];
		sh->bbcov[e.bb & 0x3ffff] = 1;
		size_t m = e.moves.size();
		if (m == 1) R[e.moves[0].dst] = get(e.moves[0].src);
		else if (m) {
			tmp.resize(m);
			for (size_t i = 0; i < m; i++) tmp[i] = get(e.moves[i].src);
			for (size_t i = 0; i < m; i++) R[e.moves[i].dst] = tmp[i];
		}
		ip = e.target;
	};
	long local = 0;
	for (;;) {
		const Ins &n = code[ip++];
		if ((++local & 0x3ff) == 0) {
			instrs += 0x400;
			if (instrLimit && instrs > instrLimit) finish("hang", "instruction limit in " + fn->name);
			if ((local & 0xffff) == 0 && (sh->stop || now() > sh->deadline)) finish("stopped", "deadline");
		}
		switch (n.opc) {
		case I_NOP: break;
		case I_MOV: R[n.dst] = get(n.a); break;
		case I_BIN: {
			const V &a = get(n.a), &b = get(n.b);
			if (n.sub >= B_UDIV && n.sub <= B_SREM) {
				if (branch(eqc(b, 0, n.w))) finish("trap", "division by zero in " + fn->name);
				if (n.sub == B_SDIV || n.sub == B_SREM) {
					V o = bin(B_AND, 1, eqc(b, maskw(n.w), n.w), eqc(a, 1ull << (n.w - 1), n.w));
					if (branch(o)) finish("trap", "division overflow in " + fn->name);
				}
			}
			R[n.dst] = bin(n.sub, n.w, a, b);
			break;
		}
		case I_ICMP: R[n.dst] = icmp(n.sub, n.w, get(n.a), get(n.b)); break;
		case I_FCMP: R[n.dst] = fcmp(n.sub, n.w, get(n.a), get(n.b)); break;
		case I_CAST: R[n.dst] = castV(n.sub, get(n.a), n.w, n.w2); break;
		case I_SELECT: R[n.dst] = selectV(get(n.c), get(n.a), get(n.b), n.w, n.fp); break;
		case I_LOAD: case I_LOADAGG: {
			V a = get(n.a);
			if (n.opc == I_LOADAGG && n.b) a = bin(B_ADD, 64, a, V((u64)n.b));
			V r = load(a, n.imm, n.fp);
			if (n.w == 1) r = castV(X_TRUNC, r, 8, 1);
			else if ((u64)n.w < n.imm * 8) r = castV(X_TRUNC, r, n.imm * 8, n.w);
			R[n.dst] = r;
			break;
		}
		case I_STORE: {
			V a = get(n.a);
			if (n.b) a = bin(B_ADD, 64, a, V((u64)n.b));
			V v = get(n.c);
			if ((u64)n.w < n.imm * 8 && v.s) v = castV(X_ZEXT, v, n.w, n.imm * 8);
			store(a, n.imm, v, n.fp);
			break;
		}
		case I_GEP: {
			V a = get(n.a);
			if (!a.s) a.c += n.imm; else a = bin(B_ADD, 64, a, V(n.imm));
			for (size_t i = 0; i < n.gep.size(); i++) {
				V x = get(n.gep[i].first);
				int w = n.ws[i];
				if (!x.s && !a.s) { a.c += (u64)(sx(x.c, w) * n.gep[i].second); continue; }
				if (w < 64) x = castV(X_SEXT, x, w, 64);
				if (n.gep[i].second != 1) x = bin(B_MUL, 64, x, V((u64)n.gep[i].second));
				a = bin(B_ADD, 64, a, x);
			}
			R[n.dst] = a;
			break;
		}
		case I_ALLOCA: {
			u64 cnt = concretize(get(n.a), 64);
			u64 o = mkobj(n.imm * cnt, OK_STACK, true);
			objs[o >> 32].name = n.str;
			allocas.push_back(o);
			R[n.dst] = V(o);
			break;
		}
		case I_BR: take(n.t0); break;
		case I_CBR: take(branch(get(n.a)) ? n.t0 : n.t1); break;
		case I_SWITCH: {
			V v = get(n.a);
			if (v.s) {
				// group cases by destination to limit forking
				std::map<int, std::vector<u64>> dest;
				for (auto &c : n.cases) dest[c.second].push_back(c.first);
				bool done = false;
				for (auto &d : dest) {
					V cnd(0);
					for (u64 k : d.second) cnd = bin(B_OR, 1, cnd, eqc(v, k, n.w));
					if (branch(cnd)) { take(d.first); done = true; break; }
				}
				if (!done) take(n.t0);
				break;
			}
			int e = n.t0;
			for (auto &c : n.cases) if (c.first == (v.c & maskw(n.w))) { e = c.second; break; }
			take(e);
			break;
		}
		case I_RET:
			if (ret) for (int i = 0; i < nret && i < (int)n.ops.size(); i++) ret[i] = get(n.ops[i]);
			for (u64 o : allocas) {
				Obj &ob = objs[o >> 32];
				ob.dead = 1;
				free(ob.data); ob.data = nullptr;
				if (ob.st) { free(ob.st); ob.st = nullptr; }
				if (ob.sb) { free(ob.sb); ob.sb = nullptr; }
			}
			instrs += local & 0x3ff;
			depth--;
			callStack.pop_back();
			return;
		case I_UNREACH: finish("trap", "unreachable in " + fn->name);
		case I_TRAP: finish("trap", "trap in " + fn->name);
		case I_CALL: {
			Fn *t = (Fn *)n.p;
			if (!t) {
				u64 a = concretize(get(n.a), 64);
				u64 id = a >> 32;
				if (id == 0 || id >= objs.size() || objs[id].kind != OK_FUNC) finish("memerr", "call through bad pointer in " + fn->name);
				t = fnList[objs[id].fid];
			}
			V rv[8];
			doCall(t, n, R, K, rv);
			if (n.dst >= 0) {
				for (int i = 0; i < n.w2 && i < 8; i++) R[n.dst + i] = rv[i];
				if (n.w2 == 1 && n.w && n.w < 64 && !R[n.dst].s) R[n.dst].c &= maskw(n.w);
			}
			break;
		}
		case I_FNEG: R[n.dst] = fpNeg(get(n.a), n.w); break;
		case I_FABS: {
			V a = get(n.a);
			if (a.s && a.s->kind == AST) R[n.dst] = fromFp(Z3_mk_fpa_abs(Z, toFp(a, n.w)), n.w);
			else R[n.dst] = bin(B_AND, n.w, a, V(maskw(n.w - 1)));
			break;
		}
		case I_FMATH: {
			V a = get(n.a);
			if (!a.s && n.w == 64) {
				double d; memcpy(&d, &a.c, 8);
				d = n.sub == 0 ? floor(d) : n.sub == 1 ? ceil(d) : n.sub == 2 ? trunc(d) : n.sub == 3 ? rint(d) : round(d);
				u64 x; memcpy(&x, &d, 8); R[n.dst] = V(x);
			} else {
				Z3_ast rm = n.sub == 0 ? Z3_mk_fpa_rtn(Z) : n.sub == 1 ? Z3_mk_fpa_rtp(Z) : n.sub == 2 ? Z3_mk_fpa_rtz(Z) : n.sub == 3 ? Z3_mk_fpa_rne(Z) : Z3_mk_fpa_rna(Z);
				R[n.dst] = fromFp(Z3_mk_fpa_round_to_integral(Z, rm, toFp(a, n.w)), n.w);
			}
			break;
		}
		case I_MEMCPY: {
			u64 len = concretize(get(n.c), 64), d = concretize(get(n.a), 64), s = concretize(get(n.b), 64);
			copyBytes(d, s, len);
			break;
		}
		case I_MEMSET: {
			u64 len = concretize(get(n.c), 64), d = concretize(get(n.a), 64);
			V v = get(n.b);
			if (len) checkRange(d, len, "write");
			for (u64 i = 0; i < len; i++) store(V(d + i), 1, v);
			break;
		}
		case I_MINMAX: R[n.dst] = selectV(icmp(n.sub, n.w, get(n.a), get(n.b)), get(n.a), get(n.b), n.w); break;
		case I_SAT: {
			V a = get(n.a), b = get(n.b);
			if (n.sub == 0) { V r = bin(B_ADD, n.w, a, b); R[n.dst] = selectV(icmp(C_ULT, n.w, r, a), V(maskw(n.w)), r, n.w); }
			else if (n.sub == 1) R[n.dst] = selectV(icmp(C_ULT, n.w, a, b), V(0), bin(B_SUB, n.w, a, b), n.w);
			else finish("unsupported", "signed saturating arithmetic");
			break;
		}
		case I_OVF: {
			V a = get(n.a), b = get(n.b), r, o;
			int w = n.w;
			switch (n.sub) {
			case 0: r = bin(B_ADD, w, a, b); o = icmp(C_ULT, w, r, a); break;
			case 1: r = bin(B_SUB, w, a, b); o = icmp(C_ULT, w, a, b); break;
			case 2: r = bin(B_MUL, w, a, b);
				if (!a.s && !b.s) o = V(((unsigned __int128)(a.c & maskw(w)) * (b.c & maskw(w))) >> w ? 1 : 0);
				else o = fromAst(Z3_mk_not(Z, Z3_mk_bvmul_no_overflow(Z, toAst(a, w), toAst(b, w), false)), 1);
				break;
			case 3: r = bin(B_ADD, w, a, b);
				o = bin(B_AND, 1, icmp(C_SLT, w, bin(B_XOR, w, a, r), V(0)), icmp(C_SLT, w, bin(B_XOR, w, b, r), V(0))); break;
			case 4: r = bin(B_SUB, w, a, b);
				o = bin(B_AND, 1, icmp(C_SLT, w, bin(B_XOR, w, a, b), V(0)), icmp(C_SLT, w, bin(B_XOR, w, a, r), V(0))); break;
			case 5: r = bin(B_MUL, w, a, b);
				if (!a.s && !b.s) { __int128 x = (__int128)sx(a.c, w) * sx(b.c, w); o = V(x != (__int128)sx((u64)x, w) ? 1 : 0); }
				else { Z3_ast p = toAst(a, w), q = toAst(b, w); Z3_ast c[2] = { Z3_mk_bvmul_no_overflow(Z, p, q, true), Z3_mk_bvmul_no_underflow(Z, p, q) };
					o = fromAst(Z3_mk_not(Z, Z3_mk_and(Z, 2, c)), 1); }
				break;
			}
			R[n.dst] = r; R[n.dst + 1] = o;
			break;
		}
		case I_CTPOP: case I_CTLZ: case I_CTTZ: {
			V a = get(n.a);
			if (!a.s) {
				u64 x = a.c & maskw(n.w);
				u64 r = n.opc == I_CTPOP ? __builtin_popcountll(x) : n.opc == I_CTLZ ? (x ? __builtin_clzll(x) - (64 - n.w) : n.w) : (x ? __builtin_ctzll(x) : n.w);
				R[n.dst] = V(r);
			} else {
				V r(n.opc == I_CTPOP ? 0 : n.w);
				for (int i = 0; i < n.w; i++) {
					int bit = n.opc == I_CTLZ ? i : n.w - 1 - i;
					V b = castV(X_TRUNC, bin(B_LSHR, n.w, a, V(bit)), n.w, 1);
					if (n.opc == I_CTPOP) r = bin(B_ADD, n.w, r, castV(X_ZEXT, b, 1, n.w));
					else r = selectV(b, V(n.opc == I_CTLZ ? n.w - 1 - bit : bit), r, n.w);
				}
				R[n.dst] = r;
			}
			break;
		}
		case I_ABS: { V a = get(n.a); R[n.dst] = selectV(icmp(C_SLT, n.w, a, V(0)), bin(B_SUB, n.w, V(0), a), a, n.w); break; }
		case I_BSWAP: {
			V a = get(n.a), r(0);
			for (int i = 0; i < n.w; i += 8)
				r = bin(B_OR, n.w, r, bin(B_SHL, n.w, bin(B_AND, n.w, bin(B_LSHR, n.w, a, V(i)), V(0xff)), V(n.w - 8 - i)));
			R[n.dst] = r;
			break;
		}
		case I_FSH: {
			V a = get(n.a), b = get(n.b);
			u64 k = concretize(get(n.c), n.w) % n.w;
			if (k == 0) R[n.dst] = n.sub ? b : a;
			else if (n.sub == 0) R[n.dst] = bin(B_OR, n.w, bin(B_SHL, n.w, a, V(k)), bin(B_LSHR, n.w, b, V(n.w - k)));
			else R[n.dst] = bin(B_OR, n.w, bin(B_SHL, n.w, a, V(n.w - k)), bin(B_LSHR, n.w, b, V(k)));
			break;
		}
		case I_VASTART: {
			u64 ap = concretize(get(n.a), 64);
			size_t cnt = va ? va->size() : 0;
			u64 area = mkobj(cnt * 8, OK_STACK, false, "varargs");
			allocas.push_back(area);
			for (size_t i = 0; i < cnt; i++) {
				V v = (*va)[i].first;
				int w = (*va)[i].second & 0xff;
				if (!((*va)[i].second & 0x100) && w < 64 && v.s) v = castV(X_ZEXT, v, w, 64);
				store(V(area + i * 8), 8, v);
			}
			store(V(ap), 4, V(48));
			store(V(ap + 4), 4, V(304));
			store(V(ap + 8), 8, V(area));
			store(V(ap + 16), 8, V(0));
			break;
		}
		case I_VACOPY: copyBytes(concretize(get(n.a), 64), concretize(get(n.b), 64), 24); break;
		default:
			finish("unsupported", n.str ? *n.str : "instruction in " + fn->name);
		}
	}
}

// ---------------------------------------------------------------- results

static std::string jsonStr(const std::string &s) {
	std::string r = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r + "\"";
}

static int outFd = -1;
static bool inFinish = false;
static std::string scenarioName;

void finish(const char *status, const std::string &detail, V code) {
	if (inFinish) _exit(3);
	// exit status must be concrete
	u64 ec = code.s ? concretize(code, 32) : code.c;
	inFinish = true;
	std::vector<Z3_ast> terms;
	std::map<void *, int> seen;
	std::ostringstream o;
	std::string det = detail;
	if (strcmp(status, "exit") != 0) {
		det += " [";
		int k = 0;
		for (int i = (int)callStack.size() - 1; i >= 0 && k < 12; i--, k++) det += (k ? "<" : "") + callStack[i];
		det += "]";
	}
	o << "{\"status\":" << jsonStr(status) << ",\"detail\":" << jsonStr(det) << ",\"code\":" << (int)(int8_t)0 + (long)(ec & 0xff)
	  << ",\"instrs\":" << instrs << ",\"files\":{";
	bool first = true;
	for (auto &f : filetab) {
		if (f.mode != 1 || !f.data) continue;
		if (!first) o << ",";
		first = false;
		o << jsonStr(f.name) << ":[";
		for (size_t i = 0; i < f.data->size(); i++) {
			if (i) o << ",";
			V v = (*f.data)[i];
			if (v.s && v.s->kind == SMALL) {
				Var &x = vars[v.s->var];
				u64 fv = 0; bool have = false, same = true;
				for (int k = 0; k < x.n; k++) if (x.alive[k]) { if (!have) { fv = v.s->tab[k]; have = true; } else if (fv != v.s->tab[k]) same = false; }
				if (same) v = V(fv);
			}
			if (!v.s) { o << (v.c & 0xff); continue; }
			Z3_ast a = toAst(v, 8);
			auto it = seen.find((void *)a);
			int idx;
			if (it == seen.end()) { idx = terms.size(); terms.push_back(a); seen[(void *)a] = idx; }
			else idx = it->second;
			o << "-" << idx + 1;
		}
		o << "]";
	}
	o << "},\"dom\":{";
	first = true;
	for (auto &x : vars) {
		if (!first) o << ",";
		first = false;
		o << jsonStr(x.name) << ":[";
		bool f2 = true;
		for (int k = 0; k < x.n; k++) if (x.alive[k]) { if (!f2) o << ","; f2 = false; o << (int)x.vals[k]; }
		o << "]";
	}
	o << "},\"cur\":{";
	first = true;
	for (auto &x : vars) { if (!first) o << ","; first = false; o << jsonStr(x.name) << ":" << (int)x.vals[x.cur]; }
	o << "},\"events\":[";
	for (size_t i = 0; i < events.size(); i++) o << (i ? "," : "") << jsonStr(events[i]);
	o << "],\"nterms\":" << terms.size();
	if (!terms.empty() || !pc.empty()) {
		std::vector<Z3_ast> conj;
		conj.push_back(pcAst());
		for (size_t i = 0; i < terms.size(); i++) {
			std::string nm = "out!" + std::to_string(i);
			Z3_ast c = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), Z3_mk_bv_sort(Z, 8));
			conj.push_back(Z3_mk_eq(Z, c, terms[i]));
		}
		Z3_ast all = Z3_mk_and(Z, conj.size(), conj.data());
		Z3_string s = Z3_benchmark_to_smtlib_string(Z, "", "", "unknown", "", 0, nullptr, all);
		o << ",\"smt\":" << jsonStr(s);
	}
	o << "}\n";
	std::string line = o.str();
	flock(outFd, LOCK_EX);
	size_t done = 0;
	while (done < line.size()) {
		ssize_t r = write(outFd, line.data() + done, line.size() - done);
		if (r <= 0) { sh->stop = 2; break; }
		done += r;
	}
	flock(outFd, LOCK_UN);
	__sync_fetch_and_add(&sh->paths, 1);
	__sync_fetch_and_add(&sh->instrs, instrs);
	if (ownsSlot) __sync_fetch_and_sub(&sh->active, 1);
	_exit(0);
}

// ---------------------------------------------------------------- scenario

// Scenario file (line oriented):
//   var NAME BITS V0 V1 ...            small variable and its domain
//   arg TOK TOK ...                    one argv element (bytes)
//   file NAME TOK TOK ...              one source file
//   nowrite NAME                       fopen for writing fails
//   unreadable NAME                    opens, but reading fails (a directory)
//   writefail VAR                      writes beyond VAR bytes of a file fail
//   constraint SMT2-TEXT               assumption over the variables (single line)
//   again                              the following args are of a further run, after one that exits 0
//   limit N                            instruction limit per path
// File names have % and blanks written as %25 and %20.
// TOK: decimal byte, or @VAR:t0,t1,... (byte as a function of the var's i-th domain value)
struct SFile { std::string name; std::vector<V> data; };
std::map<std::string, std::vector<V>> inputFiles;
std::set<std::string> nowrite;
std::set<std::string> unreadable;
bool haveWriteLimit = false;
V writeLimit;
static std::vector<std::vector<std::vector<V>>> argvs(1);   // per run of the program
static size_t runNo = 0;
static std::vector<std::string> constraints;
static std::map<std::string, int> varIdx;

static V parseTok(const std::string &t) {
	if (t[0] != '@') return V((u64)atoi(t.c_str()) & 0xff);
	size_t c = t.find(':');
	int x = varIdx.at(t.substr(1, c - 1));
	u64 *tab = newTab(x);
	std::stringstream ss(t.substr(c + 1));
	std::string e;
	int i = 0;
	while (std::getline(ss, e, ',')) { if (i < vars[x].n) tab[i++] = (u64)atoi(e.c_str()) & 0xff; }
	return mkSmall(x, 8, tab);
}

static std::string unquote(const std::string &s) {
	std::string r;
	for (size_t i = 0; i < s.size(); i++) {
		if (s[i] == '%' && i + 2 < s.size()) { r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
		else r += s[i];
	}
	return r;
}

static void loadScenario(const char *path) {
	std::ifstream in(path);
	std::string line;
	while (std::getline(in, line)) {
		std::stringstream ss(line);
		std::string k;
		ss >> k;
		if (k == "var") {
			Var v;
			ss >> v.name >> v.bits;
			int x;
			while (ss >> x) v.vals.push_back(x);
			v.n = v.vals.size();
			v.alive.assign(v.n, 1);
			v.nalive = v.n;
			v.cur = 0;
			v.entangled = false;
			v.dirty = v.n != (1 << v.bits);
			v.ast = Z3_mk_const(Z, Z3_mk_string_symbol(Z, v.name.c_str()), Z3_mk_bv_sort(Z, v.bits));
			varIdx[v.name] = vars.size();
			vars.push_back(v);
		} else if (k == "arg") {
			std::vector<V> a;
			std::string t;
			while (ss >> t) a.push_back(parseTok(t));
			argvs.back().push_back(a);
		} else if (k == "file") {
			std::string nm, t;
			ss >> nm;
			std::vector<V> &a = inputFiles[unquote(nm)];
			while (ss >> t) a.push_back(parseTok(t));
		} else if (k == "nowrite") { std::string nm; ss >> nm; nowrite.insert(unquote(nm)); }
		else if (k == "unreadable") { std::string nm; ss >> nm; unreadable.insert(unquote(nm)); }
		else if (k == "writefail") {        // writes beyond this many bytes of a file fail
			std::string nm; ss >> nm;
			int x = varIdx.at(nm);
			u64 *tab = newTab(x);
			for (int i = 0; i < vars[x].n; i++) tab[i] = vars[x].vals[i];
			writeLimit = mkSmall(x, 64, tab);
			haveWriteLimit = true;
		}
		else if (k == "again") argvs.emplace_back();
		else if (k == "limit") ss >> instrLimit;
		else if (k == "constraint") constraints.push_back(line.substr(11));
	}
}

static void callMain() {
	Function *mf = M->getFunction("main");
	if (!mf) finish("unsupported", "no main");
	std::vector<std::vector<V>> &argvV = argvs[runNo];
	int argc = argvV.size();
	u64 av = mkobj((argc + 1) * 8, OK_GLOBAL, false, "argv");
	for (int i = 0; i < argc; i++) {
		u64 s = mkobj(argvV[i].size() + 1, OK_GLOBAL, false, "arg");
		for (size_t k = 0; k < argvV[i].size(); k++) store(V(s + k), 1, argvV[i][k]);
		store(V(av + 8 * i), 8, V(s));
	}
	std::vector<V> args { V(argc), V(av) };
	V ret;
	callFn(getFn(mf), args, &ret, 1, nullptr);
	std::vector<V> ea { ret };
	findExternal("exit")(ea);
}

// memory before the program starts, to start it again from
static std::vector<std::pair<u64, std::vector<u8>>> initial;
bool moreRuns() { return runNo + 1 < argvs.size(); }
void nextRun() {
	runNo++;
	for (auto &i : initial) {
		Obj &o = objs[i.first];
		memcpy(o.data, i.second.data(), o.size);
		if (o.st) memset(o.st, 0, o.size);
	}
	callStack.clear();
	depth = 0;
	callMain();
	_exit(4);
}

static void runMain() {
	// assumptions
	for (auto &c : constraints) {
		std::vector<Z3_symbol> names;
		std::vector<Z3_func_decl> decls;
		for (auto &x : vars) {
			names.push_back(Z3_mk_string_symbol(Z, x.name.c_str()));
			decls.push_back(Z3_get_app_decl(Z, Z3_to_app(Z, x.ast)));
		}
		std::string txt = "(assert " + c + ")";
		Z3_ast_vector v = Z3_parse_smtlib2_string(Z, txt.c_str(), 0, nullptr, nullptr, names.size(), names.data(), decls.data());
		if (Z3_ast_vector_size(Z, v) != 1) finish("unsupported", "constraint");
		extern void assumeTop(Z3_ast);
		assumeTop(Z3_ast_vector_get(Z, v, 0));
	}
	if (argvs.size() > 1)
		for (u64 i = 1; i < objs.size(); i++)
			if (objs[i].kind == OK_GLOBAL && objs[i].data)
				initial.push_back({ i, std::vector<u8>(objs[i].data, objs[i].data + objs[i].size) });
	callMain();
}

static void *threadMain(void *) {
	for (Fn *f : fnList) if (!f->f->isDeclaration() && !f->lowered) { Lower L; L.run(f); }
	runMain();
	return nullptr;
}

int main(int argc, char **argv) {
	// symx MODULE.bc SCENARIO OUT nproc maxpaths timeout
	if (argc < 7) { fprintf(stderr, "usage: symx module scenario out nproc maxpaths timeout\n"); return 2; }
	sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	sh->maxactive = atoi(argv[4]);
	sh->maxpaths = atol(argv[5]);
	double t0 = now();
	sh->deadline = t0 + atof(argv[6]);
	Z3_config cfg = Z3_mk_config();
	Z = Z3_mk_context(cfg);
	Z3_set_ast_print_mode(Z, Z3_PRINT_SMTLIB2_COMPLIANT);
	SMDiagnostic err;
	M = parseIRFile(argv[1], err, LC);
	if (!M) { err.print("symx", errs()); return 2; }
	DL = &M->getDataLayout();
	outFd = open(argv[3], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
	if (outFd < 0) { perror(argv[3]); return 2; }
	// guest recursion uses the host stack
	struct rlimit rl = { RLIM_INFINITY, RLIM_INFINITY };
	(void)rl;
	objs.resize(1);      // object 0: null
	objs[0].kind = 0; objs[0].dead = 1; objs[0].size = 0;
	instrLimit = 30000000;
	loadScenario(argv[2]);
	coreInit();
	initLibc();
	initGlobals();
	prctl(PR_SET_CHILD_SUBREAPER, 1);
	sh->active = 1;
	pid_t pid = fork();
	if (pid == 0) {
		setpgid(0, 0);
		ownsSlot = true;
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		// run on a large stack
		size_t sz = 4ul << 30;
		void *stk = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0);
		static ucontext_t a, b;
		getcontext(&b);
		b.uc_stack.ss_sp = stk; b.uc_stack.ss_size = sz; b.uc_link = &a;
		makecontext(&b, (void (*)())threadMain, 0);
		swapcontext(&a, &b);
		_exit(4);
	}
	setpgid(pid, pid);
	bool crashed = false;
	int st;
	for (;;) {
		pid_t r = waitpid(-1, &st, WNOHANG);
		if (r < 0) { if (errno == EINTR) continue; break; }
		if (r == 0) {
			if (now() > sh->deadline + 5) { sh->stop = 3; kill(-pid, SIGKILL); }
			usleep(2000);
			continue;
		}
		if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { crashed = true; sh->stop = 4; __sync_fetch_and_sub(&sh->active, 1); }
	}
	bool complete = !crashed && !sh->stop && sh->paths == sh->forks + 1;
	// summary line on stdout
	std::string fnames;
	long nbb = 0;
	// names of functions are known by index only if lowered before forking; recompute order by module walk
	for (int i = 0; i < bbCount; i++) nbb += sh->bbcov[i & 0x3ffff];
	printf("{\"complete\":%s,\"paths\":%ld,\"forks\":%ld,\"instrs\":%ld,\"queries\":%ld,\"solver_s\":%.3f,\"unknowns\":%ld,\"concretised\":%ld,\"stop\":%d,\"crashed\":%s,\"wall_s\":%.3f,\"functions\":[",
		complete ? "true" : "false", sh->paths, sh->forks, sh->instrs, sh->queries, sh->solver_us / 1e6, sh->unknowns, sh->concretised, sh->stop, crashed ? "true" : "false", now() - t0);
	bool first = true;
	for (size_t i = 0; i < fnList.size(); i++) if (sh->fncov[i]) { printf("%s%s", first ? "" : ",", jsonStr(fnList[i]->name).c_str()); first = false; }
	printf("]}\n");
	return 0;
}
