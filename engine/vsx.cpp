// vsx: a path-forking symbolic executor for LLVM IR (see DESIGN.md)
#include <cfloat>
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <fstream>
#include <sstream>
#include <iostream>
#include <deque>
#include <map>
#include <set>
#include <cmath>
#include <cfenv>
#include <sys/resource.h>
#include <unistd.h>

using namespace llvm;

// ---------------------------------------------------------------- values
struct V { Ex* e = nullptr; u64 c = 0; V() {} V(u64 c_) : c(c_) {} V(Ex* e_) : e(e_) {} };
static inline Ex* toEx(const V& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline V fromEx(Ex* e) { if (e->op == CONST && e->w <= 64) return V((u64)e->c); return V(e); }
static inline bool conc(const V& v) { return !v.e; }
static u128 cval(const V& v) { return v.e ? v.e->c : v.c; }
static inline bool isConst(const V& v) { return !v.e || v.e->op == CONST; }

// ---------------------------------------------------------------- memory
static const u64 BASE = 0x100000000000ULL, STRIDE = 1ULL << 26, MAXOBJ = 1ULL << 25;
static const u64 FBASE = 0x7000000000ULL;
struct Obj {
	u64 size = 0;
	std::vector<uint8_t> b;
	std::vector<Ex*> s;
	bool ro = false;
	uint8_t kind = 0; // 0 stack 1 heap 2 global
	const char* name = "";
};
typedef std::shared_ptr<Obj> ObjP;
struct Mem {
	static const int C = 64;
	struct Chunk { ObjP o[C]; };
	std::vector<std::shared_ptr<Chunk>> ch;
	u64 n = 0;
	u64 add(ObjP o) {
		if (n % C == 0) ch.push_back(std::make_shared<Chunk>());
		auto& c = ch[n / C];
		if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
		c->o[n % C] = std::move(o);
		return BASE + (n++) * STRIDE;
	}
	const Obj* get(u64 id) const { return id < n ? ch[id / C]->o[id % C].get() : nullptr; }
	Obj* wr(u64 id) {
		auto& c = ch[id / C];
		if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
		auto& o = c->o[id % C];
		if (o.use_count() > 1) o = std::make_shared<Obj>(*o);
		return o.get();
	}
	void kill(u64 id) {
		auto& c = ch[id / C];
		if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
		c->o[id % C].reset();
	}
};

// ---------------------------------------------------------------- decoded code
struct Opn { int slot = -1; int n = 1; std::vector<V>* cst = nullptr; };
struct Inst {
	Instruction* I;
	unsigned op;
	int dst = -1, dn = 0;
	std::vector<Opn> ops;
	unsigned w = 0, w2 = 0; // result width, operand width
	u64 aux = 0, aux2 = 0;
	std::vector<std::pair<unsigned, u64>> gep; // (operand index, scale)
	int hook = -1; // hook index for direct calls
	struct Func* callee = nullptr;
	bool executed = false;
	Intrinsic::ID iid = Intrinsic::not_intrinsic;
};
struct Func {
	Function* F = nullptr;
	std::string name;
	bool decoded = false;
	std::vector<Inst> code;
	std::vector<BasicBlock*> blocks;
	std::vector<int> blockStart;
	std::vector<int> firstNonPhi;
	std::map<BasicBlock*, int> bidx;
	std::vector<int> argSlot, argN;
	int nslots = 0;
	int hook = -1;
	u64 addr = 0;
	u64 calls = 0;
};
struct Frame {
	Func* f;
	int pc, block, prev;
	std::vector<V> regs;
	std::vector<u64> allocas;
};
typedef std::shared_ptr<Frame> FrameP;

struct Input { std::string name; Ex* e; u64 lo; bool conc; unsigned w; };
struct State {
	std::vector<FrameP> st;
	Mem mem;
	std::vector<Ex*> pc, imp;
	std::shared_ptr<Model> model;
	std::vector<Input> inputs;
	std::vector<V> obs;
	std::vector<std::pair<u64, u64>> excTI;   // exception object -> typeinfo
	std::vector<u64> caught;
	int uncaught = 0;
	std::map<u64, V> globalsKV;
	u64 steps = 0;
	u64 asserts = 0;
	std::set<std::string> reached;
	std::map<std::string, u64> drawCount;
};
typedef std::unique_ptr<State> StateP;

// ---------------------------------------------------------------- globals
static LLVMContext C;
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static std::unordered_map<const Value*, u64> gaddr;
static std::vector<Func*> funcByIdx;
static std::unordered_map<const Function*, Func*> funcs;
static std::vector<StateP> work;
static u64 maxSteps = 40000000, maxPaths = 100000000, maxViol = 3;
static double timeLimit = 800, startT;
static u64 memLimitMB = 6000;
static int caseArg = 0;
static bool trace = false;
static std::string srcPrefix = "/repo/";

struct Stats {
	u64 paths = 0, cutAssume = 0, limitCut = 0, instr = 0, forks = 0, asserts = 0, symAsserts = 0, calls = 0, symBranches = 0, infeasible = 0;
} stats;
struct Viol { std::string kind, label, where; std::vector<std::pair<std::string, u64>> inputs; };
static std::vector<Viol> viols;
static std::set<std::string> violKeys;
struct Trace { std::vector<u64> inputs; std::vector<std::pair<u64,u64>> obs; };
static std::vector<Trace> traces;
static u64 maxTraces = 12;
static std::map<std::string, u64> reachCount;
static std::vector<std::string> incomplete;
static std::set<std::string> stubsUsed;

struct PathEnd {};
static void addIncomplete(const std::string& s) { for (auto& x : incomplete) if (x == s) return; if (incomplete.size() < 20) incomplete.push_back(s); }

static std::string where(State& s) {
	std::string r;
	int n = 0;
	for (int i = (int)s.st.size() - 1; i >= 0 && n < 6; i--) {
		Frame& f = *s.st[i];
		Instruction* I = f.f->code[f.pc].I;
		std::string loc;
		if (auto* dl = I->getDebugLoc().get()) { loc = dl->getFilename().str(); auto p = loc.rfind('/'); if (p != std::string::npos) loc = loc.substr(p + 1); loc += ":" + std::to_string(dl->getLine()); }
		r += (r.empty() ? "" : " < ") + demangle(f.f->name).substr(0, 60) + "@" + loc;
		n++;
	}
	return r;
}

// input variables are shared between paths (same position, name and width)
static Ex* inputVar(State& s, const std::string& name, unsigned w) {
	static std::map<std::tuple<size_t, std::string, unsigned>, Ex*> tab;
	auto& e = tab[{s.inputs.size(), name, w}];
	if (!e) e = mkVar(name, w);
	return e;
}
// ---------------------------------------------------------------- solver glue
static void slice(State& s, Ex* q, std::vector<Ex*>& out) {
	std::vector<bool> in(allVars.size(), false);
	for (auto v : *q->vars) in[v] = true;
	std::vector<bool> used(s.pc.size(), false);
	bool ch = true;
	out.push_back(q);
	while (ch) {
		ch = false;
		for (size_t i = 0; i < s.pc.size(); i++) if (!used[i]) {
			bool hit = false;
			for (auto v : *s.pc[i]->vars) if (in[v]) { hit = true; break; }
			if (!hit) continue;
			used[i] = true; ch = true;
			out.push_back(s.pc[i]);
			for (auto v : *s.pc[i]->vars) in[v] = true;
		}
	}
}
// is pc && q satisfiable? returns the new full model
static Res query(State& s, Ex* q, std::shared_ptr<Model>& m) {
	if (isFalse(q)) return UNSAT;
	std::vector<Ex*> cons;
	slice(s, q, cons);
	std::vector<std::pair<uint32_t, u128>> out;
	Res r = solve(cons, out);
	if (r == SAT) {
		m = std::make_shared<Model>();
		m->val = s.model->val;
		if (m->val.size() < allVars.size()) m->val.resize(allVars.size());
		for (auto& [v, x] : out) m->val[v] = x;
	}
	return r;
}
static void addPC(State& s, Ex* e) {
	if (isTrue(e)) return;
	if (e->op == AND && e->w == 1) { addPC(s, e->k[0]); addPC(s, e->k[1]); return; }
	if (e->op == XOR && isC(e->k[1]) && e->k[0]->op == OR) { addPC(s, mkNot(e->k[0]->k[0])); addPC(s, mkNot(e->k[0]->k[1])); return; }
	for (Ex* x : s.pc) if (x == e) return;
	s.pc.push_back(e);
}
static int known(State& s, Ex* c) { // 1 true, 0 false, -1 unknown
	if (isC(c)) return (int)c->c;
	Ex* n = mkNot(c);
	for (Ex* x : s.pc) { if (x == c) return 1; if (x == n) return 0; }
	for (Ex* x : s.imp) { if (x == c) return 1; if (x == n) return 0; }
	if (c->op == AND) { int a = known(s, c->k[0]), b = known(s, c->k[1]); if (a == 0 || b == 0) return 0; if (a == 1 && b == 1) return 1; }
	if (c->op == OR) { int a = known(s, c->k[0]), b = known(s, c->k[1]); if (a == 1 || b == 1) return 1; if (a == 0 && b == 0) return 0; }
	if (c->op == XOR && isC(c->k[1])) { int a = known(s, c->k[0]); return a < 0 ? -1 : 1 - a; }
	return -1;
}
static bool debugForks = false;
static std::map<std::string, u64> forkSites;
static StateP cloneState(State& s) {
	auto n = std::make_unique<State>(s);
	// top frame must be private to each state
	if (!n->st.empty()) n->st.back() = std::make_shared<Frame>(*n->st.back());
	return n;
}
// choose a direction for cond in the current state; fork the other one (which re-executes the instruction)
static bool decide(State& s, Ex* c) {
	int k = known(s, c);
	if (k >= 0) return k;
	bool b = s.model->eval(c) != 0;
	Ex* other = b ? mkNot(c) : c;
	std::shared_ptr<Model> m;
	stats.symBranches++;
	Res r = query(s, other, m);
	if (r == SAT) {
		auto n = cloneState(s);
		addPC(*n, other);
		n->model = m;
		work.push_back(std::move(n));
		stats.forks++;
		if (debugForks) forkSites[where(s)]++;
	} else if (r == UNK) {
		addIncomplete("solver could not decide a branch at " + where(s));
	}
	// facts which follow from the path condition are kept apart, so that equal queries of different paths are answered once
	if (r == UNSAT) s.imp.push_back(b ? c : mkNot(c));
	else addPC(s, b ? c : mkNot(c));
	return b;
}
static u64 concretize(State& s, const V& v, unsigned w) {
	if (!v.e) return v.c;
	if (isC(v.e)) return (u64)v.e->c;
	u128 x = s.model->eval(v.e);
	Ex* eq = mkEq(v.e, mkConst(x, w));
	if (!decide(s, eq)) abort();
	return (u64)x;
}

static std::vector<std::pair<std::string, u64>> inputValues(State& s, Model& m) {
	std::vector<std::pair<std::string, u64>> r;
	for (auto& i : s.inputs) {
		if (i.conc) { r.push_back({i.name, i.lo}); continue; }
		u128 x = m.eval(i.e);
		if (i.w > 64) { r.push_back({i.name, (u64)x}); r.push_back({i.name + ".hi", (u64)(x >> 64)}); }
		else r.push_back({i.name, (u64)x + i.lo});
	}
	return r;
}
static void report(State& s, const std::string& kind, const std::string& label, Model& m) {
	std::string key = kind + "|" + label;
	if (violKeys.count(key)) return;
	violKeys.insert(key);
	viols.push_back({kind, label, where(s), inputValues(s, m)});
	if (trace) fprintf(stderr, "VIOL %s %s at %s\n", kind.c_str(), label.c_str(), where(s).c_str());
}
[[noreturn]] static void fault(State& s, const std::string& kind, const std::string& msg) {
	report(s, kind, msg, *s.model);
	throw PathEnd();
}

// ---------------------------------------------------------------- memory access
static V loadObj(const Obj* o, u64 off, unsigned bytes, unsigned w) {
	bool sym = false;
	if (!o->s.empty()) for (unsigned i = 0; i < bytes; i++) if (o->s[off + i]) { sym = true; break; }
	if (!sym) {
		if (bytes <= 8) { u64 x = 0; memcpy(&x, &o->b[off], bytes); if (w < 64) x &= (1ULL << w) - 1; return V(x); }
		u128 x = 0; memcpy(&x, &o->b[off], bytes);
		return V(mkConst(x, w));
	}
	Ex* r = nullptr;
	for (unsigned i = 0; i < bytes; i++) {
		Ex* p = o->s[off + i] ? o->s[off + i] : mkConst(o->b[off + i], 8);
		r = r ? mkConcat(p, r) : p;
	}
	if (r->w > w) r = mkExtract(r, 0, w);
	return fromEx(r);
}
static void storeObj(Obj* o, u64 off, unsigned bytes, unsigned w, const V& v) {
	if (!v.e) {
		u64 x = v.c;
		for (unsigned i = 0; i < bytes; i++) { o->b[off + i] = i < 8 ? (uint8_t)(x >> (8 * i)) : 0; }
		if (!o->s.empty()) for (unsigned i = 0; i < bytes; i++) o->s[off + i] = nullptr;
		return;
	}
	Ex* e = v.e;
	if (e->w < bytes * 8) e = mkZExt(e, bytes * 8);
	for (unsigned i = 0; i < bytes; i++) {
		Ex* b = mkExtract(e, i * 8, 8);
		if (isC(b)) { o->b[off + i] = (uint8_t)b->c; if (!o->s.empty()) o->s[off + i] = nullptr; }
		else { if (o->s.empty()) o->s.assign(o->size, nullptr); o->s[off + i] = b; }
	}
}
static const Obj* find(State& s, u64 addr, u64& id, u64& off) {
	if (addr < BASE) return nullptr;
	id = (addr - BASE) / STRIDE; off = (addr - BASE) % STRIDE;
	return s.mem.get(id);
}
struct Ref { u64 id, off; Ex* sym = nullptr; unsigned stride = 1; u64 lo = 0, hi = 0; };
// resolve pointer p for an access of `bytes` bytes
static Ref resolve(State& s, const V& p, u64 bytes, bool write, const char* what) {
	Ref r;
	u64 a = p.e ? (u64)s.model->eval(p.e) : p.c;
	const Obj* o = find(s, a, r.id, r.off);
	auto bad = [&]() {
		std::string m = std::string(what) + (a < 4096 ? " of a null pointer" : !o ? " of dead or unmapped memory" : r.off + bytes > o->size ? " out of bounds" : " of read-only memory");
		fault(s, "memory", m);
	};
	if (p.e && !isC(p.e)) {
		// all other objects / out-of-bounds values fork off
		if (!o || r.off + bytes > o->size) bad();
		u64 base = BASE + r.id * STRIDE;
		Ex* off = mkBin(SUB, p.e, mkConst(base, 64));
		Ex* inb = mkBin(ULE, off, mkConst(o->size - bytes, 64));
		if (!decide(s, inb)) abort();
		if (write && o->ro) bad();
		r.sym = off;
		unsigned tz = std::min(trailingZeros(off), 12u);
		r.stride = 1u << tz;
		u64 um = (u64)umaxOf(off);
		r.lo = 0; r.hi = std::min<u64>(o->size - bytes, um);
		// stride by structure: c*x + d
		if (r.hi / r.stride > 4096) { // too many candidates: fork on the value
			u64 v = concretize(s, p, 64);
			r.sym = nullptr; r.off = v - base;
		}
		return r;
	}
	if (!o || r.off + bytes > o->size) bad();
	if (write && o->ro) bad();
	return r;
}
static Ex* muxLoad(const Obj* o, Ex* off, unsigned bytes, unsigned w, u64 lo, u64 hi, u64 stride) {
	// candidates lo, lo+stride .. hi
	u64 n = (hi - lo) / stride + 1;
	if (n == 1) return toEx(loadObj(o, lo, bytes, w), w);
	u64 mid = lo + (n / 2) * stride;
	Ex* a = muxLoad(o, off, bytes, w, lo, mid - stride, stride);
	Ex* b = muxLoad(o, off, bytes, w, mid, lo + (n - 1) * stride, stride);
	if (a == b) return a;
	return mkIte(mkBin(ULT, off, mkConst(mid, 64)), a, b);
}
static V memLoad(State& s, const V& p, unsigned bytes, unsigned w) {
	Ref r = resolve(s, p, bytes, false, "load");
	const Obj* o = s.mem.get(r.id);
	if (!r.sym) return loadObj(o, r.off, bytes, w);
	return fromEx(muxLoad(o, r.sym, bytes, w, r.lo, r.hi, r.stride));
}
static void memStore(State& s, const V& p, unsigned bytes, unsigned w, const V& v) {
	Ref r = resolve(s, p, bytes, true, "store");
	Obj* o = s.mem.wr(r.id);
	if (!r.sym) { storeObj(o, r.off, bytes, w, v); return; }
	Ex* x = toEx(v, w);
	if (r.stride >= bytes) {
		for (u64 k = r.lo; k <= r.hi; k += r.stride) {
			Ex* c = mkEq(r.sym, mkConst(k, 64));
			if (isFalse(c)) continue;
			Ex* old = toEx(loadObj(o, k, bytes, w), w);
			storeObj(o, k, bytes, w, fromEx(mkIte(c, x, old)));
		}
	} else {
		// overlapping candidates: byte-wise from the old contents
		Obj old = *o;
		Ex* xx = x->w < bytes * 8 ? mkZExt(x, bytes * 8) : x;
		for (u64 k = r.lo; k <= r.hi; k += r.stride) {
			Ex* c = mkEq(r.sym, mkConst(k, 64));
			for (unsigned i = 0; i < bytes; i++) {
				Ex* cur = toEx(loadObj(o, k + i, 1, 8), 8);
				storeObj(o, k + i, 1, 8, fromEx(mkIte(c, mkExtract(xx, 8 * i, 8), cur)));
			}
		}
	}
}
static u64 newObj(State& s, u64 size, int kind, const char* name) {
	auto o = std::make_shared<Obj>();
	o->size = size; o->b.assign(size, 0xA5); o->kind = kind; o->name = name;
	return s.mem.add(std::move(o));
}
static std::string readStr(State& s, u64 a) {
	std::string r;
	u64 id, off;
	const Obj* o = find(s, a, id, off);
	if (!o) return "?";
	while (off < o->size) { if (!o->s.empty() && o->s[off]) { r += '?'; } else { if (!o->b[off]) break; r += (char)o->b[off]; } off++; }
	return r;
}

// ---------------------------------------------------------------- types / decode
static int flatCount(Type* t) {
	if (t->isVoidTy()) return 0;
	if (auto* st = dyn_cast<StructType>(t)) { int n = 0; for (auto* e : st->elements()) n += flatCount(e); return n; }
	if (auto* at = dyn_cast<ArrayType>(t)) return (int)at->getNumElements() * flatCount(at->getElementType());
	if (auto* vt = dyn_cast<FixedVectorType>(t)) return (int)vt->getNumElements();
	return 1;
}
static unsigned bitsOf(Type* t) {
	if (t->isPointerTy()) return 64;
	if (t->isIntegerTy()) return t->getIntegerBitWidth();
	if (t->isX86_FP80Ty()) return 80;
	if (t->isDoubleTy()) return 64;
	if (t->isFloatTy()) return 32;
	return 0;
}
struct Leaf { u64 off; unsigned bytes, w; };
static void leaves(Type* t, u64 off, std::vector<Leaf>& out) {
	if (auto* st = dyn_cast<StructType>(t)) {
		auto* sl = DL->getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); i++) leaves(st->getElementType(i), off + sl->getElementOffset(i), out);
	} else if (auto* at = dyn_cast<ArrayType>(t)) {
		u64 es = DL->getTypeAllocSize(at->getElementType());
		for (u64 i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), off + i * es, out);
	} else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
		unsigned w = bitsOf(vt->getElementType());
		if (w % 8) { fprintf(stderr, "vector of i%u in memory\n", w); abort(); }
		for (unsigned i = 0; i < vt->getNumElements(); i++) out.push_back({off + i * w / 8, w / 8, w});
	} else { unsigned w = bitsOf(t); out.push_back({off, (w + 7) / 8, w}); }
}
static Func* getFunc(Function* F);
static u64 addrOf(const Value* g);

static void flatConst(Constant* c, std::vector<V>& out) {
	Type* t = c->getType();
	if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { int n = flatCount(t); std::vector<Leaf> lv; for (int i = 0; i < n; i++) out.push_back(V((u64)0));
		// wide zero scalars
		if (n == 1 && bitsOf(t) > 64) out.back() = V(mkConst(0, bitsOf(t)));
		else if (n >= 1 && !t->isSingleValueType()) { leaves(t, 0, lv); for (int i = 0; i < n; i++) if (lv[i].w > 64) out[out.size() - n + i] = V(mkConst(0, lv[i].w)); }
		return; }
	if (auto* ci = dyn_cast<ConstantInt>(c)) {
		if (ci->getBitWidth() <= 64) out.push_back(V(ci->getZExtValue()));
		else if (ci->getBitWidth() <= 128) { const u64* d = ci->getValue().getRawData(); out.push_back(V(mkConst(((u128)d[1] << 64) | d[0], ci->getBitWidth()))); }
		else { fprintf(stderr, "integer wider than 128 bits\n"); abort(); }
		return;
	}
	if (auto* cf = dyn_cast<ConstantFP>(c)) {
		APInt b = cf->getValueAPF().bitcastToAPInt();
		if (b.getBitWidth() <= 64) out.push_back(V(b.getZExtValue()));
		else out.push_back(V(mkConst(((u128)b.getRawData()[1] << 64) | b.getRawData()[0], b.getBitWidth())));
		return;
	}
	if (isa<ConstantPointerNull>(c)) { out.push_back(V((u64)0)); return; }
	if (isa<GlobalValue>(c)) { out.push_back(V(addrOf(c))); return; }
	if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) flatConst(cd->getElementAsConstant(i), out); return; }
	if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c)) { for (unsigned i = 0; i < c->getNumOperands(); i++) flatConst(cast<Constant>(c->getOperand(i)), out); return; }
	if (auto* ce = dyn_cast<ConstantExpr>(c)) {
		switch (ce->getOpcode()) {
		case Instruction::GetElementPtr: {
			std::vector<V> b; flatConst(ce->getOperand(0), b);
			APInt off(64, 0);
			if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) abort();
			out.push_back(V(b[0].c + off.getZExtValue())); return;
		}
		case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
			std::vector<V> b; flatConst(ce->getOperand(0), b);
			u64 x = b[0].c; unsigned w = bitsOf(t); if (w < 64) x &= (1ULL << w) - 1;
			out.push_back(V(x)); return;
		}
		case Instruction::Trunc: { std::vector<V> b; flatConst(ce->getOperand(0), b); unsigned w = bitsOf(t); out.push_back(V(b[0].c & (u64)maskw(w))); return; }
		case Instruction::Add: case Instruction::Sub: case Instruction::Xor: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Shl: case Instruction::LShr: {
			std::vector<V> a, b; flatConst(ce->getOperand(0), a); flatConst(ce->getOperand(1), b);
			unsigned w = bitsOf(t);
			Op o = ce->getOpcode() == Instruction::Add ? ADD : ce->getOpcode() == Instruction::Sub ? SUB : ce->getOpcode() == Instruction::Xor ? XOR : ce->getOpcode() == Instruction::Mul ? MUL : ce->getOpcode() == Instruction::And ? AND : ce->getOpcode() == Instruction::Or ? OR : ce->getOpcode() == Instruction::Shl ? SHL : LSHR;
			out.push_back(V((u64)evalBin(o, a[0].c, b[0].c, w))); return;
		}
		case Instruction::ICmp: {
			std::vector<V> a, b; flatConst(ce->getOperand(0), a); flatConst(ce->getOperand(1), b);
			bool r = false;
			switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: r = a[0].c == b[0].c; break; case CmpInst::ICMP_NE: r = a[0].c != b[0].c; break; case CmpInst::ICMP_ULT: r = a[0].c < b[0].c; break; case CmpInst::ICMP_UGT: r = a[0].c > b[0].c; break; case CmpInst::ICMP_UGE: r = a[0].c >= b[0].c; break; case CmpInst::ICMP_ULE: r = a[0].c <= b[0].c; break; default: fprintf(stderr, "constexpr icmp\n"); abort(); }
			out.push_back(V((u64)r)); return;
		}
		default: errs() << "constexpr: " << *ce << "\n"; abort();
		}
	}
	errs() << "constant: " << *c << "\n"; abort();
}

static u64 addrOf(const Value* g) {
	auto it = gaddr.find(g);
	if (it != gaddr.end()) return it->second;
	if (auto* F = dyn_cast<Function>(g)) return getFunc(const_cast<Function*>(F))->addr;
	if (auto* A = dyn_cast<GlobalAlias>(g)) { std::vector<V> b; flatConst(const_cast<Constant*>(A->getAliasee()), b); return gaddr[g] = b[0].c; }
	errs() << "no address for " << *g << "\n"; abort();
}

typedef bool (*HookFn)(State& s, Frame& f, Inst& in, std::vector<V>& a, std::vector<V>& ret);
// returns true if control was transferred (do not advance)
static std::map<std::string, HookFn> hookTable;
static std::vector<HookFn> hooks;
static std::vector<std::string> hookNames;
static int hookFor(const std::string& n) {
	auto it = hookTable.find(n);
	if (it == hookTable.end()) return -1;
	for (size_t i = 0; i < hookNames.size(); i++) if (hookNames[i] == n) return (int)i;
	hooks.push_back(it->second); hookNames.push_back(n);
	return (int)hooks.size() - 1;
}
// mathematical functions a stub file may define itself
static bool replaceable(std::string n) {
	if (!n.empty() && n.back() == 'l') n.pop_back();
	for (auto m : {"log", "log2", "log1p", "exp", "exp2", "expm1", "pow", "sin", "cos", "tan", "atan2", "cbrt", "hypot", "lgamma", "lgamm", "log10"}) if (n == m) return true;
	return false;
}
static Func* getFunc(Function* F) {
	auto it = funcs.find(F);
	if (it != funcs.end()) return it->second;
	auto* f = new Func();
	f->F = F; f->name = F->getName().str();
	f->addr = FBASE + funcByIdx.size() * 16;
	funcByIdx.push_back(f);
	f->hook = !F->isDeclaration() && replaceable(f->name) ? -1 : hookFor(f->name);
	funcs[F] = f;
	return f;
}
static void decode(Func* f) {
	if (f->decoded) return;
	f->decoded = true;
	Function* F = f->F;
	std::unordered_map<const Value*, int> slot;
	int n = 0;
	for (auto& a : F->args()) { slot[&a] = n; f->argSlot.push_back(n); int k = flatCount(a.getType()); f->argN.push_back(k); n += k; }
	for (auto& B : *F) for (auto& I : B) { int k = flatCount(I.getType()); if (k) { slot[&I] = n; n += k; } }
	f->nslots = n;
	auto opnd = [&](Value* v) {
		Opn o;
		o.n = 1;
		if (v->getType()->isMetadataTy() || v->getType()->isLabelTy() || isa<InlineAsm>(v)) { o.n = 0; return o; }
		o.n = flatCount(v->getType());
		if (auto* c = dyn_cast<Constant>(v)) { o.cst = new std::vector<V>(); flatConst(c, *o.cst); return o; }
		o.slot = slot.at(v);
		return o;
	};
	int bi = 0;
	for (auto& B : *F) { f->bidx[&B] = bi++; f->blocks.push_back(&B); }
	for (auto& B : *F) {
		f->blockStart.push_back((int)f->code.size());
		for (auto& I : B) {
			if (isa<DbgInfoIntrinsic>(I)) continue;
			if (auto* ii = dyn_cast<IntrinsicInst>(&I)) {
				auto id = ii->getIntrinsicID();
				if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing || id == Intrinsic::prefetch || id == Intrinsic::invariant_end) continue;
			}
			Inst in;
			in.I = &I; in.op = I.getOpcode();
			in.dn = flatCount(I.getType());
			if (in.dn) in.dst = slot.at(&I);
			if (in.dn) { Type* t = I.getType(); if (auto* vt = dyn_cast<VectorType>(t)) t = vt->getElementType(); in.w = bitsOf(t); }
			if (auto* cb = dyn_cast<CallBase>(&I)) {
				for (auto& a : cb->args()) in.ops.push_back(opnd(a.get()));
				if (auto* cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases())) {
					in.iid = cf->getIntrinsicID();
					if (in.iid == Intrinsic::not_intrinsic) { in.callee = getFunc(cf); in.hook = in.callee->hook; }
				} else in.ops.push_back(opnd(cb->getCalledOperand()));
				if (!in.ops.empty() && cb->arg_size()) { Type* t = cb->getArgOperand(0)->getType(); if (auto* vt = dyn_cast<VectorType>(t)) t = vt->getElementType(); in.w2 = bitsOf(t); }
			} else if (isa<PHINode>(I)) {
				auto& p = cast<PHINode>(I);
				for (unsigned i = 0; i < p.getNumIncomingValues(); i++) in.ops.push_back(opnd(p.getIncomingValue(i)));
			} else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
				in.ops.push_back(opnd(g->getPointerOperand()));
				u64 off = 0;
				for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
					Value* idx = it.getOperand();
					if (auto* st = it.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
					u64 sz = DL->getTypeAllocSize(it.getIndexedType());
					if (auto* ci = dyn_cast<ConstantInt>(idx)) { off += (u64)ci->getSExtValue() * sz; continue; }
					in.ops.push_back(opnd(idx));
					in.gep.push_back({bitsOf(idx->getType()), sz});
				}
				in.aux = off;
				if (I.getType()->isVectorTy()) { errs() << "vector gep\n"; abort(); }
			} else if (!isa<LandingPadInst>(I)) {
				for (auto& o : I.operands()) in.ops.push_back(opnd(o.get()));
				if (I.getNumOperands()) { Type* t = I.getOperand(0)->getType(); if (auto* vt = dyn_cast<VectorType>(t)) t = vt->getElementType(); in.w2 = bitsOf(t); }
			}
			f->code.push_back(std::move(in));
		}
		int i = f->blockStart.back();
		while (i < (int)f->code.size() && f->code[i].op == Instruction::PHI) i++;
		f->firstNonPhi.push_back(i);
	}
}

static inline V get(Frame& f, const Opn& o, int i = 0) { return o.slot >= 0 ? f.regs[o.slot + i] : (*o.cst)[i]; }
static Frame& top(State& s) {
	auto& p = s.st.back();
	if (p.use_count() > 1) p = std::make_shared<Frame>(*p);
	return *p;
}

static void jump(State& s, Frame& f, BasicBlock* to) {
	int b = f.f->bidx.at(to);
	f.prev = f.block; f.block = b;
	int st = f.f->blockStart[b], fn = f.f->firstNonPhi[b];
	if (fn > st) {
		std::vector<V> tmp;
		BasicBlock* from = nullptr;
		from = f.f->blocks[f.prev];
		for (int i = st; i < fn; i++) {
			auto& in = f.f->code[i];
			int k = cast<PHINode>(in.I)->getBasicBlockIndex(from);
			for (int j = 0; j < in.dn; j++) tmp.push_back(get(f, in.ops[k], j));
			in.executed = true;
		}
		int t = 0;
		for (int i = st; i < fn; i++) { auto& in = f.f->code[i]; for (int j = 0; j < in.dn; j++) f.regs[in.dst + j] = tmp[t++]; }
	}
	f.pc = fn;
}

static void popFrame(State& s) {
	Frame& f = top(s);
	for (u64 a : f.allocas) s.mem.kill((a - BASE) / STRIDE);
	s.st.pop_back();
}

static void pushCall(State& s, Func* f, std::vector<V>& args, CallBase* cb) {
	if (f->F->isDeclaration()) {
		addIncomplete("call of undefined external function " + demangle(f->name));
		throw PathEnd();
	}
	decode(f);
	f->calls++;
	stats.calls++;
	auto fr = std::make_shared<Frame>();
	fr->f = f; fr->regs.resize(f->nslots);
	fr->block = 0; fr->prev = -1;
	if (s.st.size() > 3000) fault(s, "stack", "call depth exceeds 3000 frames");
	unsigned k = 0;
	if (cb) for (unsigned i = 0; i < cb->arg_size() && i < f->argN.size(); i++) {
		if (cb->isByValArgument(i)) {
			Type* t = cb->getParamByValType(i);
			u64 sz = DL->getTypeAllocSize(t);
			u64 a = newObj(s, sz, 0, "byval");
			u64 src = concretize(s, args[k], 64);
			u64 id, off; const Obj* o = find(s, src, id, off);
			if (!o || off + sz > o->size) fault(s, "memory", "byval copy out of bounds");
			Obj* d = s.mem.wr((a - BASE) / STRIDE);
			memcpy(d->b.data(), &o->b[off], sz);
			if (!o->s.empty()) d->s.assign(o->s.begin() + off, o->s.begin() + off + sz);
			fr->allocas.push_back(a);
			args[k] = V(a);
		}
		k += f->argN[i];
	}
	if (args.size() < (size_t)0) abort();
	int total = 0; for (int n : f->argN) total += n;
	for (int i = 0; i < total && i < (int)args.size(); i++) fr->regs[i] = args[i];
	fr->pc = f->firstNonPhi[0];
	s.st.push_back(fr);
}

static void doReturn(State& s, std::vector<V> ret) {
	popFrame(s);
	if (s.st.empty()) return;
	Frame& f = top(s);
	Inst& in = f.f->code[f.pc];
	for (int j = 0; j < in.dn && j < (int)ret.size(); j++) f.regs[in.dst + j] = ret[j];
	if (auto* iv = dyn_cast<InvokeInst>(in.I)) jump(s, f, iv->getNormalDest());
	else f.pc++;
}

// ---------------------------------------------------------------- exceptions
static u64 symAddr(const char* n) { if (auto* g = M->getNamedValue(n)) return addrOf(g); return 0; }
static bool tiMatch(State& s, u64 thrown, u64 want) {
	if (want == 0 || thrown == want) return true;
	for (int i = 0; i < 10; i++) {
		u64 id, off; const Obj* o = find(s, thrown, id, off);
		if (!o || o->size < 24) return false;
		u64 vt, base; memcpy(&vt, &o->b[0], 8);
		u64 si = symAddr("_ZTVN10__cxxabiv120__si_class_type_infoE"), vmi = symAddr("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
		if (si && vt == si + 16) { memcpy(&base, &o->b[16], 8); if (base == want) return true; thrown = base; continue; }
		if (vmi && vt == vmi + 16) {
			uint32_t n; memcpy(&n, &o->b[20], 4);
			for (uint32_t j = 0; j < n; j++) { memcpy(&base, &o->b[24 + 16 * j], 8); if (tiMatch(s, base, want)) return true; }
		}
		return false;
	}
	return false;
}
static u64 tiName(State& s, u64 ti) { u64 id, off; const Obj* o = find(s, ti, id, off); u64 p = 0; if (o && o->size >= 16) memcpy(&p, &o->b[8], 8); return p; }
static std::string globName(u64 addr) { for (auto& g : M->globals()) { auto it = gaddr.find(&g); if (it != gaddr.end() && it->second == addr) return demangle(g.getName().str()); } return "?"; }
static void unwind(State& s, u64 exc) {
	u64 ti = 0;
	for (auto& [e, t] : s.excTI) if (e == exc) ti = t;
	while (!s.st.empty()) {
		Frame& f = top(s);
		Inst& in = f.f->code[f.pc];
		if (auto* iv = dyn_cast<InvokeInst>(in.I)) {
			LandingPadInst* lp = iv->getLandingPadInst();
			bool enter = lp->isCleanup();
			u64 sel = 0;
			for (unsigned i = 0; i < lp->getNumClauses(); i++) {
				if (lp->isFilter(i)) { enter = true; sel = (u64)-1; break; }
				std::vector<V> c; flatConst(lp->getClause(i), c);
				if (tiMatch(s, ti, c[0].c)) { enter = true; sel = c[0].c ? (c[0].c - BASE) / STRIDE + 1 : 1; break; }
			}
			if (enter) {
				jump(s, f, iv->getUnwindDest());
				Inst& l = f.f->code[f.pc];
				if (l.I != lp) abort();
				l.executed = true;
				f.regs[l.dst] = V(exc); f.regs[l.dst + 1] = V((u64)(uint32_t)sel);
				f.pc++;
				return;
			}
		}
		if (s.st.size() == 1) { // escapes the harness
			std::string n = globName(ti);
			u64 nm = tiName(s, ti);
			fault(s, "uncaught", "exception of type " + (n != "?" ? n : readStr(s, nm)) + " escapes");
		}
		popFrame(s);
	}
}

#include "hooks.inc"

// ---------------------------------------------------------------- step
static void setRet(Frame& f, Inst& in, const V& v) { f.regs[in.dst] = v; }
static V binop(State& s, unsigned op, const V& a, const V& b, unsigned w) {
	if (!a.e && !b.e && w <= 64) {
		u64 x = a.c, y = b.c, m = w == 64 ? ~0ULL : (1ULL << w) - 1;
		switch (op) {
		case Instruction::Add: return V((x + y) & m);
		case Instruction::Sub: return V((x - y) & m);
		case Instruction::Mul: return V((x * y) & m);
		case Instruction::And: return V(x & y);
		case Instruction::Or: return V(x | y);
		case Instruction::Xor: return V(x ^ y);
		case Instruction::Shl: return V(y >= w ? 0 : (x << y) & m);
		case Instruction::LShr: return V(y >= w ? 0 : x >> y);
		default: break;
		}
	}
	Op o;
	switch (op) {
	case Instruction::Add: o = ADD; break; case Instruction::Sub: o = SUB; break; case Instruction::Mul: o = MUL; break;
	case Instruction::UDiv: o = UDIV; break; case Instruction::SDiv: o = SDIV; break; case Instruction::URem: o = UREM; break; case Instruction::SRem: o = SREM; break;
	case Instruction::And: o = AND; break; case Instruction::Or: o = OR; break; case Instruction::Xor: o = XOR; break;
	case Instruction::Shl: o = SHL; break; case Instruction::LShr: o = LSHR; break; case Instruction::AShr: o = ASHR; break;
	default: fprintf(stderr, "binop %u\n", op); abort();
	}
	Ex* x = toEx(a, w); Ex* y = toEx(b, w);
	if (o == UDIV || o == SDIV || o == UREM || o == SREM) {
		if (decide(s, mkEq(y, mkConst(0, w)))) fault(s, "div0", "division by zero");
		if (o == SDIV || o == SREM) {
			Ex* ov = mkAnd(mkEq(x, mkConst((u128)1 << (w - 1), w)), mkEq(y, mkConst(maskw(w), w)));
			if (decide(s, ov)) fault(s, "div0", "INT_MIN / -1");
		}
	}
	return fromEx(mkBin(o, x, y));
}
static V icmp(unsigned pred, const V& a, const V& b, unsigned w) {
	if (!a.e && !b.e) {
		u64 x = a.c, y = b.c; i64 sx_ = (i64)sx(x, w), sy = (i64)sx(y, w);
		switch (pred) {
		case CmpInst::ICMP_EQ: return V((u64)(x == y)); case CmpInst::ICMP_NE: return V((u64)(x != y));
		case CmpInst::ICMP_ULT: return V((u64)(x < y)); case CmpInst::ICMP_ULE: return V((u64)(x <= y));
		case CmpInst::ICMP_UGT: return V((u64)(x > y)); case CmpInst::ICMP_UGE: return V((u64)(x >= y));
		case CmpInst::ICMP_SLT: return V((u64)(sx_ < sy)); case CmpInst::ICMP_SLE: return V((u64)(sx_ <= sy));
		case CmpInst::ICMP_SGT: return V((u64)(sx_ > sy)); case CmpInst::ICMP_SGE: return V((u64)(sx_ >= sy));
		default: abort();
		}
	}
	Ex* x = toEx(a, w); Ex* y = toEx(b, w);
	switch (pred) {
	case CmpInst::ICMP_EQ: return fromEx(mkEq(x, y)); case CmpInst::ICMP_NE: return fromEx(mkNot(mkEq(x, y)));
	case CmpInst::ICMP_ULT: return fromEx(mkBin(ULT, x, y)); case CmpInst::ICMP_ULE: return fromEx(mkBin(ULE, x, y));
	case CmpInst::ICMP_UGT: return fromEx(mkBin(ULT, y, x)); case CmpInst::ICMP_UGE: return fromEx(mkBin(ULE, y, x));
	case CmpInst::ICMP_SLT: return fromEx(mkBin(SLT, x, y)); case CmpInst::ICMP_SLE: return fromEx(mkBin(SLE, x, y));
	case CmpInst::ICMP_SGT: return fromEx(mkBin(SLT, y, x)); case CmpInst::ICMP_SGE: return fromEx(mkBin(SLE, y, x));
	default: abort();
	}
}
static V fcmp(unsigned pred, const V& a, const V& b, unsigned w) {
	Ex* x = toEx(a, w); Ex* y = toEx(b, w);
	auto uno = [&]() { return mkFCmp(FUNO, x, y); };
	switch (pred) {
	case CmpInst::FCMP_FALSE: return V((u64)0); case CmpInst::FCMP_TRUE: return V((u64)1);
	case CmpInst::FCMP_OEQ: return fromEx(mkFCmp(FEQ, x, y));
	case CmpInst::FCMP_OGT: return fromEx(mkFCmp(FLT, y, x)); case CmpInst::FCMP_OGE: return fromEx(mkFCmp(FLE, y, x));
	case CmpInst::FCMP_OLT: return fromEx(mkFCmp(FLT, x, y)); case CmpInst::FCMP_OLE: return fromEx(mkFCmp(FLE, x, y));
	case CmpInst::FCMP_ONE: return fromEx(mkAnd(mkNot(uno()), mkNot(mkFCmp(FEQ, x, y))));
	case CmpInst::FCMP_ORD: return fromEx(mkNot(uno())); case CmpInst::FCMP_UNO: return fromEx(uno());
	case CmpInst::FCMP_UEQ: return fromEx(mkOr(uno(), mkFCmp(FEQ, x, y)));
	case CmpInst::FCMP_UGT: return fromEx(mkNot(mkFCmp(FLE, x, y))); case CmpInst::FCMP_UGE: return fromEx(mkNot(mkFCmp(FLT, x, y)));
	case CmpInst::FCMP_ULT: return fromEx(mkNot(mkFCmp(FLE, y, x))); case CmpInst::FCMP_ULE: return fromEx(mkNot(mkFCmp(FLT, y, x)));
	case CmpInst::FCMP_UNE: return fromEx(mkNot(mkFCmp(FEQ, x, y)));
	default: abort();
	}
}
static V castv(unsigned op, const V& a, unsigned from, unsigned to) {
	switch (op) {
	case Instruction::Trunc: if (!a.e) return V(a.c & (u64)maskw(to)); return fromEx(mkExtract(a.e, 0, to));
	case Instruction::ZExt: if (!a.e && to <= 64) return a; return fromEx(mkZExt(toEx(a, from), to));
	case Instruction::SExt: if (!a.e && to <= 64) return V((u64)(u128)sx(a.c, from) & (u64)maskw(to)); return fromEx(mkSExt(toEx(a, from), to));
	case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
		if (from == to) return a;
		if (from > to) return castv(Instruction::Trunc, a, from, to);
		return castv(Instruction::ZExt, a, from, to);
	case Instruction::FPToSI: return fromEx(mkConv(FTOSI, toEx(a, from), to));
	case Instruction::FPToUI: return fromEx(mkConv(FTOUI, toEx(a, from), to));
	case Instruction::SIToFP: return fromEx(mkConv(SITOF, toEx(a, from), to));
	case Instruction::UIToFP: return fromEx(mkConv(UITOF, toEx(a, from), to));
	case Instruction::FPExt: case Instruction::FPTrunc: return fromEx(mkConv(FCAST, toEx(a, from), to));
	default: abort();
	}
}

static bool doCall(State& s, Frame& f, Inst& in) {
	auto* cb = cast<CallBase>(in.I);
	std::vector<V> args, ret;
	unsigned na = cb->arg_size();
	for (unsigned i = 0; i < na; i++) for (int j = 0; j < in.ops[i].n; j++) args.push_back(get(f, in.ops[i], j));
	if (in.iid != Intrinsic::not_intrinsic) {
		if (!intrinsic(s, f, in, args, ret)) return true;
	} else {
		Func* callee = in.callee;
		int hook = in.hook;
		if (!callee) {
			if (cb->isInlineAsm()) { auto* ia = cast<InlineAsm>(cb->getCalledOperand()); if (!ia->getAsmString().empty()) { addIncomplete("inline asm"); throw PathEnd(); } if (in.dn) ret.assign(in.dn, args.empty() ? V((u64)0) : args[0]); goto done; }
			u64 a = concretize(s, get(f, in.ops.back()), 64);
			if (a < FBASE || (a - FBASE) % 16 || (a - FBASE) / 16 >= funcByIdx.size()) fault(s, "memory", "call through an invalid function pointer");
			callee = funcByIdx[(a - FBASE) / 16];
			hook = callee->hook;
		}
		if (hook >= 0) {
			if (hooks[hook](s, f, in, args, ret)) return true;
		} else {
			if (trace) fprintf(stderr, "%*scall %s\n", (int)s.st.size(), "", demangle(callee->name).substr(0, 150).c_str());
			pushCall(s, callee, args, cb);
			return true;
		}
	}
done:
	if (in.dn) {
		if ((int)ret.size() < in.dn) ret.resize(in.dn);
		for (int j = 0; j < in.dn; j++) f.regs[in.dst + j] = ret[j];
	}
	if (auto* iv = dyn_cast<InvokeInst>(in.I)) { jump(s, f, iv->getNormalDest()); return true; }
	return false;
}

static void step(State& s) {
	Frame& f = *s.st.back();
	Inst& in = f.f->code[f.pc];
	in.executed = true;
	stats.instr++;
	if (++s.steps > maxSteps) fault(s, "steps", "no termination within the step limit");
	switch (in.op) {
	case Instruction::Alloca: {
		auto* ai = cast<AllocaInst>(in.I);
		u64 n = concretize(s, get(f, in.ops[0]), 64);
		u64 sz = DL->getTypeAllocSize(ai->getAllocatedType()) * n;
		u64 a = newObj(s, sz, 0, "stack");
		f.allocas.push_back(a);
		setRet(f, in, V(a));
		break;
	}
	case Instruction::Load: {
		Type* t = in.I->getType();
		V p = get(f, in.ops[0]);
		if (in.dn == 1 && !t->isAggregateType() && !t->isVectorTy()) setRet(f, in, memLoad(s, p, (in.w + 7) / 8, in.w));
		else {
			std::vector<Leaf> lv; leaves(t, 0, lv);
			std::vector<V> r;
			for (auto& l : lv) r.push_back(memLoad(s, p.e ? fromEx(mkBin(ADD, p.e, mkConst(l.off, 64))) : V(p.c + l.off), l.bytes, l.w));
			for (int j = 0; j < in.dn; j++) f.regs[in.dst + j] = r[j];
		}
		break;
	}
	case Instruction::Store: {
		Type* t = in.I->getOperand(0)->getType();
		V p = get(f, in.ops[1]);
		if (in.ops[0].n == 1 && !t->isAggregateType() && !t->isVectorTy()) memStore(s, p, (in.w2 + 7) / 8, in.w2, get(f, in.ops[0]));
		else {
			std::vector<Leaf> lv; leaves(t, 0, lv);
			if (p.e) resolve(s, p, DL->getTypeStoreSize(t), true, "store");
			for (size_t j = 0; j < lv.size(); j++) memStore(s, p.e ? fromEx(mkBin(ADD, p.e, mkConst(lv[j].off, 64))) : V(p.c + lv[j].off), lv[j].bytes, lv[j].w, get(f, in.ops[0], (int)j));
		}
		break;
	}
	case Instruction::GetElementPtr: {
		V p = get(f, in.ops[0]);
		bool sym = p.e;
		for (size_t i = 0; i < in.gep.size() && !sym; i++) if (get(f, in.ops[i + 1]).e) sym = true;
		if (!sym) {
			u64 a = p.c + in.aux;
			for (size_t i = 0; i < in.gep.size(); i++) a += (u64)(i64)sx(get(f, in.ops[i + 1]).c, in.gep[i].first) * in.gep[i].second;
			setRet(f, in, V(a));
		} else {
			Ex* e = toEx(p, 64);
			for (size_t i = 0; i < in.gep.size(); i++) {
				Ex* x = toEx(get(f, in.ops[i + 1]), in.gep[i].first);
				x = in.gep[i].first < 64 ? mkSExt(x, 64) : x;
				e = mkBin(ADD, e, mkBin(MUL, x, mkConst(in.gep[i].second, 64)));
			}
			setRet(f, in, fromEx(mkBin(ADD, e, mkConst(in.aux, 64))));
		}
		break;
	}
	case Instruction::Br: {
		auto* br = cast<BranchInst>(in.I);
		if (br->isUnconditional()) { jump(s, f, br->getSuccessor(0)); return; }
		V c = get(f, in.ops[0]);
		bool b = c.e ? decide(s, c.e) : (c.c & 1);
		jump(s, f, br->getSuccessor(b ? 0 : 1));
		return;
	}
	case Instruction::Switch: {
		auto* sw = cast<SwitchInst>(in.I);
		V c = get(f, in.ops[0]);
		if (!c.e) {
			BasicBlock* d = sw->getDefaultDest();
			for (auto& cs : sw->cases()) if (cs.getCaseValue()->getZExtValue() == c.c) { d = cs.getCaseSuccessor(); break; }
			jump(s, f, d);
			return;
		}
		// group cases by successor; decide which group
		std::vector<std::pair<BasicBlock*, Ex*>> groups;
		Ex* any = mkConst(0, 1);
		for (auto& cs : sw->cases()) {
			Ex* eq = mkEq(c.e, mkConst(cs.getCaseValue()->getZExtValue(), in.w2));
			any = mkOr(any, eq);
			bool found = false;
			for (auto& g : groups) if (g.first == cs.getCaseSuccessor()) { g.second = mkOr(g.second, eq); found = true; }
			if (!found) groups.push_back({cs.getCaseSuccessor(), eq});
		}
		// prefer the group the model is in
		for (auto& g : groups) if (s.model->eval(g.second)) {
			if (!decide(s, g.second)) abort();
			jump(s, f, g.first);
			return;
		}
		if (decide(s, any)) abort();
		jump(s, f, sw->getDefaultDest());
		return;
	}
	case Instruction::Ret: {
		std::vector<V> r;
		if (!in.ops.empty()) for (int j = 0; j < in.ops[0].n; j++) r.push_back(get(f, in.ops[0], j));
		doReturn(s, std::move(r));
		return;
	}
	case Instruction::ICmp: {
		auto p = cast<ICmpInst>(in.I)->getPredicate();
		for (int j = 0; j < in.dn; j++) f.regs[in.dst + j] = icmp(p, get(f, in.ops[0], j), get(f, in.ops[1], j), in.w2);
		break;
	}
	case Instruction::FCmp: {
		auto p = cast<FCmpInst>(in.I)->getPredicate();
		for (int j = 0; j < in.dn; j++) f.regs[in.dst + j] = fcmp(p, get(f, in.ops[0], j), get(f, in.ops[1], j), in.w2);
		break;
	}
	case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
	case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
		for (int j = 0; j < in.dn; j++) { V r = binop(s, in.op, get(f, in.ops[0], j), get(f, in.ops[1], j), in.w); f.regs[in.dst + j] = r; }
		break;
	case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
		Op o = in.op == Instruction::FAdd ? FADD : in.op == Instruction::FSub ? FSUB : in.op == Instruction::FMul ? FMUL : in.op == Instruction::FDiv ? FDIV : FREM;
		for (int j = 0; j < in.dn; j++) f.regs[in.dst + j] = fromEx(mkFBin(o, toEx(get(f, in.ops[0], j), in.w), toEx(get(f, in.ops[1], j), in.w)));
		break;
	}
	case Instruction::FNeg: for (int j = 0; j < in.dn; j++) f.regs[in.dst + j] = fromEx(mkFUn(FNEG, toEx(get(f, in.ops[0], j), in.w))); break;
	case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::FPToSI: case Instruction::FPToUI:
	case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::AddrSpaceCast:
		for (int j = 0; j < in.dn; j++) f.regs[in.dst + j] = castv(in.op, get(f, in.ops[0], j), in.w2, in.w);
		break;
	case Instruction::BitCast: {
		int sn = in.ops[0].n, dn = in.dn;
		if (sn == dn) { for (int j = 0; j < dn; j++) f.regs[in.dst + j] = get(f, in.ops[0], j); }
		else {
			Ex* all = nullptr;
			if (sn * in.w2 > 128) { addIncomplete("wide bitcast"); throw PathEnd(); }
			for (int j = 0; j < sn; j++) { Ex* e = toEx(get(f, in.ops[0], j), in.w2); all = all ? mkConcat(e, all) : e; }
			for (int j = 0; j < dn; j++) f.regs[in.dst + j] = fromEx(mkExtract(all, j * in.w, in.w));
		}
		break;
	}
	case Instruction::Select: {
		int cn = in.ops[0].n;
		for (int j = 0; j < in.dn; j++) {
			V c = get(f, in.ops[0], cn == in.dn && cn > 1 ? j : 0), a = get(f, in.ops[1], j), b = get(f, in.ops[2], j);
			V r;
			if (!c.e) r = (c.c & 1) ? a : b;
			else if (in.dn == 1 && in.I->getType()->isPointerTy()) r = decide(s, c.e) ? a : b; // paths, not pointer terms
			else {
				Type* t = in.I->getType(); unsigned w = in.w;
				if (t->isAggregateType()) { std::vector<Leaf> lv; leaves(t, 0, lv); w = lv[j].w; }
				r = fromEx(mkIte(c.e, toEx(a, w), toEx(b, w)));
			}
			f.regs[in.dst + j] = r;
		}
		break;
	}
	case Instruction::ExtractValue: {
		auto* ev = cast<ExtractValueInst>(in.I);
		Type* t = ev->getAggregateOperand()->getType();
		int off = 0;
		for (unsigned i : ev->indices()) {
			if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) off += flatCount(st->getElementType(k)); t = st->getElementType(i); }
			else { auto* at = cast<ArrayType>(t); off += (int)i * flatCount(at->getElementType()); t = at->getElementType(); }
		}
		for (int j = 0; j < in.dn; j++) f.regs[in.dst + j] = get(f, in.ops[0], off + j);
		break;
	}
	case Instruction::InsertValue: {
		auto* iv = cast<InsertValueInst>(in.I);
		Type* t = iv->getType();
		int off = 0;
		for (unsigned i : iv->indices()) {
			if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) off += flatCount(st->getElementType(k)); t = st->getElementType(i); }
			else { auto* at = cast<ArrayType>(t); off += (int)i * flatCount(at->getElementType()); t = at->getElementType(); }
		}
		std::vector<V> r;
		for (int j = 0; j < in.dn; j++) r.push_back(get(f, in.ops[0], j));
		for (int j = 0; j < in.ops[1].n; j++) r[off + j] = get(f, in.ops[1], j);
		for (int j = 0; j < in.dn; j++) f.regs[in.dst + j] = r[j];
		break;
	}
	case Instruction::ExtractElement: {
		u64 i = concretize(s, get(f, in.ops[1]), 64);
		setRet(f, in, get(f, in.ops[0], (int)i));
		break;
	}
	case Instruction::InsertElement: {
		u64 i = concretize(s, get(f, in.ops[2]), 64);
		std::vector<V> r;
		for (int j = 0; j < in.dn; j++) r.push_back(get(f, in.ops[0], j));
		r[i] = get(f, in.ops[1]);
		for (int j = 0; j < in.dn; j++) f.regs[in.dst + j] = r[j];
		break;
	}
	case Instruction::ShuffleVector: {
		auto* sv = cast<ShuffleVectorInst>(in.I);
		int n = in.ops[0].n;
		std::vector<V> r;
		for (int j = 0; j < in.dn; j++) { int m = sv->getMaskValue(j); r.push_back(m < 0 ? V((u64)0) : m < n ? get(f, in.ops[0], m) : get(f, in.ops[1], m - n)); }
		for (int j = 0; j < in.dn; j++) f.regs[in.dst + j] = r[j];
		break;
	}
	case Instruction::Freeze: for (int j = 0; j < in.dn; j++) f.regs[in.dst + j] = get(f, in.ops[0], j); break;
	case Instruction::Call: case Instruction::Invoke: if (doCall(s, f, in)) return; break;
	case Instruction::Resume: { u64 exc = concretize(s, get(f, in.ops[0], 0), 64); 
		if (s.st.size() == 1) fault(s, "uncaught", "exception escapes");
		popFrame(s); unwind(s, exc); return; }
	case Instruction::Unreachable: fault(s, "unreachable", "undefined behaviour: unreachable code executed");
	case Instruction::AtomicRMW: {
		auto* a = cast<AtomicRMWInst>(in.I);
		V p = get(f, in.ops[0]), x = get(f, in.ops[1]);
		V old = memLoad(s, p, (in.w + 7) / 8, in.w), nw;
		switch (a->getOperation()) { case AtomicRMWInst::Add: nw = binop(s, Instruction::Add, old, x, in.w); break; case AtomicRMWInst::Sub: nw = binop(s, Instruction::Sub, old, x, in.w); break; case AtomicRMWInst::Xchg: nw = x; break; case AtomicRMWInst::Or: nw = binop(s, Instruction::Or, old, x, in.w); break; default: addIncomplete("atomicrmw"); throw PathEnd(); }
		memStore(s, p, (in.w + 7) / 8, in.w, nw);
		setRet(f, in, old);
		break;
	}
	case Instruction::Fence: break;
	default:
		addIncomplete(std::string("unsupported instruction ") + in.I->getOpcodeName());
		throw PathEnd();
	}
	s.st.back()->pc++;
}

// ---------------------------------------------------------------- driver
static std::string jstr(const std::string& s) {
	std::string r = "\"";
	for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; } else if (ch < 32) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; } else r += (char)ch; }
	return r + "\"";
}

static void initGlobals(State& s) {
	for (auto& g : M->globals()) {
		if (g.getName() == "llvm.global_ctors" || g.getName().starts_with("llvm.")) continue;
		u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 0;
		if (g.isDeclaration()) sz = std::max<u64>(sz, 64);
		u64 a = newObj(s, sz, 2, "global");
		gaddr[&g] = a;
		Obj* o = s.mem.wr((a - BASE) / STRIDE);
		std::fill(o->b.begin(), o->b.end(), 0);
	}
	for (auto& F : *M) getFunc(&F);
	for (auto& g : M->globals()) {
		if (!gaddr.count(&g) || g.isDeclaration()) continue;
		Obj* o = s.mem.wr((gaddr[&g] - BASE) / STRIDE);
		if (!isa<ConstantAggregateZero>(g.getInitializer())) {
			std::vector<Leaf> lv; leaves(g.getValueType(), 0, lv);
			std::vector<V> v; flatConst(g.getInitializer(), v);
			for (size_t i = 0; i < lv.size(); i++) storeObj(o, lv[i].off, lv[i].bytes, lv[i].w, v[i]);
		}
		o->ro = g.isConstant();
	}
}

static bool runState(StateP s) { // runs until the path ends
	u64 n = 0;
	try {
		while (!s->st.empty()) {
			step(*s);
			if ((++n & 0xfff) == 0 && nowSec() - startT > timeLimit) { addIncomplete("time limit"); return false; }
		}
	} catch (PathEnd&) { return true; }
	stats.paths++;
	stats.asserts += s->asserts;
	for (auto& r : s->reached) reachCount[r]++;
	if (traces.size() < maxTraces || (stats.paths & (stats.paths - 1)) == 0 || stats.paths % 997 == 0) {
		Trace t;
		for (auto& [k, v] : inputValues(*s, *s->model)) t.inputs.push_back(v);
		for (auto& o : s->obs) { u128 x = o.e ? s->model->eval(o.e) : (u128)o.c; t.obs.push_back({(u64)x, (u64)(x >> 64)}); }
		if (traces.size() < maxTraces) traces.push_back(t); else traces[(stats.paths * 2654435761u >> 7) % maxTraces] = t;
	}
	return true;
}

int main(int argc, char** argv) {
	std::string bc, caseName, out, dumpBc, opt = "O1";
	std::vector<std::string> links, noinl;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto next = [&]() { return std::string(argv[++i]); };
		if (a == "--case") caseName = next();
		else if (a == "--arg") caseArg = atoi(next().c_str());
		else if (a == "--out") out = next();
		else if (a == "--link") links.push_back(next());
		else if (a == "--override-link") links.push_back("!" + next());
		else if (a == "--max-steps") maxSteps = atoll(next().c_str());
		else if (a == "--time") timeLimit = atof(next().c_str());
		else if (a == "--canon") canonBits = (unsigned)atoi(next().c_str());
		else if (a == "--query-time") queryTimeout = atof(next().c_str());
		else if (a == "--mem") memLimitMB = atoll(next().c_str());
		else if (a == "--traces") maxTraces = atoll(next().c_str());
		else if (a == "--max-viol") maxViol = atoll(next().c_str());
		else if (a == "--scratch") scratchDir = next();
		else if (a == "--src") srcPrefix = next();
		else if (a == "--emit") dumpBc = next();
		else if (a == "--noopt") opt = "";
		else if (a == "--noinline") noinl.push_back(next());
		else if (a == "--trace") trace = true;
		else if (a == "--forks") debugForks = true;
		else bc = a;
	}
	startT = nowSec();
	rlimit rl{memLimitMB << 20, memLimitMB << 20};
	setrlimit(RLIMIT_AS, &rl);
	rlimit st{512u << 20, RLIM_INFINITY}; setrlimit(RLIMIT_STACK, &st);
	SMDiagnostic err;
	M = parseIRFile(bc, err, C);
	if (!M) { err.print("vsx", errs()); return 2; }
	registerHooks();
	for (auto& l : links) {
		auto L = parseIRFile(l[0] == '!' ? l.substr(1) : l, err, C);
		if (!L) { err.print("vsx", errs()); return 2; }
		if (Linker::linkModules(*M, std::move(L), l[0] == '!' ? Linker::OverrideFromSrc : Linker::None)) { fprintf(stderr, "link error\n"); return 2; }
	}
	if (!dumpBc.empty()) {
		// optimise with hooks kept out of line
		for (auto& F : *M) {
			F.removeFnAttr(Attribute::OptimizeNone);
			if (hookTable.count(F.getName().str()) || std::find(noinl.begin(), noinl.end(), F.getName().str()) != noinl.end()) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
		}
		// keep case entry points; everything else may be dropped
		for (auto& F : *M) if (!F.isDeclaration() && !F.getName().starts_with("vp_case_")) { if (F.hasLinkOnceLinkage() || F.hasWeakLinkage() || F.hasExternalLinkage()) { F.setComdat(nullptr); F.setLinkage(GlobalValue::InternalLinkage); } }
		for (auto& G : M->globals()) if (!G.isDeclaration() && !G.getName().starts_with("llvm.")) { G.setComdat(nullptr); G.setLinkage(GlobalValue::InternalLinkage); }
		if (!opt.empty()) {
			LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
			PipelineTuningOptions PTO; PTO.LoopVectorization = false; PTO.SLPVectorization = false; PTO.LoopUnrolling = false; PTO.LoopInterleaving = false;
			PassBuilder PB(nullptr, PTO);
			PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
			PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
			ModulePassManager MPM;
			if (auto e = PB.parsePassPipeline(MPM, "globaldce,default<O1>,globaldce")) { errs() << toString(std::move(e)) << "\n"; return 2; }
			MPM.run(*M, MAM);
		}
		std::error_code ec;
		raw_fd_ostream os(dumpBc, ec);
		WriteBitcodeToFile(*M, os);
		return 0;
	}
	DL = &M->getDataLayout();
	auto s = std::make_unique<State>();
	s->model = std::make_shared<Model>();
	initGlobals(*s);
	// constructors
	std::vector<std::pair<u64, Function*>> ctors;
	if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
		for (auto& op : ca->operands()) { auto* st = cast<ConstantStruct>(op); if (auto* F = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), F}); }
	std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
	Function* entry = M->getFunction("vp_case_" + caseName);
	if (!entry || entry->isDeclaration()) { fprintf(stderr, "no such case %s\n", caseName.c_str()); return 2; }
	try {
		for (auto& [p, F] : ctors) { std::vector<V> none; pushCall(*s, getFunc(F), none, nullptr); while (!s->st.empty()) step(*s); }
	} catch (PathEnd&) { fprintf(stderr, "static initialisation failed: %s %s\n", viols.empty() ? "" : (viols[0].label + " " + viols[0].where).c_str(), incomplete.empty() ? "" : incomplete[0].c_str()); return 2; }
	s->steps = 0; stats = Stats();
	for (auto& f : funcByIdx) { f->calls = 0; for (auto& in : f->code) in.executed = false; }
	{ std::vector<V> none; pushCall(*s, getFunc(entry), none, nullptr); }
	work.push_back(std::move(s));
	u64 maxWork = 0;
	while (!work.empty()) {
		auto cur = std::move(work.back());
		work.pop_back();
		if (!runState(std::move(cur))) break;
		maxWork = std::max<u64>(maxWork, work.size());
		if (nowSec() - startT > timeLimit) { if (!work.empty()) addIncomplete("time limit"); break; }
		if (viols.size() >= maxViol) { break; }
	}
	// report
	std::ostringstream os;
	os << "{\"case\":" << jstr(caseName) << ",\"arg\":" << caseArg << ",\"paths\":" << stats.paths << ",\"cut\":" << stats.cutAssume << ",\"instr\":" << stats.instr << ",\"forks\":" << stats.forks << ",\"symBranches\":" << stats.symBranches
	   << ",\"asserts\":" << stats.asserts << ",\"symAsserts\":" << stats.symAsserts << ",\"calls\":" << stats.calls << ",\"limitCut\":" << stats.limitCut
	   << ",\"queries\":" << solverStats.queries << ",\"sat\":" << solverStats.sat << ",\"unsat\":" << solverStats.unsat << ",\"unknown\":" << solverStats.unknown << ",\"cacheHits\":" << solverStats.cacheHits << ",\"external\":" << solverStats.external
	   << ",\"solverTime\":" << solverStats.time << ",\"maxQuery\":" << solverStats.maxTime << ",\"time\":" << nowSec() - startT << ",\"exprs\":" << numExprs << ",\"vars\":" << allVars.size();
	os << ",\"reached\":{";
	{ bool c0 = false; for (auto& [k, v] : reachCount) { os << (c0 ? "," : "") << jstr(k) << ":" << v; c0 = true; } }
	os << "},\"incomplete\":[";
	{ bool c0 = false; for (auto& k : incomplete) { os << (c0 ? "," : "") << jstr(k); c0 = true; } }
	os << "],\"stubs\":[";
	{ bool c0 = false; for (auto& k : stubsUsed) { os << (c0 ? "," : "") << jstr(k); c0 = true; } }
	os << "],\"violations\":[";
	for (size_t i = 0; i < viols.size(); i++) {
		auto& v = viols[i];
		os << (i ? "," : "") << "{\"kind\":" << jstr(v.kind) << ",\"label\":" << jstr(v.label) << ",\"where\":" << jstr(v.where) << ",\"inputs\":[";
		for (size_t j = 0; j < v.inputs.size(); j++) os << (j ? "," : "") << "[" << jstr(v.inputs[j].first) << ",\"" << v.inputs[j].second << "\"]";
		os << "]}";
	}
	os << "],\"traces\":[";
	for (size_t i = 0; i < traces.size(); i++) {
		os << (i ? "," : "") << "{\"in\":[";
		for (size_t j = 0; j < traces[i].inputs.size(); j++) os << (j ? "," : "") << "\"" << traces[i].inputs[j] << "\"";
		os << "],\"obs\":[";
		for (size_t j = 0; j < traces[i].obs.size(); j++) os << (j ? "," : "") << "\"" << traces[i].obs[j].first << "\"";
		os << "]}";
	}
	os << "],\"functions\":{";
	// functions of the sources under test with executed lines
	std::map<std::string, std::set<unsigned>> fn;
	for (auto* f : funcByIdx) for (auto& in : f->code) if (in.executed) {
		DILocation* dl = in.I->getDebugLoc().get();
		for (; dl; dl = dl->getInlinedAt()) {
			std::string file = dl->getFilename().str();
			if (file.compare(0, srcPrefix.size(), srcPrefix) != 0) continue;
			if (auto* sp = dl->getScope()->getSubprogram()) {
				std::string n = file.substr(file.rfind('/') + 1) + ":" + sp->getName().str();
				if (dl->getLine()) fn[n].insert(dl->getLine());
			}
		}
	}
	{ bool c0 = false; for (auto& [k, v] : fn) { os << (c0 ? "," : "") << jstr(k) << ":["; c0 = true; bool c1 = false; for (auto l : v) { os << (c1 ? "," : "") << l; c1 = true; } os << "]"; } }
	os << "}}\n";
	if (out.empty()) std::cout << os.str(); else { std::ofstream f(out); f << os.str(); }
	if (debugForks) { std::vector<std::pair<u64, std::string>> v; for (auto& [k, n] : forkSites) v.push_back({n, k}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "%8llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str()); }
	fflush(stdout);
	std::cout.flush();
	_exit(0);
}
