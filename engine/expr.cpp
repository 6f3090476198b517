#include "expr.h"

const char* opNames[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr",
	"eq","ult","ule","slt","sle","ite","concat","extract","zext","sext",
	"fadd","fsub","fmul","fdiv","frem","fneg","fabs","fsqrt","ffloor","fceil","ftrunc","fround","frint","feq","flt","fle","funo","sitof","uitof","ftosi","ftoui","fcast"};

std::vector<Ex*> allVars;
std::vector<std::string> varNames;
u64 numExprs = 0;

static std::vector<Ex*> table(1 << 16, nullptr);
static size_t tableCount = 0;
static char* arena = nullptr;
static size_t arenaLeft = 0;

static inline u64 hmix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }
static inline u64 hashNode(Op op, unsigned w, u128 c, Ex* a, Ex* b, Ex* d) {
	u64 h = hmix(op * 1000003ull + w, (u64)c);
	h = hmix(h, (u64)(c >> 64));
	h = hmix(h, (u64)a >> 4);
	h = hmix(h, (u64)b >> 4);
	h = hmix(h, (u64)d >> 4);
	return h ^ (h >> 29);
}

static const VarSet emptySet;
static std::unordered_map<u64, const VarSet*> unionCache;
struct VSHash { size_t operator()(const VarSet* s) const { u64 h = s->size(); for (auto v : *s) h = hmix(h, v); return h; } };
struct VSEq { bool operator()(const VarSet* a, const VarSet* b) const { return *a == *b; } };
static std::unordered_set<const VarSet*, VSHash, VSEq> vsTable;
static const VarSet* internVS(VarSet&& s) {
	if (s.empty()) return &emptySet;
	auto it = vsTable.find(&s);
	if (it != vsTable.end()) return *it;
	auto* n = new VarSet(std::move(s));
	vsTable.insert(n);
	return n;
}
static std::unordered_map<const VarSet*, std::unordered_map<const VarSet*, const VarSet*>> uCache;
static const VarSet* unite(const VarSet* a, const VarSet* b) {
	if (a == b || b->empty()) return a;
	if (a->empty()) return b;
	if (a > b) std::swap(a, b);
	auto& m = uCache[a];
	auto it = m.find(b);
	if (it != m.end()) return it->second;
	VarSet s;
	std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(s));
	return m[b] = internVS(std::move(s));
}

// With canonBits > 0 every integer term over at most that many input bits is
// kept as its decision tree, so that equal functions are the same term.
unsigned canonBits = 0;
static bool inCanon = false;
static Ex* canonical(Ex* e);
static Ex* rawNode(Op op, unsigned w, u128 c, Ex* a = nullptr, Ex* b = nullptr, Ex* d = nullptr);
static Ex* node(Op op, unsigned w, u128 c, Ex* a = nullptr, Ex* b = nullptr, Ex* d = nullptr) {
	Ex* e = rawNode(op, w, c, a, b, d);
	return canonBits && !inCanon && e->nk ? canonical(e) : e;
}
static Ex* rawNode(Op op, unsigned w, u128 c, Ex* a, Ex* b, Ex* d) {
	u64 h = hashNode(op, w, c, a, b, d);
	size_t mask = table.size() - 1;
	size_t i = h & mask;
	while (table[i]) {
		Ex* e = table[i];
		if (e->op == op && e->w == w && e->c == c && e->k[0] == a && e->k[1] == b && e->k[2] == d) return e;
		i = (i + 1) & mask;
	}
	if (arenaLeft < sizeof(Ex)) { arenaLeft = sizeof(Ex) * 8192; arena = (char*)aligned_alloc(16, arenaLeft); }
	Ex* e = (Ex*)arena;
	arena += sizeof(Ex); arenaLeft -= sizeof(Ex);
	new (e) Ex();
	e->op = op; e->w = w; e->c = c; e->k[0] = a; e->k[1] = b; e->k[2] = d;
	e->nk = d ? 3 : b ? 2 : a ? 1 : 0;
	e->id = (uint32_t)numExprs++;
	if (op == VAR) e->vars = internVS(VarSet{(uint32_t)c});
	else {
		const VarSet* s = &emptySet;
		for (int j = 0; j < e->nk; j++) s = unite(s, e->k[j]->vars);
		e->vars = s;
	}
	table[i] = e;
	if (++tableCount * 2 > table.size()) {
		std::vector<Ex*> nt(table.size() * 2, nullptr);
		size_t m2 = nt.size() - 1;
		for (Ex* x : table) if (x) {
			size_t j = hashNode(x->op, x->w, x->c, x->k[0], x->k[1], x->k[2]) & m2;
			while (nt[j]) j = (j + 1) & m2;
			nt[j] = x;
		}
		table.swap(nt);
	}
	return e;
}

Ex* mkConst(u128 v, unsigned w) { return node(CONST, w, v & maskw(w)); }
Ex* mkVar(const std::string& name, unsigned w) {
	u128 idx = allVars.size();
	varNames.push_back(name);
	allVars.push_back(nullptr);
	Ex* e = node(VAR, w, idx);
	allVars.back() = e;
	return e;
}

u128 evalBin(Op op, u128 a, u128 b, unsigned w) {
	u128 m = maskw(w);
	switch (op) {
	case ADD: return (a + b) & m;
	case SUB: return (a - b) & m;
	case MUL: return (a * b) & m;
	case UDIV: return b ? (a / b) & m : m;
	case UREM: return b ? (a % b) & m : a;
	case SDIV: {
		i128 x = sx(a, w), y = sx(b, w);
		if (y == 0) return x < 0 ? 1 : m;
		if (y == -1) return (u128)(-(u128)x) & m;
		return (u128)(x / y) & m;
	}
	case SREM: {
		i128 x = sx(a, w), y = sx(b, w);
		if (y == 0) return a;
		if (y == -1) return 0;
		return (u128)(x % y) & m;
	}
	case AND: return a & b;
	case OR: return a | b;
	case XOR: return a ^ b;
	case SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
	case LSHR: return b >= w ? 0 : (a >> (unsigned)b);
	case ASHR: { i128 x = sx(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
	case EQ: return a == b;
	case ULT: return a < b;
	case ULE: return a <= b;
	case SLT: return sx(a, w) < sx(b, w);
	case SLE: return sx(a, w) <= sx(b, w);
	default: break;
	}
	fprintf(stderr, "evalBin: bad op %d\n", op); abort();
}

static long double fbin(Op op, long double a, long double b) {
	switch (op) { case FADD: return a + b; case FSUB: return a - b; case FMUL: return a * b; case FDIV: return a / b; case FREM: return fmodl(a, b); default: abort(); }
}
static u128 evalFBin(Op op, u128 a, u128 b, unsigned w) {
	if (w == 80) return fromLD(fbin(op, toLD(a), toLD(b)));
	if (w == 64) {
		double x = toD(a), y = toD(b);
		switch (op) { case FADD: return fromD(x + y); case FSUB: return fromD(x - y); case FMUL: return fromD(x * y); case FDIV: return fromD(x / y); case FREM: return fromD(fmod(x, y)); default: abort(); }
	}
	float x = toF(a), y = toF(b);
	switch (op) { case FADD: return fromF(x + y); case FSUB: return fromF(x - y); case FMUL: return fromF(x * y); case FDIV: return fromF(x / y); case FREM: return fromF(fmodf(x, y)); default: abort(); }
}
static u128 evalFCmp(Op op, u128 a, u128 b, unsigned w) {
	long double x = fpVal(a, w), y = fpVal(b, w);
	switch (op) { case FEQ: return x == y; case FLT: return x < y; case FLE: return x <= y; case FUNO: return std::isunordered(x, y); default: abort(); }
}
static u128 evalFUn(Op op, u128 a, unsigned w) {
	if (op == FNEG) return a ^ ((u128)1 << (w - 1));
	if (op == FABS) return a & ~((u128)1 << (w - 1));
	auto f = [&](auto x) {
		switch (op) { case FSQRT: return std::sqrt(x); case FFLOOR: return std::floor(x); case FCEIL: return std::ceil(x); case FTRUNC: return std::trunc(x); case FROUND: return std::round(x); case FRINT: return std::nearbyint(x); default: abort(); }
	};
	if (w == 80) return fromLD(f(toLD(a)));
	if (w == 64) return fromD(f(toD(a)));
	return fromF(f(toF(a)));
}
static u128 evalConv(Op op, u128 a, unsigned from, unsigned to) {
	switch (op) {
	case SITOF: { i128 v = sx(a, from); return to == 80 ? fromLD((long double)v) : to == 64 ? fromD((double)v) : fromF((float)v); }
	case UITOF: { u128 v = a; return to == 80 ? fromLD((long double)v) : to == 64 ? fromD((double)v) : fromF((float)v); }
	case FTOSI: {
		long double v = truncl(fpVal(a, from));
		if (!(std::isfinite(v)) || fabsl(v) > 1.6e38L) return to >= 64 ? ((u128)1 << (to - 1)) : 0;
		return (u128)(i128)v & maskw(to);
	}
	case FTOUI: {
		long double v = truncl(fpVal(a, from));
		if (!(std::isfinite(v)) || fabsl(v) > 1.6e38L) return 0;
		return (v < 0 ? (u128)(i128)v : (u128)v) & maskw(to);
	}
	case FCAST: {
		if (from == to) return a;
		if (from == 80) return to == 64 ? fromD((double)toLD(a)) : fromF((float)toLD(a));
		if (from == 64) return to == 80 ? fromLD((long double)toD(a)) : fromF((float)toD(a));
		return to == 80 ? fromLD((long double)toF(a)) : fromD((double)toF(a));
	}
	default: abort();
	}
}

u128 evalOp(const Ex* e, const u128* kv) {
	switch (e->op) {
	case CONST: return e->c;
	case ITE: return kv[0] ? kv[1] : kv[2];
	case CONCAT: return (kv[0] << e->k[1]->w) | kv[1];
	case EXTRACT: return (kv[0] >> (unsigned)e->c) & maskw(e->w);
	case ZEXT: return kv[0];
	case SEXT: return (u128)sx(kv[0], e->k[0]->w) & maskw(e->w);
	case FADD: case FSUB: case FMUL: case FDIV: case FREM: return evalFBin(e->op, kv[0], kv[1], e->w);
	case FNEG: case FABS: case FSQRT: case FFLOOR: case FCEIL: case FTRUNC: case FROUND: case FRINT: return evalFUn(e->op, kv[0], e->w);
	case FEQ: case FLT: case FLE: case FUNO: return evalFCmp(e->op, kv[0], kv[1], e->k[0]->w);
	case SITOF: case UITOF: case FTOSI: case FTOUI: case FCAST: return evalConv(e->op, kv[0], e->k[0]->w, e->w);
	default: return evalBin(e->op, kv[0], kv[1], e->k[0]->w);
	}
}

u128 Model::eval(Ex* root) {
	if (root->op == CONST) return root->c;
	if (root->op == VAR) return get((uint32_t)root->c) & maskw(root->w);
	auto it = memo.find(root);
	if (it != memo.end()) return it->second;
	std::vector<Ex*> st{root};
	while (!st.empty()) {
		Ex* e = st.back();
		if (memo.count(e)) { st.pop_back(); continue; }
		u128 kv[3] = {0, 0, 0};
		bool ok = true;
		for (int i = 0; i < e->nk; i++) {
			Ex* k = e->k[i];
			if (k->op == CONST) kv[i] = k->c;
			else if (k->op == VAR) kv[i] = get((uint32_t)k->c) & maskw(k->w);
			else {
				auto j = memo.find(k);
				if (j == memo.end()) { st.push_back(k); ok = false; } else kv[i] = j->second;
			}
		}
		if (!ok) continue;
		memo[e] = evalOp(e, kv);
		st.pop_back();
	}
	return memo[root];
}

// ------------------------------------------------------------------ bounds
u128 umaxOf(Ex* e) {
	if (e->umaxValid) return e->umaxV;
	u128 m = maskw(e->w), r = m;
	switch (e->op) {
	case CONST: r = e->c; break;
	case ZEXT: r = umaxOf(e->k[0]); break;
	case AND: r = std::min(umaxOf(e->k[0]), umaxOf(e->k[1])); break;
	case OR: case XOR: {
		u128 a = std::max(umaxOf(e->k[0]), umaxOf(e->k[1]));
		unsigned b = 0; while (b < 128 && (a >> b)) b++;
		r = b >= 128 ? ~(u128)0 : (((u128)1 << b) - 1);
		break;
	}
	case ITE: r = std::max(umaxOf(e->k[1]), umaxOf(e->k[2])); break;
	case UREM: { u128 ua = umaxOf(e->k[0]), ub = umaxOf(e->k[1]); r = ub ? std::min(ua, ub - 1) : ua; break; } // a zero divisor is a fault before the term exists
	case UDIV: if (isC(e->k[1]) && e->k[1]->c) r = umaxOf(e->k[0]) / e->k[1]->c; break;
	case LSHR: if (isC(e->k[1])) r = e->k[1]->c >= e->w ? 0 : umaxOf(e->k[0]) >> (unsigned)e->k[1]->c; else r = umaxOf(e->k[0]); break;
	case ADD: {
		u128 a = umaxOf(e->k[0]), b = umaxOf(e->k[1]);
		if (a <= m - b) r = a + b;
		break;
	}
	case MUL: {
		u128 a = umaxOf(e->k[0]), b = umaxOf(e->k[1]);
		if (a == 0 || b <= m / a) r = a * b;
		break;
	}
	case SHL: if (isC(e->k[1]) && e->k[1]->c < e->w) { u128 a = umaxOf(e->k[0]); if (a <= (m >> (unsigned)e->k[1]->c)) r = a << (unsigned)e->k[1]->c; } break;
	case CONCAT: r = (umaxOf(e->k[0]) << e->k[1]->w) | umaxOf(e->k[1]); break;
	case EXTRACT: if (e->c == 0) { u128 a = umaxOf(e->k[0]); if (a <= m) r = a; } else { u128 a = umaxOf(e->k[0]) >> (unsigned)e->c; if (a <= m) r = a; } break;
	default: break;
	}
	if (r > m) r = m;
	e->umaxValid = 1; e->umaxV = r;
	return r;
}
static unsigned trailingZeros0(Ex* e);
unsigned trailingZeros(Ex* e) { if (e->tz == 255) e->tz = (uint8_t)trailingZeros0(e); return e->tz; }
static unsigned trailingZeros0(Ex* e) {
	switch (e->op) {
	case CONST: { if (!e->c) return e->w; unsigned n = 0; while (!((e->c >> n) & 1)) n++; return n; }
	case ADD: case SUB: case OR: case XOR: return std::min(trailingZeros(e->k[0]), trailingZeros(e->k[1]));
	case AND: return std::max(trailingZeros(e->k[0]), trailingZeros(e->k[1]));
	case MUL: return std::min<unsigned>(e->w, trailingZeros(e->k[0]) + trailingZeros(e->k[1]));
	case SHL: if (isC(e->k[1])) return std::min<unsigned>(e->w, trailingZeros(e->k[0]) + (unsigned)std::min<u128>(e->k[1]->c, 128)); return trailingZeros(e->k[0]);
	case ZEXT: case SEXT: return trailingZeros(e->k[0]) >= e->k[0]->w ? e->w : trailingZeros(e->k[0]);
	case ITE: return std::min(trailingZeros(e->k[1]), trailingZeros(e->k[2]));
	case CONCAT: { unsigned t = trailingZeros(e->k[1]); if (t < e->k[1]->w) return t; return t + trailingZeros(e->k[0]); }
	default: return 0;
	}
}

// ------------------------------------------------------------------ simplifier
Ex* mkNot(Ex* a) { return mkBin(XOR, a, mkConst(maskw(a->w), a->w)); }
static Ex* bT() { static Ex* e = mkConst(1, 1); return e; }
static Ex* bF() { static Ex* e = mkConst(0, 1); return e; }
static Ex* mkB(bool b) { return b ? bT() : bF(); }
static bool isNot(Ex* e) { return e->op == XOR && isC(e->k[1]) && e->k[1]->c == maskw(e->w); }

// ite trees with constant leaves (bounded)
static Ex* mapTree(Ex* e, const std::function<Ex*(Ex*)>& f, std::unordered_map<Ex*, Ex*>& memo) {
	if (isC(e)) return f(e);
	auto it = memo.find(e);
	if (it != memo.end()) return it->second;
	Ex* a = mapTree(e->k[1], f, memo);
	Ex* b = mapTree(e->k[2], f, memo);
	return memo[e] = mkIte(e->k[0], a, b);
}
static int ctSizeOf(Ex* e) {
	if (isC(e)) return 1;
	if (e->op != ITE) return -1;
	if (e->ctSize != -2) return e->ctSize;
	int a = ctSizeOf(e->k[1]), b = a < 0 ? -1 : ctSizeOf(e->k[2]);
	int r = a < 0 || b < 0 || a + b > 100000 ? -1 : a + b + 1;
	return e->ctSize = r;
}
static bool smallConstTree(Ex* e) { if (e->op != ITE) return false; int n = ctSizeOf(e); return n >= 0 && n <= 2200; }

// ------------------------------------------------------------------ tabulation
// A term over at most maxBits input bits is rewritten into its decision tree
// (an equivalent term with constant leaves), so that multiplications, divisions
// and floating-point operations over small domains never reach the solver.
static u64 evStamp = 0;
static std::vector<u128> evVal;
static u128 evalTab(Ex* e) {
	if (e->op == CONST) return e->c;
	if (e->op == VAR) return evVal[(size_t)e->c];
	if (e->stamp == evStamp) return e->ev;
	u128 r;
	if (e->op == ITE) r = evalTab(e->k[0]) ? evalTab(e->k[1]) : evalTab(e->k[2]);
	else { u128 kv[3] = {0, 0, 0}; for (int i = 0; i < e->nk; i++) kv[i] = evalTab(e->k[i]); r = evalOp(e, kv); }
	e->stamp = evStamp; e->ev = r;
	return r;
}
static Ex* tabulate(Ex* e, unsigned maxBits) {
	if (e->vars->empty()) return e;
	unsigned bits = 0;
	for (auto v : *e->vars) { bits += allVars[v]->w; if (bits > maxBits) return e; }
	{ // size of the term
		evStamp++;
		size_t n = 0; std::vector<Ex*> st{e};
		while (!st.empty()) { Ex* x = st.back(); st.pop_back(); if (x->stamp == evStamp) continue; x->stamp = evStamp; if (++n > 6000) return e; for (int i = 0; i < x->nk; i++) st.push_back(x->k[i]); }
	}
	if (evVal.size() < allVars.size()) evVal.resize(allVars.size());
	std::vector<Ex*> bit;
	for (auto v : *e->vars) for (unsigned i = allVars[v]->w; i-- > 0;) bit.push_back(mkExtract(allVars[v], i, 1));
	std::vector<Ex*> leaf((size_t)1 << bits);
	for (size_t a = 0; a < leaf.size(); a++) {
		unsigned pos = bits;
		for (auto v : *e->vars) { unsigned w = allVars[v]->w; pos -= w; evVal[v] = (a >> pos) & (size_t)maskw(w); }
		evStamp++;
		leaf[a] = mkConst(evalTab(e), e->w);
	}
	for (unsigned l = bits; l-- > 0;) for (size_t a = 0; a < ((size_t)1 << l); a++) leaf[a] = mkIte(bit[l], leaf[2 * a + 1], leaf[2 * a]);
	return leaf[0];
}
static std::unordered_map<Ex*, Ex*> canonMemo;
static std::unordered_map<Ex*, std::vector<u128>> canonTab; // values of a canonical term of one variable
struct TabKey { unsigned w; const VarSet* v; std::vector<u128> t; bool operator==(const TabKey& o) const { return w == o.w && v == o.v && t == o.t; } };
struct TabHash { size_t operator()(const TabKey& k) const { u64 h = hmix(k.w, (u64)k.v); for (u128 x : k.t) h = hmix(h, (u64)x ^ (u64)(x >> 64) * 31); return h ^ (h >> 29); } };
static std::unordered_map<TabKey, Ex*, TabHash> canonOf;
static std::vector<u128>* tabOf(Ex* e) { // e: of one variable of few bits
	auto t = canonTab.find(e);
	if (t != canonTab.end()) return &t->second;
	Ex* v = allVars[e->vars->front()];
	if (evVal.size() < allVars.size()) evVal.resize(allVars.size());
	std::vector<u128> r((size_t)1 << v->w);
	for (size_t a = 0; a < r.size(); a++) { evVal[(size_t)v->c] = a; evStamp++; r[a] = evalTab(e); }
	return &(canonTab[e] = std::move(r));
}
// the canonical term of an operation whose operands depend on one and the same variable; null: not applicable
static Ex* canonOp(Op op, unsigned w, u128 c, Ex* x0, Ex* x1 = nullptr, Ex* x2 = nullptr) {
	if (!canonBits || inCanon || op >= FADD) return nullptr;
	Ex* k[3] = {x0, x1, x2}; const VarSet* vs = nullptr; int nk = x2 ? 3 : x1 ? 2 : 1;
	for (int i = 0; i < nk; i++) if (!k[i]->vars->empty()) { if (k[i]->vars->size() != 1 || (vs && vs != k[i]->vars)) return nullptr; vs = k[i]->vars; }
	if (!vs) return nullptr;
	Ex* v = allVars[vs->front()];
	if (v->w > canonBits || (op == EXTRACT && w == 1 && x0 == v)) return nullptr;
	const std::vector<u128>* kt[3] = {};
	for (int i = 0; i < nk; i++) if (!isC(k[i])) kt[i] = tabOf(k[i]);
	Ex tmp{}; tmp.op = op; tmp.w = (uint16_t)w; tmp.nk = (uint8_t)nk; tmp.c = c; for (int i = 0; i < 3; i++) tmp.k[i] = k[i];
	TabKey key{w, vs, std::vector<u128>((size_t)1 << v->w)};
	for (size_t a = 0; a < key.t.size(); a++) {
		u128 kv[3] = {0, 0, 0};
		for (int i = 0; i < nk; i++) kv[i] = kt[i] ? (*kt[i])[a] : k[i]->c;
		key.t[a] = (op == ITE ? (kv[0] ? kv[1] : kv[2]) : evalOp(&tmp, kv)) & maskw(w);
	}
	auto f = canonOf.find(key);
	if (f != canonOf.end()) return f->second;
	inCanon = true;
	std::vector<Ex*> leaf(key.t.size());
	for (size_t a = 0; a < leaf.size(); a++) leaf[a] = mkConst(key.t[a], w);
	for (unsigned l = v->w; l-- > 0;) {
		Ex* bit = v->w == 1 ? v : mkExtract(v, v->w - 1 - l, 1);
		for (size_t a = 0; a < ((size_t)1 << l); a++) { Ex* x = leaf[2 * a + 1]; Ex* y = leaf[2 * a]; leaf[a] = x == y ? x : w == 1 ? mkIte(bit, x, y) : rawNode(ITE, w, 0, bit, x, y); }
	}
	inCanon = false;
	Ex* r = leaf[0];
	if (!r->vars->empty()) canonTab[r] = key.t;
	return canonOf[std::move(key)] = r;
}
static Ex* canonical(Ex* e) {
	if (e->op == EXTRACT && e->w == 1 && e->k[0]->op == VAR) return e;
	auto it = canonMemo.find(e);
	if (it != canonMemo.end()) return it->second;
	inCanon = true;
	Ex* r = tabulate(e, canonBits);
	inCanon = false;
	canonMemo[e] = r; canonMemo[r] = r;
	return r;
}
static const unsigned TAB_BV = 8, TAB_FP = 10;

// signed interval of a term (sound over-approximation)
static void srange(Ex* e, i128& lo, i128& hi) {
	if (e->srValid) { lo = e->srLo; hi = e->srHi; return; }
	unsigned w = e->w;
	i128 mn = w >= 128 ? (i128)((u128)1 << 127) : -((i128)1 << (w - 1)), mx = w >= 128 ? (i128)(~(u128)0 >> 1) : ((i128)1 << (w - 1)) - 1;
	lo = mn; hi = mx;
	if (w <= 64) {
		i128 a, b, c, d;
		switch (e->op) {
		case CONST: lo = hi = sx(e->c, w); break;
		case SEXT: srange(e->k[0], lo, hi); break;
		case ADD: srange(e->k[0], a, b); srange(e->k[1], c, d); if (a + c >= mn && b + d <= mx) { lo = a + c; hi = b + d; } break;
		case SUB: srange(e->k[0], a, b); srange(e->k[1], c, d); if (a - d >= mn && b - c <= mx) { lo = a - d; hi = b - c; } break;
		case MUL: {
			srange(e->k[0], a, b); srange(e->k[1], c, d);
			i128 p[4] = {a * c, a * d, b * c, b * d}, l = std::min(std::min(p[0], p[1]), std::min(p[2], p[3])), h = std::max(std::max(p[0], p[1]), std::max(p[2], p[3]));
			if (l >= mn && h <= mx) { lo = l; hi = h; }
			break;
		}
		case ITE: srange(e->k[1], a, b); srange(e->k[2], c, d); lo = std::min(a, c); hi = std::max(b, d); break;
		default: break;
		}
		u128 u = umaxOf(e);
		if (u <= (maskw(w) >> 1)) { if (lo < 0) lo = 0; if (hi > (i128)u) hi = (i128)u; }
	}
	e->srValid = 1; e->srLo = lo; e->srHi = hi;
}
void signedRange(Ex* e, i128& lo, i128& hi) { srange(e, lo, hi); }
static unsigned sbits(i128 lo, i128 hi) { unsigned n = 1; while (n < 127 && (lo < -((i128)1 << (n - 1)) || hi > ((i128)1 << (n - 1)) - 1)) n++; return n; }
// signed operations whose operands and result are known to be small
static Ex* snarrow(Op op, Ex* a, Ex* b) {
	unsigned w = a->w;
	if (w < 16 || w > 64) return nullptr;
	i128 al, ah, bl, bh, l, h;
	srange(a, al, ah); srange(b, bl, bh);
	if (op == ADD) { l = al + bl; h = ah + bh; }
	else if (op == SUB) { l = al - bh; h = ah - bl; }
	else { i128 p[4] = {al * bl, al * bh, ah * bl, ah * bh}; l = std::min(std::min(p[0], p[1]), std::min(p[2], p[3])); h = std::max(std::max(p[0], p[1]), std::max(p[2], p[3])); }
	unsigned n = std::max(sbits(l, h), std::max(sbits(al, ah), sbits(bl, bh)));
	if (n > w / 2) return nullptr;
	return mkSExt(mkBin(op, mkExtract(a, 0, n), mkExtract(b, 0, n)), w);
}

// operations on values known to be small are done in fewer bits
static Ex* narrow(Op op, Ex* a, Ex* b) {
	unsigned w = a->w;
	if (w <= 8) return nullptr;
	u128 ua = umaxOf(a), ub = umaxOf(b), m = maskw(w), r;
	if (op == MUL) { if (ub && ua > m / ub) return nullptr; r = ua * ub; if (ua > r) r = ua; if (ub > r) r = ub; }
	else r = ua > ub ? ua : ub;
	unsigned n = 1; while (n < 128 && (r >> n)) n++;
	if (n > w / 2) return nullptr;
	return mkZExt(mkBin(op, mkExtract(a, 0, n), mkExtract(b, 0, n)), w);
}

Ex* mkBin(Op op, Ex* a, Ex* b) {
	unsigned w = a->w;
	if (a->w != b->w) { fprintf(stderr, "mkBin %s width mismatch %u %u\n", opNames[op], a->w, b->w); abort(); }
	bool cmp = op >= EQ && op <= SLE;
	if (isC(a) && isC(b)) return mkConst(evalBin(op, a->c, b->c, w), cmp ? 1 : w);
	if (Ex* t = canonOp(op, cmp ? 1 : w, 0, a, b)) return t;
	u128 m = maskw(w);
	bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ;
	if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
	// push into constant ite trees
	if (isC(b) && a->op == ITE && (cmp || op == ADD || op == SUB || op == MUL || op == AND || op == SHL || op == LSHR || op == UREM || op == UDIV || op == SDIV || op == SREM) && smallConstTree(a)) {
		std::unordered_map<Ex*, Ex*> memo;
		return mapTree(a, [&](Ex* l) { return mkBin(op, l, b); }, memo);
	}
	if (isC(a) && b->op == ITE && (cmp || op == SUB || op == SHL || op == LSHR) && smallConstTree(b)) {
		std::unordered_map<Ex*, Ex*> memo;
		return mapTree(b, [&](Ex* l) { return mkBin(op, a, l); }, memo);
	}
	switch (op) {
	case ADD:
		if (isC(b)) {
			if (!b->c) return a;
			if (a->op == ADD && isC(a->k[1])) return mkBin(ADD, a->k[0], mkConst(a->k[1]->c + b->c, w));
			if (a->op == SUB && isC(a->k[0])) return mkBin(SUB, mkConst(a->k[0]->c + b->c, w), a->k[1]);
		}
		if (a->op == ADD && isC(a->k[1]) && !isC(b)) return mkBin(ADD, mkBin(ADD, a->k[0], b), a->k[1]);
		if (b->op == ADD && isC(b->k[1]) && !isC(a)) return mkBin(ADD, mkBin(ADD, a, b->k[0]), b->k[1]);
		if (a->op == SUB && a->k[1] == b) return a->k[0];
		if (b->op == SUB && b->k[1] == a) return b->k[0];
		if (a->op == SEXT || b->op == SEXT) if (Ex* r = snarrow(op, a, b)) return r;
		break;
	case SUB:
		if (a == b) return mkConst(0, w);
		if (isC(b)) return mkBin(ADD, a, mkConst(-b->c, w));
		if (a->op == ADD) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0]; if (isC(a->k[1])) return mkBin(ADD, mkBin(SUB, a->k[0], b), a->k[1]); }
		if (b->op == ADD) { if (b->k[0] == a) return mkBin(SUB, mkConst(0, w), b->k[1]); if (b->k[1] == a) return mkBin(SUB, mkConst(0, w), b->k[0]); if (isC(b->k[1])) return mkBin(ADD, mkBin(SUB, a, b->k[0]), mkConst(-b->k[1]->c, w)); }
		if (isC(a) && b->op == SUB && isC(b->k[0])) return mkBin(ADD, b->k[1], mkConst(a->c - b->k[0]->c, w));
		if (a->op == SEXT || b->op == SEXT) if (Ex* r = snarrow(op, a, b)) return r;
		break;
	case MUL:
		if (isC(b)) {
			if (!b->c) return b;
			if (b->c == 1) return a;
			if (a->op == MUL && isC(a->k[1])) return mkBin(MUL, a->k[0], mkConst(a->k[1]->c * b->c, w));
			if ((b->c & (b->c - 1)) == 0) { unsigned s = 0; while ((b->c >> s) != 1) s++; return mkBin(SHL, a, mkConst(s, w)); }
		}
		if (Ex* r = narrow(op, a, b)) return r;
		if (w > 10) { Ex* n = node(op, w, 0, a, b); Ex* t = tabulate(n, TAB_BV); if (t != n) return t; }
		if (Ex* r = snarrow(op, a, b)) return r;
		break;
	case UDIV:
		if (!isC(b)) if (Ex* r = narrow(op, a, b)) return r;
		if (isC(b)) {
			if (b->c == 1) return a;
			if (b->c && umaxOf(a) < b->c) return mkConst(0, w);
			if (b->c && (b->c & (b->c - 1)) == 0) { unsigned s = 0; while ((b->c >> s) != 1) s++; return mkBin(LSHR, a, mkConst(s, w)); }
			// narrow the division
			u128 ua = umaxOf(a);
			if (b->c && w > 8) {
				unsigned n = 1; u128 mx = std::max(ua, b->c); while (n < 128 && (mx >> n)) n++;
				if (n < w && n <= w / 2) return mkZExt(mkBin(UDIV, mkExtract(a, 0, n), mkConst(b->c, n)), w);
			}
		}
		break;
	case UREM:
		if (!isC(b)) if (Ex* r = narrow(op, a, b)) return r;
		if (isC(b)) {
			if (b->c == 1) return mkConst(0, w);
			if (b->c && umaxOf(a) < b->c) return a;
			if (b->c && (b->c & (b->c - 1)) == 0) return mkBin(AND, a, mkConst(b->c - 1, w));
			u128 ua = umaxOf(a);
			if (b->c && w > 8) {
				unsigned n = 1; u128 mx = std::max(ua, b->c); while (n < 128 && (mx >> n)) n++;
				if (n < w && n <= w / 2) return mkZExt(mkBin(UREM, mkExtract(a, 0, n), mkConst(b->c, n)), w);
			}
		}
		break;
	case SDIV: case SREM:
		if (isC(b) && b->c == 1) return op == SDIV ? a : mkConst(0, w);
		if (umaxOf(a) <= (m >> 1) && umaxOf(b) <= (m >> 1)) return mkBin(op == SDIV ? UDIV : UREM, a, b);
		if (isC(b) && b->c && b->c <= (m >> 1) && w > 8 && a->op != ITE) { // sign and magnitude
			Ex* z = mkConst(0, w); Op u = op == SDIV ? UDIV : UREM;
			return mkIte(mkBin(SLT, a, z), mkBin(SUB, z, mkBin(u, mkBin(SUB, z, a), b)), mkBin(u, a, b));
		}
		break;
	case AND:
		if (a == b) return a;
		if (isC(b)) {
			if (!b->c) return b;
			if (b->c == m) return a;
			if (a->op == AND && isC(a->k[1])) return mkBin(AND, a->k[0], mkConst(a->k[1]->c & b->c, w));
			// low mask -> zext(extract)
			if ((b->c & (b->c + 1)) == 0) {
				if (umaxOf(a) <= b->c) return a;
				unsigned n = 0; while ((b->c >> n)) n++;
				return mkZExt(mkExtract(a, 0, n), w);
			}
			if (a->op == ZEXT) { unsigned n = a->k[0]->w; return mkZExt(mkBin(AND, a->k[0], mkConst(b->c, n)), w); }
		}
		if (w == 1) {
			if (isNot(a) && a->k[0] == b) return bF();
			if (isNot(b) && b->k[0] == a) return bF();
			if (a->op == AND && (a->k[0] == b || a->k[1] == b)) return a;
			if (b->op == AND && (b->k[0] == a || b->k[1] == a)) return b;
		}
		if (w > 1 && a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mkZExt(mkBin(AND, a->k[0], b->k[0]), w);
		break;
	case OR:
		if (a == b) return a;
		if (isC(b)) { if (!b->c) return a; if (b->c == m) return b; }
		if (w == 1) {
			if (isNot(a) && a->k[0] == b) return bT();
			if (isNot(b) && b->k[0] == a) return bT();
			if (a->op == OR && (a->k[0] == b || a->k[1] == b)) return a;
			if (b->op == OR && (b->k[0] == a || b->k[1] == a)) return b;
		} else {
			if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mkZExt(mkBin(OR, a->k[0], b->k[0]), w);
			// (hi << s) | zext(lo)  ->  concat
			for (int t = 0; t < 2; t++) {
				Ex* h = t ? b : a; Ex* l = t ? a : b;
				if (h->op == CONCAT && isC(h->k[1]) && h->k[1]->c == 0) {
					unsigned s = h->k[1]->w;
					if (umaxOf(l) <= maskw(s)) return mkConcat(h->k[0], mkExtract(l, 0, s));
				}
			}
		}
		break;
	case XOR:
		if (a == b) return mkConst(0, w);
		if (isC(b)) {
			if (!b->c) return a;
			if (a->op == XOR && isC(a->k[1])) return mkBin(XOR, a->k[0], mkConst(a->k[1]->c ^ b->c, w));
			if (w == 1) {
				if (a->op == ULT) return mkBin(ULE, a->k[1], a->k[0]);
				if (a->op == ULE) return mkBin(ULT, a->k[1], a->k[0]);
				if (a->op == SLT) return mkBin(SLE, a->k[1], a->k[0]);
				if (a->op == SLE) return mkBin(SLT, a->k[1], a->k[0]);
				if (a->op == ITE) return mkIte(a->k[0], mkNot(a->k[1]), mkNot(a->k[2]));
			}
		}
		if (w > 1 && a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mkZExt(mkBin(XOR, a->k[0], b->k[0]), w);
		break;
	case SHL:
		if (isC(b)) {
			if (!b->c) return a;
			if (b->c >= w) return mkConst(0, w);
			unsigned s = (unsigned)b->c;
			return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
		}
		if (isC(a) && !a->c) return a;
		break;
	case LSHR:
		if (isC(b)) {
			if (!b->c) return a;
			if (b->c >= w) return mkConst(0, w);
			unsigned s = (unsigned)b->c;
			return mkZExt(mkExtract(a, s, w - s), w);
		}
		if (isC(a) && !a->c) return a;
		break;
	case ASHR:
		if (isC(b)) {
			if (!b->c) return a;
			unsigned s = b->c >= w ? w - 1 : (unsigned)b->c;
			return mkSExt(mkExtract(a, s, w - s), w);
		}
		break;
	case EQ:
		if (a == b) return bT();
		if (w == 1 && isC(b)) return b->c ? a : mkNot(a);
		if (isC(b)) {
			if (umaxOf(a) < b->c) return bF();
			if (a->op == ADD && isC(a->k[1])) return mkEq(a->k[0], mkConst(b->c - a->k[1]->c, w));
			if (a->op == SUB && isC(a->k[0])) return mkEq(a->k[1], mkConst(a->k[0]->c - b->c, w));
			if (a->op == SUB && b->c == 0) return mkEq(a->k[0], a->k[1]);
			if (a->op == XOR && isC(a->k[1])) return mkEq(a->k[0], mkConst(b->c ^ a->k[1]->c, w));
			if (a->op == XOR && b->c == 0) return mkEq(a->k[0], a->k[1]);
			if (a->op == ZEXT) { if (b->c > maskw(a->k[0]->w)) return bF(); return mkEq(a->k[0], mkConst(b->c, a->k[0]->w)); }
			if (a->op == SEXT) { unsigned n = a->k[0]->w; if (((u128)sx(b->c, n) & m) != b->c) return bF(); return mkEq(a->k[0], mkConst(b->c, n)); }
			if (a->op == CONCAT) {
				unsigned n = a->k[1]->w;
				return mkAnd(mkEq(a->k[0], mkConst(b->c >> n, a->k[0]->w)), mkEq(a->k[1], mkConst(b->c, n)));
			}
			if (a->op == ITE && isC(a->k[1])) return a->k[1]->c == b->c ? mkOr(a->k[0], mkEq(a->k[2], b)) : mkAnd(mkNot(a->k[0]), mkEq(a->k[2], b));
			if (a->op == ITE && isC(a->k[2])) return a->k[2]->c == b->c ? mkOr(mkNot(a->k[0]), mkEq(a->k[1], b)) : mkAnd(a->k[0], mkEq(a->k[1], b));
		} else {
			if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
			if (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
			if ((a->op == SEXT || b->op == SEXT) && w >= 16 && w <= 64) {
				i128 al, ah, bl, bh; srange(a, al, ah); srange(b, bl, bh);
				unsigned n = std::max(sbits(al, ah), sbits(bl, bh));
				if (n <= w / 2) return mkEq(mkExtract(a, 0, n), mkExtract(b, 0, n));
			}
			if (a->op == ADD && b->op == ADD && a->k[1] == b->k[1]) return mkEq(a->k[0], b->k[0]);
			if (a->op == ADD && (a->k[0] == b || a->k[1] == b)) return mkEq(a->k[0] == b ? a->k[1] : a->k[0], mkConst(0, w));
			if (b->op == ADD && (b->k[0] == a || b->k[1] == a)) return mkEq(b->k[0] == a ? b->k[1] : b->k[0], mkConst(0, w));
			if (a->op == CONCAT && b->op == CONCAT && a->k[1]->w == b->k[1]->w) return mkAnd(mkEq(a->k[0], b->k[0]), mkEq(a->k[1], b->k[1]));
			if (a->op == ITE && (a->k[1] == b || a->k[2] == b)) return a->k[1] == b ? mkOr(a->k[0], mkEq(a->k[2], b)) : mkOr(mkNot(a->k[0]), mkEq(a->k[1], b));
			if (b->op == ITE && (b->k[1] == a || b->k[2] == a)) return b->k[1] == a ? mkOr(b->k[0], mkEq(b->k[2], a)) : mkOr(mkNot(b->k[0]), mkEq(b->k[1], a));
		}
		break;
	case ULT:
		if (a == b) return bF();
		if (isC(b)) { if (!b->c) return bF(); if (umaxOf(a) < b->c) return bT(); if (b->c == 1) return mkEq(a, mkConst(0, w)); }
		if (isC(a)) { if (a->c == m) return bF(); if (umaxOf(b) <= a->c) return bF(); if (a->c == 0) return mkNot(mkEq(b, a)); }
		if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(ULT, a->k[0], b->k[0]);
		if (a->op == ZEXT && isC(b)) return mkBin(ULT, a->k[0], mkConst(b->c, a->k[0]->w));
		if (b->op == ZEXT && isC(a)) return mkBin(ULT, mkConst(a->c, b->k[0]->w), b->k[0]);
		break;
	case ULE:
		if (a == b) return bT();
		if (isC(b)) { if (b->c == m) return bT(); if (umaxOf(a) <= b->c) return bT(); return mkBin(ULT, a, mkConst(b->c + 1, w)); }
		if (isC(a)) { if (!a->c) return bT(); if (umaxOf(b) < a->c) return bF(); return mkBin(ULT, mkConst(a->c - 1, w), b); }
		if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(ULE, a->k[0], b->k[0]);
		break;
	case SLT: case SLE: {
		if (a == b) return mkB(op == SLE);
		u128 h = m >> 1;
		// both non-negative
		bool an = umaxOf(a) <= h, bn = umaxOf(b) <= h;
		if (an && bn) return mkBin(op == SLT ? ULT : ULE, a, b);
		if (isC(b) && an && sx(b->c, w) < 0) return bF();
		if (isC(a) && bn && sx(a->c, w) < 0) return bT();
		if (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w) return mkBin(op, a->k[0], b->k[0]);
		if ((a->op == SEXT || b->op == SEXT) && !isC(a) && !isC(b) && w >= 16 && w <= 64) {
			i128 al, ah, bl, bh; srange(a, al, ah); srange(b, bl, bh);
			unsigned n = std::max(sbits(al, ah), sbits(bl, bh));
			if (n <= w / 2) return mkBin(op, mkExtract(a, 0, n), mkExtract(b, 0, n));
		}
		if (a->op == SEXT && isC(b)) {
			unsigned n = a->k[0]->w; i128 v = sx(b->c, w), lo = -((i128)1 << (n - 1)), hi = ((i128)1 << (n - 1)) - 1;
			if (v < lo) return bF();
			if (v > hi) return bT();
			return mkBin(op, a->k[0], mkConst((u128)v, n));
		}
		if (b->op == SEXT && isC(a)) {
			unsigned n = b->k[0]->w; i128 v = sx(a->c, w), lo = -((i128)1 << (n - 1)), hi = ((i128)1 << (n - 1)) - 1;
			if (v < lo) return bT();
			if (v > hi) return bF();
			return mkBin(op, mkConst((u128)v, n), b->k[0]);
		}
		// offset removal: x + c1 < c2 where x is a short unsigned (no wrap)
		if (isC(b) && a->op == ADD && isC(a->k[1])) {
			u128 ux = umaxOf(a->k[0]); i128 c1 = sx(a->k[1]->c, w), c2 = sx(b->c, w);
			if (w <= 64 && ux <= (h >> 1)) {
				i128 lo = c1, hi = c1 + (i128)ux;
				if (hi <= (i128)h) {
					i128 t = c2 - c1; // x < t / x <= t
					(void)lo;
					if (t < 0) return bF();
					if (t > (i128)ux + 1) return bT();
					return mkBin(op == SLT ? ULT : ULE, a->k[0], mkConst((u128)t, w));
				}
			}
		}
		if (isC(a) && b->op == ADD && isC(b->k[1])) {
			u128 ux = umaxOf(b->k[0]); i128 c1 = sx(b->k[1]->c, w), c2 = sx(a->c, w);
			if (w <= 64 && ux <= (h >> 1)) {
				i128 hi = c1 + (i128)ux;
				if (hi <= (i128)h) {
					i128 t = c2 - c1; // t < x / t <= x
					if (t < 0) return bT();
					if (t > (i128)ux) return bF();
					return mkBin(op == SLT ? ULT : ULE, mkConst((u128)t, w), b->k[0]);
				}
			}
		}
		if (op == SLE && isC(b)) { if (b->c == h) return bT(); return mkBin(SLT, a, mkConst(b->c + 1, w)); }
		if (op == SLE && isC(a)) { if (a->c == h + 1) return bT(); return mkBin(SLT, mkConst(a->c - 1, w), b); }
		if (op == SLT && isC(b) && b->c == h + 1) return bF();
		if (op == SLT && isC(a) && a->c == h) return bF();
		break;
	}
	default: break;
	}
	Ex* r = node(op, cmp ? 1 : w, 0, a, b);
	if ((op == MUL || op == UDIV || op == UREM || op == SDIV || op == SREM) && w > 10) return tabulate(r, TAB_BV);
	if (cmp && w > 10 && (a->op == ITE || b->op == ITE) && (isC(a) || smallConstTree(a)) && (isC(b) || smallConstTree(b))) return tabulate(r, TAB_BV);
	return r;
}

Ex* mkIte(Ex* c, Ex* a, Ex* b) {
	if (isC(c)) return c->c ? a : b;
	if (a == b) return a;
	if (Ex* t = canonOp(ITE, a->w, 0, c, a, b)) return t;
	if (isNot(c)) return mkIte(c->k[0], b, a);
	if (a->w == 1) {
		if (isC(a)) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
		if (isC(b)) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
	}
	if (a->op == ITE && a->k[0] == c) a = a->k[1];
	if (b->op == ITE && b->k[0] == c) b = b->k[2];
	if (a == b) return a;
	if (b->op == ITE && b->k[1] == a) return mkIte(mkOr(c, b->k[0]), a, b->k[2]);
	if (a->op == ITE && a->k[2] == b) return mkIte(mkAnd(c, a->k[0]), a->k[1], b);
	if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mkZExt(mkIte(c, a->k[0], b->k[0]), a->w);
	return node(ITE, a->w, 0, c, a, b);
}

Ex* mkConcat(Ex* hi, Ex* lo) {
	unsigned w = hi->w + lo->w;
	if (w > 128) { fprintf(stderr, "concat too wide %u\n", w); abort(); }
	if (Ex* t = canonOp(CONCAT, w, 0, hi, lo)) return t;
	if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
	if (isC(hi) && hi->c == 0) return mkZExt(lo, w);
	if (hi->op == EXTRACT && lo->op == EXTRACT && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w) return mkExtract(hi->k[0], (unsigned)lo->c, w);
	if (hi->op == EXTRACT && hi->k[0] == lo && hi->c == lo->w) return mkExtract(lo, 0, w); // cannot happen (width) but harmless
	// concat(extract(x, n, m), low n bits of x) where the low bits were simplified to another form
	if (hi->op == EXTRACT && hi->c == lo->w && (hi->k[0]->op == ADD || hi->k[0]->op == SUB || hi->k[0]->op == MUL) && mkExtract(hi->k[0], 0, lo->w) == lo) return mkExtract(hi->k[0], 0, w);
	// concat(extract(x, n, m), concat(extract(x, k, n-k), y))
	if (lo->op == CONCAT && hi->op == EXTRACT && lo->k[0]->op == EXTRACT && hi->k[0] == lo->k[0]->k[0] && hi->c == lo->k[0]->c + lo->k[0]->w)
		return mkConcat(mkExtract(hi->k[0], (unsigned)lo->k[0]->c, hi->w + lo->k[0]->w), lo->k[1]);
	if (hi->op == CONCAT && !(isC(hi->k[1]) && isC(lo))) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
	if (hi->op == CONCAT && isC(hi->k[1]) && isC(lo)) return mkConcat(hi->k[0], mkConst((hi->k[1]->c << lo->w) | lo->c, hi->k[1]->w + lo->w));
	if (hi->op == ZEXT) return mkZExt(mkConcat(hi->k[0], lo), w);
	return node(CONCAT, w, 0, hi, lo);
}

// memoised: the recursion below would otherwise revisit shared subterms
struct ExtKey { Ex* a; unsigned off, w; bool operator==(const ExtKey& o) const { return a == o.a && off == o.off && w == o.w; } };
struct ExtHash { size_t operator()(const ExtKey& k) const { return std::hash<void*>()(k.a) * 1000003u ^ (size_t)k.off * 131u ^ (size_t)k.w * 7919u; } };
static std::unordered_map<ExtKey, Ex*, ExtHash> extMemo;
static Ex* extract0(Ex* a, unsigned off, unsigned w);
Ex* mkExtract(Ex* a, unsigned off, unsigned w) {
	if (off + w > a->w) { fprintf(stderr, "extract out of range\n"); abort(); }
	if (off == 0 && w == a->w) return a;
	if (isC(a)) return mkConst(a->c >> off, w);
	if (Ex* t = canonOp(EXTRACT, w, off, a)) return t;
	if (a->op == VAR) return extract0(a, off, w);
	ExtKey key{a, off, w};
	auto it = extMemo.find(key);
	if (it != extMemo.end()) return it->second;
	Ex* r = extract0(a, off, w);
	extMemo[key] = r;
	return r;
}
static Ex* extract0(Ex* a, unsigned off, unsigned w) {
	switch (a->op) {
	case EXTRACT: return mkExtract(a->k[0], (unsigned)a->c + off, w);
	case CONCAT: {
		unsigned n = a->k[1]->w;
		if (off >= n) return mkExtract(a->k[0], off - n, w);
		if (off + w <= n) return mkExtract(a->k[1], off, w);
		return mkConcat(mkExtract(a->k[0], 0, off + w - n), mkExtract(a->k[1], off, n - off));
	}
	case ZEXT: {
		unsigned n = a->k[0]->w;
		if (off >= n) return mkConst(0, w);
		if (off + w <= n) return mkExtract(a->k[0], off, w);
		return mkZExt(mkExtract(a->k[0], off, n - off), w);
	}
	case SEXT: {
		unsigned n = a->k[0]->w;
		if (off + w <= n) return mkExtract(a->k[0], off, w);
		if (off < n) return mkSExt(mkExtract(a->k[0], off, n - off), w);
		break;
	}
	case AND: case OR: case XOR: return mkBin(a->op, mkExtract(a->k[0], off, w), mkExtract(a->k[1], off, w));
	case ADD: case SUB: case MUL: if (off == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); break;
	case ITE: {
		Ex* x = a->k[1]; Ex* y = a->k[2];
		auto easy = [](Ex* e) { return isC(e) || e->op == ITE || e->op == CONCAT || e->op == ZEXT || e->op == EXTRACT || e->op == SEXT || e->op == VAR; };
		if (easy(x) && easy(y)) return mkIte(a->k[0], mkExtract(x, off, w), mkExtract(y, off, w));
		break;
	}
	default: break;
	}
	return node(EXTRACT, w, off, a);
}
Ex* mkZExt(Ex* a, unsigned w) {
	if (w == a->w) return a;
	if (w < a->w) { fprintf(stderr, "zext narrowing\n"); abort(); }
	if (Ex* t = canonOp(ZEXT, w, 0, a)) return t;
	if (isC(a)) return mkConst(a->c, w);
	if (a->op == ZEXT) return mkZExt(a->k[0], w);
	if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkConst(a->k[1]->c, w), mkConst(a->k[2]->c, w));
	if (a->op == ITE && smallConstTree(a)) { std::unordered_map<Ex*, Ex*> memo; return mapTree(a, [&](Ex* l) { return mkConst(l->c, w); }, memo); }
	return node(ZEXT, w, 0, a);
}
Ex* mkSExt(Ex* a, unsigned w) {
	if (w == a->w) return a;
	if (w < a->w) { fprintf(stderr, "sext narrowing\n"); abort(); }
	if (Ex* t = canonOp(SEXT, w, 0, a)) return t;
	if (isC(a)) return mkConst((u128)sx(a->c, a->w), w);
	if (a->op == SEXT) return mkSExt(a->k[0], w);
	if (a->op == ZEXT) return mkZExt(a->k[0], w);
	if (umaxOf(a) <= (maskw(a->w) >> 1)) return mkZExt(a, w);
	if (a->op == ITE && smallConstTree(a)) { std::unordered_map<Ex*, Ex*> memo; return mapTree(a, [&](Ex* l) { return mkConst((u128)sx(l->c, l->w), w); }, memo); }
	return node(SEXT, w, 0, a);
}

// ------------------------------------------------------------------ floating point
// Comparisons of a monotone chain over one integer expression with a constant
// are rewritten into integer comparisons (sound: every step of the chain is a
// correctly rounded monotone operation, so the predicate is a threshold).
static bool fpNaN(u128 v, unsigned w) { return std::isnan(fpVal(v, w)); }
struct Chain { Ex* leaf; bool leafInt; int dir; std::vector<Ex*> steps; }; // steps from leaf outward
static bool finiteNZ(Ex* c) { if (!isC(c)) return false; long double v = fpVal(c->c, c->w); return std::isfinite(v) && v != 0; }
static bool finiteC(Ex* c) { return isC(c) && std::isfinite(fpVal(c->c, c->w)); }
static bool neverNaN(Ex* e);
static bool getChain(Ex* e, Chain& ch) {
	ch.dir = 1;
	std::vector<Ex*> st;
	for (;;) {
		switch (e->op) {
		case SITOF: case UITOF:
			if (e->k[0]->w > 64) return false;
			st.push_back(e); ch.leaf = e->k[0]; ch.leafInt = true;
			std::reverse(st.begin(), st.end()); ch.steps = st; return true;
		case FABS:
			ch.leaf = e; ch.leafInt = false;
			std::reverse(st.begin(), st.end()); ch.steps = st; return true;
		case FADD:
			if (finiteC(e->k[1])) { st.push_back(e); e = e->k[0]; continue; }
			if (finiteC(e->k[0])) { st.push_back(e); e = e->k[1]; continue; }
			return false;
		case FSUB:
			if (finiteC(e->k[1])) { st.push_back(e); e = e->k[0]; continue; }
			if (finiteC(e->k[0])) { st.push_back(e); ch.dir = -ch.dir; e = e->k[1]; continue; }
			return false;
		case FMUL:
			if (finiteNZ(e->k[1])) { if (fpVal(e->k[1]->c, e->w) < 0) ch.dir = -ch.dir; st.push_back(e); e = e->k[0]; continue; }
			if (finiteNZ(e->k[0])) { if (fpVal(e->k[0]->c, e->w) < 0) ch.dir = -ch.dir; st.push_back(e); e = e->k[1]; continue; }
			return false;
		case FDIV:
			if (finiteNZ(e->k[1])) { if (fpVal(e->k[1]->c, e->w) < 0) ch.dir = -ch.dir; st.push_back(e); e = e->k[0]; continue; }
			return false;
		case FNEG: ch.dir = -ch.dir; st.push_back(e); e = e->k[0]; continue;
		case FCAST: case FFLOOR: case FCEIL: case FTRUNC: case FROUND: case FRINT: st.push_back(e); e = e->k[0]; continue;
		default: return false;
		}
	}
}
static u128 runChain(const Chain& ch, u128 v) {
	for (Ex* s : ch.steps) {
		u128 kv[3];
		bool used = false;
		for (int i = 0; i < s->nk; i++) {
			if (isC(s->k[i])) kv[i] = s->k[i]->c;
			else { kv[i] = v; used = true; }
		}
		(void)used;
		v = evalOp(s, kv);
	}
	return v;
}
static bool neverNaN0(Ex* e);
static bool neverNaN(Ex* e) { if (e->nnan < 0) e->nnan = neverNaN0(e); return e->nnan != 0; }
static bool neverNaN0(Ex* e) {
	if (isC(e)) return !fpNaN(e->c, e->w);
	if (e->op == ITE) return neverNaN(e->k[1]) && neverNaN(e->k[2]);
	if (e->op == FABS || e->op == FNEG || e->op == FCAST || e->op == FFLOOR || e->op == FCEIL || e->op == FTRUNC || e->op == FROUND || e->op == FRINT) return neverNaN(e->k[0]);
	if (e->op == SITOF || e->op == UITOF) return true;
	if (e->op == FADD || e->op == FSUB) return (finiteC(e->k[0]) && neverNaN(e->k[1])) || (finiteC(e->k[1]) && neverNaN(e->k[0]));
	if (e->op == FMUL) return (finiteNZ(e->k[0]) && neverNaN(e->k[1])) || (finiteNZ(e->k[1]) && neverNaN(e->k[0]));
	if (e->op == FDIV) return finiteNZ(e->k[1]) && neverNaN(e->k[0]);
	return false;
}
// e <= c (or e < c if strict) as a formula, or nullptr
static Ex* chainLE(Ex* e, u128 c, bool strict) {
	unsigned w = e->w;
	if (fpNaN(c, w)) return bF();
	Chain ch;
	if (!getChain(e, ch)) return nullptr;
	auto pred = [&](u128 leafV) { long double v = fpVal(runChain(ch, leafV), w), cc = fpVal(c, w); return strict ? v < cc : v <= cc; };
	if (ch.leafInt) {
		unsigned lw = ch.leaf->w;
		bool sg = ch.steps[0]->op == SITOF;
		i128 lo = sg ? sx((u128)1 << (lw - 1), lw) : 0, hi = sg ? (i128)(maskw(lw) >> 1) : (i128)maskw(lw);
		if (sg && umaxOf(ch.leaf) <= (maskw(lw) >> 1)) { lo = 0; hi = (i128)umaxOf(ch.leaf); }
		if (!sg) hi = (i128)umaxOf(ch.leaf);
		Op lt = sg ? SLE : ULE;
		if (ch.dir > 0) { // true on a prefix
			if (!pred((u128)lo & maskw(lw))) return bF();
			if (pred((u128)hi & maskw(lw))) return bT();
			i128 l = lo, h = hi; // pred(l) true, pred(h) false
			while (h - l > 1) { i128 m = l + (h - l) / 2; if (pred((u128)m & maskw(lw))) l = m; else h = m; }
			return mkBin(lt, ch.leaf, mkConst((u128)l, lw));
		} else { // true on a suffix
			if (!pred((u128)hi & maskw(lw))) return bF();
			if (pred((u128)lo & maskw(lw))) return bT();
			i128 l = lo, h = hi;
			while (h - l > 1) { i128 m = l + (h - l) / 2; if (pred((u128)m & maskw(lw))) h = m; else l = m; }
			return mkBin(lt, mkConst((u128)h, lw), ch.leaf);
		}
	}
	// leaf is FABS(y): domain [0, inf], ordered like its bit pattern
	Ex* y = ch.leaf->k[0];
	if (!neverNaN(y)) return nullptr;
	unsigned yw = y->w;
	auto toOrd = [&](u128 ord) -> u128 { // ordinal -> bit pattern of a non-negative float
		if (yw != 80) return ord;
		u128 exp = ord >> 63, man = ord & maskw(63);
		return (exp << 64) | (exp ? ((u128)1 << 63) : 0) | man;
	};
	u128 maxOrd = yw == 80 ? ((u128)0x7fff << 63) : yw == 64 ? (u128)0x7ff0000000000000ULL : (u128)0x7f800000;
	Chain* pc = &ch;
	auto predO = [&](u128 ord) { u128 v = toOrd(ord); u128 r = runChain(*pc, v); long double x = fpVal(r, w), cc = fpVal(c, w); return strict ? x < cc : x <= cc; };
	auto cst = [&](u128 ord) { return mkConst(toOrd(ord), yw); };
	if (ch.dir > 0) {
		if (!predO(0)) return bF();
		if (predO(maxOrd)) return bT();
		u128 l = 0, h = maxOrd;
		while (h - l > 1) { u128 m = l + (h - l) / 2; if (predO(m)) l = m; else h = m; }
		Ex* t = cst(l); // |y| <= t
		return mkAnd(mkFCmp(FLE, y, t), mkFCmp(FLE, mkFUn(FNEG, t), y));
	} else {
		if (!predO(maxOrd)) return bF();
		if (predO(0)) return bT();
		u128 l = 0, h = maxOrd;
		while (h - l > 1) { u128 m = l + (h - l) / 2; if (predO(m)) h = m; else l = m; }
		Ex* t = cst(h); // |y| >= t
		return mkOr(mkFCmp(FLE, t, y), mkFCmp(FLE, y, mkFUn(FNEG, t)));
	}
}

Ex* mkFUn(Op op, Ex* a) {
	if (isC(a)) return mkConst(evalFUn(op, a->c, a->w), a->w);
	if (op == FNEG && a->op == FNEG) return a->k[0];
	if (op == FABS && (a->op == FABS)) return a;
	if (op == FABS && (a->op == FNEG)) return mkFUn(FABS, a->k[0]);
	if (op == FABS && a->op == UITOF) return a;
	if (op == FABS && a->op == SITOF && umaxOf(a->k[0]) <= (maskw(a->k[0]->w) >> 1)) return a;
	if (a->op == ITE && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mkFUn(op, a->k[1]), mkFUn(op, a->k[2]));
	return tabulate(node(op, a->w, 0, a), TAB_FP);
}
Ex* mkFBin(Op op, Ex* a, Ex* b) {
	if (isC(a) && isC(b)) return mkConst(evalFBin(op, a->c, b->c, a->w), a->w);
	if ((op == FADD || op == FMUL) && a->id > b->id) std::swap(a, b);
	if (isC(b) && smallConstTree(a)) { std::unordered_map<Ex*, Ex*> memo; return mapTree(a, [&](Ex* l) { return mkFBin(op, l, b); }, memo); }
	if (isC(a) && smallConstTree(b)) { std::unordered_map<Ex*, Ex*> memo; return mapTree(b, [&](Ex* l) { return mkFBin(op, a, l); }, memo); }
	return tabulate(node(op, a->w, 0, a, b), TAB_FP);
}
Ex* mkFCmp(Op op, Ex* a, Ex* b) {
	if (isC(a) && isC(b)) return mkB(evalFCmp(op, a->c, b->c, a->w));
	if (isC(b) && smallConstTree(a)) { std::unordered_map<Ex*, Ex*> memo; return mapTree(a, [&](Ex* l) { return mkFCmp(op, l, b); }, memo); }
	if (isC(a) && smallConstTree(b)) { std::unordered_map<Ex*, Ex*> memo; return mapTree(b, [&](Ex* l) { return mkFCmp(op, a, l); }, memo); }
	if (op == FUNO) {
		if (neverNaN(a) && neverNaN(b)) return bF();
		return tabulate(node(op, 1, 0, a, b), TAB_FP);
	}
	if ((isC(a) && fpNaN(a->c, a->w)) || (isC(b) && fpNaN(b->c, b->w))) return bF();
	if (a == b && neverNaN(a)) return mkB(op != FLT);
	// int-to-fp on both sides, exactly representable
	auto exactInt = [](Ex* e) { return (e->op == SITOF || e->op == UITOF) && (e->w == 80 ? e->k[0]->w <= 64 : e->w == 64 ? e->k[0]->w <= 53 : e->k[0]->w <= 24); };
	if (exactInt(a) && exactInt(b) && a->op == b->op && a->k[0]->w == b->k[0]->w) {
		bool sg = a->op == SITOF;
		return mkBin(op == FEQ ? EQ : op == FLT ? (sg ? SLT : ULT) : (sg ? SLE : ULE), a->k[0], b->k[0]);
	}
	// ite with one constant side / any: distribute over ite when other side const
	if (isC(b) && a->op == ITE) return mkIte(a->k[0], mkFCmp(op, a->k[1], b), mkFCmp(op, a->k[2], b));
	if (isC(a) && b->op == ITE) return mkIte(b->k[0], mkFCmp(op, a, b->k[1]), mkFCmp(op, a, b->k[2]));
	if (isC(b) && !isC(a)) {
		if (op == FLE || op == FLT) { if (Ex* r = chainLE(a, b->c, op == FLT)) return r; }
		else if (op == FEQ) {
			Ex* x = chainLE(a, b->c, false); Ex* y = chainLE(a, b->c, true);
			if (x && y) return mkAnd(x, mkNot(y));
		}
	}
	if (isC(a) && !isC(b)) {
		if (op == FLE || op == FLT) { if (Ex* r = chainLE(b, a->c, op == FLE)) { if (neverNaN(b)) return mkNot(r); } }
		else if (op == FEQ) return mkFCmp(FEQ, b, a);
	}
	return tabulate(node(op, 1, 0, a, b), TAB_FP);
}
Ex* mkConv(Op op, Ex* a, unsigned w) {
	if (isC(a)) return mkConst(evalConv(op, a->c, a->w, w), w);
	if (op == FCAST && a->w == w) return a;
	if (smallConstTree(a)) { std::unordered_map<Ex*, Ex*> memo; return mapTree(a, [&](Ex* l) { return mkConv(op, l, w); }, memo); }
	// fptosi(sitofp x) when exact
	if ((op == FTOSI || op == FTOUI) && (a->op == SITOF || a->op == UITOF) && a->w == 80 && a->k[0]->w <= 64) {
		Ex* x = a->k[0];
		if (x->w == w && ((op == FTOSI) == (a->op == SITOF))) return x;
		if (x->w < w) return a->op == SITOF ? mkSExt(x, w) : mkZExt(x, w);
	}
	return tabulate(node(op, w, 0, a), TAB_FP);
}

std::string exStr(const Ex* e, int depth) {
	char buf[64];
	if (e->op == CONST) { snprintf(buf, sizeof buf, "%llx:%u", (unsigned long long)e->c, e->w); return buf; }
	if (e->op == VAR) return varNames[(size_t)e->c];
	if (depth == 0) return "...";
	std::string s = "(";
	s += opNames[e->op];
	if (e->op == EXTRACT) { snprintf(buf, sizeof buf, "[%u+%u]", (unsigned)e->c, e->w); s += buf; }
	for (int i = 0; i < e->nk; i++) s += " " + exStr(e->k[i], depth - 1);
	return s + ")";
}
