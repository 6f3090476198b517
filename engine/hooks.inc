// intrinsics and modelled external functions
static void killPath() { stats.cutAssume++; throw PathEnd(); }
static void assume(State& s, Ex* c) {
	int k = known(s, c);
	if (k == 1) return;
	if (k == 0) killPath();
	if (s.model->eval(c)) { addPC(s, c); return; }
	std::shared_ptr<Model> m;
	Res r = query(s, c, m);
	if (r == UNSAT) killPath();
	if (r == UNK) { addIncomplete("solver could not decide an assumption at " + where(s)); throw PathEnd(); }
	s.model = m;
	addPC(s, c);
}
static V freshRange(State& s, const std::string& name, const V& lo, const V& hi) {
	if (conc(lo) && conc(hi)) {
		i64 l = (i64)lo.c, h = (i64)hi.c;
		if (l > h) killPath();
		u64 span = (u64)h - (u64)l;
		if (span == 0) { s.inputs.push_back({name, nullptr, (u64)l, true, 64}); return V((u64)l); }
		unsigned w = 64 - __builtin_clzll(span);
		Ex* v = inputVar(s, name, w);
		// a variable created on one path must not disturb models of others
		s.inputs.push_back({name, v, (u64)l, false, w});
		if (span != (u64)maskw(w)) assume(s, mkBin(ULE, v, mkConst(span, w)));
		Ex* r = w < 64 ? mkZExt(v, 64) : v;
		return fromEx(mkBin(ADD, r, mkConst((u64)l, 64)));
	}
	Ex* v = inputVar(s, name, 64);
	s.inputs.push_back({name, v, 0, false, 64});
	assume(s, mkAnd(mkBin(SLE, toEx(lo, 64), v), mkBin(SLE, v, toEx(hi, 64))));
	return V(v);
}
static void doAssert(State& s, const V& c, const std::string& label) {
	s.asserts++;
	if (conc(c)) {
		if (c.c & 1) return;
		report(s, "assert", label, *s.model);
		throw PathEnd();
	}
	stats.symAsserts++;
	Ex* e = c.e;
	int k = known(s, e);
	if (k == 1) return;
	if (k == 0 || !s.model->eval(e)) {
		report(s, "assert", label, *s.model);
		std::shared_ptr<Model> m;
		if (query(s, e, m) != SAT) throw PathEnd();
		s.model = m; addPC(s, e);
		return;
	}
	std::shared_ptr<Model> m;
	Res r = query(s, mkNot(e), m);
	if (r == SAT) { report(s, "assert", label, *m); addPC(s, e); }
	else if (r == UNK) addIncomplete("solver could not decide assertion " + label);
}
static void copyMem(State& s, u64 d, u64 src, u64 n, bool) {
	if (!n) return;
	u64 i1, o1, i2, o2;
	const Obj* a = find(s, src, i1, o1);
	const Obj* b = find(s, d, i2, o2);
	if (!a || o1 + n > a->size) fault(s, "memory", "memcpy source out of bounds");
	if (!b || o2 + n > b->size || b->ro) fault(s, "memory", "memcpy destination out of bounds");
	std::vector<uint8_t> tmp(a->b.begin() + o1, a->b.begin() + o1 + n);
	std::vector<Ex*> ts;
	if (!a->s.empty()) ts.assign(a->s.begin() + o1, a->s.begin() + o1 + n);
	bool anySym = false;
	for (Ex* e : ts) if (e) { anySym = true; break; }
	Obj* o = s.mem.wr(i2);
	memcpy(&o->b[o2], tmp.data(), n);
	if (anySym) { if (o->s.empty()) o->s.assign(o->size, nullptr); std::copy(ts.begin(), ts.end(), o->s.begin() + o2); }
	else if (!o->s.empty()) std::fill(o->s.begin() + o2, o->s.begin() + o2 + n, nullptr);
}
static void setMem(State& s, u64 d, const V& v, u64 n) {
	if (!n) return;
	u64 i2, o2;
	const Obj* b = find(s, d, i2, o2);
	if (!b || o2 + n > b->size || b->ro) fault(s, "memory", "memset out of bounds");
	Obj* o = s.mem.wr(i2);
	if (v.e) { for (u64 i = 0; i < n; i++) storeObj(o, o2 + i, 1, 8, v); return; }
	memset(&o->b[o2], (int)v.c, n);
	if (!o->s.empty()) std::fill(o->s.begin() + o2, o->s.begin() + o2 + n, nullptr);
}
static V cmpMem(State& s, u64 a, u64 b, u64 n, bool eqOnly) {
	if (!n) return V((u64)0);
	u64 i1, o1, i2, o2;
	const Obj* x = find(s, a, i1, o1);
	const Obj* y = find(s, b, i2, o2);
	if (!x || o1 + n > x->size || !y || o2 + n > y->size) fault(s, "memory", "memcmp out of bounds");
	Ex* r = mkConst(0, 32);
	for (u64 i = n; i-- > 0;) {
		Ex* p = toEx(loadObj(x, o1 + i, 1, 8), 8); Ex* q = toEx(loadObj(y, o2 + i, 1, 8), 8);
		Ex* eq = mkEq(p, q);
		Ex* d = eqOnly ? mkConst(1, 32) : mkIte(mkBin(ULT, p, q), mkConst((u64)-1, 32), mkConst(1, 32));
		r = mkIte(eq, r, d);
	}
	return fromEx(r);
}

static V minmax(unsigned id, const V& a, const V& b, unsigned w) {
	Ex* x = toEx(a, w); Ex* y = toEx(b, w);
	switch (id) {
	case Intrinsic::umax: return fromEx(mkIte(mkBin(ULT, x, y), y, x));
	case Intrinsic::umin: return fromEx(mkIte(mkBin(ULT, x, y), x, y));
	case Intrinsic::smax: return fromEx(mkIte(mkBin(SLT, x, y), y, x));
	default: return fromEx(mkIte(mkBin(SLT, x, y), x, y));
	}
}
static Ex* popcnt(Ex* x) { unsigned w = x->w; Ex* r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(ADD, r, mkZExt(mkExtract(x, i, 1), w)); return r; }
static Ex* clzE(Ex* x) { unsigned w = x->w; Ex* r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), r); return r; }
static Ex* ctzE(Ex* x) { unsigned w = x->w; Ex* r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkConst(i, w), r); return r; }

static bool intrinsic(State& s, Frame& f, Inst& in, std::vector<V>& a, std::vector<V>& ret) {
	unsigned w = in.w2;
	auto each = [&](auto fn) { int n = in.dn; for (int j = 0; j < n; j++) ret.push_back(fn(j)); };
	switch (in.iid) {
	case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
		u64 n = concretize(s, a[2], 64), d = concretize(s, a[0], 64), q = concretize(s, a[1], 64);
		copyMem(s, d, q, n, true); return true;
	}
	case Intrinsic::memset: case Intrinsic::memset_inline: { u64 n = concretize(s, a[2], 64), d = concretize(s, a[0], 64); setMem(s, d, a[1], n); return true; }
	case Intrinsic::expect: case Intrinsic::expect_with_probability: ret.push_back(a[0]); return true;
	case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: { int n = in.dn; each([&](int j) { return minmax(in.iid, a[j], a[n + j], w); }); return true; }
	case Intrinsic::abs: each([&](int j) { Ex* x = toEx(a[j], w); return fromEx(mkIte(mkBin(SLT, x, mkConst(0, w)), mkBin(SUB, mkConst(0, w), x), x)); }); return true;
	case Intrinsic::ctpop: each([&](int j) { if (!a[j].e) return V((u64)__builtin_popcountll(a[j].c)); return fromEx(popcnt(a[j].e)); }); return true;
	case Intrinsic::ctlz: each([&](int j) { return fromEx(clzE(toEx(a[j], w))); }); return true;
	case Intrinsic::cttz: each([&](int j) { return fromEx(ctzE(toEx(a[j], w))); }); return true;
	case Intrinsic::bswap: { Ex* x = toEx(a[0], w); Ex* r = nullptr; for (unsigned i = 0; i < w; i += 8) { Ex* b = mkExtract(x, i, 8); r = r ? mkConcat(r, b) : b; } ret.push_back(fromEx(r)); return true; }
	case Intrinsic::bitreverse: { Ex* x = toEx(a[0], w); Ex* r = nullptr; for (unsigned i = 0; i < w; i++) { Ex* b = mkExtract(x, i, 1); r = r ? mkConcat(r, b) : b; } ret.push_back(fromEx(r)); return true; }
	case Intrinsic::fshl: case Intrinsic::fshr: {
		each([&](int j) {
			int n = in.dn;
			Ex* x = toEx(a[j], w); Ex* y = toEx(a[n + j], w); Ex* k = mkBin(UREM, toEx(a[2 * n + j], w), mkConst(w, w));
			Ex* inv = mkBin(SUB, mkConst(w, w), k);
			if (in.iid == Intrinsic::fshl) return fromEx(mkBin(OR, mkBin(SHL, x, k), mkBin(LSHR, y, inv)));
			return fromEx(mkBin(OR, mkBin(SHL, x, inv), mkBin(LSHR, y, k)));
		});
		return true;
	}
	case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
		Ex* x = toEx(a[0], w); Ex* y = toEx(a[1], w); Ex* r; Ex* o;
		switch (in.iid) {
		case Intrinsic::uadd_with_overflow: r = mkBin(ADD, x, y); o = mkBin(ULT, r, x); break;
		case Intrinsic::usub_with_overflow: r = mkBin(SUB, x, y); o = mkBin(ULT, x, y); break;
		default: {
			bool sg = in.iid != Intrinsic::umul_with_overflow;
			if (w > 64) { addIncomplete("128-bit overflow intrinsic"); throw PathEnd(); }
			Ex* X = sg ? mkSExt(x, 2 * w) : mkZExt(x, 2 * w); Ex* Y = sg ? mkSExt(y, 2 * w) : mkZExt(y, 2 * w);
			Op op = in.iid == Intrinsic::sadd_with_overflow ? ADD : in.iid == Intrinsic::ssub_with_overflow ? SUB : MUL;
			r = mkBin(op, x, y);
			Ex* R = mkBin(op, X, Y);
			o = mkNot(mkEq(R, sg ? mkSExt(r, 2 * w) : mkZExt(r, 2 * w)));
		}
		}
		ret.push_back(fromEx(r)); ret.push_back(fromEx(o));
		return true;
	}
	case Intrinsic::uadd_sat: each([&](int j) { Ex* x = toEx(a[j], w); Ex* r = mkBin(ADD, x, toEx(a[in.dn + j], w)); return fromEx(mkIte(mkBin(ULT, r, x), mkConst(maskw(w), w), r)); }); return true;
	case Intrinsic::usub_sat: each([&](int j) { Ex* x = toEx(a[j], w); Ex* y = toEx(a[in.dn + j], w); return fromEx(mkIte(mkBin(ULT, x, y), mkConst(0, w), mkBin(SUB, x, y))); }); return true;
	case Intrinsic::fabs: each([&](int j) { return fromEx(mkFUn(FABS, toEx(a[j], w))); }); return true;
	case Intrinsic::sqrt: each([&](int j) { return fromEx(mkFUn(FSQRT, toEx(a[j], w))); }); return true;
	case Intrinsic::floor: each([&](int j) { return fromEx(mkFUn(FFLOOR, toEx(a[j], w))); }); return true;
	case Intrinsic::ceil: each([&](int j) { return fromEx(mkFUn(FCEIL, toEx(a[j], w))); }); return true;
	case Intrinsic::trunc: each([&](int j) { return fromEx(mkFUn(FTRUNC, toEx(a[j], w))); }); return true;
	case Intrinsic::round: each([&](int j) { return fromEx(mkFUn(FROUND, toEx(a[j], w))); }); return true;
	case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: each([&](int j) { return fromEx(mkFUn(FRINT, toEx(a[j], w))); }); return true;
	case Intrinsic::fmuladd: each([&](int j) { int n = in.dn; return fromEx(mkFBin(FADD, mkFBin(FMUL, toEx(a[j], w), toEx(a[n + j], w)), toEx(a[2 * n + j], w))); }); return true;
	case Intrinsic::minnum: case Intrinsic::maxnum: each([&](int j) {
		Ex* x = toEx(a[j], w); Ex* y = toEx(a[in.dn + j], w);
		Ex* lt = in.iid == Intrinsic::minnum ? mkFCmp(FLT, x, y) : mkFCmp(FLT, y, x);
		return fromEx(mkIte(mkFCmp(FUNO, x, x), y, mkIte(mkFCmp(FUNO, y, y), x, mkIte(lt, x, y)))); });
		return true;
	case Intrinsic::copysign: each([&](int j) { Ex* x = toEx(a[j], w); Ex* y = toEx(a[in.dn + j], w); return fromEx(mkConcat(mkExtract(y, w - 1, 1), mkExtract(x, 0, w - 1))); }); return true;
	case Intrinsic::is_fpclass: {
		u64 m = a[1].c; Ex* x = toEx(a[0], w); Ex* r = mkConst(0, 1);
		Ex* ax = mkFUn(FABS, x);
		Ex* inf = mkConst(w == 80 ? fromLD(INFINITY) : w == 64 ? fromD(INFINITY) : fromF(INFINITY), w);
		Ex* nan = mkFCmp(FUNO, x, x); Ex* isinf = mkFCmp(FEQ, ax, inf);
		Ex* fin = mkFCmp(FLT, ax, inf);
		if ((m & 3) == 3) { r = mkOr(r, nan); }
		if ((m & 0x204) == 0x204) r = mkOr(r, isinf);
		if ((m & 0x1f8) == 0x1f8) r = mkOr(r, fin);
		u64 rest = m & ~((m & 3) == 3 ? 3ull : 0) & ~((m & 0x204) == 0x204 ? 0x204ull : 0) & ~((m & 0x1f8) == 0x1f8 ? 0x1f8ull : 0);
		Ex* neg = mkEq(mkExtract(x, w - 1, 1), mkConst(1, 1));
		Ex* zero = mkFCmp(FEQ, ax, mkConst(0, w));
		Ex* big = mkNot(mkFCmp(FLT, ax, mkConst(w == 80 ? fromLD(LDBL_MIN) : w == 64 ? fromD(DBL_MIN) : fromF(FLT_MIN), w)));
		for (int i = 2; i < 10; i++) if (rest >> i & 1) {
			int c = i < 6 ? i - 2 : 9 - i; // inf, normal, subnormal, zero
			Ex* t = c == 0 ? isinf : c == 1 ? mkAnd(fin, big) : c == 2 ? mkAnd(fin, mkAnd(mkNot(big), mkNot(zero))) : zero;
			r = mkOr(r, mkAnd(t, i < 6 ? neg : mkNot(neg)));
			rest &= ~(1ull << i);
		}
		if (rest) { addIncomplete("is_fpclass mask"); throw PathEnd(); }
		ret.push_back(fromEx(r)); return true;
	}
	case Intrinsic::eh_typeid_for: { u64 t = a[0].c; ret.push_back(V(t ? (t - BASE) / STRIDE + 1 : 1)); return true; }
	case Intrinsic::stacksave: ret.push_back(V((u64)0)); return true;
	case Intrinsic::stackrestore: return true;
	case Intrinsic::is_constant: ret.push_back(V((u64)0)); return true;
	case Intrinsic::objectsize: ret.push_back(V((u64)(cval(a[1]) ? 0 : (u64)-1))); return true;
	case Intrinsic::trap: case Intrinsic::ubsantrap: fault(s, "trap", "trap executed");
	case Intrinsic::invariant_start: ret.push_back(V((u64)0)); return true;
	case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptrmask: ret.push_back(a[0]); return true;
	case Intrinsic::var_annotation: case Intrinsic::sideeffect: return true;
	case Intrinsic::lround: case Intrinsic::llround: ret.push_back(fromEx(mkConv(FTOSI, mkFUn(FROUND, toEx(a[0], w)), 64))); return true;
	default: break;
	}
	// mathematical intrinsics on concrete values
	if (isConst(a[0]) && (w == 80 || w == 64) && in.dn == 1) {
		long double x = fpVal(cval(a[0]), w), r; long double y = a.size() > 1 && isConst(a[1]) ? fpVal(cval(a[1]), w) : 0;
		bool ok = true;
		switch (in.iid) {
		case Intrinsic::log: r = w == 80 ? logl(x) : log((double)x); break; case Intrinsic::log2: r = w == 80 ? log2l(x) : log2((double)x); break; case Intrinsic::exp: r = w == 80 ? expl(x) : exp((double)x); break;
		case Intrinsic::sin: r = w == 80 ? sinl(x) : sin((double)x); break; case Intrinsic::cos: r = w == 80 ? cosl(x) : cos((double)x); break; case Intrinsic::pow: r = w == 80 ? powl(x, y) : pow((double)x, (double)y); break;
		case Intrinsic::exp2: r = w == 80 ? exp2l(x) : exp2((double)x); break; case Intrinsic::log10: r = w == 80 ? log10l(x) : log10((double)x); break;
		case Intrinsic::powi: r = __builtin_powil(x, (int)a[1].c); break; case Intrinsic::ldexp: r = ldexpl(x, (int)a[1].c); break;
		default: ok = false; r = 0;
		}
		if (ok) { ret.push_back(fromEx(mkConst(w == 80 ? fromLD(r) : fromD((double)r), w))); return true; }
	}
	addIncomplete("unsupported intrinsic " + cast<CallBase>(in.I)->getCalledFunction()->getName().str() + " at " + where(s));
	throw PathEnd();
}

#define HOOK(name) static bool name(State& s, Frame& f, Inst& in, std::vector<V>& a, std::vector<V>& ret)
HOOK(h_bits) { // (name, width)
	unsigned w = (unsigned)a[1].c;
	std::string n = readStr(s, a[0].c);
	Ex* v = inputVar(s, n, w);
	s.inputs.push_back({n, v, 0, false, w});
	ret.push_back(fromEx(mkZExt(v, 64)));
	return false;
}
HOOK(h_range) { ret.push_back(freshRange(s, readStr(s, a[0].c), a[1], a[2])); return false; }
HOOK(h_ld) { // arbitrary canonical long double
	std::string n = readStr(s, a[0].c);
	Ex* v = inputVar(s, n, 80);
	s.inputs.push_back({n, v, 0, false, 80});
	assume(s, mkEq(mkExtract(v, 63, 1), mkNot(mkEq(mkExtract(v, 64, 15), mkConst(0, 15)))));
	ret.push_back(V(v));
	return false;
}
HOOK(h_assume) { Ex* c = toEx(a[0], 1); assume(s, c); return false; }
HOOK(h_limit) { if (isConst(a[0]) && !cval(a[0])) { stats.limitCut++; throw PathEnd(); } Ex* c = toEx(a[0], 1); u64 before = stats.cutAssume; (void)before; assume(s, c); return false; }
HOOK(h_assert) { doAssert(s, a[0], readStr(s, a[1].c)); return false; }
HOOK(h_reach) { s.reached.insert(readStr(s, a[0].c)); return false; }
HOOK(h_obs) { s.obs.push_back(a[0]); return false; }
HOOK(h_conc) { u64 v = concretize(s, a[0], 64); ret.push_back(V(v)); return false; }
HOOK(h_arg) { ret.push_back(V((u64)(i64)caseArg)); return false; }
HOOK(h_symbolic) { ret.push_back(V((u64)1)); return false; }
HOOK(h_stub) { stubsUsed.insert(readStr(s, a[0].c)); return false; }
HOOK(h_note) { fprintf(stderr, "note: %s %lld\n", readStr(s, a[0].c).c_str(), a[1].e ? -999999LL : (long long)a[1].c); if (a[1].e) fprintf(stderr, "   %s\n", exStr(a[1].e, 8).c_str()); return false; }
HOOK(h_unsupported) { addIncomplete("unsupported: " + readStr(s, a[0].c) + " at " + where(s)); throw PathEnd(); }
HOOK(h_is_const) { ret.push_back(V((u64)(isConst(a[0]) ? 1 : 0))); return false; }
HOOK(h_is_small) { bool r = isConst(a[0]); if (!r) { i128 l, h; signedRange(toEx(a[0], 64), l, h); r = l >= -99999 && h <= 99999; } ret.push_back(V((u64)r)); return false; }
HOOK(h_fmt_ld) { // (char* out, long double v, int prec, int flags)
	long double v = fpVal(cval(a[1]), 80); int prec = (int)cval(a[2]), fl = (int)cval(a[3]);
	char buf[5200]; int n = snprintf(buf, sizeof buf, fl == 1 ? "%.*Lf" : fl == 2 ? "%.*Le" : "%.*Lg", prec, v);
	for (int i = 0; i < n; i++) memStore(s, V(a[0].c + i), 1, 8, V((u64)(unsigned char)buf[i]));
	ret.push_back(V((u64)n)); return false;
}
HOOK(h_abortmsg) { fault(s, "abort", readStr(s, a[0].c)); }
// ite without branching: vp_ite(cond, a, b)
HOOK(h_ite) { ret.push_back(fromEx(mkIte(toEx(a[0], 1), toEx(a[1], 64), toEx(a[2], 64)))); return false; }
HOOK(h_and) { ret.push_back(fromEx(mkAnd(toEx(a[0], 1), toEx(a[1], 1)))); return false; }
HOOK(h_or) { ret.push_back(fromEx(mkOr(toEx(a[0], 1), toEx(a[1], 1)))); return false; }
HOOK(h_new) {
	u64 n = concretize(s, a[0], 64);
	if (n > MAXOBJ) fault(s, "memory", "huge allocation");
	ret.push_back(V(newObj(s, n, 1, "heap"))); return false;
}
HOOK(h_delete) {
	u64 p = concretize(s, a[0], 64);
	if (!p) return false;
	u64 id, off; const Obj* o = find(s, p, id, off);
	if (!o || off || o->kind != 1) fault(s, "memory", "invalid or double free");
	s.mem.kill(id);
	return false;
}
HOOK(h_calloc) { u64 n = concretize(s, a[0], 64) * concretize(s, a[1], 64); u64 p = newObj(s, n, 1, "heap"); Obj* o = s.mem.wr((p - BASE) / STRIDE); std::fill(o->b.begin(), o->b.end(), 0); ret.push_back(V(p)); return false; }
HOOK(h_memcpy) { u64 n = concretize(s, a[2], 64), d = concretize(s, a[0], 64), q = concretize(s, a[1], 64); copyMem(s, d, q, n, true); ret.push_back(V(d)); return false; }
HOOK(h_memset) { u64 n = concretize(s, a[2], 64), d = concretize(s, a[0], 64); V v = a[1].e ? fromEx(mkExtract(a[1].e, 0, 8)) : V(a[1].c & 255); setMem(s, d, v, n); ret.push_back(V(d)); return false; }
HOOK(h_memcmp) { u64 n = concretize(s, a[2], 64), d = concretize(s, a[0], 64), q = concretize(s, a[1], 64); ret.push_back(cmpMem(s, d, q, n, false)); return false; }
HOOK(h_bcmp) { u64 n = concretize(s, a[2], 64), d = concretize(s, a[0], 64), q = concretize(s, a[1], 64); ret.push_back(cmpMem(s, d, q, n, true)); return false; }
HOOK(h_cxa_alloc) { ret.push_back(V(newObj(s, std::max<u64>(concretize(s, a[0], 64), 1), 1, "exception"))); return false; }
HOOK(h_nop) { if (in.dn) ret.assign(in.dn, V((u64)0)); return false; }
HOOK(h_cxa_throw) {
	u64 o = a[0].c, t = a[1].c;
	s.excTI.push_back({o, t});
	s.uncaught++;
	unwind(s, o);
	return true;
}
HOOK(h_begin_catch) { s.uncaught--; s.caught.push_back(a[0].c); ret.push_back(a[0]); return false; }
HOOK(h_end_catch) { if (!s.caught.empty()) s.caught.pop_back(); return false; }
HOOK(h_rethrow) { if (s.caught.empty()) fault(s, "abort", "rethrow without exception"); u64 e = s.caught.back(); s.uncaught++; unwind(s, e); return true; }
HOOK(h_get_exc) { ret.push_back(a[0]); return false; }
HOOK(h_unwind_resume) { popFrame(s); unwind(s, a[0].c); return true; }
HOOK(h_uncaught) { ret.push_back(V((u64)s.uncaught)); return false; }
HOOK(h_terminate) { fault(s, "abort", "std::terminate called"); }
HOOK(h_abort) { fault(s, "abort", "abort called"); }
HOOK(h_exit) { fault(s, "exit", "process exit from inside the code under test"); }
HOOK(h_guard_acquire) {
	u64 p = a[0].c; V v = memLoad(s, V(p), 1, 8);
	ret.push_back(V((u64)(v.c ? 0 : 1))); return false;
}
HOOK(h_guard_release) { memStore(s, V(a[0].c), 1, 8, V((u64)1)); return false; }
static unsigned fw(Inst& in) { return in.w; }
static bool funHook(Op op, Inst& in, std::vector<V>& a, std::vector<V>& ret) { ret.push_back(fromEx(mkFUn(op, toEx(a[0], fw(in))))); return false; }
HOOK(h_floor) { return funHook(FFLOOR, in, a, ret); }
HOOK(h_ceil) { return funHook(FCEIL, in, a, ret); }
HOOK(h_trunc) { return funHook(FTRUNC, in, a, ret); }
HOOK(h_round) { return funHook(FROUND, in, a, ret); }
HOOK(h_sqrt) { return funHook(FSQRT, in, a, ret); }
HOOK(h_fabs) { return funHook(FABS, in, a, ret); }
HOOK(h_fmod) { ret.push_back(fromEx(mkFBin(FREM, toEx(a[0], in.w), toEx(a[1], in.w)))); return false; }
template<typename F> static bool mathHook(State& s, Inst& in, std::vector<V>& a, std::vector<V>& ret, F fn, const char* n) {
	for (auto& v : a) if (!isConst(v)) { addIncomplete(std::string("symbolic argument of ") + n + " at " + where(s)); throw PathEnd(); }
	long double x = fpVal(cval(a[0]), in.w), y = a.size() > 1 ? fpVal(cval(a[1]), in.w) : 0;
	long double r = in.w == 80 ? fn(x, y) : (long double)fn((double)x, (double)y);
	ret.push_back(fromEx(mkConst(in.w == 80 ? fromLD(r) : in.w == 64 ? fromD((double)r) : fromF((float)r), in.w)));
	return false;
}
#define MATH(n, expr) HOOK(h_##n) { return mathHook(s, in, a, ret, [](auto x, auto y) { (void)y; return expr; }, #n); }
MATH(log, std::log(x)) MATH(log2, std::log2(x)) MATH(log1p, std::log1p(x)) MATH(exp, std::exp(x)) MATH(expm1, std::expm1(x)) MATH(pow, std::pow(x, y)) MATH(sin, std::sin(x)) MATH(cos, std::cos(x)) MATH(tan, std::tan(x)) MATH(atan2, std::atan2(x, y)) MATH(cbrt, std::cbrt(x)) MATH(hypot, std::hypot(x, y)) MATH(lgamma, std::lgamma(x)) MATH(log10, std::log10(x))
HOOK(h_llround) { unsigned w = in.w2; ret.push_back(fromEx(mkConv(FTOSI, mkFUn(FROUND, toEx(a[0], w)), 64))); return false; }

static void registerHooks() {
	auto R = [](const char* n, HookFn f) { hookTable[n] = f; };
	R("vp_bits", h_bits); R("vp_range", h_range); R("vp_ld", h_ld); R("vp_assume", h_assume); R("vp_limit", h_limit); R("vp_assert", h_assert); R("vp_reach", h_reach); R("vp_obs", h_obs);
	R("vp_conc", h_conc); R("vp_arg", h_arg); R("vp_symbolic", h_symbolic); R("vp_stub", h_stub); R("vp_note", h_note); R("vp_ite", h_ite); R("vp_and", h_and); R("vp_unsupported", h_unsupported); R("vp_is_const", h_is_const); R("vp_is_small", h_is_small); R("vp_is_const_ld", h_is_const); R("vp_fmt_ld", h_fmt_ld); R("vp_abort", h_abortmsg); R("vp_or", h_or);
	for (auto n : {"_Znwm", "_Znam", "malloc", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) R(n, h_new);
	for (auto n : {"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) R(n, h_delete);
	R("calloc", h_calloc);
	R("memcpy", h_memcpy); R("memmove", h_memcpy); R("memset", h_memset); R("memcmp", h_memcmp); R("bcmp", h_bcmp);
	R("__cxa_allocate_exception", h_cxa_alloc); R("__cxa_free_exception", h_nop); R("__cxa_throw", h_cxa_throw); R("__cxa_begin_catch", h_begin_catch); R("__cxa_end_catch", h_end_catch); R("__cxa_rethrow", h_rethrow);
	R("__cxa_get_exception_ptr", h_get_exc); R("_Unwind_Resume", h_unwind_resume); R("_ZSt19uncaught_exceptionsv", h_uncaught); R("_ZSt9terminatev", h_terminate); R("abort", h_abort); R("__cxa_pure_virtual", h_abort);
	R("exit", h_exit); R("_exit", h_exit); R("quick_exit", h_exit);
	R("__cxa_guard_acquire", h_guard_acquire); R("__cxa_guard_release", h_guard_release); R("__cxa_guard_abort", h_nop); R("__cxa_atexit", h_nop); R("atexit", h_nop);
	for (auto n : {"floor", "floorl", "floorf"}) R(n, h_floor);
	for (auto n : {"ceil", "ceill", "ceilf"}) R(n, h_ceil);
	for (auto n : {"trunc", "truncl"}) R(n, h_trunc);
	for (auto n : {"round", "roundl"}) R(n, h_round);
	for (auto n : {"sqrt", "sqrtl", "sqrtf"}) R(n, h_sqrt);
	for (auto n : {"fabs", "fabsl", "fabsf"}) R(n, h_fabs);
	for (auto n : {"fmod", "fmodl"}) R(n, h_fmod);
	R("log", h_log); R("logl", h_log); R("log2", h_log2); R("log2l", h_log2); R("log1p", h_log1p); R("log1pl", h_log1p); R("exp", h_exp); R("expl", h_exp); R("expm1", h_expm1); R("expm1l", h_expm1); R("pow", h_pow); R("powl", h_pow);
	R("sin", h_sin); R("sinl", h_sin); R("cos", h_cos); R("cosl", h_cos); R("tan", h_tan); R("tanl", h_tan); R("atan2", h_atan2); R("atan2l", h_atan2); R("cbrt", h_cbrt); R("hypot", h_hypot); R("hypotl", h_hypot); R("lgamma", h_lgamma); R("lgammal", h_lgamma); R("log10", h_log10); R("log10l", h_log10);
	R("llround", h_llround); R("llroundl", h_llround); R("lround", h_llround); R("lroundl", h_llround);
}
