#include "solver.h"
#include <z3.h>
#include <chrono>
#include <set>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/wait.h>
#include <fstream>
#include <sstream>
#include <map>

SolverStats solverStats;
double queryTimeout = 120;
std::string scratchDir = "/tmp";

double nowSec() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static Z3_context ctx = nullptr;
static Z3_error_code lastErr;
static void onErr(Z3_context, Z3_error_code e) { lastErr = e; }
static void init() {
	if (ctx) return;
	Z3_config cfg = Z3_mk_config();
	Z3_set_param_value(cfg, "model", "true");
	ctx = Z3_mk_context(cfg);
	Z3_del_config(cfg);
	Z3_set_error_handler(ctx, onErr);
}
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
static Z3_sort bvs(unsigned w) { static std::map<unsigned, Z3_sort> m; auto& s = m[w]; if (!s) { s = Z3_mk_bv_sort(ctx, w); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, s)); } return s; }
static Z3_sort fps(unsigned w) {
	static std::map<unsigned, Z3_sort> m; auto& s = m[w];
	if (!s) { s = w == 80 ? Z3_mk_fpa_sort(ctx, 15, 64) : w == 64 ? Z3_mk_fpa_sort(ctx, 11, 53) : Z3_mk_fpa_sort(ctx, 8, 24); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, s)); }
	return s;
}
static std::string dec(u128 v) { if (!v) return "0"; std::string s; while (v) { s += char('0' + (int)(v % 10)); v /= 10; } std::reverse(s.begin(), s.end()); return s; }
static Z3_ast rne() { static Z3_ast r = keep(Z3_mk_fpa_rne(ctx)); return r; }
static Z3_ast rtz() { static Z3_ast r = keep(Z3_mk_fpa_rtz(ctx)); return r; }

static Z3_ast tb(Ex* e);  // as bit-vector (width 1 -> Bool)
static Z3_ast tf(Ex* e);  // as floating point
static Z3_ast bv1(Ex* e) { // width-1 as bit-vector of size 1
	Z3_ast b = tb(e);
	if (e->w == 1) return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, bvs(1)), Z3_mk_unsigned_int64(ctx, 0, bvs(1)));
	return b;
}
static Z3_ast tf(Ex* e) {
	if (e->z3fp) return (Z3_ast)e->z3fp;
	Z3_ast r = nullptr;
	switch (e->op) {
	case FADD: r = Z3_mk_fpa_add(ctx, rne(), tf(e->k[0]), tf(e->k[1])); break;
	case FSUB: r = Z3_mk_fpa_sub(ctx, rne(), tf(e->k[0]), tf(e->k[1])); break;
	case FMUL: r = Z3_mk_fpa_mul(ctx, rne(), tf(e->k[0]), tf(e->k[1])); break;
	case FDIV: r = Z3_mk_fpa_div(ctx, rne(), tf(e->k[0]), tf(e->k[1])); break;
	case FNEG: r = Z3_mk_fpa_neg(ctx, tf(e->k[0])); break;
	case FABS: r = Z3_mk_fpa_abs(ctx, tf(e->k[0])); break;
	case FSQRT: r = Z3_mk_fpa_sqrt(ctx, rne(), tf(e->k[0])); break;
	case FFLOOR: r = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtn(ctx), tf(e->k[0])); break;
	case FCEIL: r = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtp(ctx), tf(e->k[0])); break;
	case FTRUNC: r = Z3_mk_fpa_round_to_integral(ctx, rtz(), tf(e->k[0])); break;
	case FROUND: r = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rna(ctx), tf(e->k[0])); break;
	case FRINT: r = Z3_mk_fpa_round_to_integral(ctx, rne(), tf(e->k[0])); break;
	case SITOF: r = Z3_mk_fpa_to_fp_signed(ctx, rne(), bv1(e->k[0]), fps(e->w)); break;
	case UITOF: r = Z3_mk_fpa_to_fp_unsigned(ctx, rne(), bv1(e->k[0]), fps(e->w)); break;
	case FCAST: r = Z3_mk_fpa_to_fp_float(ctx, rne(), tf(e->k[0]), fps(e->w)); break;
	case ITE: r = Z3_mk_ite(ctx, tb(e->k[0]), tf(e->k[1]), tf(e->k[2])); break;
	default: {
		Z3_ast b = tb(e);
		if (e->w == 80) {
			Z3_ast s = Z3_mk_extract(ctx, 79, 79, b), ex = Z3_mk_extract(ctx, 78, 64, b), m = Z3_mk_extract(ctx, 62, 0, b);
			r = Z3_mk_fpa_fp(ctx, s, ex, m);
		} else r = Z3_mk_fpa_to_fp_bv(ctx, b, fps(e->w));
	}
	}
	e->z3fp = keep(r);
	return r;
}
static bool isFop(Op op) { return (op >= FADD && op <= FRINT) || op == SITOF || op == UITOF || op == FCAST; }
static Z3_ast tb(Ex* e) {
	if (e->z3bv) return (Z3_ast)e->z3bv;
	Z3_ast r = nullptr;
	auto K = [&](int i) { return tb(e->k[i]); };
	bool b1 = e->nk > 0 && e->k[0]->w == 1;
	if (isFop(e->op)) {
		Z3_ast f = tf(e);
		Z3_ast b = Z3_mk_fpa_to_ieee_bv(ctx, f);
		if (e->w == 80) {
			Z3_ast s = Z3_mk_extract(ctx, 78, 78, b), ex = Z3_mk_extract(ctx, 77, 63, b), m = Z3_mk_extract(ctx, 62, 0, b);
			Z3_ast nz = Z3_mk_ite(ctx, Z3_mk_eq(ctx, ex, Z3_mk_unsigned_int64(ctx, 0, bvs(15))), Z3_mk_unsigned_int64(ctx, 0, bvs(1)), Z3_mk_unsigned_int64(ctx, 1, bvs(1)));
			r = Z3_mk_concat(ctx, s, Z3_mk_concat(ctx, ex, Z3_mk_concat(ctx, nz, m)));
		} else r = b;
		e->z3bv = keep(r);
		return r;
	}
	switch (e->op) {
	case CONST:
		if (e->w == 1) r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
		else if (e->w <= 64) r = Z3_mk_unsigned_int64(ctx, (u64)e->c, bvs(e->w));
		else r = Z3_mk_numeral(ctx, dec(e->c).c_str(), bvs(e->w));
		break;
	case VAR: {
		std::string n = "v" + std::to_string((u64)e->c);
		Z3_symbol s = Z3_mk_string_symbol(ctx, n.c_str());
		r = e->w == 1 ? Z3_mk_const(ctx, s, Z3_mk_bool_sort(ctx)) : Z3_mk_const(ctx, s, bvs(e->w));
		break;
	}
	case ADD: r = b1 ? Z3_mk_xor(ctx, K(0), K(1)) : Z3_mk_bvadd(ctx, K(0), K(1)); break;
	case SUB: r = b1 ? Z3_mk_xor(ctx, K(0), K(1)) : Z3_mk_bvsub(ctx, K(0), K(1)); break;
	case MUL: if (b1) { Z3_ast a[2] = {K(0), K(1)}; r = Z3_mk_and(ctx, 2, a); } else r = Z3_mk_bvmul(ctx, K(0), K(1)); break;
	case UDIV: r = Z3_mk_bvudiv(ctx, bv1(e->k[0]), bv1(e->k[1])); break;
	case SDIV: r = Z3_mk_bvsdiv(ctx, bv1(e->k[0]), bv1(e->k[1])); break;
	case UREM: r = Z3_mk_bvurem(ctx, bv1(e->k[0]), bv1(e->k[1])); break;
	case SREM: r = Z3_mk_bvsrem(ctx, bv1(e->k[0]), bv1(e->k[1])); break;
	case AND: if (b1) { Z3_ast a[2] = {K(0), K(1)}; r = Z3_mk_and(ctx, 2, a); } else r = Z3_mk_bvand(ctx, K(0), K(1)); break;
	case OR: if (b1) { Z3_ast a[2] = {K(0), K(1)}; r = Z3_mk_or(ctx, 2, a); } else r = Z3_mk_bvor(ctx, K(0), K(1)); break;
	case XOR: {
		if (b1) { r = isC(e->k[1]) && e->k[1]->c ? Z3_mk_not(ctx, K(0)) : Z3_mk_xor(ctx, K(0), K(1)); }
		else if (isC(e->k[1]) && e->k[1]->c == maskw(e->w)) r = Z3_mk_bvnot(ctx, K(0));
		else r = Z3_mk_bvxor(ctx, K(0), K(1));
		break;
	}
	case SHL: r = Z3_mk_bvshl(ctx, bv1(e->k[0]), bv1(e->k[1])); break;
	case LSHR: r = Z3_mk_bvlshr(ctx, bv1(e->k[0]), bv1(e->k[1])); break;
	case ASHR: r = Z3_mk_bvashr(ctx, bv1(e->k[0]), bv1(e->k[1])); break;
	case EQ: r = Z3_mk_eq(ctx, K(0), K(1)); break;
	case ULT: r = Z3_mk_bvult(ctx, bv1(e->k[0]), bv1(e->k[1])); break;
	case ULE: r = Z3_mk_bvule(ctx, bv1(e->k[0]), bv1(e->k[1])); break;
	case SLT: r = Z3_mk_bvslt(ctx, bv1(e->k[0]), bv1(e->k[1])); break;
	case SLE: r = Z3_mk_bvsle(ctx, bv1(e->k[0]), bv1(e->k[1])); break;
	case ITE: r = Z3_mk_ite(ctx, K(0), K(1), K(2)); break;
	case CONCAT: r = Z3_mk_concat(ctx, bv1(e->k[0]), bv1(e->k[1])); break;
	case EXTRACT:
		r = Z3_mk_extract(ctx, (unsigned)e->c + e->w - 1, (unsigned)e->c, bv1(e->k[0]));
		if (e->w == 1) r = Z3_mk_eq(ctx, r, Z3_mk_unsigned_int64(ctx, 1, bvs(1)));
		break;
	case ZEXT:
		if (b1) r = Z3_mk_ite(ctx, K(0), Z3_mk_unsigned_int64(ctx, 1, bvs(e->w)), Z3_mk_unsigned_int64(ctx, 0, bvs(e->w)));
		else r = Z3_mk_zero_ext(ctx, e->w - e->k[0]->w, K(0));
		break;
	case SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->k[0]->w, bv1(e->k[0])); break;
	case FEQ: r = Z3_mk_fpa_eq(ctx, tf(e->k[0]), tf(e->k[1])); break;
	case FLT: r = Z3_mk_fpa_lt(ctx, tf(e->k[0]), tf(e->k[1])); break;
	case FLE: r = Z3_mk_fpa_leq(ctx, tf(e->k[0]), tf(e->k[1])); break;
	case FUNO: { Z3_ast a[2] = {Z3_mk_fpa_is_nan(ctx, tf(e->k[0])), Z3_mk_fpa_is_nan(ctx, tf(e->k[1]))}; r = Z3_mk_or(ctx, 2, a); break; }
	case FTOSI: r = Z3_mk_fpa_to_sbv(ctx, rtz(), tf(e->k[0]), e->w); break;
	case FTOUI: r = Z3_mk_fpa_to_ubv(ctx, rtz(), tf(e->k[0]), e->w); break;
	default: fprintf(stderr, "solver: cannot encode op %s\n", opNames[e->op]); return nullptr;
	}
	if (!r) { fprintf(stderr, "solver: encoding failed for %s w=%u (z3 error %d: %s)\n", opNames[e->op], e->w, lastErr, Z3_get_error_msg(ctx, lastErr)); abort(); }
	if (e->w == 1 && (e->op == SHL || e->op == LSHR || e->op == ASHR || e->op == UDIV || e->op == UREM || e->op == SDIV || e->op == SREM)) r = Z3_mk_eq(ctx, r, Z3_mk_unsigned_int64(ctx, 1, bvs(1)));
	e->z3bv = keep(r);
	return r;
}
// recursion depth guard: translate bottom-up iteratively
static void pretranslate(Ex* root) {
	std::vector<std::pair<Ex*, int>> st{{root, 0}};
	std::unordered_set<Ex*> seen;
	while (!st.empty()) {
		auto& [e, i] = st.back();
		if (e->z3bv) { st.pop_back(); continue; }
		if (i < e->nk) { Ex* k = e->k[i++]; if (!k->z3bv && !seen.count(k)) { st.push_back({k, 0}); } continue; }
		Ex* x = e;
		st.pop_back();
		seen.insert(x);
		if (isFop(x->op)) tf(x); else tb(x);
	}
}
static bool hasFP(Ex* r, std::unordered_set<Ex*>& seen) {
	std::vector<Ex*> st{r};
	while (!st.empty()) {
		Ex* e = st.back(); st.pop_back();
		if (!seen.insert(e).second) continue;
		if (e->op >= FADD) return true;
		for (int i = 0; i < e->nk; i++) st.push_back(e->k[i]);
	}
	return false;
}

static u128 parseNum(const std::string& s) {
	u128 v = 0;
	if (s.size() > 2 && s[0] == '#' && s[1] == 'x') for (size_t i = 2; i < s.size(); i++) v = v * 16 + (isdigit(s[i]) ? s[i] - '0' : tolower(s[i]) - 'a' + 10);
	else if (s.size() > 2 && s[0] == '#') for (size_t i = 2; i < s.size(); i++) v = v * 2 + (s[i] - '0');
	else if (s == "true") v = 1;
	else if (s == "false") v = 0;
	else for (char ch : s) if (isdigit(ch)) v = v * 10 + (ch - '0');
	return v;
}

struct Proc { pid_t pid; int fd; std::string out; bool done = false; };
static Res external(const std::vector<Ex*>& cons, const std::vector<uint32_t>& vars, double secs, bool fp, std::vector<std::pair<uint32_t, u128>>& out) {
	static int counter = 0;
	std::string file = scratchDir + "/q" + std::to_string(getpid()) + "_" + std::to_string(counter++) + ".smt2";
	{
		Z3_solver s = Z3_mk_simple_solver(ctx);
		Z3_solver_inc_ref(ctx, s);
		for (Ex* e : cons) Z3_solver_assert(ctx, s, tb(e));
		std::ofstream f(file);
		f << "(set-option :produce-models true)\n" << (fp ? "(set-logic QF_BVFP)\n" : "(set-logic QF_BV)\n") << Z3_solver_to_string(ctx, s) << "(check-sat)\n(get-value (";
		for (auto v : vars) f << " v" << v;
		f << "))\n(exit)\n";
		Z3_solver_dec_ref(ctx, s);
	}
	char tl[64], tl2[64]; snprintf(tl, sizeof tl, "-T:%d", (int)secs + 1); snprintf(tl2, sizeof tl2, "--tlimit=%d", (int)(secs * 1000));
	std::vector<std::vector<std::string>> cmds = {
		{"z3-new", tl, file}, {"cvc5", tl2, "--bitblast=eager", file}, {"cvc5", tl2, "--solve-bv-as-int=sum", file}, {"cvc5", tl2, file}};
	if (fp) { cmds.erase(cmds.begin() + 1, cmds.begin() + 3); }
	std::vector<Proc> ps;
	for (auto& c : cmds) {
		int p[2];
		if (pipe(p)) continue;
		pid_t pid = fork();
		if (pid == 0) {
			dup2(p[1], 1); close(p[0]);
			int dn = open("/dev/null", O_WRONLY); dup2(dn, 2);
			std::vector<char*> a; for (auto& x : c) a.push_back((char*)x.c_str()); a.push_back(nullptr);
			execvp(a[0], a.data()); _exit(127);
		}
		close(p[1]);
		ps.push_back({pid, p[0], "", false});
	}
	Res res = UNK;
	double end = nowSec() + secs + 2;
	while (res == UNK) {
		std::vector<pollfd> pf; std::vector<int> idx;
		for (size_t i = 0; i < ps.size(); i++) if (!ps[i].done) { pf.push_back({ps[i].fd, POLLIN, 0}); idx.push_back((int)i); }
		if (pf.empty() || nowSec() > end) break;
		poll(pf.data(), pf.size(), 500);
		for (size_t j = 0; j < pf.size() && res == UNK; j++) if (pf[j].revents) {
			char buf[65536]; ssize_t n = read(pf[j].fd, buf, sizeof buf);
			Proc& p = ps[idx[j]];
			if (n > 0) { p.out.append(buf, n); continue; }
			p.done = true;
			if (p.out.find("(error") != std::string::npos && p.out.compare(0, 5, "unsat") != 0) continue;
			if (p.out.compare(0, 5, "unsat") == 0) res = UNSAT;
			else if (p.out.compare(0, 3, "sat") == 0) {
				res = SAT; out.clear();
				size_t pos = 3;
				while ((pos = p.out.find("(v", pos)) != std::string::npos) {
					size_t q = pos + 2; uint32_t v = 0;
					while (isdigit(p.out[q])) v = v * 10 + (p.out[q++] - '0');
					while (isspace(p.out[q])) q++;
					size_t r = p.out.find(')', q);
					std::string t = p.out.substr(q, r - q);
					if (t.compare(0, 5, "(_ bv") == 0) { t = t.substr(5); t = t.substr(0, t.find(' ')); }
					out.push_back({v, parseNum(t)});
					pos = r;
				}
			}
		}
	}
	for (auto& p : ps) { kill(p.pid, SIGKILL); close(p.fd); waitpid(p.pid, nullptr, 0); }
	unlink(file.c_str());
	solverStats.external++;
	return res;
}

static void extractModel(Z3_solver s, const std::vector<uint32_t>& vars, std::vector<std::pair<uint32_t, u128>>& out) {
	Z3_model m = Z3_solver_get_model(ctx, s);
	Z3_model_inc_ref(ctx, m);
	out.clear();
	for (auto v : vars) {
		Ex* e = allVars[v];
		Z3_ast r;
		u128 val = 0;
		if (Z3_model_eval(ctx, m, tb(e), true, &r)) {
			Z3_inc_ref(ctx, r);
			if (e->w == 1) val = Z3_get_bool_value(ctx, r) == Z3_L_TRUE;
			else if (Z3_get_ast_kind(ctx, r) == Z3_NUMERAL_AST) { uint64_t x; if (Z3_get_numeral_uint64(ctx, r, &x)) val = x; else val = parseNum(Z3_get_numeral_string(ctx, r)); }
			Z3_dec_ref(ctx, r);
		}
		out.push_back({v, val});
	}
	Z3_model_dec_ref(ctx, m);
}
static Res tryZ3(Z3_solver s, const std::vector<Ex*>& cons, unsigned ms, const std::vector<uint32_t>& vars, std::vector<std::pair<uint32_t, u128>>& out) {
	Z3_solver_inc_ref(ctx, s);
	Z3_params p = Z3_mk_params(ctx);
	Z3_params_inc_ref(ctx, p);
	Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms);
	Z3_solver_set_params(ctx, s, p);
	for (Ex* e : cons) Z3_solver_assert(ctx, s, tb(e));
	Z3_lbool r = Z3_solver_check(ctx, s);
	Res res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNK;
	if (res == SAT) extractModel(s, vars, out);
	Z3_params_dec_ref(ctx, p);
	Z3_solver_dec_ref(ctx, s);
	return res;
}

// satisfying assignments of hard arithmetic constraints are often easy to guess; never decides UNSAT
static u64 rngState = 0x9E3779B97F4A7C15ull;
static u64 rnd() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }
static Res guess(const std::vector<Ex*>& cons, const std::vector<uint32_t>& vars, std::vector<std::pair<uint32_t, u128>>& out) {
	double end = nowSec() + 0.5;
	Model m; m.val.resize(allVars.size());
	for (int t = 0; t < 400 && nowSec() < end; t++) {
		for (auto v : vars) {
			unsigned w = allVars[v]->w; u128 x = ((u128)rnd() << 64) | rnd();
			switch (rnd() % 5) { case 0: x &= 7; break; case 1: x = maskw(w) - (x & 7); break; case 2: x &= 255; break; case 3: x >>= rnd() % 128; break; default: break; }
			m.val[v] = x & maskw(w);
		}
		m.memo.clear();
		bool ok = true;
		for (Ex* e : cons) if (!m.eval(e)) { ok = false; break; }
		if (ok) { out.clear(); for (auto v : vars) out.push_back({v, m.val[v]}); return SAT; }
	}
	return UNK;
}

struct VecHash { size_t operator()(const std::vector<uint32_t>& v) const { u64 h = v.size(); for (auto x : v) h = (h ^ x) * 0x9E3779B97F4A7C15ull + 7; return h; } };
static std::unordered_map<std::vector<uint32_t>, std::pair<Res, std::vector<std::pair<uint32_t, u128>>>, VecHash> cache;

Res solve(const std::vector<Ex*>& cons0, std::vector<std::pair<uint32_t, u128>>& out) {
	init();
	std::vector<Ex*> cons;
	for (Ex* e : cons0) { if (isFalse(e)) return UNSAT; if (!isTrue(e)) cons.push_back(e); }
	std::sort(cons.begin(), cons.end(), [](Ex* a, Ex* b) { return a->id < b->id; });
	cons.erase(std::unique(cons.begin(), cons.end()), cons.end());
	out.clear();
	if (cons.empty()) return SAT;
	std::vector<uint32_t> key;
	for (Ex* e : cons) key.push_back(e->id);
	auto it = cache.find(key);
	if (it != cache.end()) { solverStats.cacheHits++; out = it->second.second; return it->second.first; }
	std::set<uint32_t> vs;
	for (Ex* e : cons) vs.insert(e->vars->begin(), e->vars->end());
	std::vector<uint32_t> vars(vs.begin(), vs.end());
	double t0 = nowSec();
	solverStats.queries++;
	static const bool dbg = getenv("VP_DEBUGQ"); if (dbg) { fprintf(stderr, "Q"); for (Ex* e : cons) fprintf(stderr, " & %s", exStr(e, 6).c_str()); fprintf(stderr, "\n"); }
	for (Ex* e : cons) pretranslate(e);
	std::unordered_set<Ex*> seen;
	bool fp = false;
	for (Ex* e : cons) if (hasFP(e, seen)) { fp = true; break; }
	Res r = UNK;
	if (!fp) {
		unsigned bits = 0; for (auto v : vars) bits += allVars[v]->w;
		if (bits > 24) r = tryZ3(Z3_mk_simple_solver(ctx), cons, 200, vars, out);
		else r = tryZ3(Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")), cons, 2000, vars, out);
		if (r == UNK) r = guess(cons, vars, out);
		if (r == UNK) r = tryZ3(Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")), cons, (unsigned)(std::min(queryTimeout, 5.0) * 1000), vars, out);
	} else {
		r = tryZ3(Z3_mk_simple_solver(ctx), cons, (unsigned)(std::min(queryTimeout, 3.0) * 1000), vars, out);
	}
	if (r == UNK) r = guess(cons, vars, out);
	if (r == UNK) r = external(cons, vars, queryTimeout, fp, out);
	double dt = nowSec() - t0;
	solverStats.time += dt;
	if (dt > solverStats.maxTime) solverStats.maxTime = dt;
	if (r == SAT) solverStats.sat++; else if (r == UNSAT) solverStats.unsat++; else solverStats.unknown++;
	if (r == SAT) { // validate the model with the reference evaluator
		Model m; for (auto& [v, x] : out) { if (m.val.size() <= v) m.val.resize(v + 1); m.val[v] = x; }
		for (Ex* e : cons) if (!m.eval(e)) { fprintf(stderr, "solver: model does not satisfy constraint %s\n", exStr(e, 5).c_str()); r = UNK; solverStats.unknown++; break; }
	}
	cache[key] = {r, out};
	return r;
}
