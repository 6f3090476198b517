// reference graphs for the generator's graph classes
#pragma once
#include "common.h"
#include "graph_gen.h"
struct Ref { // adjacency matrix with data; undirected: symmetric
	static const int N = 17;
	int n; Integer base; bool dir; bool has[N][N] = {}; Integer val[N][N] = {};
	Ref(int n_, Integer b, bool d) : n(n_), base(b), dir(d) {}
	void put(int a, int b, Integer x = 0) { has[a][b] = true; val[a][b] = x; if (!dir) { has[b][a] = true; val[b][a] = x; } }
	void del(int a, int b) { has[a][b] = false; if (!dir) has[b][a] = false; }
	int edges() const { int c = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (has[i][j] && (dir || i < j)) c++; return c; }
	int deg(int a) const { int c = 0; for (int j = 0; j < n; j++) c += has[a][j]; return c; }
};
template<typename E> static constexpr bool plain = std::is_same_v<E, NoData>;
template<typename W> static bool dataIs(const W& e, Integer x) { if constexpr (requires { e.data; }) return e.data == x; else return true; }
// the graph is exactly the reference; data is compared when asked for
template<typename E, bool DIR> static void sameGraph(const GraphDetail::GraphType<E, DIR>& g, const Ref& r, const char* what, bool data = true) {
	using G = GraphDetail::GraphType<E, DIR>; const G& c = g; int n = r.n, m = r.edges();
	vp_assert(r.dir == DIR, what); vp_assert(c.nodeCount() == n && c.size() == (size_t)n, what); vp_assert(c.getNextId() == r.base + n && (n == 0 || c.getMinId() == r.base), what); vp_assert(c.edgeCount() == m, what);
	if (c.nodeCount() != n) return; int seen[Ref::N][Ref::N] = {}; bool ok = true; int k = 0; if (plain<E>) data = false;
	for (const auto& e : c.getEdges()) { Integer a = e.from - r.base, b = e.to - r.base; bool in = 0 <= a && a < n && 0 <= b && b < n; ok = ok && in; if (!in) continue; ok = ok && r.has[a][b] && !seen[a][b]; seen[a][b] = 1; if (!DIR) seen[b][a] = 1; if (data) ok = vp_and(ok, dataIs(e, r.val[a][b])); k++; }
	vp_assert(vp_and(ok, k == m), what); ok = true; k = 0;
	for (const auto& d : c.getDegrees()) { ok = ok && k < n && (int)d == r.deg(k); k++; } vp_assert(ok && k == n, what); ok = true;
	for (int i = 0; i < n; i++) {
		ok = ok && c.degree(r.base + i) == r.deg(i); int q = 0; bool s[Ref::N] = {};
		for (const auto& e : c[r.base + i]) { Integer b = e.to - r.base; ok = ok && e.from == r.base + i && 0 <= b && b < n; if (!(0 <= b && b < n)) continue; ok = ok && r.has[i][b] && !s[b]; s[b] = true; q++; if (data) ok = vp_and(ok, dataIs(e, r.val[i][b])); }
		ok = ok && q == r.deg(i);
		for (int j = 0; j < n; j++) { ok = ok && c.hasEdge(r.base + i, r.base + j) == r.has[i][j]; auto f = c.findEdge(r.base + i, r.base + j); ok = ok && f.has_value() == r.has[i][j]; if (f) { ok = ok && f->from == r.base + i && f->to == r.base + j; if (data) ok = vp_and(ok, dataIs(*f, r.val[i][j])); } }
	}
	vp_assert(ok, what);
}
template<typename T> static const T& cst(const T& t) { return t; }
static const Integer bases[] = {0, -2, 5, 1ll << 62};
template<bool DIR> using GI = GraphDetail::GraphType<Integer, DIR>;
template<bool DIR> static GI<DIR> any(Ref& r, const char* name, bool data = true) { // every set of edges
	GI<DIR> g(r.base, r.base + r.n); for (int i = 0; i < r.n; i++) for (int j = 0; j < r.n; j++) if (i != j && (DIR || i < j) && vp_flag(name)) { Integer x = data ? vp_i64("data") : 0; g.addEdge(r.base + i, r.base + j, x); r.put(i, j, x); } return g;
}
