//@ std 20
//@ stub randstub.cpp
//@ oracle the derived graph computed from the adjacency matrix by the definition of the operation (reachability within k steps, products, line graph, ...); the graph itself stays as it was
//@ bounds every directed and undirected graph of up to 3 vertices (undirected up to 4 vertices, powers of directed graphs of 4 vertices and undirected ones of 5 with at most 4 (thorough 5) edges) with arbitrary 64-bit edge data and vertex ids from 0, -2, 5 and 2^62; powers 0 to n+1; ranges around the ids of the graph; products of every two graphs of 3 and 2 or 2 and 3 vertices; subgraphs of every size with every draw; permutations of 3 vertices with every draw
//@ outside larger graphs; edges of the result of directed products at ids other than (b * n + a) or (a * m + b)
//@ assume Random::integer(lower, upper) is replaced by an arbitrary value of its range, the random engine by arbitrary outputs
//@ case range quick=0-1 reach=done
//@ case invert quick=0-5 reach=done
//@ case turn quick=0-2 reach=done
//@ case directed quick=0-3 reach=done
//@ case power quick=0-6 thorough=0-8 reach=done
//@ case product quick=0-5 reach=done
//@ case cartesian quick=0-6 reach=done
//@ case line quick=0-5 reach=done
//@ case subgraph quick=0-3 reach=done
//@ case shuffled quick=0-5 reach=done
//@ case badperm quick=0-1 reach=threw
#include "engine.h"
#include "graphs.h"
#include "draws.h"
static Integer someBase() { return bases[vp_choose("base", 0, 3)]; }
template<bool DIR> static void range() {
	Ref r(3, bases[vp_choose("base", 1, 3)], DIR); GI<DIR> g = any<DIR>(r, "edge"); int a = (int)vp_choose("from", -1, 4), b = a + (int)vp_choose("length", 0, 4 - a < 3 ? 4 - a : 3); Ref s(b - a, r.base + a, DIR);
	for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (r.has[i][j] && i >= a && i < b && j >= a && j < b) s.put(i - a, j - a, r.val[i][j]);
	const auto& c = g; sameGraph(c.range(r.base + a, r.base + b), s, "the vertices of the range and all edges between them"); sameGraph(g, r, "the graph itself is unchanged");
	bool t = false; try { c.range(r.base + b + 1, r.base + b - (int)vp_choose("less", 0, 1)); } catch (std::invalid_argument&) { t = true; } vp_assert(t, "reversed ranges are rejected"); vp_reach("done"); vp_obs(b);
}
VP_CASE(range) { if (vp_arg() == 0) range<false>(); else range<true>(); }
template<bool DIR, typename E> static void invert(int n) {
	Ref r(n, someBase(), DIR), s = r; GraphDetail::GraphType<E, DIR> g(r.base, r.base + n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && (DIR || i < j)) { if (vp_flag("edge")) { if constexpr (plain<E>) g.addEdge(r.base + j, r.base + i); else g.addEdge(r.base + j, r.base + i, vp_i64("data")); r.put(j, i); } else s.put(j, i); }
	sameGraph(cst(g).complement(), s, "exactly the missing edges", false); sameGraph(g, r, "the graph itself is unchanged", false); vp_reach("done"); vp_obs(n);
}
VP_CASE(invert) { int a = (int)vp_arg(); if (a == 0) invert<false, NoData>(3); if (a == 1) invert<true, NoData>(3); if (a == 2) invert<false, Integer>(3); if (a == 3) invert<true, Integer>(2); if (a == 4) invert<false, NoData>(4); if (a == 5) invert<false, NoData>(5); }
VP_CASE(turn) { // reverse and undirected
	int n = 2 + (int)vp_arg(); if (n == 4) n = 0; Ref r(n, someBase(), true), s(n, r.base, true), u(n, r.base, false); GI<true> g = any<true>(r, "edge"); bool ok = true; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (r.has[i][j]) { s.put(j, i, r.val[i][j]); u.put(i, j, r.val[i][j]); }
	auto w = cst(g).undirected(); sameGraph(w, u, "an edge for every pair connected in some direction", false); for (const auto& e : w.getEdges()) { int a = (int)(e.from - r.base), b = (int)(e.to - r.base); ok = vp_and(ok, vp_or(vp_and(r.has[a][b], *e == r.val[a][b]), vp_and(r.has[b][a], *e == r.val[b][a]))); } vp_assert(ok, "the data of an edge of either direction");
	sameGraph(g, r, "the graph itself is unchanged"); auto& q = g.reverse(); vp_assert(&q == &g, "the graph itself is returned"); sameGraph(g, s, "every edge reversed"); g.reverse(); sameGraph(g, r, "reversed twice"); vp_reach("done"); vp_obs(n);
}
VP_CASE(directed) {
	int n = vp_arg() == 3 ? 4 : 3; Ref r(n, someBase(), false), s(n, r.base, true); GI<false> g = any<false>(r, "edge"); int m = (int)vp_arg() % 3; bool allow[4][4]; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { allow[i][j] = m == 0 || (r.has[i][j] && vp_flag("allow")); if (r.has[i][j] && allow[i][j]) s.put(i, j, r.val[i][j]); }
	bool ok = true; Integer b = r.base; auto two = [&](Integer x, Integer y) { return allow[x - b][y - b]; }; auto three = [&](Integer x, Integer y, const Integer& d) { ok = vp_and(ok, d == r.val[x - b][y - b]); return allow[x - b][y - b]; };
	const auto& c = g; if (m == 0) sameGraph(c.directed(), s, "both directions of every edge"); if (m == 1) sameGraph(c.directed([=](Integer x, Integer y) { return two(x, y); }), s, "the directions chosen by the predicate"); if (m == 2) sameGraph(c.directed([=](Integer x, Integer y, const Integer& d) { return three(x, y, d); }), s, "the directions chosen by the predicate");
	vp_assert(ok, "the predicate sees the data of the edge"); sameGraph(g, r, "the graph itself is unchanged"); vp_reach("done"); vp_obs(n);
}
template<bool DIR> static void power(int n, int most) {
	Ref r(n, bases[vp_choose("base", 0, 2)], DIR); GraphDetail::GraphType<NoData, DIR> g(r.base, r.base + n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && (DIR || i < j) && r.edges() < most && vp_flag("edge")) { g.addEdge(r.base + i, r.base + j); r.put(i, j); }
	int k = (int)vp_choose("k", -1, n + 1); Ref s(n, r.base, DIR); for (int i = 0; i < n; i++) { int d[Ref::N]; for (int j = 0; j < n; j++) d[j] = i == j ? 0 : 99; for (int t = 0; t < n; t++) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (r.has[a][b] && d[a] + 1 < d[b]) d[b] = d[a] + 1; for (int j = 0; j < n; j++) if (i != j && d[j] < 99 && (k < 0 || d[j] <= k)) s.put(i, j); }
	const auto& c = g; if (k < 0) sameGraph(c.transitiveClosure(), s, "an edge for every pair connected by a path"); else sameGraph(c.power(k), s, "an edge for every pair connected by a path of at most k edges"); sameGraph(g, r, "the graph itself is unchanged"); vp_reach("done"); vp_obs(k);
}
VP_CASE(power) { int a = (int)vp_arg(); if (a == 0) power<false>(3, 9); if (a == 1) power<true>(3, 9); if (a == 2) power<false>(4, 9); if (a == 3) power<false>(1, 0); if (a == 4) power<true>(4, 4); if (a == 5) power<false>(5, 4); if (a == 6) power<true>(0, 0); if (a == 7) power<true>(4, 5); if (a == 8) power<false>(5, 5); }
template<bool DIR> static Ref plainGraph(GraphDetail::GraphType<NoData, DIR>& g, int n, Integer base, int most = 99) { Ref r(n, base, DIR); g = GraphDetail::GraphType<NoData, DIR>(base, base + n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && (DIR || i < j) && r.edges() < most && vp_flag("edge")) { if (DIR || (i + j) % 2) g.addEdge(base + i, base + j); else g.addEdge(base + j, base + i); r.put(i, j); } return r; }
// vertices (a, b) are numbered row by row in one of the two ways
template<bool DIR> static void sameProduct(const GraphDetail::GraphType<NoData, DIR>& p, const Ref& r, const Ref& o, const char* what, int kind) { // bits: cartesian, tensor
	vp_assert(p.nodeCount() == r.n * o.n && p.getMinId() == 0, what); bool other = false; auto at = [&](int a, int b) { return other ? a * o.n + b : b * r.n + a; };
	for (int t = 0; t < 2; t++, other = true) { Ref s(r.n * o.n, 0, DIR); for (int a = 0; a < r.n; a++) for (int b = 0; b < o.n; b++) for (int c = 0; c < r.n; c++) for (int d = 0; d < o.n; d++) if (((kind & 1) && ((a == c && o.has[b][d]) || (b == d && r.has[a][c]))) || ((kind & 2) && r.has[a][c] && o.has[b][d])) s.put(at(a, b), at(c, d));
		bool eq = p.edgeCount() == s.edges(); for (int x = 0; x < s.n && eq; x++) for (int y = 0; y < s.n; y++) eq = eq && p.hasEdge(x, y) == s.has[x][y]; if (eq || t == 1) { sameGraph(p, s, what); return; } }
}
VP_CASE(product) {
	int a = (int)vp_arg(); static const int sz[][2] = {{3, 2}, {2, 3}, {1, 3}, {2, 2}, {3, 3}, {4, 2}}; Graph<> g, h; Ref r = plainGraph<false>(g, sz[a][0], bases[vp_choose("base", 0, 1)]), o = plainGraph<false>(h, sz[a][1], bases[vp_choose("other", 0, 2)]); const auto& c = g; sameProduct(c.product(h), r, o, "the tensor product", 2); sameProduct(c.strongProduct(h), r, o, "the strong product", 3); sameGraph(g, r, "the graph itself is unchanged"); sameGraph(h, o, "the other graph is unchanged"); vp_reach("done"); vp_obs(a);
}
template<bool DIR> static void cartesian(int n, int m) { GraphDetail::GraphType<NoData, DIR> g, h; Ref r = plainGraph<DIR>(g, n, bases[vp_choose("base", 0, 1)]), o = plainGraph<DIR>(h, m, bases[vp_choose("other", 0, 2)]); sameProduct(cst(g).cartesian(h), r, o, "the cartesian product", 1); sameGraph(g, r, "the graph itself is unchanged"); sameGraph(h, o, "the other graph is unchanged"); vp_reach("done"); vp_obs(n); }
VP_CASE(cartesian) { int a = (int)vp_arg(); if (a == 0) cartesian<false>(3, 2); if (a == 1) cartesian<false>(2, 3); if (a == 2) cartesian<true>(2, 2); if (a == 3) cartesian<true>(1, 3); if (a == 4) cartesian<false>(0, 2); if (a == 5) cartesian<false>(3, 3); if (a == 6) cartesian<true>(3, 2); }
template<bool DIR, typename E> static void line(int n, int most) { // vertices of the line graph are the edges in some order
	Integer b = bases[vp_choose("base", 0, 2)]; GraphDetail::GraphType<E, DIR> g(b, b + n); int es[12][2], m = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && (DIR || i < j) && m < most && vp_flag("edge")) { g.addEdge(b + i, b + j); es[m][0] = i; es[m][1] = j; m++; }
	auto l = cst(g).lineGraph(); vp_assert(l.nodeCount() == m && (m == 0 || l.getMinId() == 0), "a vertex for every edge"); static_assert(std::is_same_v<decltype(l), GraphDetail::GraphType<NoData, DIR>>);
	Ref s(m, 0, DIR); auto meets = [&](int x, int y) { return x != y && (DIR ? es[x][1] == es[y][0] : es[x][0] == es[y][0] || es[x][0] == es[y][1] || es[x][1] == es[y][0] || es[x][1] == es[y][1]); };
	int k = 0, at[12]; for (const auto& e : g.getEdges()) { for (int x = 0; x < m; x++) if ((e.from == b + es[x][0] && e.to == b + es[x][1]) || (!DIR && e.to == b + es[x][0] && e.from == b + es[x][1])) at[k] = x; k++; } // numbered like the edges of the graph
	for (int x = 0; x < m; x++) for (int y = 0; y < m; y++) if (meets(at[x], at[y])) s.put(x, y); sameGraph(l, s, "adjacent exactly if the edges follow each other"); vp_reach("done"); vp_obs(m);
}
VP_CASE(line) { int a = (int)vp_arg(); if (a == 0) line<false, NoData>(3, 9); if (a == 1) line<true, NoData>(3, 9); if (a == 2) line<false, Integer>(4, 9); if (a == 3) line<true, Integer>(2, 9); if (a == 4) line<true, NoData>(4, 4); if (a == 5) line<false, NoData>(5, 5); }
template<bool DIR> static void subgraph(int n) {
	Ref r(n, bases[vp_choose("base", 0, 1)], DIR); GI<DIR> g = any<DIR>(r, "edge"); int m = (int)vp_choose("m", 0, r.edges() + 1); vp_draws.record(); vp_draws.conc = 99; GI<DIR> s = cst(g).subgraph(m); vp_assert(s.edgeCount() == std::min(m, r.edges()), "the requested number of edges"); Ref q(n, r.base, DIR); bool ok = true;
	for (const auto& e : s.getEdges()) { int a = (int)(e.from - r.base), b = (int)(e.to - r.base); ok = ok && a >= 0 && a < n && b >= 0 && b < n; vp_assert(ok && r.has[a][b], "only edges of the graph"); q.put(a, b, r.val[a][b]); } sameGraph(s, q, "all vertices and some of the edges with their data"); sameGraph(g, r, "the graph itself is unchanged"); vp_reach("done"); vp_obs(m);
}
VP_CASE(subgraph) { int a = (int)vp_arg(); if (a == 0) subgraph<false>(3); if (a == 1) subgraph<true>(2); if (a == 2) subgraph<true>(3); if (a == 3) subgraph<false>(4); }
template<bool DIR> static void shuffled(int n, int how) {
	Ref r(n, bases[vp_choose("base", 0, 2)], DIR); GI<DIR> g = any<DIR>(r, "edge"); vp_draws.record(); vp_draws.conc = 99; AnyEngine::record(); AnyEngine::narrow = true; std::vector<Integer> p; for (int i = 0; i < n; i++) p.push_back(r.base + i); auto ref = [&]() { Ref s(n, r.base, DIR); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (r.has[i][j]) s.put((int)(p[(size_t)i] - r.base), (int)(p[(size_t)j] - r.base), r.val[i][j]); return s; };
	if (how == 0) { auto& q = g.permutateEdges(); vp_assert(&q == &g, "the graph itself is returned"); sameGraph(g, r, "permuting the edges keeps the graph"); }
	if (how == 1) { int k = (int)vp_choose("perm", 0, n == 3 ? 5 : 1); while (k--) std::next_permutation(p.begin(), p.end()); const auto p0 = p; auto& q = g.permutate(p); vp_assert(&q == &g, "the graph itself is returned"); vp_assert(p == p0, "the permutation is kept"); sameGraph(g, ref(), "vertices are renamed by the permutation"); }
	if (how == 2) { g.permutate(); bool any = false; do { Ref s = ref(); bool eq = true; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { auto f = cst(g).findEdge(r.base + i, r.base + j); eq = eq && f.has_value() == s.has[i][j]; if (eq && f) eq = vp_and(eq, **f == s.val[i][j]); } any = vp_or(any, eq); } while (std::next_permutation(p.begin(), p.end())); vp_assert(any, "the result is the graph under some renaming of the vertices"); vp_assert(g.edgeCount() == r.edges() && g.getMinId() == r.base && g.nodeCount() == n, "as many edges and vertices as before"); }
	vp_reach("done"); vp_obs(n);
}
VP_CASE(shuffled) { int a = (int)vp_arg(); if (a == 0) shuffled<false>(3, 0); if (a == 1) shuffled<true>(2, 1); if (a == 2) shuffled<false>(3, 1); if (a == 3) shuffled<true>(2, 2); if (a == 4) shuffled<false>(3, 2); if (a == 5) shuffled<true>(3, 0); }
template<bool DIR> static void badperm() {
	Ref r(3, bases[vp_choose("base", 0, 2)], DIR); GI<DIR> g(r.base, r.base + 3); g.addEdge(r.base, r.base + 2, 5); r.put(0, 2, 5); int m = (int)vp_choose("size", 0, 4); std::vector<Integer> p; bool perm = m == 3; for (int i = 0; i < m; i++) p.push_back(r.base + (m == 3 ? vp_range("p", -1, 3) : i)); if (m == 3) { bool d = vp_and(vp_and(p[0] != p[1], p[0] != p[2]), p[1] != p[2]); for (auto x : p) d = vp_and(d, vp_and(x >= r.base, x < r.base + 3)); vp_assume(!d); }
	bool t = false; try { g.permutate(p); } catch (std::invalid_argument&) { t = true; } vp_assert(t, "other vectors are rejected"); sameGraph(g, r, "the graph is unchanged"); (void)perm; vp_reach("threw"); vp_obs(m);
}
VP_CASE(badperm) { if (vp_arg() == 0) badperm<false>(); else badperm<true>(); }
