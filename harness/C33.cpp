//@ std 20
//@ oracle an adjacency matrix with one datum per edge, changed by the same operations; all queries and views are compared after each operation
//@ bounds directed and undirected graphs of 3 vertices starting from every set of edges with sequences of 2 operations, and starting empty with sequences of 3 (thorough 4 vertices, 3 operations); arbitrary 64-bit edge data; vertex ids from 0, -2, 5 and 2^62; renumbering, combining, appending, copying and assigning for every pair of graphs of up to 3 vertices (undirected) or 2 (directed); every 64-bit vertex id out of range
//@ outside larger graphs
//@ case ops quick=0-3 thorough=0-7 reach=done
//@ case renumber quick=0-3 reach=done
//@ case merge quick=0-7 reach=done
//@ case copies quick=0-1 reach=done
//@ case range quick=0-1 reach=threw
//@ case text quick=0-3 reach=done
//@ case ids quick=0-1 reach=done
#include "graphs.h"
template<bool DIR> static void step(GI<DIR>& g, Ref& r) {
	int k = (int)vp_choose("op", 0, 4), a = (int)vp_choose("a", 0, r.n - 1), b = (int)vp_choose("b", 0, r.n - 1); Integer x = vp_i64("data"), A = r.base + a, B = r.base + b;
	if (k == 0) { if (a == b) { bool t = false; try { g.addEdge(A, B, x); } catch (...) { t = true; } vp_assert(t, "self-loops are rejected"); } else { auto e = g.addEdge(A, B, x); vp_assert(e.from == A && e.to == B && *e == x, "the new edge is returned"); r.put(a, b, x); } }
	if (k == 1) { bool d = g.eraseEdge(A, B); vp_assert(d == r.has[a][b], "erased iff it existed"); r.del(a, b); }
	if (k == 2) { auto e = g.findEdge(A, B); if (e) { *(*e) = x; r.put(a, b, x); } }
	if (k == 3) { auto e = g.findEdge(A, B); if (e) { vp_assert(g.eraseEdge(*e), "found edges can be erased"); r.del(a, b); } }
	if (k == 4) { int c = 0; for (auto e : g[A]) { if (c++ == b) { e.data = x; r.put(a, (int)(e.to - r.base), x); } } }
}
template<bool DIR> static void ops(int n, int start, int len) {
	Ref r(n, bases[vp_choose("base", 0, 3)], DIR); GI<DIR> g(r.base, r.base + n); if (start) g = any<DIR>(r, "edge"); for (int i = 0; i < len; i++) { step<DIR>(g, r); if (i == len - 1 || !start) sameGraph(g, r, "the graph holds exactly the edges and data put into it"); }
	vp_reach("done"); vp_obs(g.edgeCount());
}
VP_CASE(ops) { int a = (int)vp_arg(); if (a == 0) ops<false>(3, 1, 1); if (a == 1) ops<true>(3, 1, 1); if (a == 2) ops<false>(2, 0, 3); if (a == 3) ops<true>(2, 0, 3); if (a == 4) ops<false>(3, 1, 2); if (a == 5) ops<true>(3, 1, 2); if (a == 6) ops<false>(4, 1, 1); if (a == 7) ops<true>(2, 0, 4); }
template<bool DIR> static void renumber(int n) {
	Ref r(n, bases[vp_choose("base", 0, 3)], DIR); GI<DIR> g = any<DIR>(r, "edge"); int k = (int)vp_choose("k", 0, 4); if (k == 4) { g.normalize(); r.base = 0; } else { g.setMinId(bases[k]); r.base = bases[k]; } sameGraph(g, r, "renumbering keeps the edges"); if (n >= 2 && g.hasEdge(r.base, r.base + 1)) { g.eraseEdge(r.base, r.base + 1); r.del(0, 1); } else if (n >= 2) { g.addEdge(r.base + 1, r.base, 7); r.put(1, 0, 7); } sameGraph(g, r, "renumbered graphs can be changed"); vp_reach("done"); vp_obs(n);
}
VP_CASE(renumber) { int a = (int)vp_arg(); if (a == 0) renumber<false>(3); if (a == 1) renumber<true>(2); if (a == 2) renumber<true>(3); if (a == 3) renumber<false>(0); }
template<bool DIR> static void merge(int n, int m, int what) {
	Integer b = what == 0 ? vp_choose("b", -3, 3) : bases[vp_choose("base", 0, 1)]; Ref r(n, bases[1], DIR), o(m, b, DIR); GI<DIR> g = any<DIR>(r, "edge"), h = any<DIR>(o, "other"); const Ref r0 = r, o0 = o;
	if (what == 0) { // combine: union of vertices and edges
		Integer lo = std::min(r.base, o.base), hi = std::max(r.base + n, o.base + m); Ref s((int)(hi - lo), lo, DIR); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (r.has[i][j] && (DIR || i < j)) s.put((int)(r.base - lo) + i, (int)(r.base - lo) + j, r.val[i][j]);
		for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) if (o.has[i][j] && (DIR || i < j)) s.put((int)(o.base - lo) + i, (int)(o.base - lo) + j, o.val[i][j]); auto& q = g.combine(h); vp_assert(&q == &g, "the graph itself is returned"); sameGraph(g, s, "the union of both graphs");
	} else { bool self = n == m && vp_flag("self"); Ref s(n + (self ? n : m), r.base, DIR); const Ref& p = self ? r : o; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (r.has[i][j] && (DIR || i < j)) s.put(i, j, r.val[i][j]); for (int i = 0; i < p.n; i++) for (int j = 0; j < p.n; j++) if (p.has[i][j] && (DIR || i < j)) s.put(n + i, n + j, p.val[i][j]); g.append(self ? g : h); sameGraph(g, s, "both graphs side by side"); }
	sameGraph(h, o0, "the other graph is unchanged"); (void)r0; vp_reach("done"); vp_obs(n);
}
VP_CASE(merge) { int a = (int)vp_arg(), w = a / 4; if (a % 4 == 0) merge<false>(3, 2, w); if (a % 4 == 1) merge<true>(2, 2, w); if (a % 4 == 2) merge<false>(1, 3, w); if (a % 4 == 3) merge<false>(2, 2, w); }
template<bool DIR> static void copies() {
	Ref r(2 + !DIR, 5, DIR), o(2, 1, DIR); GI<DIR> g = any<DIR>(r, "edge"), h = any<DIR>(o, "other"); int k = (int)vp_choose("k", 0, 3); const Ref r0 = r; GI<DIR> c = k == 0 ? g : k == 1 ? g.copy() : h; if (k >= 2) c = g; if (k == 3) { auto& q = c; c = q; }
	sameGraph(c, r, "copies are equal"); if (c.hasEdge(5, 6)) c.eraseEdge(6 - DIR, 5 + DIR); else c.addEdge(5, 6, 1); for (auto e : c.getEdges()) e.data = 3; sameGraph(g, r0, "changing a copy does not change the original"); sameGraph(h, o, "nor another graph"); g = h; vp_assert(c.nodeCount() == r.n, "nor the other way round"); sameGraph(g, o, "assigned graphs are equal"); vp_reach("done"); vp_obs(k);
}
VP_CASE(copies) { if (vp_arg() == 0) copies<false>(); else copies<true>(); }
template<bool DIR> static void range() {
	Integer b = bases[vp_choose("base", 0, 3)], x = vp_i64("id"); int n = (int)vp_choose("n", 0, 3); GI<DIR> g(b, b + n); if (n == 3) g.addEdge(b, b + 2, 4); vp_assume(vp_or(x < b, x >= b + n)); int k = (int)vp_choose("k", 0, 6), t = 0; if (n == 0 && k > 0) { k = 7; } Integer i = b;
	try { if (k == 0 || k == 7) g.degree(x); if (k == 1) g.hasEdge(x, i); if (k == 2) g.hasEdge(i, x); if (k == 3) g.addEdge(i, x, 1); if (k == 4) g.eraseEdge(x, i); if (k == 5) g.findEdge(i, x); if (k == 6) g[x]; } catch (std::out_of_range&) { t = 1; }
	vp_assert(t == 1, "ids out of range are rejected"); vp_reach("threw"); vp_obs(k);
}
VP_CASE(range) { if (vp_arg() == 0) range<false>(); else range<true>(); }
template<bool DIR, typename E> static void text() { // number of vertices and edges, one edge per line
	int n = (int)vp_choose("n", 0, 3); Integer b = vp_choose("base", 0, 1) * 5; GraphDetail::GraphType<E, DIR> g(b, b + n); std::vector<std::string> lines; std::string head = std::to_string(n) + " ";
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && (DIR || i < j) && vp_flag("edge")) { std::string s = std::to_string(b + i) + " " + std::to_string(b + j); if constexpr (plain<E>) g.addEdge(b + i, b + j); else { Integer x = 10 * i - j; g.addEdge(b + i, b + j, x); s += " " + std::to_string(x); } lines.push_back(s); }
	head += std::to_string(lines.size()); std::ostringstream o, p; OutputStream os(o); os << g; p << g; vp_assert(o.str() == p.str(), "both kinds of streams agree"); std::vector<std::string> got; std::string cur; for (char c : o.str()) if (c == '\n') { got.push_back(cur); cur.clear(); } else cur += c; got.push_back(cur);
	vp_assert(got[0] == head, "the header"); got.erase(got.begin()); std::sort(got.begin(), got.end()); std::sort(lines.begin(), lines.end()); vp_assert(got == lines, "one line per edge"); vp_reach("done"); vp_obs(n);
}
VP_CASE(text) { int a = (int)vp_arg(); if (a == 0) text<false, NoData>(); if (a == 1) text<true, NoData>(); if (a == 2) text<false, Integer>(); if (a == 3) text<true, Integer>(); }
template<bool DIR> static void ids() { // internal ids enumerate the edges
	Ref r(3, 5, DIR); GI<DIR> g = any<DIR>(r, "edge"); bool s[3][3] = {}, ok = true; Integer m = g.edgeCount(); for (Integer i = 0; i < m; i++) { auto e = g.getEdgeById((size_t)i); int a = (int)(e.from - 5), b = (int)(e.to - 5); ok = ok && r.has[a][b] && !s[a][b]; s[a][b] = true; if (!DIR) s[b][a] = true; ok = vp_and(ok, *e == r.val[a][b]); auto f = cst(g).getEdgeById((size_t)i); ok = vp_and(ok, f.from == e.from && f.to == e.to && *f == *e); }
	vp_assert(ok, "every edge has an id"); std::uint64_t x = vp_bits("id", 64); vp_assume(x >= (std::uint64_t)m); bool t = false; try { g.getEdgeById(x); } catch (std::out_of_range&) { t = true; } vp_assert(t, "other ids are rejected"); vp_reach("done"); vp_obs(m);
}
VP_CASE(ids) { if (vp_arg() == 0) ids<false>(); else ids<true>(); }
