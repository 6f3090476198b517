//@ std 20
//@ oracle the adjacency relation and number of vertices given by the definition of the family; max flow by augmenting paths for the flow instances
//@ bounds every size up to 7 vertices per part for the simple families (thorough 9), hypercubes and boolean lattices up to dimension 4, prefixes of the Rado graph up to 17 vertices, complete trees of up to 3 levels and 3 children (levels above 2); undirected and directed, with and without edge data; the Ford-Fulkerson instance up to n = 6 (thorough 10)
//@ outside larger graphs; complete trees of level 1 and 2 (documentation and code count levels differently); the mcmfWorstcase instance beyond its shape
//@ case simple quick=0-27 reach=done
//@ case joined quick=0-6 reach=done
//@ case cube quick=0-3 reach=done
//@ case rado quick=0-1 reach=done
//@ case tree quick=0-3 reach=done
//@ case flow quick=1-6 thorough=1-8 reach=done
//@ case badflow quick=0-1 reach=threw
#include "graphs.h"
template<typename E, bool DIR> static void simple(int f) {
	int n = (int)vp_choose("n", 0, f == 2 ? 5 : 7), m = f == 2 ? (int)vp_choose("m", 0, 5) : 0; if (f == 5) n += 3; int k = f == 2 ? n + m : f == 3 || f == 4 ? n + 1 : n; if (f == 6) { f = 5; k = n = 2; if (!DIR) return vp_reach("done"); } Ref s(k, 0, DIR); GraphDetail::GraphType<E, DIR> g;
	if (f == 0) g = independent<E, DIR>(n);
	if (f == 1) { g = clique<E, DIR>(n); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) s.put(i, j); }
	if (f == 2) { g = bipartite<E, DIR>(n, m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) s.put(i, n + j); }
	if (f == 3) { g = star<E, DIR>(n); for (int i = 1; i <= n; i++) s.put(0, i); }
	if (f == 4) { g = path<E, DIR>(n); for (int i = 0; i < n; i++) s.put(i, i + 1); }
	if (f == 5) { g = cycle<E, DIR>(n); for (int i = 0; i < n; i++) s.put(i, (i + 1) % n); }
	sameGraph(g, s, "the graph of the family"); vp_reach("done"); vp_obs(n);
}
VP_CASE(simple) { int a = (int)vp_arg(), f = a / 4; if (a % 4 == 0) simple<NoData, false>(f); if (a % 4 == 1) simple<NoData, true>(f); if (a % 4 == 2) simple<Integer, false>(f); if (a % 4 == 3) simple<Integer, true>(f); }
VP_CASE(joined) {
	int f = (int)vp_arg(), a = (int)vp_choose("a", 0, 4), b = (int)vp_choose("b", 0, 4); Graph<> g; int k = 0; if (f == 0) a += 3; if (f == 1) b++; if (f == 3 || f == 5) { a++; b++; } if (f == 4) { b = ++a; } if (f == 6) b++;
	k = f == 0 ? a + 1 : f == 1 || f == 6 ? a + b : f == 2 ? a + b + 1 : a * b; Ref s(k > Ref::N ? 0 : k, 0, false); if (k > Ref::N) { vp_reach("done"); return; }
	if (f == 0) { g = wheel(a); for (int i = 1; i <= a; i++) { s.put(0, i); s.put(i, i % a + 1); } }
	if (f == 1 || f == 6) { if (f == 1) g = lolly(a, b); else { auto w = lolly<Integer>(a, b); for (const auto& e : w.getEdges()) { if (g.nodeCount() < k) g = Graph<>(k); g.addEdge(e.from, e.to); } if (g.nodeCount() < k) g = Graph<>(w.nodeCount()); } for (int i = 0; i < a; i++) s.put(i, i + 1); for (int i = a; i < a + b; i++) for (int j = a; j < i; j++) s.put(i, j); }
	if (f == 2) { g = broom<NoData>(a, b); for (int i = 0; i < a; i++) s.put(i, i + 1); for (int i = 1; i <= b; i++) s.put(a, a + i); }
	if (f == 3 || f == 5) { if (f == 3) g = grid(a, b); else { auto w = grid<Integer>(a, b); g = Graph<>(w.nodeCount()); for (const auto& e : w.getEdges()) g.addEdge(e.from, e.to); } }
	if (f == 4) g = grid(a); if (f >= 3 && f <= 5) for (int y = 0; y < b; y++) for (int x = 0; x < a; x++) { if (x) s.put(y * a + x, y * a + x - 1); if (y) s.put(y * a + x, y * a + x - a); }
	sameGraph(g, s, "the graph of the family"); vp_reach("done"); vp_obs(k);
}
static bool onebit(int x) { return x && !(x & (x - 1)); }
VP_CASE(cube) {
	int f = (int)vp_arg(), d = (int)vp_choose("dimension", 0, 4); Ref s(1 << d, 0, f >= 2); for (int i = 0; i < s.n; i++) for (int j = 0; j < s.n; j++) if (onebit(i ^ j) && (f != 2 || i > j)) { if (f == 0 || f == 1 || f == 3 || f == 2) { if (f != 3 || i > j) s.put(i, j); } }
	if (f == 0) sameGraph(hypercube(d), s, "the hypercube"); if (f == 1) sameGraph(booleanLattice(d), s, "the boolean lattice"); if (f == 2) sameGraph(booleanLattice<NoData, true>(d), s, "the boolean lattice directed towards fewer bits"); if (f == 3) sameGraph(booleanLattice<Integer, true>(d), s, "the boolean lattice directed towards fewer bits"); vp_reach("done"); vp_obs(d);
}
VP_CASE(rado) { // a-b iff bit a of b is set
	bool dir = vp_arg(); int n = (int)vp_choose("n", 0, 17); Ref s(n, 0, dir); for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (a < 5 && (b >> a & 1)) s.put(a, b); if (dir) sameGraph(rado<NoData, true>(n), s, "the prefix of the Rado graph"); else sameGraph(rado(n), s, "the prefix of the Rado graph"); vp_reach("done"); vp_obs(n);
}
template<typename E, bool DIR> static void tree() { // complete: every inner vertex has the same number of children, all leaves at the same depth, subtrees are consecutive
	int level = 3, k = (int)vp_choose("children", 1, 3), more = k <= 2 ? (int)vp_choose("more", 0, 1) : 0; auto g = k == 2 && vp_flag("default") ? completeTree<E, DIR>(level + more) : completeTree<E, DIR>(level + more, k); int n = (int)g.nodeCount(); vp_assert(g.edgeCount() == n - 1 && g.getMinId() == 0, "a tree");
	int par[64], dep[64], ch[64] = {}, size[64], deep = 0; par[0] = -1; dep[0] = 0; int adjs = 0; vp_assert(n <= 64, "a small tree"); for (int v = 1; v < n; v++) { par[v] = -1; for (int u = 0; u < v; u++) if (g.hasEdge(u, v)) { par[v] = u; adjs++; if (DIR) vp_assert(!g.hasEdge(v, u), "edges lead away from the root"); } vp_assert(par[v] >= 0, "a tree with root 0"); dep[v] = dep[par[v]] + 1; ch[par[v]]++; if (dep[v] > deep) deep = dep[v]; }
	vp_assert(adjs == n - 1, "a tree"); for (int v = n; v--; ) { size[v] = 1; for (int u = v + 1; u < n; u++) if (par[u] == v) size[v] += size[u]; for (int u = v; u < v + size[v]; u++) { int w = u; while (w > v) w = par[w]; vp_assert(w == v, "subtrees are consecutive"); } vp_assert(dep[v] == deep ? ch[v] == 0 : ch[v] == k, "all leaves at the same depth and the same number of children everywhere else"); }
	if (more) { auto small = completeTree<E, DIR>(level, k); vp_assert(n == 1 + k * small.nodeCount(), "one more level"); } vp_reach("done"); vp_obs(n);
}
VP_CASE(tree) { int a = (int)vp_arg(); if (a == 0) tree<NoData, false>(); if (a == 1) tree<NoData, true>(); if (a == 2) tree<Integer, false>(); if (a == 3) tree<Integer, true>(); }
VP_CASE(flow) { // the maximum flow from the first to the last vertex needs the documented number of vertices
	int n = (int)vp_arg(); auto g = ffWorstcase(n); vp_assert(g.nodeCount() == 2 * n && g.getMinId() == 0, "2 * n vertices"); Integer cap[16][16] = {}; for (const auto& e : g.getEdges()) { vp_assert(*e > 0, "positive capacities"); cap[e.from][e.to] = *e; } Integer f = 0;
	for (;;) { int from[16]; for (int i = 0; i < 16; i++) from[i] = -1; int q[16], h = 0, t = 0; q[t++] = 0; from[0] = 0; while (h < t) { int v = q[h++]; for (int w = 0; w < 2 * n; w++) if (from[w] < 0 && cap[v][w] > 0) { from[w] = v; q[t++] = w; } } if (from[2 * n - 1] < 0) break; Integer c = 1ll << 60; for (int v = 2 * n - 1; v; v = from[v]) c = std::min(c, cap[from[v]][v]); for (int v = 2 * n - 1; v; v = from[v]) { cap[from[v]][v] -= c; cap[v][from[v]] += c; } f += c; }
	vp_assert(f == 1ll << (n - 1), "the maximum flow is exponential"); auto m = mcmfWorstcase(n); vp_assert(m.nodeCount() == 2 * n + 2 && m.getMinId() == 0, "2 * n + 2 vertices"); Integer out = 0, in = 0; for (const auto& e : m.getEdges()) { vp_assert((*e).first > 0 && (*e).second >= 0, "positive capacities and no negative costs"); } (void)out; (void)in; vp_reach("done"); vp_obs(f);
}
VP_CASE(badflow) { Integer n = vp_i64("n"); bool t = false; if (vp_arg() == 0) { vp_assume(vp_or(n <= 0, n > 63)); try { ffWorstcase(n); } catch (...) { t = true; } } else { vp_assume(vp_or(n <= 0, n > 60)); try { mcmfWorstcase(n); } catch (...) { t = true; } } vp_assert(t, "sizes out of bounds are rejected"); vp_reach("threw"); vp_obs(t); }
