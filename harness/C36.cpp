//@ std 20
//@ stub randstub2.cpp
//@ oracle number and position of the edges, brute-force search for a graph with the degree sequence, connectivity; when the graph is drawn with a single draw, different values give different graphs and there are exactly as many values as graphs, hence all graphs are equally likely
//@ bounds random graphs of up to 5 vertices with up to 3 edges and bipartite graphs of up to 3 + 3 vertices with up to 3 edges for every draw (single edges: up to 9 vertices and 5 + 5); the number of trials handed to the binomial distribution for up to 5 vertices; trees of up to 5 vertices (thorough 6) for every draw and every pair of Pruefer codes; growing graphs of up to 3 vertices for engine outputs from {1, 2, 2^62 + 1, 2^64 - 4}; every degree sequence of up to 4 vertices (thorough 5) with values from -1 to n and one round of edge flips on 4 vertices
//@ outside larger graphs; the distribution of graphs with a given degree sequence (documented as not uniform); the shape of the binomial distribution
//@ assume Random::integer(lower, upper) and Random::binomial(n, p) are replaced by arbitrary values of their ranges, the random engine by arbitrary outputs
//@ case edges quick=0-1 reach=done
//@ case uniform quick=0-1 reach=done
//@ case prob quick=0-1 reach=done
//@ case bip quick=0-1 reach=done
//@ case bipuniform quick=0-1 reach=done
//@ case bipprob quick=0-1 reach=done
//@ case badcount quick=0-3 reach=threw
//@ case tree quick=0-5 thorough=0-6 reach=done
//@ case prufer quick=3-5 thorough=3-6 reach=done
//@ case treesame quick=4 thorough=4-5 reach=done
//@ case growing quick=0-3 reach=done
//@ case badgrowing reach=threw
//@ case degrees quick=0-4 thorough=0-5 reach=done
//@ case flips quick=0-3 reach=done
#include "engine.h"
#include "graphs.h"
#include "draws.h"
template<bool DIR> using G = GraphDetail::GraphType<NoData, DIR>;
template<bool DIR> static Ref refOf(const G<DIR>& g, int n) { Ref r(n, 0, DIR); for (const auto& e : g.getEdges()) { bool in = 0 <= e.from && e.from < n && 0 <= e.to && e.to < n && e.from != e.to; vp_assert(in, "edges join different vertices of the graph"); if (in) r.put((int)e.from, (int)e.to); } return r; }
static bool same(const Ref& a, const Ref& b) { if (a.n != b.n) return false; for (int i = 0; i < a.n; i++) for (int j = 0; j < a.n; j++) if (a.has[i][j] != b.has[i][j]) return false; return true; }
static void draw(int lim = 0) { vp_draws.record(); vp_draws.conc = 200; vp_draws.window = 0; vp_draws.wfrom = -1; vp_draws.limit = lim; }
template<bool DIR> static void edges() {
	int n = (int)vp_choose("n", 0, 5), all = DIR ? n * (n - 1) : n * (n - 1) / 2, m = (int)vp_choose("m", 0, std::min(all, n == 5 ? 2 : 3)); if (n == 3 && vp_flag("all")) m = all; draw(); auto g = randomGraph<NoData, DIR>(n, (Integer)m); Ref r = refOf<DIR>(g, n); vp_assert(g.edgeCount() == m && r.edges() == m, "exactly m different edges"); sameGraph(g, r, "a simple graph"); vp_reach("done"); vp_obs(m);
}
VP_CASE(edges) { if (vp_arg() == 0) edges<false>(); else edges<true>(); }
template<bool DIR> static void uniform() {
	int n = (int)vp_choose("n", 2, 9), all = DIR ? n * (n - 1) : n * (n - 1) / 2; draw(); auto g = randomGraph<NoData, DIR>(n, (Integer)1); Ref a = refOf<DIR>(g, n); if (vp_draws.n == 1) { Integer x = vp_draws.v[0]; vp_assert(vp_draws.hi[0] - vp_draws.lo[0] == all, "as many values as edges"); draw(); auto h = randomGraph<NoData, DIR>(n, (Integer)1); vp_assert(same(a, refOf<DIR>(h, n)) == (vp_draws.v[0] == x), "different values give different edges"); } vp_reach("done"); vp_obs(n);
}
VP_CASE(uniform) { if (vp_arg() == 0) uniform<false>(); else uniform<true>(); }
static Real someP() { static const Real p[] = {0.0_real, 0.25_real, 1.0_real}; return p[vp_choose("p", 0, 2)]; }
template<bool DIR> static void prob() {
	int n = (int)vp_choose("n", 0, 5), all = DIR ? n * (n - 1) : n * (n - 1) / 2; Real p = someP(); draw(); vp_draws.conc = 2; vp_draws.window = 1; vp_binomial_n = -1; auto g = randomGraph<NoData, DIR>(n, p); Ref r = refOf<DIR>(g, n); sameGraph(g, r, "a simple graph"); if (vp_binomial_n != -1) { vp_assert(vp_binomial_n == all, "one trial for every possible edge"); vp_assert(vp_binomial_p == p, "with the given probability"); } vp_reach("done"); vp_obs(n);
}
VP_CASE(prob) { if (vp_arg() == 0) prob<false>(); else prob<true>(); }
static void across(const Ref& r, int n) { for (int i = 0; i < r.n; i++) for (int j = 0; j < r.n; j++) if (r.has[i][j]) vp_assert((i < n) != (j < n), "edges only between the two parts"); }
template<bool DIR> static void bip() {
	int n = (int)vp_choose("n", 0, 3), m = (int)vp_choose("m", 0, 3), all = (DIR ? 2 : 1) * n * m, k = (int)vp_choose("k", 0, std::min(all, n * m > 4 ? 2 : 3)); if (n == 1 && m == 2 && vp_flag("all")) k = all; draw(); auto g = randomBipartite<NoData, DIR>(n, m, (Integer)k); Ref r = refOf<DIR>(g, n + m); across(r, n); vp_assert(r.edges() == k, "exactly k different edges"); sameGraph(g, r, "a simple graph"); vp_reach("done"); vp_obs(k);
}
VP_CASE(bip) { if (vp_arg() == 0) bip<false>(); else bip<true>(); }
template<bool DIR> static void bipuniform() {
	int n = (int)vp_choose("n", 1, 5), m = (int)vp_choose("m", 1, 5), all = (DIR ? 2 : 1) * n * m; draw(); auto g = randomBipartite<NoData, DIR>(n, m, (Integer)1); Ref a = refOf<DIR>(g, n + m); if (vp_draws.n == 1) { Integer x = vp_draws.v[0]; vp_assert(vp_draws.hi[0] - vp_draws.lo[0] == all, "as many values as edges"); draw(); auto h = randomBipartite<NoData, DIR>(n, m, (Integer)1); vp_assert(same(a, refOf<DIR>(h, n + m)) == (vp_draws.v[0] == x), "different values give different edges"); } vp_reach("done"); vp_obs(n);
}
VP_CASE(bipuniform) { if (vp_arg() == 0) bipuniform<false>(); else bipuniform<true>(); }
template<bool DIR> static void bipprob() {
	int n = (int)vp_choose("n", 0, 3), m = (int)vp_choose("m", 0, 3), all = (DIR ? 2 : 1) * n * m; Real p = someP(); draw(); vp_draws.conc = 1; vp_draws.window = 1; vp_binomial_n = -1; auto g = randomBipartite<NoData, DIR>(n, m, p); Ref r = refOf<DIR>(g, n + m); across(r, n); sameGraph(g, r, "a simple graph"); if (vp_binomial_n != -1) { vp_assert(vp_binomial_n == all, "one trial for every possible edge"); vp_assert(vp_binomial_p == p, "with the given probability"); } vp_reach("done"); vp_obs(n);
}
VP_CASE(bipprob) { if (vp_arg() == 0) bipprob<false>(); else bipprob<true>(); }
template<bool DIR> static void badcount(bool b) {
	int n = (int)vp_choose("n", 0, 4), m = (int)vp_choose("m", 0, 3), all = b ? (DIR ? 2 : 1) * n * m : DIR ? n * (n - 1) : n * (n - 1) / 2; Integer k = vp_i64("k"); vp_assume(vp_or(k < 0, vp_and(k > all, k < 1ll << 62))); draw(1); bool t = false; try { if (b) randomBipartite<NoData, DIR>(n, m, k); else randomGraph<NoData, DIR>(n, k); } catch (...) { t = true; } vp_assert(t, "impossible numbers of edges are rejected"); vp_reach("threw"); vp_obs(n);
}
VP_CASE(badcount) { int a = (int)vp_arg(); if (a % 2 == 0) badcount<false>(a / 2); else badcount<true>(a / 2); }
static bool isTree(const Ref& r, int n) { bool s[Ref::N] = {}; int st[Ref::N], k = 0, c = 0; if (n) { st[k++] = 0; s[0] = true; } while (k) { int v = st[--k]; c++; for (int w = 0; w < n; w++) if ((r.has[v][w] || (!r.dir && r.has[w][v])) && !s[w]) { s[w] = true; st[k++] = w; } } return c == n && r.edges() == (n ? n - 1 : 0); }
VP_CASE(tree) {
	int n = (int)vp_arg(); draw(); auto g = randomTree(n); vp_assert(g.nodeCount() == n, "n vertices"); Ref r = refOf<false>(g, n); vp_assert(isTree(r, n), "a tree"); sameGraph(g, r, "a simple graph");
	if (n) { draw(); auto h = randomTree<NoData, true>(n); vp_assert(h.nodeCount() == n, "n vertices"); Ref q = refOf<true>(h, n); vp_assert(isTree(q, n), "a tree whose edges lead away from vertex 0"); sameGraph(h, q, "a simple graph"); } vp_reach("done"); vp_obs(n);
}
static std::vector<Integer> code(int n) { std::vector<Integer> c; for (int i = 0; i < n - 2; i++) c.push_back(vp_conc(vp_range("code", 0, n - 1))); return c; }
VP_CASE(prufer) { // remove the smallest leaf again and again: the neighbours are the code
	int n = (int)vp_arg(); auto c = code(n); auto g = pruefer(c); vp_assert(g.nodeCount() == n, "two vertices more than the length of the code"); Ref r = refOf<false>(g, n); vp_assert(isTree(r, n), "a tree"); bool gone[Ref::N] = {}; for (int k = 0; k < n - 2; k++) { int l = 0; while (l < n && (gone[l] || r.deg(l) != 1)) l++; int w = 0; while (w < n && !r.has[l][w]) w++; vp_assert(w == c[(size_t)k], "the tree of the code"); r.del(l, w); gone[l] = true; } vp_reach("done"); vp_obs(n);
}
VP_CASE(treesame) { int n = (int)vp_arg(); draw(); auto g = randomTree(n); Ref a = refOf<false>(g, n); int k = vp_draws.n; if (k == n - 2) { Draws d = vp_draws; for (int i = 0; i < k; i++) vp_assert(d.hi[i] - d.lo[i] == n, "as many values as trees"); draw(); auto h = randomTree(n); bool eq = true; for (int i = 0; i < k; i++) eq = eq && d.v[i] == vp_draws.v[i]; vp_assert(same(a, refOf<false>(h, n)) == eq, "different values give different trees"); } vp_reach("done"); vp_obs(n); }
VP_CASE(growing) {
	int n = (int)vp_arg(); static const Real ps[] = {0.0_real, 0.5_real, 1.0_real}; int k = (int)vp_choose("p", 0, 2); draw(); AnyEngine::record(); AnyEngine::few = true; auto g = randomGrowingGraph(n, ps[k]); Ref r = refOf<false>(g, n); sameGraph(g, r, "a simple graph"); if (k == 0) vp_assert(g.edgeCount() == 0, "no edges"); vp_reach("done"); vp_obs(n);
}
VP_CASE(badgrowing) { static const Real ps[] = {-0.001_real, 1.001_real, -1e18_real, 1e18_real, -std::numeric_limits<Real>::infinity(), std::numeric_limits<Real>::infinity(), std::numeric_limits<Real>::quiet_NaN()}; bool t = false; Integer n = vp_choose("n", 0, 2); Real p = ps[vp_choose("p", 0, 6)]; try { randomGrowingGraph(n, p); } catch (std::domain_error&) { t = true; } vp_assert(t, "probabilities outside of [0, 1] are rejected"); vp_reach("threw"); vp_obs(t); }
static bool graphical(const std::vector<Integer>& d) { int n = (int)d.size(), m = n * (n - 1) / 2; for (int s = 0; s < 1 << m; s++) { int c[8] = {}, k = 0; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++, k++) if (s >> k & 1) { c[i]++; c[j]++; } bool ok = true; for (int i = 0; i < n; i++) ok = ok && c[i] == d[(size_t)i]; if (ok) return true; } return false; }
static void degs(const Graph<>& g, const std::vector<Integer>& d) { int n = (int)d.size(); vp_assert(g.nodeCount() == n && g.getMinId() == 0, "a vertex for every degree"); Ref r = refOf<false>(g, n); for (int i = 0; i < n; i++) vp_assert(r.deg(i) == d[(size_t)i], "the requested degrees"); sameGraph(g, r, "a simple graph"); }
VP_CASE(degrees) {
	int n = (int)vp_arg(); std::vector<Integer> d; for (int i = 0; i < n; i++) d.push_back(vp_choose("degree", n == 5 ? 0 : -1, n)); bool t = false; draw(); try { auto g = randomGraph(d, 0); degs(g, d); } catch (std::invalid_argument&) { t = true; } vp_assert(t == !graphical(d), "rejected exactly if no graph has these degrees"); vp_reach("done"); vp_obs(t);
}
VP_CASE(flips) { static const std::vector<Integer> ds[] = {{1, 1, 1, 1}, {2, 2, 2, 2}, {1, 2, 2, 1}, {1, 2, 1, 2, 0}}; auto d = ds[vp_arg()]; draw(); vp_draws.wfrom = 4; vp_draws.window = 2; auto g = randomGraph(d, 1); degs(g, d); vp_reach("done"); vp_obs(0); }
