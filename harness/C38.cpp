//@ oracle multiplicities of the pairs in the sequence of edges; two-colourability by trying all colourings
//@ bounds undirected and directed graphs with up to 4 vertices and 3 edges, 3 vertices and 4 edges, 2 vertices and 5 edges, 5 vertices and 3 edges (bipartite; thorough one edge more), every sequence of edges, every 64-bit offset of the vertex ids
//@ outside larger graphs
//@ case basic quick=10,13,25,34,43 thorough=10,13,26,35,44 reach=done
//@ case directed quick=10,13,25,34,43 thorough=10,13,26,35,44 reach=done
//@ case colour quick=10,12,25,34,43,53 thorough=26,35,44,54 reach=yes,no
#include "common.h"
#include "graph_val.h"
static Integer off(int n) { Integer o = vp_i64("offset"); vp_assume(o <= std::numeric_limits<Integer>::max() - n); return o; }
template<typename G> static void edges(const G& g, Integer o, int n, const int (&c)[8][8], int m, bool dir) { // c: number of edges from a to b (undirected: both ways)
	bool loop = false, multi = false; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { loop = loop || (i == j && c[i][j]); multi = multi || c[i][j] > 1; vp_assert(g.hasEdge(o + i, o + j) == (c[i][j] > 0), "an edge exists iff it was added"); vp_assert((g[o + i].count(o + j) > 0) == (c[i][j] > 0), "the neighbours are the ends of the edges"); }
	auto l = g.hasSelfloop(); vp_assert(l.has_value() == loop, "a self-loop is reported iff there is one"); if (l) { Integer x = vp_conc(*l - o); vp_assert(0 <= x && x < n && c[x][x], "at a vertex which has one"); }
	auto e = g.hasMultiedge(); vp_assert(e.has_value() == multi, "a multiedge is reported iff there is one"); if (e) { Integer x = vp_conc(e->first - o), y = vp_conc(e->second - o); vp_assert(0 <= x && x < n && 0 <= y && y < n && c[x][y] > 1, "between vertices which have one"); }
	vp_assert(g.edgeCount() == m && g.nodeCount() == n && g.size() == (size_t)n, "vertices and edges are counted"); (void)dir;
}
VP_CASE(basic) {
	int n = (int)vp_arg() / 10, m = (int)vp_arg() % 10, c[8][8] = {}; Integer o = off(n); Graph g(o, o + n);
	for (int k = 0; k < m; k++) { int a = (int)vp_choose("a", 0, n - 1), b = (int)vp_choose("b", 0, n - 1); g.addEdge(o + a, o + b); c[a][b]++; if (a != b) c[b][a]++; }
	edges<Graph>(g, o, n, c, m, false); for (int i = 0; i < n; i++) { int d = 0; for (int j = 0; j < n; j++) d += c[i][j] > 0; vp_assert(g.degree(o + i) == d && g[o + i].size() == (size_t)d, "the degree is the number of neighbours"); }
	vp_reach("done"); vp_obs(n);
}
VP_CASE(directed) {
	int n = (int)vp_arg() / 10, m = (int)vp_arg() % 10, c[8][8] = {}; bool zero = vp_flag("zero"); Integer o = zero ? 0 : off(n); DiGraph g = zero ? DiGraph(n) : DiGraph(o, o + n);
	for (int k = 0; k < m; k++) { int a = (int)vp_choose("a", 0, n - 1), b = (int)vp_choose("b", 0, n - 1); g.addEdge(o + a, o + b); c[a][b]++; }
	edges<DiGraph>(g, o, n, c, m, true); for (int i = 0; i < n; i++) { int d = 0, r = 0; for (int j = 0; j < n; j++) { d += c[i][j] > 0; r += c[j][i] > 0; vp_assert(g.hasReverse(o + i, o + j) == (c[j][i] > 0), "a reverse edge exists iff it was added"); vp_assert((g.inEdges(o + i).count(o + j) > 0) == (c[j][i] > 0), "incoming edges"); } vp_assert(g.outDegree(o + i) == d && g.inDegree(o + i) == r && g.inEdges(o + i).size() == (size_t)r && g[o + i].size() == (size_t)d, "degrees are the numbers of neighbours"); }
	vp_reach("done"); vp_obs(n);
}
VP_CASE(colour) {
	int n = (int)vp_arg() / 10, m = (int)vp_arg() % 10; Integer o = off(n); Graph g(o, o + n); int ea[8], eb[8]; bool was = true;
	for (int k = 0; k < m; k++) { ea[k] = (int)vp_choose("a", 0, n - 1); eb[k] = (int)vp_choose("b", 0, n - 1); g.addEdge(o + ea[k], o + eb[k]);
		bool ok = false; for (int s = 0; s < 1 << n; s++) { bool f = true; for (int i = 0; i <= k; i++) f = f && ((s >> ea[i] ^ s >> eb[i]) & 1); ok = ok || f; } was = ok; vp_assert(g.isBipartite() == ok, "bipartite iff two colours suffice"); }
	if (m == 0) vp_assert(g.isBipartite(), "without edges"); vp_reach(was ? "yes" : "no"); vp_obs(was);
}
