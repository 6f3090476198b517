//@ oracle a directed graph is acyclic iff no power of its reachability relation is reflexive; a topological order lists each vertex once, before the ends of its edges; a directed tree: one vertex without incoming edge, one edge into every other vertex, all reachable from it
//@ bounds directed graphs with up to 4 vertices and 3 edges, 3 vertices and 4 edges, 2 vertices and 5 edges (thorough 4 and 4, 5 and 3, 3 and 5), every sequence of edges with self-loops and repetitions, every 64-bit offset of the vertex ids
//@ outside larger graphs; directed trees with repeated edges
//@ case dag quick=0,10,11,25,34,43 thorough=26,35,44,53 reach=yes,no
//@ case tree quick=0,10,11,21,22,32,33,43 thorough=35,44,53,54 reach=yes,no
#include "common.h"
#include "graph_val.h"
static Integer off(int n) { Integer o = vp_i64("offset"); vp_assume(o <= std::numeric_limits<Integer>::max() - n - 1); return o; }
VP_CASE(dag) {
	int n = (int)vp_arg() / 10, m = (int)vp_arg() % 10; Integer o = off(n); DiGraph g(o, o + n); bool e[8][8] = {}, r[8][8] = {};
	for (int k = 0; k < m; k++) { int a = (int)vp_choose("a", 0, n - 1), b = (int)vp_choose("b", 0, n - 1); g.addEdge(o + a, o + b); e[a][b] = r[a][b] = true; }
	for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (r[i][k] && r[k][j]) r[i][j] = true;
	bool cyc = false; for (int i = 0; i < n; i++) cyc = cyc || r[i][i]; auto t = g.isDAG(); vp_assert(t.has_value() == !cyc, "an order is returned iff there is no cycle");
	if (t) { vp_assert(t->size() == (size_t)n, "all vertices"); int pos[8]; for (int i = 0; i < n; i++) pos[i] = -1; for (int i = 0; i < n; i++) { Integer x = vp_conc((*t)[(size_t)i] - o); vp_assert(0 <= x && x < n && pos[x] < 0, "each vertex once"); if (0 <= x && x < n) pos[x] = i; } for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (e[i][j]) vp_assert(pos[i] < pos[j], "edges point forward"); }
	vp_reach(t ? "yes" : "no"); vp_obs(n);
}
VP_CASE(tree) {
	int n = (int)vp_arg() / 10, m = (int)vp_arg() % 10; Integer o = off(n); DiGraph g(o, o + n); int in[8] = {}; bool r[8][8] = {}, multi = false, e[8][8] = {};
	for (int k = 0; k <= m; k++) {
		bool q[8][8]; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) q[i][j] = r[i][j] || i == j;
		for (int x = 0; x < n; x++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (q[i][x] && q[x][j]) q[i][j] = true;
		int root = -1; for (int i = 0; i < n; i++) { bool ok = in[i] == 0; for (int j = 0; j < n; j++) ok = ok && q[i][j] && (j == i || in[j] == 1); if (ok) root = i; }
		auto t = g.isTree(); vp_assert(t.has_value() == (root >= 0 && !multi), "a root is returned iff the graph is a directed tree"); if (t && root >= 0) vp_assert(*t == o + root, "the root is the vertex without incoming edge"); if (k == m) vp_reach(t ? "yes" : "no");
		if (k < m) { int a = (int)vp_choose("a", 0, n - 1), b = (int)vp_choose("b", 0, n - 1); g.addEdge(o + a, o + b); multi = multi || e[a][b]; e[a][b] = true; r[a][b] = true; in[b]++; }
	}
	vp_obs(n);
}
