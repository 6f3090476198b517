//@ oracle transitive closure of the edges added so far by repeated relaxation; an edge inside of a component closes a cycle
//@ bounds graphs with up to 4 vertices and up to 4 edges, 5 vertices and 3 edges (thorough 5 and 4, 6 and 3), every sequence of edges with self-loops and repetitions, every 64-bit offset of the vertex ids; union-find structures of the same sizes, and balanced merges of 8 and 16 elements (all choices of the joined elements of the last merges)
//@ outside larger graphs
//@ case graph quick=10,20,21,22,23,24,30,31,32,33,34,40,41,42,43,53 thorough=10,24,34,43,44,53,54,63 reach=done
//@ case deep quick=0-1 thorough=0-3 reach=done
//@ case unions quick=12,24,33,42,52 thorough=12,24,34,43,53,62 reach=done
#include "common.h"
#include "graph_val.h"
struct Model { // reference: reachability matrix
	int n; bool r[8][8] = {}; bool forest = true; explicit Model(int n_) : n(n_) { for (int i = 0; i < n; i++) r[i][i] = true; }
	bool add(int a, int b) { bool fresh = !r[a][b]; if (!fresh) forest = false; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if ((r[i][a] && r[b][j]) || (r[i][b] && r[a][j])) r[i][j] = true; return fresh; }
	bool all() const { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (!r[i][j]) return false; return true; }
};
VP_CASE(graph) {
	int n = (int)vp_arg() / 10, m = (int)vp_arg() % 10; bool zero = vp_flag("zero"); Integer o = zero ? 0 : vp_i64("offset"); vp_assume(o <= std::numeric_limits<Integer>::max() - n); Graph g = zero ? Graph(n) : Graph(o, o + n); Model r(n);
	for (int k = 0; k <= m; k++) {
		const Graph& c = g; vp_assert(c.isForest() == r.forest, "a forest iff no edge closes a cycle"); vp_assert(c.isConnected() == r.all(), "connected iff every two vertices are"); vp_assert(c.isTree() == (r.forest && r.all()), "a tree iff connected and without cycle");
		vp_assert(c.nodeCount() == n && c.size() == (size_t)n && c.edgeCount() == k, "vertices and edges are counted");
		if (k == m) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) vp_assert(c.areConnected(o + i, o + j) == r.r[i][j], "connected iff there is a path");
		if (k < m) { int a = (int)vp_choose("a", 0, n - 1), b = (int)vp_choose("b", 0, n - 1); g.addEdge(o + a, o + b); r.add(a, b); }
	}
	vp_reach("done"); vp_obs(n);
}
VP_CASE(unions) {
	int n = (int)vp_arg() / 10, m = (int)vp_arg() % 10; UnionFind u(n); Model r(n);
	for (int k = 0; k < m; k++) { int a = (int)vp_choose("a", 0, n - 1), b = (int)vp_choose("b", 0, n - 1); vp_assert(u.unionSets(a, b) == r.add(a, b), "true iff two sets were joined"); int q = (int)vp_choose("q", 0, n - 1); Integer f = u.findSet(q); vp_assert(0 <= f && f < n && r.r[q][f], "the representative belongs to the set"); }
	const UnionFind& c = u; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { vp_assert(c.connected(i, j) == r.r[i][j], "connected iff joined"); vp_assert((c.findSet(i) == c.findSet(j)) == r.r[i][j], "one representative per set"); }
	vp_reach("done"); vp_obs(n);
}
static int pick(const char* nm, int base, int size) { return base + (int)vp_choose(nm, 0, size - 1); }
VP_CASE(deep) { // equally large groups are joined again and again
	int a = (int)vp_arg(), n = a % 2 ? 16 : 8; bool graph = a >= 2; UnionFind u(n); Graph g(n); std::vector<int> id((size_t)n); for (int i = 0; i < n; i++) id[(size_t)i] = i;
	bool flip = vp_flag("flip"); for (int s = 1; s < n; s *= 2) for (int i = 0; i < n; i += 2 * s) {
		bool sym = n == 8 ? s > 1 : s > 4; int x = sym ? pick("x", i, s == 2 || n == 8 ? s : 3) : i + (flip ? s - 1 : 0), y = sym ? pick("y", i + s, s == 2 || n == 8 ? s : 3) : i + s + (flip ? 0 : s - 1); if (flip) std::swap(x, y);
		if (graph) g.addEdge(x, y); else vp_assert(u.unionSets(x, y), "two sets are joined"); int p = id[(size_t)x], q = id[(size_t)y]; for (int& z : id) if (z == p) z = q;
	}
	const UnionFind& c = u; int q = (int)vp_choose("q", 0, 1) ? n - 1 : 0; for (int k = 0; k < n; k++) { int i = q ? n - 1 - k : k; for (int j = 0; j < n; j++) { if (graph) vp_assert(g.areConnected(i, j), "connected iff there is a path"); else { vp_assert(c.connected(i, j), "connected iff joined"); vp_assert(c.findSet(i) == c.findSet(j), "one representative per set"); } } }
	if (graph) vp_assert(g.isTree() && g.isConnected(), "a tree");
	int y = (int)vp_choose("extra", 0, n - 1); if (graph) { g.addEdge(0, y); vp_assert(!g.isForest() && g.isConnected(), "a cycle was closed"); } else vp_assert(!u.unionSets(0, y), "already joined");
	vp_reach("done"); vp_obs(n);
}
