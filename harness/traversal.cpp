// BFS / DFS on list graph and CSR: every digraph with HN vertices and HE edges; start vertex symbolic-forked.
#include "graph_common.h"
#include <boost/unordered/unordered_flat_set.hpp>
struct cnt_visitor : graph::visitor {
  int disc[HN] = {}, exam[HN] = {}, fin[HN] = {}, exedge[HE + 1] = {}; int order[HN * 2], n = 0; int stop_at = -1;
  template<typename G> void discover_vertex(const G &g, const typename G::vertex_descriptor &v) { disc[g.vertex_index(v)]++; }
  template<typename G> void examine_vertex(const G &g, const typename G::vertex_descriptor &v) { int i = (int) g.vertex_index(v); exam[i]++; if (n < 2 * HN) order[n++] = i; if (i == stop_at) stop(); }
  template<typename G> void examine_edge(const G &g, const typename G::edge_descriptor &e) { exedge[(int) g.get_edge_data(e).weight]++; }
  template<typename G> void finish_vertex(const G &g, const typename G::vertex_descriptor &v) { fin[g.vertex_index(v)]++; }
};
static int s[HE], t[HE];
template<bool BFS, typename G, typename VD> static void run(const G &g, VD start, int si, int stop_at) {
  boost::unordered_flat_set<std::size_t> visited; cnt_visitor vis; vis.stop_at = stop_at;
  if constexpr (BFS) { graph::queue_type<VD> q; graph::breadth_first_search(g, start, visited, q, vis); }
  else { graph::stack_type<VD> q; graph::depth_first_search(g, start, visited, q, vis); }
  int lvl[HN]; for (int i = 0; i < HN; i++) lvl[i] = i == si ? 0 : 99;
  for (int r = 0; r < HN; r++) for (int k = 0; k < HE; k++) if (lvl[s[k]] + 1 < lvl[t[k]]) lvl[t[k]] = lvl[s[k]] + 1;
  bool stopped = stop_at >= 0 && lvl[stop_at] < 99;
  sym_assert(vis.stopped() == stopped, "search stops exactly when the wanted vertex is reachable");
  for (int i = 0; i < HN; i++) {
    bool reach = lvl[i] < 99;
    sym_assert(vis.disc[i] <= 1 && vis.exam[i] <= 1 && vis.fin[i] <= 1, "a vertex is handled at most once");
    sym_assert((vis.disc[i] == 1) == visited.contains(i), "visited is what was discovered");
    if (!reach) sym_assert(vis.disc[i] == 0, "unreachable vertex is not discovered");
    if (reach && !stopped) sym_assert(vis.disc[i] == 1 && vis.exam[i] == 1 && vis.fin[i] == 1, "reachable vertex is discovered, examined and finished once");
  }
  if (!stopped) for (int k = 0; k < HE; k++) sym_assert(vis.exedge[k] == (lvl[s[k]] < 99 ? 1 : 0), "each edge leaving a reachable vertex is examined exactly once");
  if constexpr (BFS) for (int i = 1; i < vis.n; i++) sym_assert(lvl[vis.order[i - 1]] <= lvl[vis.order[i]], "breadth-first order is by hop count");
  sym_assert(vis.n > 0 && vis.order[0] == si, "search starts at the start vertex");
}
extern "C" void sym_harness() {
  AL g; std::vector<AL::vertex_descriptor> v;
  for (int i = 0; i < HN; i++) v.push_back(g.add_vertex(node{i}));
  for (int k = 0; k < HE; k++) { s[k] = (int) sym_fork("src", 0, HN - 1); t[k] = (int) sym_fork("dst", 0, HN - 1); g.add_edge(v[s[k]], v[t[k]], edge{(double) k}); }
  int stop_at = (int) sym_fork("stop", -1, HN - 1);
  run<true>(g, v[0], 0, stop_at); run<false>(g, v[0], 0, stop_at);
  CSR c; c.from_adjacency_list(g);
  run<true, CSR, std::size_t>(c, 0, 0, stop_at); run<false, CSR, std::size_t>(c, 0, 0, stop_at);
  sym_reach("end");
}
