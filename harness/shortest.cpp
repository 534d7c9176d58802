// Shortest-path search on the list graph and on the compressed graph.
// HN vertices, HE edges (every multiset of endpoint pairs, self-loops and parallels included), weights
// k/4 with k in 0..15 symbolic.  MODE 0: Dijkstra, 1: A* with a symbolic consistent heuristic, stopped at the goal.
#include "graph_common.h"
#ifndef HN
#define HN 3
#define HE 3
#define MODE 0
#endif
struct goal_visitor : graph::visitor {
  std::size_t goal = 0; bool reached = false; std::vector<int> finished = std::vector<int>(HN, 0);
  template<typename G> void examine_vertex(const G &g, const typename G::vertex_descriptor &v) { if (g.vertex_index(v) == goal) { reached = true; stop(); } }
};
static int s[HE], t[HE]; static double w[HE], d[HN], hv[HN];
template<typename G, typename Vs> static void run(const G &g, const Vs &v) {
  using VD = typename G::vertex_descriptor;
  graph::predecessors_type pred; graph::distances_type<double> dist; graph::colors_type col;
  graph::priority_queue_type<graph::priority_type<double, VD>> q;
#if MODE == 0
  graph::visitor vis;
  graph::dijkstra_shortest_path(g, v[0], pred, dist, col, q, vis, [](const edge &e) { return e.weight; });
  for (int i = 0; i < HN; i++) {
    bool reach = d[i] < 100000;
    sym_assert(dist.contains(i) == reach, "exactly the reachable vertices get a distance");
    if (!reach) continue;
#else
  goal_visitor vis; vis.goal = HN - 1;
  graph::a_star_shortest_path(g, v[0], v[HN - 1], pred, dist, col, q, vis, [](const edge &e) { return e.weight; },
    [&](const VD &a, const VD &) { return hv[g.vertex_index(a)]; });
  { int i = HN - 1; bool reach = d[i] < 100000;
    sym_assert(vis.reached == reach, "goal found iff reachable");
    if (!reach) { sym_reach("end"); return; }
#endif
    sym_assert(dist[i] == d[i], "distance is minimal");
    // the predecessor chain is a real path of exactly that length
    int at = i, hops = 0; double len = 0;
    while (at != 0 && hops <= HN) { sym_assert(pred.contains(at), "predecessor recorded"); int p = (int) pred[at]; double best = 100000; for (int k = 0; k < HE; k++) if (s[k] == p && t[k] == at && w[k] < best) best = w[k];
      sym_assert(best < 100000, "predecessor edge exists"); len += best; at = p; hops++; }
    sym_assert(at == 0, "predecessor chain ends at the start"); sym_assert(len == d[i], "predecessor chain has the reported length");
  }
  sym_reach("end");
}
extern "C" void sym_harness() {
  AL g; std::vector<AL::vertex_descriptor> v; std::vector<std::size_t> idx;
  for (int i = 0; i < HN; i++) { v.push_back(g.add_vertex(node{i})); idx.push_back(i); }
  int prev = 0;
  for (int k = 0; k < HE; k++) { int c = (int)sym_fork("edge", prev, HN * HN - 1); prev = c; s[k] = c / HN; t[k] = c % HN; w[k] = sym_fx("w", 0, 16000, 2); }
  for (int k = 0; k < HE; k++) g.add_edge(v[s[k]], v[t[k]], edge{w[k]});
#if MODE == 1
  for (int i = 0; i < HN - 1; i++) hv[i] = sym_fx("h", 0, 64000, 2);
  hv[HN - 1] = 0;
  for (int k = 0; k < HE; k++) sym_assume(hv[s[k]] <= w[k] + hv[t[k]]);
#endif
  for (int i = 0; i < HN; i++) d[i] = i ? 100000 : 0;
  for (int r = 1; r < HN; r++) for (int k = 0; k < HE; k++) { double c = d[s[k]] + w[k]; if (d[s[k]] < 100000) d[t[k]] = c < d[t[k]] ? c : d[t[k]]; }
#if CSRG
  CSR c; c.from_adjacency_list(g); run(c, idx);
#else
  run(g, v);
#endif
}
