// Shortest routes between the nodes of a network: Dijkstra to several goals, A* to one goal, distance limit, extracted route.
#define GEO_NO_LINES
#include "geo_common.h"
#include "types/geometry/network/network_import.hpp"
#include "types/geometry/network/network.hpp"
#include "types/io/helper/graph_helper.hpp"
#include "types/io/helper/tag_helper.hpp"
#include "geometry/network/traits/network.hpp"
#include <algorithm>
using NI = MM2_NETWORK_IMPORT(MM2_GRAPH_HELPER_IMPORT(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES)));
using GH = MM2_GRAPH_HELPER(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES));
using NW = MM2_NETWORK(GH, MM2_INDEX_HELPER(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_MEMORY_TYPES));
using Node = geometry::network::network_traits<NI>::vertex_data_type; using Edge = geometry::network::network_traits<NI>::edge_data_type; using Line = geometry::network::network_traits<NI>::line_type; using RL = geometry::network::network_traits<NI>::rich_line_type;
using VD = NW::vertex_descriptor; typedef NW::length_type Len;
struct Arc { int s, t; P2 m; double len; };
static double dist(const P2 &a, const P2 &b) { return std::fabs(gx(a) - gx(b)); }
static double hx_min(double a, double b) { return a < b ? a : b; }
// queries from nodes 0, 1, ..; every road graph; places of the nodes and of a point on each road symbolic
static void ways(const int V, const int E, int HX_X, int HX_M, bool HX_LOOPS, int HX_Q, int HX_L) {
  const double INF = 1000; std::vector<P2> v; std::vector<Arc> arcs; NI net; std::vector<std::uint64_t> ix;
  for (int i = 0; i < V; i++) { v.push_back(P2{sym_fx("vx", 0, HX_X, 0), 0.0}); ix.push_back(net.graph_helper().add_vertex_with_index_mapping(Node{(std::uint64_t) i, v[i]})); }
  int last = 0; for (int i = 0; i < E; i++) { int c = (int) sym_fork("road", last, V * V - 1); last = c; int s = c / V, t = c % V; if (!HX_LOOPS && s == t) sym_end(); P2 m{sym_fx("mx", 0, HX_M, 0), 0.0}; arcs.push_back({s, t, m, dist(v[s], m) + dist(m, v[t])}); }
  for (int i = 0; i < E; i++) { auto &a = arcs[i]; net.graph_helper().add_edge(ix[a.s], ix[a.t], Edge{(std::uint64_t) i, RL{Line{v[a.s], a.m, v[a.t]}}}); }
  GH gh; gh.from_adjacency_list(net.graph_helper(), net.tag_helper()); NW n{std::move(gh)};
  // shortest distances from every node
  std::vector<std::vector<double>> d(V, std::vector<double>(V, INF)); for (int i = 0; i < V; i++) d[i][i] = 0;
  for (auto &a : arcs) d[a.s][a.t] = hx_min(d[a.s][a.t], a.len); for (int k = 0; k < V; k++) for (int i = 0; i < V; i++) for (int j = 0; j < V; j++) d[i][j] = hx_min(d[i][j], d[i][k] + d[k][j]);
  std::vector<std::vector<double>> arc(V, std::vector<double>(V, INF)); for (auto &a : arcs) arc[a.s][a.t] = hx_min(arc[a.s][a.t], a.len);
  graph::predecessors_type pre; graph::distances_type<Len> ds; graph::colors_type col; graph::priority_queue_type<graph::priority_type<Len, VD>> queue;
  auto path = [&](const std::list<VD> &p, int from, double limit) { int at = -1; double sum = 0; for (auto x : p) { sym_assert((int) x < V, "nodes of the way exist"); if (at < 0) sym_assert((int) x == from, "the way begins at the start"); else { sum += arc[at][(int) x]; } at = (int) x; }
    sym_assert(at >= 0 && sum == d[from][at], "the way is as short as possible and follows roads"); sym_assert(sum <= limit, "the way respects the limit"); auto r = n.extract_route(p); sym_assert(!r.is_invalid(), "route of a way is valid");
    sym_assert(sum > 0 ? r.has_length() && r.length() == sum : !r.has_length(), "length of the route is the length of the way"); if (sum > 0) { auto &f = r.rich_lines().front(); auto &b = r.rich_lines().back(); std::visit([&](auto &&l) { sym_assert(same_point(l.get().front(), v[from]), "the route begins at the start"); }, f); std::visit([&](auto &&l) { sym_assert(same_point(l.get().back(), v[at]), "the route ends at the goal"); }, b); sym_assert(r.is_connected(), "the route is connected"); } return at; };
  for (int q = 0; q < HX_Q; q++) { // queries share their buffers
    int from = q; bool lim = sym_fork("limited", 0, 1); double max = lim ? sym_fx("max", 0, 2 * HX_L, 0) : 1.0, factor = lim ? 0.5 : -1.0, limit = lim ? 0.5 * max : INF / 2; int mode = (int) sym_fork("goals", 0, 1 + V);
    if (mode <= V - 1) { auto p = n.a_star_shortest_paths(from, mode, max, factor, pre, ds, col, queue); bool there = d[from][mode] <= limit; sym_assert(!p.empty() == there, "A* finds a way exactly if there is one within the limit"); if (there) sym_assert(path(p, from, limit) == mode, "A* way leads to the goal"); }
    else { boost::unordered_flat_set<VD> goals; for (int i = 0; i < V; i++) if (mode == V || i != from) goals.emplace(i); auto ps = n.dijkstra_shortest_paths(from, goals, max, factor, pre, ds, col, queue); std::vector<int> got(V, 0); for (auto &p : ps) { sym_assert(!p.empty(), "Dijkstra gives no empty way"); got[path(p, from, limit)]++; }
      for (int i = 0; i < V; i++) sym_assert(got[i] == (goals.contains(i) && d[from][i] <= limit ? 1 : 0), "Dijkstra finds a way to exactly the goals within the limit"); } }
}
extern "C" void sym_harness() {
  switch (sym_fork("part", HX_LO, HX_HI)) {
    case 0: ways(3, 2, 1, 2, true, 1, 4); break; case 1: ways(2, 3, 0, 2, false, 2, 3); break; case 2: ways(3, 3, 0, 2, false, 1, 6); break;
    case 3: ways(3, 3, 1, 2, false, 1, 4); break; case 4: ways(4, 4, 0, 1, false, 1, 4); break; case 5: ways(3, 4, 0, 2, false, 1, 6); break; case 6: ways(3, 2, 1, 2, true, 2, 4); break; }
  sym_reach("end");
}
