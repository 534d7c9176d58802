// Clean-up of imported road networks: simplification, duplicate nodes and edges, unconnected parts, conversion.
#define GEO_NO_LINES
#include "geo_common.h"
#include "types/geometry/network/network_import.hpp"
#include "types/io/helper/graph_helper.hpp"
#include "types/io/helper/tag_helper.hpp"
#include "geometry/network/traits/network.hpp"
#include <algorithm>
using N = MM2_NETWORK_IMPORT(MM2_GRAPH_HELPER_IMPORT(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES)));
using Node = geometry::network::network_traits<N>::vertex_data_type; using Edge = geometry::network::network_traits<N>::edge_data_type; using Line = geometry::network::network_traits<N>::line_type; using RL = geometry::network::network_traits<N>::rich_line_type;
using VD = geometry::network::network_traits<N>::vertex_descriptor;
#ifndef HX_X
#define HX_X 1
#endif
using GH = MM2_GRAPH_HELPER(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES));
struct Arc { int s, t; std::uint64_t id; std::vector<P2> pts; };
struct Net { std::vector<P2> v; std::vector<Arc> a; bool one_tag = false; std::string tag(std::uint64_t id) const { return std::string(1, char('a' + (one_tag ? 0 : id))); } };
static double xc(const char *n) { return sym_fx(n, 0, HX_X, 0); }
static N build(const Net &n, std::vector<VD> &vd) {
  N net; auto &th = net.tag_helper();
  for (std::size_t i = 0; i < n.v.size(); i++) { auto ix = net.graph_helper().add_vertex_with_index_mapping(Node{i, n.v[i]}); vd.push_back(net.graph_helper().get_vertex_descriptor_for_index(ix)); }
  for (auto &a : n.a) { auto t = th.tag_storage().tags(); t.push_back(th.id("k", n.tag(a.id))); th.set_edge_tags(a.id, std::move(t)); }
  for (auto &a : n.a) net.graph_helper().add_edge(net.graph().vertex_index(vd[a.s]), net.graph().vertex_index(vd[a.t]), Edge{a.id, RL{Line(a.pts.begin(), a.pts.end())}});
  return net;
}
static Net read(const N &net, std::vector<std::uint64_t> &ids) { // the network as its users see it
  Net o; std::map<std::size_t, int> ix; auto &g = net.graph(); auto vv = g.vertices_view(); std::size_t k = 0;
  for (auto i = vv.begin(); i != vv.end(); i = vv.next(i)) { ix[g.vertex_index(i)] = (int) o.v.size(); sym_assert(g.vertex_index(i) == k++, "nodes are numbered densely"); o.v.push_back(vv[i].get().point); ids.push_back(vv[i].get().id); }
  auto ev = g.edges_view(); std::size_t e = 0;
  for (auto i = ev.begin(); i != ev.end(); i = ev.next(i)) { auto &d = ev[i].get(); sym_assert(g.edge_index(i) == e++, "edges are numbered densely"); auto s = ix.find(g.vertex_index(g.source(i))), t = ix.find(g.vertex_index(g.target(i))); sym_assert(s != ix.end() && t != ix.end(), "ends of an edge exist"); o.a.push_back({s->second, t->second, d.id, std::vector<P2>(d.rich_line.line().begin(), d.rich_line.line().end())}); }
  // in and out lists agree with the edges
  std::size_t outs = 0, ins = 0; for (auto i = vv.begin(); i != vv.end(); i = vv.next(i)) { auto ov = g.out_edges_view(i); for (auto j = ov.begin(); j != ov.end(); j = ov.next(j)) { outs++; sym_assert(g.source(ov[j]) == i, "out list"); } auto iv = g.in_edges_view(i); for (auto j = iv.begin(); j != iv.end(); j = iv.next(j)) { ins++; sym_assert(g.target(iv[j]) == i, "in list"); } }
  sym_assert(outs == o.a.size() && ins == o.a.size(), "every edge is listed once at each end"); return o;
}
static bool same_line(const std::vector<P2> &a, const std::vector<P2> &b) { if (a.size() != b.size()) return false; bool s = true; for (std::size_t i = 0; i < a.size(); i++) s = s & same_point(a[i], b[i]); return s; }
// roads i: node s to node t over a middle point that tells the road
static Net roads(int nv, int ne, bool ids, bool loops, bool two) {
  Net n; for (int i = 0; i < nv; i++) n.v.push_back(P2{xc("vx"), -1.0 - i}); int last = 0;
  for (int i = 0; i < ne; i++) { int c = (int) sym_fork("road", last, nv * nv - 1); last = c; int s = c / nv, t = c % nv; if (!loops && s == t) sym_end(); P2 m{xc("mx"), i + 1.0};
    n.a.push_back({s, t, std::uint64_t(ids ? sym_fork("id", 1, 2) : 2 * i), {n.v[s], m, n.v[t]}}); if (two && sym_fork("twoway", 0, 1)) n.a.push_back({t, s, std::uint64_t(ids ? sym_fork("id", 1, 2) : 2 * i), {n.v[t], P2{xc("mx"), i + 1.0}, n.v[s]}}); }
  if (ids) n.one_tag = sym_fork("equal_tags", 0, 1); return n;
}
// simplification, complete or (with ids) of roads of the same id only
static void simplified(int V, int E, bool with_ids, bool loops, bool two) {
  std::vector<VD> vd; std::vector<std::uint64_t> ids;
  Net n = roads(V, E, with_ids, loops, two); N net = build(n, vd); bool complete = !with_ids; net.simplify(complete); Net o = read(net, ids);
  std::set<std::uint64_t> kept(ids.begin(), ids.end()); std::vector<int> used(n.a.size(), 0), deg(n.v.size(), 0); for (auto &a : n.a) deg[a.s]++, deg[a.t]++;
  for (std::size_t i = 0; i < ids.size(); i++) sym_assert(same_point(o.v[i], n.v[ids[i]]), "nodes keep their place");
  for (std::size_t v = 0; v < n.v.size(); v++) if (!kept.count(v)) { std::set<int> nb; bool loop = false; int in = 0, out = 0; for (auto &a : n.a) { if (a.s == (int) v) out++, nb.insert(a.t); if (a.t == (int) v) in++, nb.insert(a.s); loop |= a.s == a.t && a.s == (int) v; } sym_assert(!loop && in == out && (in == 1 || in == 2) && nb.size() == 2, "only nodes where a road just continues are removed"); }
  for (auto &e : o.a) { // every road of the result is a chain of roads over removed nodes
    std::vector<int> ch; for (std::size_t p = 1; p + 1 < e.pts.size(); p += 2) { int r = (int) gy(e.pts[p]) - 1; int f = -1; std::uint64_t at = ch.empty() ? ids[e.s] : (std::uint64_t) n.a[ch.back()].t; for (std::size_t i = 0; i < n.a.size(); i++) if (!used[i] && (int) gy(n.a[i].pts[1]) - 1 == r && (std::uint64_t) n.a[i].s == at && (n.a[i].s != n.a[i].t || n.a[i].id == e.id || true)) { f = (int) i; break; } sym_assert(f >= 0, "a road of the result consists of roads of the source"); used[f]++; ch.push_back(f); }
    sym_assert(!ch.empty() && (std::uint64_t) n.a[ch.back()].t == ids[e.t], "a road of the result ends where its parts end"); std::vector<P2> w; auto tags = net.tag_helper().edge_tags(e.id); bool same_ids = true, id_of_part = false;
    for (std::size_t i = 0; i < ch.size(); i++) { auto &a = n.a[ch[i]]; if (i) sym_assert(!kept.count(a.s), "roads are joined at removed nodes only"); w.insert(w.end(), a.pts.begin() + (i ? 1 : 0), a.pts.end()); same_ids = same_ids && a.id == n.a[ch[0]].id; id_of_part |= a.id == e.id; auto tag = net.tag_helper().id("k", n.tag(a.id)); sym_assert(std::find(tags.begin(), tags.end(), tag) != tags.end(), "tags of joined roads are kept"); }
    sym_assert(same_line(w, e.pts), "shape of joined roads"); sym_assert(id_of_part, "id of joined roads"); sym_assert(complete || same_ids, "only roads of the same id are joined"); }
  for (int u : used) sym_assert(u == 1, "every road is part of the result once");
  if (complete) for (std::size_t v = 0; v < o.v.size(); v++) { int in = 0, out = 0, s = -1, t = -1; for (auto &a : o.a) { if (a.s == (int) v) out++, t = a.t; if (a.t == (int) v) in++, s = a.s; } sym_assert(!(in == 1 && out == 1 && s != t), "one-way roads are joined where they just continue"); }
  if (complete) for (std::size_t v = 0; v < o.v.size(); v++) { std::vector<Arc *> in, out; for (auto &a : o.a) { if (a.s == (int) v) out.push_back(&a); if (a.t == (int) v) in.push_back(&a); } if (in.size() != 2 || out.size() != 2 || in[0]->s == (int) v || in[1]->s == (int) v || in[0]->s == in[1]->s) continue;
    auto back = [](Arc *a, Arc *b) { return a->s == b->t && same_line(a->pts, {b->pts.rbegin(), b->pts.rend()}); }; sym_assert(!((back(in[0], out[0]) && back(in[1], out[1])) || (back(in[0], out[1]) && back(in[1], out[0]))), "two-way roads are joined where they just continue"); }
}
// nodes at the same place are joined
static void duplicate_nodes(int V, int E, bool simplify, bool two) {
  std::vector<VD> vd; std::vector<std::uint64_t> ids; Net n; for (int i = 0; i < V; i++) n.v.push_back(P2{(double) sym_fork("place", 0, i < HX_X ? i : HX_X), 0.0}); int last = 0;
  for (int i = 0; i < E; i++) { int c = (int) sym_fork("road", last, V * V - 1); last = c; int s = c / V, t = c % V; P2 m{xc("mx"), i + 1.0}; n.a.push_back({s, t, std::uint64_t(i), {n.v[s], m, n.v[t]}}); if (two && sym_fork("twoway", 0, 1)) n.a.push_back({t, s, std::uint64_t(i), {n.v[t], P2{xc("mx"), i + 1.0}, n.v[s]}}); }
  N net = build(n, vd); net.remove_duplicate_nodes(simplify, true); Net o = read(net, ids);
  for (std::size_t i = 0; i < o.v.size(); i++) for (std::size_t j = 0; j < i; j++) sym_assert(!same_point(o.v[i], o.v[j]), "one node per place"); std::vector<int> used(n.a.size(), 0);
  auto at = [&](const P2 &p) { for (std::size_t i = 0; i < o.v.size(); i++) if (same_point(o.v[i], p)) return (int) i; return -1; };
  if (!simplify) { for (auto &p : n.v) sym_assert(at(p) >= 0, "no place is lost"); sym_assert(o.a.size() == n.a.size(), "no road is lost"); }
  for (auto &e : o.a) { sym_assert(e.s == at(e.pts.front()) && e.t == at(e.pts.back()), "roads lead from the node of their first to the node of their last point"); std::size_t k = 0;
    for (std::size_t p = 1; p + 1 < e.pts.size(); p += 2, k++) { if (k) { sym_assert(at(e.pts[p - 1]) < 0, "roads are joined at removed nodes only"); } int f = -1; for (std::size_t i = 0; i < n.a.size(); i++) if (!used[i] && same_line(n.a[i].pts, {e.pts.begin() + p - 1, e.pts.begin() + p + 2})) { f = (int) i; break; } sym_assert(f >= 0, "shape of the roads"); used[f]++; } }
  for (int u : used) sym_assert(u == 1, "every road is part of the result once");
  if (simplify) for (auto &p : n.v) { int k = 0, in = 0, out = 0, s = -1, t = -1; for (auto &q : n.v) k += same_point(p, q); int v = at(p); if (k < 2 || v < 0) continue; for (auto &e : o.a) { if (e.s == v) out++, t = e.t; if (e.t == v) in++, s = e.s; } sym_assert(!(in == 1 && out == 1 && s != t), "one-way roads that meet in joined nodes are joined"); }
  for (auto &p : n.v) if (at(p) < 0) { std::set<std::pair<double, double>> nb; int in = 0, out = 0; for (auto &a : n.a) { if (same_point(a.pts.front(), p)) out++; if (same_point(a.pts.back(), p)) in++; } sym_assert(in == out && (in == 1 || in == 2), "only places where a road just continues are removed"); }
}
static void duplicate_edges(int V, int E) {
  std::vector<VD> vd; std::vector<std::uint64_t> ids; Net n; for (int i = 0; i < V; i++) n.v.push_back(P2{(double) i, 0.0}); int last = 0;
  for (int i = 0; i < E; i++) { int c = (int) sym_fork("road", last, V * V - 1); last = c; int s = c / V, t = c % V; n.a.push_back({s, t, (std::uint64_t) sym_fork("id", 1, 2), {n.v[s], P2{0.0, (double) sym_fork("my", 0, 1)}, n.v[t]}}); }
  N net = build(n, vd); net.remove_duplicate_edges(); Net o = read(net, ids); sym_assert(o.v.size() == n.v.size(), "nodes are kept");
  auto eq = [](const Arc &a, const Arc &b) { return a.s == b.s && a.t == b.t && a.id == b.id && same_line(a.pts, b.pts); };
  for (auto &a : n.a) { int k = 0; for (auto &b : o.a) k += eq(a, b); sym_assert(k == 1, "exactly one of several equal roads stays"); }
  for (auto &b : o.a) { int k = 0; for (auto &a : n.a) k += eq(a, b); sym_assert(k >= 1, "no road is added"); }
}
static void unconnected(int V, int E) { if (!V) E = 0;
  std::vector<VD> vd; std::vector<std::uint64_t> ids; Net n; for (int i = 0; i < V; i++) n.v.push_back(P2{xc("vx"), -1.0 - i}); int last = 0;
  for (int i = 0; i < E; i++) { int c = (int) sym_fork("road", last, V * V - 1); last = c; int s = c / V, t = c % V; n.a.push_back({s, t, std::uint64_t(i), {n.v[s], P2{xc("mx"), i + 1.0}, n.v[t]}}); }
  N net = build(n, vd); net.remove_unconnected_components(); Net o = read(net, ids);
  std::vector<int> comp(V); for (int i = 0; i < V; i++) comp[i] = i; for (int r = 0; r < V; r++) for (auto &a : n.a) comp[a.s] = comp[a.t] = std::min(comp[a.s], comp[a.t]); std::vector<int> size(V, 0); int best = 0; for (int c : comp) best = std::max(best, ++size[c]);
  sym_assert((int) ids.size() == best, "the largest connected part stays"); for (auto i : ids) sym_assert(comp[i] == comp[ids[0]], "only one connected part stays"); std::size_t roads = 0; for (auto &a : n.a) if (!ids.empty() && comp[a.s] == comp[ids[0]]) roads++; sym_assert(o.a.size() == roads, "roads of the largest part stay");
  for (auto &e : o.a) sym_assert(same_line(e.pts, n.a[e.id].pts) && ids[e.s] == (std::uint64_t) n.a[e.id].s && ids[e.t] == (std::uint64_t) n.a[e.id].t, "roads are unchanged");
}
// the network that is used for matching equals the imported one
static void converted(int V, int E) {
  std::vector<VD> vd; Net n = roads(V, E, false, true, true); N net = build(n, vd); GH gh; gh.from_adjacency_list(net.graph_helper(), net.tag_helper()); auto &g = gh.graph(); std::size_t k = 0, e = 0; std::vector<int> used(n.a.size(), 0);
  auto vv = g.vertices_view(); for (auto i = vv.begin(); i != vv.end(); i = vv.next(i), k++) { auto &d = vv[i].get(); sym_assert(k < n.v.size() && d.id == k && same_point(d.point, n.v[k]), "nodes of the converted network"); 
    auto ov = g.out_edges_view(i); for (auto j = ov.begin(); j != ov.end(); j = ov.next(j), e++) { auto &x = g.get_edge_data(j); std::vector<P2> pts(x.rich_line.line().begin(), x.rich_line.line().end()); int f = -1; for (std::size_t a = 0; a < n.a.size(); a++) if (!used[a] && n.a[a].id == x.id && (std::size_t) n.a[a].s == k && (std::size_t) n.a[a].t == g.vertex_index(g.target(j)) && same_line(n.a[a].pts, pts)) { f = (int) a; break; } sym_assert(f >= 0, "roads of the converted network"); used[f]++;
      auto tags = gh.tag_helper().edge_tags(x.id); sym_assert(tags.size() == 1 && gh.tag_helper().tag(tags[0]) == (std::pair<std::string, std::string>{"k", n.tag(x.id)}), "tags of the converted network"); } }
  sym_assert(k == n.v.size() && e == n.a.size(), "nothing is lost by the conversion");
}
extern "C" void sym_harness() {
#ifdef HX_WIDE
  switch (sym_fork("part", HX_LO, HX_HI)) {
    case 0: simplified(4, 4, false, true, true); break; case 1: simplified(5, 4, false, false, true); break; case 2: simplified(4, 3, true, true, true); break; case 3: duplicate_nodes(4, 3, sym_fork("simplify", 0, 1), true); break;
    case 4: duplicate_edges(3, 3); break; case 5: unconnected(5, 4); break; case 6: converted(4, 3); break; }
#else
  switch (sym_fork("part", HX_LO, HX_HI)) {
    case 0: simplified(4, 3, false, true, true); break; case 1: simplified(4, 4, false, false, false); break; case 2: simplified(3, 2, true, true, true); break; case 3: duplicate_nodes(3, 2, sym_fork("simplify", 0, 1), true); break; case 4: duplicate_nodes(4, 3, sym_fork("simplify", 0, 1), false); break;
    case 5: duplicate_edges(2, 3); break; case 6: unconnected(sym_fork("nodes", 0, 4), 3); break; case 7: unconnected(5, 3); break; case 8: converted(3, 2); break; }
#endif
  sym_reach("end");
}
