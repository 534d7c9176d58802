// Any history of K mutations on a graph with HN vertices and HE initial edges keeps the container consistent
// and equal to a plain model.  DIR: 0 directional, 1 undirected, 2 bidirectional (list containers).
#include "graph_common.h"
#if DIR == 0
using D = graph::directional;
#elif DIR == 1
using D = graph::undirected;
#else
using D = graph::bidirectional;
#endif
using G = graph::adjacency_list<std::list, std::list, D, node, edge, std::list>;
struct me { int s, t; double w; G::edge_descriptor d; };
static std::vector<me> model; static bool alive[HN]; static std::vector<G::vertex_descriptor> v;
static int sidx(G &g, G::vertex_descriptor d) { for (int i = 0; i < HN; i++) if (alive[i] && v[i] == d) return i; return -1; }
template<typename View> static int count(G &g, View view, const me &m) { int c = 0; for (auto it = view.begin(); it != view.end(); it = view.next(it)) c += g.is_same_edge(view[it], m.d); return c; }
static void verify(G &g) {
  int nv = 0; for (int i = 0; i < HN; i++) nv += alive[i];
  sym_assert((int) g.vertices_view().size() == nv, "vertex count"); sym_assert(g.edges_view().size() == model.size(), "edge count");
  auto ev = g.edges_view(); std::size_t k = 0;
  for (auto it = ev.begin(); it != ev.end(); it = ev.next(it), k++) {
    const me &m = model[k];
    sym_assert(sidx(g, g.source(it)) == m.s && sidx(g, g.target(it)) == m.t, "edge endpoints are live vertices and unchanged");
    sym_assert(g.get_edge_data(it).weight == m.w, "edge data unchanged");
  }
  for (int i = 0; i < HN; i++) if (alive[i]) {
    sym_assert(g.get_vertex_data(v[i]).id == i * 10, "vertex data unchanged");
    int od = 0, id = 0;
    for (auto &m : model) {
      int out = (m.s == i) || (DIR == 1 && m.t == i), in = m.t == i; od += out; id += in;
      sym_assert(count(g, g.out_edges_view(v[i]), m) == out, "edge is attached exactly once to its source (and to its target if undirected)");
#if DIR == 2
      sym_assert(count(g, g.in_edges_view(v[i]), m) == in, "edge is listed exactly once as incoming at its target");
#endif
    }
    sym_assert((int) g.out_degree(v[i]) == od, "out degree");
#if DIR == 2
    sym_assert((int) g.in_degree(v[i]) == id, "in degree"); sym_assert((int) g.degree(v[i]) == od + id, "degree");
#endif
  }
}
static void verify_copy(G &g) {
  g.reindex();
  std::size_t k = 0; auto vv = g.vertices_view(); for (auto it = vv.begin(); it != vv.end(); it = vv.next(it)) sym_assert(g.vertex_index(it) == k++, "reindexed vertices are numbered in order");
  k = 0; auto ev = g.edges_view(); for (auto it = ev.begin(); it != ev.end(); it = ev.next(it)) sym_assert(g.edge_index(it) == k++, "reindexed edges are numbered in order");
  auto same = [&](const G &c) {
    sym_assert(c.vertices_view().size() == vv.size() && c.edges_view().size() == ev.size(), "copy has the same size");
    auto cv = c.vertices_view(); auto ce = c.edges_view();
    auto ci = cv.begin(); for (auto it = vv.begin(); it != vv.end(); it = vv.next(it), ci = cv.next(ci)) {
      sym_assert(c.get_vertex_data(ci) == g.get_vertex_data(it) && c.out_degree(ci) == g.out_degree(it), "copied vertex equal");
      auto go = g.out_edges_view(it); auto co = c.out_edges_view(ci); auto y = co.begin();
      std::multiset<std::size_t> a, b; for (auto x = go.begin(); x != go.end(); x = go.next(x), y = co.next(y)) { a.insert(g.edge_index(go[x])); b.insert(c.edge_index(co[y])); }
      sym_assert(a == b, "copied vertex has the same edges");
    }
    auto cj = ce.begin(); for (auto it = ev.begin(); it != ev.end(); it = ev.next(it), cj = ce.next(cj))
      sym_assert(c.get_edge_data(cj) == g.get_edge_data(it) && c.vertex_index(c.source(cj)) == g.vertex_index(g.source(it)) && c.vertex_index(c.target(cj)) == g.vertex_index(g.target(it)), "copied edge equal");
  };
  G c1{g}; same(c1); G c2; c2.add_vertex(node{7}); c2 = g; same(c2); G c3{std::move(c1)}; same(c3);
  c3.add_vertex(node{99}); verify(g); // copies are independent
}
extern "C" void sym_harness() {
  G g; for (int i = 0; i < HN; i++) { v.push_back(g.add_vertex(node{i * 10})); alive[i] = true; }
  auto add = [&](int s, int t) { double w = sym_fx("w", 0, 15, 0); auto d = g.add_edge(v[s], v[t], edge{w}); model.push_back({s, t, w, d}); };
  for (int k = 0; k < HE; k++) { int c = (int) sym_fork("edge", 0, HN * HN - 1); add(c / HN, c % HN); }
  verify(g);
  for (int k = 0; k < HK; k++) {
    switch (sym_fork("op", 0, 3)) {
      case 0: { int c = (int) sym_fork("pair", 0, HN * HN - 1); if (!alive[c / HN] || !alive[c % HN]) sym_end(); add(c / HN, c % HN); break; }
      case 1: { int c = (int) sym_fork("pair", 0, HN * HN - 1), s = c / HN, t = c % HN; if (!alive[s] || !alive[t]) sym_end();
        if (DIR == 1 && s != t) for (auto &m : model) if (m.s == t && m.t == s) sym_end(); // orientation of an undirected pair removal is left open
        g.remove_edge(v[s], v[t]); std::erase_if(model, [&](me &m) { return m.s == s && m.t == t; }); break; }
      case 2: { if (model.empty()) sym_end(); int c = (int) sym_fork("which", 0, (int) model.size() - 1); auto d = model[c].d; g.remove_edge(d); model.erase(model.begin() + c); break; }
      case 3: { int c = (int) sym_fork("vertex", 0, HN - 1); if (!alive[c]) sym_end(); g.clear_vertex(v[c]); std::erase_if(model, [&](me &m) { return m.s == c || m.t == c; }); verify(g); g.remove_vertex(v[c]); alive[c] = false; break; }
    }
    verify(g);
  }
  verify_copy(g);
  sym_reach("end");
}
