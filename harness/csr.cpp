// Conversion of a mutable graph (after an arbitrary edge removal and reindex) to the compressed graph, with a data
// conversion, keeps vertices, edges, order per vertex and data; degrees and edge ranges are exact.
#include "graph_common.h"
#if DIR == 0
using D = graph::directional;
#elif DIR == 1
using D = graph::undirected;
#else
using D = graph::bidirectional;
#endif
using G = graph::adjacency_list<std::list, std::list, D, node, edge, std::list>;
struct node2 { double id = 0; node2() = default; explicit node2(const node &n) : id{(double) n.id + 1} {} };
struct edge2 { double weight = 0; edge2() = default; explicit edge2(const edge &e) : weight{e.weight * 2} {} };
using C = graph::compressed_sparse_row<std::vector, std::vector, graph::directional, node2, edge2>;
using C0 = graph::compressed_sparse_row<std::vector, std::vector, graph::directional, void, void>;
extern "C" void sym_harness() {
  G g; std::vector<typename G::vertex_descriptor> v; std::vector<typename G::edge_descriptor> e; int id[HN];
  for (int i = 0; i < HN; i++) { id[i] = (int) sym_int("id", 0, 100); v.push_back(g.add_vertex(node{id[i]})); }
  int s[HE], t[HE]; double w[HE]; bool live[HE];
  for (int k = 0; k < HE; k++) { s[k] = (int) sym_fork("src", 0, HN - 1); t[k] = (int) sym_fork("dst", 0, HN - 1); w[k] = sym_fx("w", 0, 63, 3); live[k] = true; e.push_back(g.add_edge(v[s[k]], v[t[k]], edge{w[k]})); }
  int del = (int) sym_fork("delete", -1, HE - 1), dv = (int) sym_fork("delete_vertex", -1, HN - 1); bool va[HN]; for (bool &x : va) x = true;
  if (del >= 0) { g.remove_edge(e[del]); live[del] = false; }
  if (dv >= 0) { g.clear_vertex(v[dv]); g.remove_vertex(v[dv]); va[dv] = false; for (int k = 0; k < HE; k++) if (s[k] == dv || t[k] == dv) live[k] = false; }
  g.reindex();
  int ni[HN], nv = 0; for (int i = 0; i < HN; i++) ni[i] = va[i] ? nv++ : -1;
  C c; c.from_adjacency_list(g); C0 c0; c0.from_adjacency_list(g);
  int ne = 0; for (bool l : live) ne += l;
  sym_assert((int) c.vertices_view().size() == nv && (int) c.edges_view().size() == ne && (int) c0.vertices_view().size() == nv && (int) c0.edges_view().size() == ne, "sizes are preserved");
  std::size_t pos = 0;
  for (int i = 0; i < HN; i++) if (va[i]) {
    std::size_t ci = ni[i];
    sym_assert(c.get_vertex_data(ci).id == id[i] + 1, "vertex data is converted");
    auto view = c.out_edges_view(ci); auto it = view.begin(); std::size_t deg = 0;
    for (int k = 0; k < HE; k++) if (live[k] && s[k] == i) {
      sym_assert(it != view.end(), "out edge present");
      sym_assert(it == pos, "edges are stored contiguously by source");
      sym_assert(c.source(it) == ci && (int) c.target(it) == ni[t[k]], "endpoints are preserved in insertion order");
      sym_assert(c.get_edge_data(it).weight == w[k] * 2, "edge data is converted");
      sym_assert(c0.source(it) == ci && (int) c0.target(it) == ni[t[k]], "endpoints are preserved without data");
      it = view.next(it); deg++; pos++;
    }
    sym_assert(it == view.end(), "no further out edges"); sym_assert(c.out_degree(ci) == deg && c0.out_degree(ci) == deg && view.size() == deg && view.empty() == (deg == 0), "degree is exact");
    if (deg) { sym_assert(&view.front() == &c.get_edge(pos - deg), "front of the edge range"); }
  }
  C d{c}; C m{std::move(c)}; sym_assert(d.edges_view().size() == m.edges_view().size(), "copy and move");
  for (std::size_t k = 0; k < pos; k++) sym_assert(d.source(k) == m.source(k) && d.target(k) == m.target(k) && d.get_edge_data(k).weight == m.get_edge_data(k).weight, "copy equals");
  sym_reach("end");
}
