// Allocation failure at an arbitrary point while a vertex or an edge is added: the graph is left unchanged.
#include "graph_common.h"
#include <new>
static int budget = -1;  // -1: unlimited
template<typename T> struct falloc {
  using value_type = T; falloc() = default; template<typename U> falloc(const falloc<U> &) {}
  T *allocate(std::size_t n) { if (budget == 0) throw std::bad_alloc{}; if (budget > 0) budget--; return static_cast<T *>(::operator new(n * sizeof(T))); }
  void deallocate(T *p, std::size_t) { ::operator delete(p); }
  template<typename U> bool operator==(const falloc<U> &) const { return true; }
};
template<> struct falloc<void> { using value_type = void; falloc() = default; template<typename U> falloc(const falloc<U> &) {} template<typename U> bool operator==(const falloc<U> &) const { return true; } };
#if DIR == 0
using D = graph::directional;
#elif DIR == 1
using D = graph::undirected;
#else
using D = graph::bidirectional;
#endif
using G = graph::adjacency_list<CONT, CONT, D, node, edge, CONT, falloc<void>>;
extern "C" void sym_harness() {
  G g; std::vector<typename G::vertex_descriptor> v;
  for (int i = 0; i < 2; i++) v.push_back(g.add_vertex(node{i}));
  int n0 = (int) sym_fork("edges", 0, 2); double w[4]; int s[4], t[4];
  for (int k = 0; k < n0; k++) { s[k] = (int) sym_fork("src", 0, 1); t[k] = (int) sym_fork("dst", 0, 1); w[k] = sym_fx("w", 0, 15, 0); g.add_edge(v[s[k]], v[t[k]], edge{w[k]}); }
  int what = (int) sym_fork("what", 0, 4), fault = (int) sym_fork("fault", 0, 4); bool threw = false;
  budget = fault;
  try { if (what == 4) v.push_back(g.add_vertex(node{2})); else { s[n0] = what / 2; t[n0] = what % 2; w[n0] = 5; g.add_edge(v[s[n0]], v[t[n0]], edge{5.0}); } } catch (const std::bad_alloc &) { threw = true; }
  budget = -1;
  int nv = 2 + (what == 4 && !threw), ne = n0 + (what < 4 && !threw);
  if (fault == 0) sym_reach("fault"); if (threw) sym_reach("threw"); else sym_reach("fine");
  for (int round = 0; round < 2; round++) {
    sym_assert((int) g.vertices_view().size() == nv, "vertex count is unchanged by a failed insertion");
    sym_assert((int) g.edges_view().size() == ne, "edge count is unchanged by a failed insertion");
    for (int i = 0; i < 2; i++) {
      auto ov = g.out_edges_view(v[i]); auto it = ov.begin();
      for (int k = 0; k < ne; k++) if (s[k] == i || (DIR == 1 && t[k] == i)) { sym_assert(it != ov.end(), "edge still attached"); sym_assert(g.get_edge_data(ov[it]).weight == w[k] && g.vertex_index(g.source(ov[it])) == (std::size_t) s[k] && g.vertex_index(g.target(ov[it])) == (std::size_t) t[k], "edge unchanged"); it = ov.next(it); }
      sym_assert(it == ov.end(), "no half-attached edge remains at its source or target");
#if DIR == 2
      auto iv = g.in_edges_view(v[i]); auto j = iv.begin();
      for (int k = 0; k < ne; k++) if (t[k] == i) { sym_assert(j != iv.end() && g.get_edge_data(iv[j]).weight == w[k], "incoming edge unchanged"); j = iv.next(j); }
      sym_assert(j == iv.end(), "no half-attached incoming edge remains");
#endif
    }
    if (round == 0) { s[ne] = 1; t[ne] = 0; w[ne] = 9; g.add_edge(v[1], v[0], edge{9.0}); ne++; } // still usable afterwards
  }
  sym_reach("end");
}
