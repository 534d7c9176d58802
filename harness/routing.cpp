// Routes between candidates: along the road or over the nodes, joined over a sequence of measurements.
#include "match_common.h"
#include "matching/algorithm/route.hpp"
using Router = matching::router<NW>; using Route = typename Tr::route_type;
static XY front(const Route &r) { P2 p; std::visit([&](auto &&l) { p = l.get().front(); }, r.rich_lines().front()); return xy(p); }
static XY back(const Route &r) { P2 p; std::visit([&](auto &&l) { p = l.get().back(); }, r.rich_lines().back()); return xy(p); }
static double num(bool has, double v) { return has ? v : 0; }
struct Dist { std::vector<std::vector<double>> d; };
static const double INF = 1000;
static Dist nodes(const Net &n) { size_t V = n.v.size(); Dist D{std::vector<std::vector<double>>(V, std::vector<double>(V, INF))}; for (size_t i = 0; i < V; i++) D.d[i][i] = 0; for (auto &r : n.r) D.d[r.s][r.t] = mn(D.d[r.s][r.t], len(r.p)); for (size_t k = 0; k < V; k++) for (size_t i = 0; i < V; i++) for (size_t j = 0; j < V; j++) D.d[i][j] = mn(D.d[i][j], D.d[i][k] + D.d[k][j]); return D; }
// length of the way from one candidate to another, INF if there is none
static double way(const Net &n, const Dist &D, const CEdge &a, const CEdge &b, double limit) {
  if (same_point(a.projection_point, b.projection_point)) return 0;
  double af = num(a.from->has_length(), a.from->length()), at = num(a.to->has_length(), a.to->length()), bf = num(b.from->has_length(), b.from->length());
  if (a.edge_desc == b.edge_desc && af <= bf) return bf - af;
  double m = D.d[n.r[id(n, a)].t][n.r[id(n, b)].s]; return m <= limit ? at + m + bf : INF;
}
// roads of a route of known candidates: the one of the first candidate, those of the way, the one of the second
static void listed(const Net &n, const Router &router, const CEdge &a, const CEdge &b, const Route &r) {
  auto list = router.edges_list(r); auto ids = Router::edge_ids(list); std::vector<int> e; for (auto &x : list) e.push_back((int) x.get().id);
  bool at = a.to->has_length(), bf = b.from->has_length(); sym_assert(!e.empty(), "a route has roads");
  double af = num(a.from->has_length(), a.from->length()), bl = num(bf, b.from->length());
  if (a.edge_desc == b.edge_desc && af <= bl) { sym_assert(e.size() == 1 && e[0] == id(n, a), "the road of a route along one road"); return; }
  if (at) sym_assert(e.front() == id(n, a), "the first road is the one of the first candidate"); if (bf) sym_assert(e.back() == id(n, b), "the last road is the one of the second candidate");
  for (size_t i = 0; i + 1 < e.size(); i++) sym_assert(n.r[e[i]].t == n.r[e[i + 1]].s, "roads of the route follow each other");
  double sum = 0; for (size_t i = 0; i < e.size(); i++) sum += i == 0 && at ? a.to->length() : i + 1 == e.size() && bf ? b.from->length() : len(n.r[e[i]].p); sym_assert(sum == r.length(), "the roads make up the route");
}
static void pairs(const Net &n, const std::vector<Cand> &c, bool turns, bool astar) {
  Dist D = nodes(n); util::time_helper th; Router router{n.n, th};
  for (size_t a = 0; a < c[0].edges.size(); a++) for (size_t b = 0; b < c[1].edges.size(); b++) {
    auto &x = c[0].edges[a], &y = c[1].edges[b]; Route r = router.candidate_route(c, 0, a, 1, b, turns, astar, -1.0); double w = way(n, D, x, y, INF / 2);
    sym_assert(r.is_invalid() == (w >= INF / 2), "there is a route exactly if there is a way"); if (w >= INF / 2) continue;
    double l = r.has_length() ? r.length() : 0; sym_assert(turns ? l <= w : l == w, "the route is as long as the shortest way"); if (w == 0) continue;
    if (l > 0) { sym_assert(front(r) == xy(x.projection_point), "the route begins at the first candidate"); sym_assert(back(r) == xy(y.projection_point), "the route ends at the second candidate"); sym_assert(r.is_connected(), "the route is connected"); }
    else sym_assert(same_point(x.projection_point, y.projection_point), "no route only at the same place");
    if (HX_ROADS && l > 0 && !turns) listed(n, router, x, y, r);
  }
}
static S near(int k) { S s; s.candidate_search = S::NEAREST; s.k_nearest = k; s.candidate_adoption_nearby = false; s.candidate_adoption_siblings = false; return s; }
static void two(int net, int X, int k) {
  Net n = net == 0 ? make({{0, 0}, {4, 0}, {8, 0}}, {{0, 1, {{0, 0}, {4, 0}}}, {1, 0, {{4, 0}, {0, 0}}}, {1, 2, {{4, 0}, {8, 0}}}})
        : net == 1 ? make({{0, 0}, {4, 4}, {0, 4}}, {{0, 1, {{0, 0}, {4, 0}, {4, 4}}}, {1, 2, {{4, 4}, {0, 4}}}, {2, 0, {{0, 4}, {0, 0}}}})
                   : make({{0, 0}, {4, 0}, {4, 4}}, {{0, 1, {{0, 0}, {4, 0}}}, {1, 0, {{4, 0}, {0, 0}}}, {1, 2, {{4, 0}, {4, 4}}}, {2, 1, {{4, 4}, {4, 0}}}});
  std::vector<XY> p; for (int i = 0; i < 2; i++) p.push_back({sym_fx("px", 0, X, 0), net == 0 ? 0 : sym_fx("py", 0, 4, 0)});
  auto c = search(n, p, near(k)); pairs(n, c, sym_fork("turns", 0, HX_T), sym_fork("astar", 0, HX_A));
}
// a sequence of measurements, some without candidates; the policy repeats its last choice for these
static void sequence(int net, int P, int X, int k, double radius) {
  Net n = net == 0 ? make({{0, 0}, {4, 0}, {8, 0}}, {{0, 1, {{0, 0}, {4, 0}}}, {1, 0, {{4, 0}, {0, 0}}}, {1, 2, {{4, 0}, {8, 0}}}})
                   : make({{0, 0}, {4, 0}}, {{0, 1, {{0, 0}, {4, 0}}}, {1, 0, {{4, 0}, {0, 0}}}});
  std::vector<XY> p; for (int i = 0; i < P; i++) p.push_back({sym_fx("px", 0, X, 0), 0}); S s = near(k); if (radius > 0) { s.candidate_search = S::CIRCLE; s.radius = s.radius_upper_limit = radius; s.adaptive_radius = false; }
  auto c = search(n, p, s); typename Tr::policy_type policy; std::vector<int> chosen; bool gap = false; Dist D = nodes(n); util::time_helper th; Router router{n.n, th};
  double sum = 0; bool first = true, open = false; XY begin, end; int parts = 0, last = -1, le = 0; bool broken = false;
  for (int i = 0; i < P; i++) { if (c[i].edges.empty()) { if (!policy.empty()) { policy.push_back(policy.back()); gap = true; } continue; } int e = c[i].edges.size() > 1 ? (int) sym_fork("choice", 0, c[i].edges.size() - 1) : 0; policy.push_back({(size_t) i, (size_t) e}); auto &y = c[i].edges[e];
    if (last >= 0 && !gap) { auto &x = c[last].edges[le]; double w = way(n, D, x, y, INF / 2); if (w >= INF / 2) broken = true; else if (w > 0) { sum += w; if (first) { begin = xy(x.projection_point); first = false; } end = xy(y.projection_point); } }
    if (last >= 0 && gap) broken = true; gap = false; last = i; le = e; }
  bool join = sym_fork("join", 0, 1); Route r = router.candidates_route(c, policy, false, join, false, -1.0); double l = r.has_length() ? r.length() : 0;
  if (!join) sym_assert(l == sum, "the match is made up of the routes between consecutive measurements"); else sym_assert(l <= sum, "joining makes the match not longer");
  if (l > 0) driven(n, r);
  if (sum > 0 && l > 0) { if (!join) { sym_assert(front(r) == begin, "the match begins at the first candidate"); sym_assert(back(r) == end, "the match ends at the last candidate"); } if (!broken) sym_assert(r.is_connected(), "the match is connected"); }
}
extern "C" void sym_harness() { switch (sym_fork("part", HX_LO, HX_HI)) { case 0: two(0, 8, 2); break; case 1: two(1, 4, 2); break; case 2: two(2, 4, 2); break; case 3: sequence(0, 3, 8, 1, 0); break; case 4: sequence(1, 4, 7, 1, 1); break; case 5: sequence(0, 3, 8, 2, 0); break; case 6: sequence(0, 4, 5, 1, 0); break; } sym_reach("end"); }
