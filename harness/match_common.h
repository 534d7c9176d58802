#pragma once
// a network with its spatial index, candidate search and what holds for every candidate
#define GEO_NO_LINES
#include "geo_common.h"
#include "types/geometry/network/network_import.hpp"
#include "types/geometry/network/network.hpp"
#include "types/io/helper/graph_helper.hpp"
#include "types/io/helper/tag_helper.hpp"
#include "geometry/network/traits/network.hpp"
#include "matching/algorithm/candidate_search.hpp"
#include "util/time_helper.cpp"
#include <algorithm>
namespace std::chrono::_V2 { steady_clock::time_point steady_clock::now() noexcept { static long t = 0; return steady_clock::time_point{std::chrono::nanoseconds{t += 1000}}; } }
using NI = MM2_NETWORK_IMPORT(MM2_GRAPH_HELPER_IMPORT(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES)));
using GH = MM2_GRAPH_HELPER(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_TAG_HELPER(MM2_MEMORY_TYPES));
using NW = MM2_NETWORK(GH, MM2_INDEX_HELPER(MM2_CARTESIAN, MM2_MEMORY_TYPES, MM2_MEMORY_TYPES));
using Node = geometry::network::network_traits<NI>::vertex_data_type; using Edge = geometry::network::network_traits<NI>::edge_data_type; using Line = geometry::network::network_traits<NI>::line_type; using RL = geometry::network::network_traits<NI>::rich_line_type;
using Tr = matching::network_traits<NW>; using S = matching::settings;
static double ab(double a) { return a < 0 ? -a : a; }
static double mn(double a, double b) { return a < b ? a : b; }
static double mx(double a, double b) { return a > b ? a : b; }

using XY = std::pair<double, double>; struct Road { int s, t; std::vector<XY> p; };
// distance of a point to an axis-parallel piece; only for points beside the piece or in line with it
static double away1(const XY &a, const XY &b, double x, double y) {
  if (a.second == b.second) { double lo = mn(a.first, b.first), hi = mx(a.first, b.first), d = x < lo ? lo - x : x > hi ? x - hi : 0; if (d > 0) sym_assume(y == a.second); return d > 0 ? d : ab(y - a.second); }
  double lo = mn(a.second, b.second), hi = mx(a.second, b.second), d = y < lo ? lo - y : y > hi ? y - hi : 0; if (d > 0) sym_assume(x == a.first); return d > 0 ? d : ab(x - a.first);
}
static double away(const Road &r, double x, double y) { double d = 1000; for (size_t i = 0; i + 1 < r.p.size(); i++) d = mn(d, away1(r.p[i], r.p[i + 1], x, y)); return d; }
static double len(const std::vector<XY> &p) { double d = 0; for (size_t i = 0; i + 1 < p.size(); i++) d += ab(p[i].first - p[i + 1].first) + ab(p[i].second - p[i + 1].second); return d; }
static XY xy(const P2 &p) { return {gx(p), gy(p)}; }
struct Net { std::vector<XY> v; std::vector<Road> r; NW n; };
static Net make(std::vector<XY> v, std::vector<Road> roads) {
  NI net; std::vector<std::uint64_t> ix; int i = 0; for (auto &p : v) ix.push_back(net.graph_helper().add_vertex_with_index_mapping(Node{(std::uint64_t) i++, P2{p.first, p.second}}));
  i = 0; for (auto &r : roads) { Line l; for (auto &p : r.p) l.push_back(P2{p.first, p.second}); net.graph_helper().add_edge(ix[r.s], ix[r.t], Edge{(std::uint64_t) i++, RL{l}}); }
  GH gh; gh.from_adjacency_list(net.graph_helper(), net.tag_helper()); NW n{std::move(gh)}; n.build_spatial_indices(); return Net{v, roads, std::move(n)};
}
using Cand = typename Tr::candidate_type; using CEdge = typename Tr::candidate_edge_type;
static int id(const Net &n, const CEdge &e) { return (int) n.n.edge(e.edge_desc).id; }
// what holds for every candidate of every search
static void sane(const Net &n, const Cand &c, const XY &p, size_t index) {
  sym_assert(c.index == index && same_point(c.point(), P2{p.first, p.second}), "candidate belongs to its measurement");
  for (size_t i = 0; i < c.edges.size(); i++) {
    const CEdge &e = c.edges[i]; const Road &r = n.r[id(n, e)]; XY q = xy(e.projection_point);
    sym_assert(away(r, q.first, q.second) == 0, "place lies on the road");
    sym_assert(e.distance == geometry::point_distance(P2{p.first, p.second}, e.projection_point), "distance is the one to the place");
    if (!e.adopted) sym_assert(e.distance == away(r, p.first, p.second), "place is the nearest of the road");
    double f = 0, t = 0; if (!e.from->empty()) { auto &l = e.from->line(); sym_assert(same_point(l.front(), P2{r.p.front().first, r.p.front().second}) && same_point(l.back(), e.projection_point), "the part before leads from the begin of the road to the place"); std::vector<XY> w; for (auto &x : l) w.push_back(xy(x)); f = len(w); sym_assert(f == 0 || (e.from->has_length() && e.from->length() == f), "length of the part before"); }
    else sym_assert(same_point(P2{r.p.front().first, r.p.front().second}, e.projection_point), "nothing before only at the begin");
    if (!e.to->empty()) { auto &l = e.to->line(); sym_assert(same_point(l.front(), e.projection_point) && same_point(l.back(), P2{r.p.back().first, r.p.back().second}), "the part after leads from the place to the end of the road"); std::vector<XY> w; for (auto &x : l) w.push_back(xy(x)); t = len(w); sym_assert(t == 0 || (e.to->has_length() && e.to->length() == t), "length of the part after"); }
    else sym_assert(same_point(P2{r.p.back().first, r.p.back().second}, e.projection_point), "nothing after only at the end");
    sym_assert(f + t == len(r.p), "both parts make up the road");
    if (i > 0) sym_assert(c.edges[i - 1].distance <= e.distance, "candidates are ordered by distance");
    for (size_t k = 0; k < i; k++) sym_assert(id(n, c.edges[k]) != id(n, e) || !same_point(c.edges[k].projection_point, e.projection_point), "no candidate twice");
  }
  for (size_t i = 0; i < n.v.size(); i++) { int want = 0, got = 0; for (auto &e : c.edges) if (n.r[id(n, e)].s == (int) i || n.r[id(n, e)].t == (int) i) want = 1; for (auto &x : c.nodes) if (x.vertex_desc == i) { got++; sym_assert(x.distance == geometry::point_distance(P2{p.first, p.second}, P2{n.v[i].first, n.v[i].second}), "distance of a node"); } sym_assert(want == got, "the nodes are the ends of the roads"); }
}
static std::vector<Cand> search(const Net &n, const std::vector<XY> &p, const S &s) {
  static std::vector<std::unique_ptr<typename Tr::track_type>> keep; typename Tr::track_type::line_type l; for (auto &x : p) l.push_back(P2{x.first, x.second}); keep.push_back(std::make_unique<typename Tr::track_type>("t", l));
  util::time_helper th; matching::candidate_searcher<NW> cs{n.n, th}; auto c = cs.candidate_search(*keep.back(), s); sym_assert(c.size() == p.size(), "every measurement has its candidates"); for (size_t i = 0; i < p.size(); i++) sane(n, c[i], p[i], i); return c;
}
// whether one can drive straight from a to b on a road
static bool drives(const Net &n, const XY &a, const XY &b) {
  for (auto &r : n.r) for (size_t i = 0; i + 1 < r.p.size(); i++) { const XY &f = r.p[i], &t = r.p[i + 1]; if (f.second == t.second) { if (a.second != f.second || b.second != f.second) continue; double s = t.first > f.first ? 1 : -1; if (s * f.first <= s * a.first && s * a.first <= s * b.first && s * b.first <= s * t.first) return true; }
    else { if (a.first != f.first || b.first != f.first) continue; double s = t.second > f.second ? 1 : -1; if (s * f.second <= s * a.second && s * a.second <= s * b.second && s * b.second <= s * t.second) return true; } }
  return false;
}
template<typename R> static void driven(const Net &n, const R &r) { double l = 0; for (auto &x : r.rich_lines()) std::visit([&](auto &&y) { XY last; bool first = true; for (const P2 &q : y.get().line()) { XY c = xy(q); if (!first) { sym_assert(drives(n, last, c), "the match is driven along the roads"); l += ab(c.first - last.first) + ab(c.second - last.second); } first = false; last = c; } }, x); sym_assert((r.has_length() ? r.length() : 0) == l, "length of the match"); }
