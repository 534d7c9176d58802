// Candidate search: the roads near a measurement and the place on them that is nearest.
#include "match_common.h"
// which roads are candidates of a single measurement
static void which(const Net &n, const Cand &c, const XY &p, const S &s, double radius, size_t pieces) {
  size_t E = n.r.size(); std::vector<double> d(E); std::vector<int> got(E, 0); for (size_t i = 0; i < E; i++) d[i] = away(n.r[i], p.first, p.second);
  for (auto &e : c.edges) if (!e.adopted) got[id(n, e)]++; double lo = 1000, far = -1; size_t num = 0; for (size_t i = 0; i < E; i++) { sym_assert(got[i] <= 1, "every road once"); lo = mn(lo, d[i]); if (got[i]) { far = mx(far, d[i]); num++; } }
  radius = mn(radius, s.radius_upper_limit); while (lo > radius && radius < s.radius_upper_limit) radius = mn(2 * radius, s.radius_upper_limit); bool circle = s.candidate_search == S::CIRCLE, comb = s.candidate_search == S::COMBINED;
  if (circle || comb) for (size_t i = 0; i < E; i++) if (got[i]) sym_assert(d[i] <= radius, "candidates lie within the radius");
  if (circle) for (size_t i = 0; i < E; i++) if (d[i] <= radius) sym_assert(got[i] == 1, "every road within the radius is a candidate");
  if (s.candidate_search == S::NEAREST || comb) { size_t within = 0; for (size_t i = 0; i < E; i++) { if (!comb || d[i] <= radius) within++; if (!got[i] && (!comb || d[i] <= radius)) sym_assert(d[i] >= far, "no road that is left out is nearer"); }
    sym_assert(num <= s.k_nearest && (pieces > 1 ? num > 0 || within == 0 : num == (within < s.k_nearest ? within : s.k_nearest)), "as many candidates as wanted, if there are"); }
  if (s.candidate_search == S::NEXT) { sym_assert(num >= 1, "there is a next road"); for (size_t i = 0; i < E; i++) if (got[i] && d[i] > lo) { bool rev = false; for (size_t k = 0; k < E; k++) if (got[k] && k != i && n.r[k].s == n.r[i].t && n.r[k].t == n.r[i].s) rev = true; sym_assert(rev, "farther roads only as the opposite direction"); }
    for (size_t i = 0; i < E; i++) if (got[i]) for (size_t k = 0; k < E; k++) if (n.r[k].s == n.r[i].t && n.r[k].t == n.r[i].s) sym_assert(got[k] || d[i] > lo, "the opposite direction is a candidate as well"); }
}
static S settings(int lo = 0, int hi = 3, int uppers = 1) { S s; s.candidate_search = (S::CANDIDATE_SEARCH) sym_fork("search", lo, hi); s.adaptive_radius = false; s.radius = 1; s.radius_upper_limit = uppers && sym_fork("upper", 0, 1) ? 8 : 2; s.k_nearest = s.candidate_search == S::NEXT ? 1 : 2; s.candidate_adoption_nearby = false; s.candidate_adoption_siblings = false; return s; }
// one measurement in the square between the roads
static void square() {
  Net n = sym_fork("net", 0, 1) ? make({{0, 0}, {4, 0}, {0, 4}, {4, 4}}, {{0, 1, {{0, 0}, {4, 0}}}, {1, 0, {{4, 0}, {0, 0}}}, {0, 2, {{0, 0}, {0, 4}}}, {2, 3, {{0, 4}, {4, 4}}}})
                               : make({{0, 0}, {4, 4}, {0, 4}}, {{0, 1, {{0, 0}, {4, 0}, {4, 4}}}, {1, 2, {{4, 4}, {0, 4}}}, {2, 0, {{0, 4}, {0, 0}}}});
  XY p{sym_fx("px", 0, 4 << HX_S, HX_S), sym_fx("py", 0, 4 << HX_S, HX_S)}; S s = settings(); auto c = search(n, {p}, s); which(n, c[0], p, s, s.radius, n.r.size() == 3 ? 2 : 1);
}
// roads along a line, places symbolic
static void line(int V, int E, int X, int P) {
  std::vector<XY> v; for (int i = 0; i < V; i++) v.push_back({sym_fx("vx", 0, X, 0), 0}); std::vector<Road> r;
  int last = 0; for (int i = 0; i < E; i++) { int c = (int) sym_fork("road", last, V * V - 1); last = c; int a = c / V, b = c % V; if (a == b) sym_end(); sym_assume(v[a].first != v[b].first); r.push_back({a, b, {v[a], v[b]}}); }
  Net n = make(v, r); std::vector<XY> p; for (int i = 0; i < P; i++) p.push_back({sym_fx("px", 0, X + 1, 0), 0}); S s = settings();
  auto c = search(n, p, s); for (int i = 0; i < P; i++) which(n, c[i], p[i], s, s.radius, 1);
}
static double between(double x, double a, double b) { double lo = mn(a, b), hi = mx(a, b); return x < lo ? lo - x : x > hi ? x - hi : 0; }
// several measurements along a line with a gap: radius adapted to the distance of the measurements, candidates adopted from others
static void adopt(int P, int X, int lo, int hi, int uppers) {
  Net n = make({{0, 0}, {2, 0}, {6, 0}, {8, 0}}, {{0, 1, {{0, 0}, {2, 0}}}, {1, 0, {{2, 0}, {0, 0}}}, {2, 3, {{6, 0}, {8, 0}}}});
  std::vector<XY> p; for (int i = 0; i < P; i++) p.push_back({sym_fx("px", 0, X, 0), 0}); S s = settings(lo, hi, uppers); bool sib = s.candidate_adoption_siblings = sym_fork("siblings", 0, 1), near = s.candidate_adoption_nearby = sym_fork("nearby", 0, 1); s.candidate_adoption_reverse = near && sym_fork("reverse", 0, 1);
  s.adaptive_radius = sym_fork("adaptive", 0, 1); if (s.adaptive_radius) { s.radius = 4; s.radius_lower_limit = 1; s.radius_upper_limit = 8; }
  auto c = search(n, p, s);
  for (int i = 0; i < P; i++) { double r = s.radius; if (s.adaptive_radius) { for (int k : {i - 1, i + 1}) if (k >= 0 && k < P && p[k].first != p[i].first) r = mn(r, ab(p[i].first - p[k].first)); /* measurements at the same place do not count */ r = mx(r, s.radius_lower_limit); }
    which(n, c[i], p[i], s, r, 1); double far = 0; for (auto &e : c[i].edges) if (!e.adopted) far = mx(far, e.distance);
    auto has = [&](int k, const CEdge &e, bool own) { for (auto &o : c[k].edges) if (!(own && o.adopted) && o.edge_desc == e.edge_desc && same_point(o.projection_point, e.projection_point)) return true; return false; };
    for (auto &e : c[i].edges) if (e.adopted) { bool any = false; for (int k = 0; k < P; k++) if (k != i && has(k, e, true) && (near || (k == i - 1 || k == i + 1))) any = true; sym_assert((sib || near) && any, "adopted candidates are candidates of other measurements"); }
    for (int k = 0; k < P; k++) if (k != i) for (auto &e : c[k].edges) if (!e.adopted) { if (sib && (k == i - 1 || k == i + 1)) sym_assert(has(i, e, false), "candidates of the neighbours are adopted"); if (near && far > 0 && between(p[i].first, p[k].first, gx(e.projection_point)) <= far) { sym_assert(has(i, e, false), "nearby candidates are adopted"); if (s.candidate_adoption_reverse) for (auto &o : c[i].edges) if (!o.adopted) sym_assert(has(k, o, false), "own candidates are given to nearby measurements"); } } }
}
extern "C" void sym_harness() { switch (sym_fork("part", HX_LO, HX_HI)) { case 0: square(); break; case 1: line(2, 2, 3, 1); break; case 2: adopt(2, 8, 2, 2, 0); break; case 3: line(3, 3, 4, 1); break; case 4: adopt(2, 8, 0, 3, 1); break; case 5: adopt(3, 8, 2, 2, 0); break; } sym_reach("end"); }
