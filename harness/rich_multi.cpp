// Multi lines (eager, lazy) and segments agree with a recomputation after any assignment history; distance/azimuth
// caching does not change any result.
#include "geo_common.h"
using PM = geometry::multi_rich_line<Plain>; using EM = geometry::eager_multi_rich_line<Eager>; using LM = geometry::lazy_multi_rich_line<Lazy>;
using LE = geometry::lazy_multi_rich_line<Eager>; using EL = geometry::eager_multi_rich_line<Lazy>;
static P2 pt(const char *n) { double x = sym_fx(n, 0, HX_X, 0); double y = sym_fx(n, 0, HX_Y, 0); return P2{x, y}; }
template<typename A, typename B> static void compare(const A &r, const B &p) {
  bool h = p.has_length(); sym_assert(r.has_length() == h, "length availability"); if (h) sym_assert(r.length() == p.length(), "length");
  h = p.has_azimuth(); sym_assert(r.has_azimuth() == h, "azimuth availability"); if (h) sym_assert(r.azimuth() == p.azimuth(), "azimuth");
  h = p.has_directions(); sym_assert(r.has_directions() == h, "directions availability"); if (h) { sym_assert(r.directions() == p.directions(), "directions"); sym_assert(r.absolute_directions() == p.absolute_directions(), "absolute directions"); }
}
template<typename L> static std::vector<L> conv(const std::vector<Line> &ls) { std::vector<L> v; for (auto &l : ls) v.emplace_back(l); return v; }
static std::vector<Line> lines(int k, int n, bool closed) { std::vector<Line> v; for (int i = 0; i < k; i++) { Line l; for (int j = 0; j < n; j++) l.push_back(closed && i && !j ? v.back().back() : pt("p")); v.push_back(l); } return v; }
extern "C" void sym_harness() {
#if MODE == 0
  int k = (int) sym_fork("lines", 1, 2); auto a = lines(k, (int) sym_fork("n", 1, 2), sym_fork("attached", 0, 1));
  PM p{conv<Plain>(a)};
  double len = 0; bool any = false; for (auto &l : a) for (std::size_t i = 0; i + 1 < l.size(); i++) if (!same_point(l[i], l[i + 1])) { len += geometry::point_distance(l[i], l[i + 1]); any = true; }
  sym_assert(p.has_length() == any && (!any || p.length() == len), "length of the parts");
  EM e{conv<Eager>(a)}; compare(e, p); LM z{conv<Lazy>(a)}; compare(z, p);
  if (sym_fork("queried", 0, 1) == 0) { LM z2{conv<Lazy>(a)}; z = z2; }
  auto b = lines((int) sym_fork("blines", 1, 2), 1, false); b[0].push_back(pt("b")); PM q{conv<Plain>(b)};
  switch (sym_fork("assign", 0, 5)) {
    case 0: z = q; e = q; break;
    case 1: { EM e2{conv<Eager>(b)}; LM z2{conv<Lazy>(b)}; z = z2; e = e2; break; }
    case 2: { EM e2{conv<Eager>(b)}; z = LM{conv<Lazy>(b)}; e = std::move(e2); break; }
    case 3: { LM z2{q}; EM e2{q}; compare(LM{z2}, q); compare(EM{e2}, q); z = std::move(z2); e = e2; break; }
    case 4: { LM z2{conv<Lazy>(b)}; if (sym_fork("q2", 0, 1)) compare(z2, q); e = z2; z = z2; break; }
    case 5: { EM e2{conv<Eager>(b)}; z = e2; e = e2; break; }
  }
  compare(z, q); compare(e, q);
#elif MODE == 1
  P2 a = pt("a"), b = pt("b"), c = pt("c"), d = pt("d"); using S = geometry::models<P2>::segment_type;
  geometry::rich_segment<S> p{c, d}; geometry::eager_rich_segment<S> e{a, b}; geometry::lazy_rich_segment<S> z{a, b};
  auto same = [](auto &r, auto &p) { bool h = p.has_length(); sym_assert(r.has_length() == h && (!h || r.length() == p.length()), "segment length"); h = p.has_azimuth(); sym_assert(r.has_azimuth() == h && (!h || r.azimuth() == p.azimuth()), "segment azimuth"); sym_assert(same_point(r.first(), p.first()) && same_point(r.second(), p.second()), "segment points"); };
  int q = (int) sym_fork("query", 0, 3); if (q & 1) (void) z.has_length(); if (q & 2) (void) z.has_azimuth();
  geometry::eager_rich_segment<S> e2{c, d}; geometry::lazy_rich_segment<S> z2{c, d}; q = (int) sym_fork("query2", 0, 3); if (q & 1) (void) z2.has_length(); if (q & 2) (void) z2.has_azimuth();
  switch (sym_fork("assign", 0, 4)) {
    case 0: e = p; z = p; break; case 1: e = e2; z = z2; break; case 2: e = z2; z = e2; break; case 3: { decltype(e) e3{z2}; decltype(z) z3{e2}; e = std::move(e3); z = std::move(z3); break; }
    case 4: { decltype(e) e3{p}; decltype(z) z3{p}; e = e3; z = z3; break; }
  }
  same(e, p); same(z, p); same(e2, p); same(z2, p);
#else
  // caching on: repeated and interleaved queries return what an uncached computation returns
  Line l; for (int i = 0; i < 3; i++) l.push_back(pt("p"));
  geometry::disable_cache(); std::vector<double> d, z; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { d.push_back(geometry::point_distance(l[i], l[j])); z.push_back(geometry::azimuth_deg(l[i], l[j])); }
  geometry::enable_cache(); int k = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++, k++) { sym_assert(geometry::point_distance(l[i], l[j]) == d[k], "cached distance"); sym_assert(geometry::azimuth_deg(l[i], l[j]) == z[k], "cached azimuth"); }
  if (sym_fork("reset", 0, 1)) { geometry::reset_distance_cache(); geometry::reset_azimuth_cache(); }
  k = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++, k++) { sym_assert(geometry::point_distance(l[i], l[j]) == d[k], "cached distance again"); sym_assert(geometry::azimuth_deg(l[i], l[j]) == z[k], "cached azimuth again"); }
#endif
  sym_reach("end");
}
