// Cutting a line by distances or by points on it returns exactly that part of the line.
#include "geo_common.h"
#include "geometry/algorithm/substring.hpp"
#if HX_KIND == 0
using R = Plain;
#elif HX_KIND == 1
using R = Eager;
#else
using R = Lazy;
#endif
static const double EPS = 1e-9;
static bool near(double a, double b) { return (a - b <= EPS) & (b - a <= EPS); }
static bool nearp(const P2 &a, const P2 &b) { return near(gx(a), gx(b)) & near(gy(a), gy(b)); }
extern "C" void sym_harness() {
  // axis-aligned line: segment i goes along one axis by a symbolic signed step
  Line l; double x = 0, y = 0; l.push_back(P2{x, y}); double len[HX_N], dx[HX_N], dy[HX_N], cum[HX_N + 1]; cum[0] = 0;
  for (int i = 0; i < HX_N; i++) {
    int dir = (int) HX_BACK == 2 && i < 2 ? i : (int) sym_fork("dir", 0, i ? (HX_BACK ? 3 : 2) : 0); // +x, +y, -y, -x; an immediate reversal makes positions ambiguous, only for HX_BACK 1; 2: U-turns
    double s = sym_fx("step", HX_MIN, HX_S, 0); dx[i] = dir == 0 ? 1 : dir == 3 ? -1 : 0; dy[i] = dir == 1 ? 1 : dir == 2 ? -1 : 0;
    if (i && dx[i] == -dx[i - 1] && dy[i] == -dy[i - 1] && HX_BACK != 1) sym_end();
    x += s * dx[i]; y += s * dy[i]; l.push_back(P2{x, y}); len[i] = s; cum[i + 1] = cum[i] + s;
  }
  R r{l}; const double total = cum[HX_N]; if (HX_KIND == 0) sym_assume(total > 0); // by design a plain line of equal points throws on length()
  auto at = [&](double d, P2 &p) { int i = 0; while (i + 1 < HX_N && d > cum[i + 1]) i++; double q = d - cum[i]; p = P2{gx(l[i]) + q * dx[i], gy(l[i]) + q * dy[i]}; return i; };
  double f = sym_fx("from", 0, 2 * HX_N * HX_S, 1), t = sym_fx("to", 0, 2 * HX_N * HX_S, 1); sym_assume(f <= total); sym_assume(t <= total);
  P2 pf, ptt; at(f, pf); at(t, ptt); if (HX_BACK == 1 && f != t && nearp(pf, ptt)) sym_end(); // positions given by points are ambiguous there
  auto verify = [&](const R &s, double f, double t, const P2 &pf, const P2 &ptt) {
    if (!(f < t)) { sym_assert(s.empty(), "an empty or reversed range gives an empty line"); return; }
    sym_assert(s.size() >= 2, "a proper range gives a line"); if (s.size() < 2) return;
    sym_assert(nearp(s.front(), pf), "starts at the first position"); sym_assert(nearp(s.back(), ptt), "ends at the second position");
    sym_assert(s.has_length() && near(s.length(), t - f), "length is the difference of the positions");
    // apart from repeated points: first position, the points strictly between, second position
    std::size_t k = 0; auto next = [&] { k++; while (k < s.size() && same_point(s[k], s[k - 1])) k++; };
    next(); for (int i = 1; i < HX_N; i++) if (cum[i] > f + EPS && cum[i] < t - EPS && cum[i] > cum[i - 1]) {
      sym_assert(k < s.size(), "inner points are kept"); if (k >= s.size()) return; sym_assert(nearp(s[k], l[i]), "inner points are those between the positions"); next(); }
    sym_assert(k < s.size(), "ends after the inner points"); if (k >= s.size()) return; sym_assert(nearp(s[k], ptt), "nothing but the inner points between the ends"); next(); sym_assert(k >= s.size(), "nothing after the second position");
  };
#if MODE == 0
  int m = (int) sym_fork("mode", 0, 3);
  if (m == 0) verify(geometry::substring(r, f, t), f, t, pf, ptt);
  if (m == 1) verify(geometry::substring_from(r, f), f, total, pf, l.back());
  if (m == 2) verify(geometry::substring_to(r, t), 0, t, l.front(), ptt);
  if (m == 3) { if (f == t) sym_end(); verify(geometry::substring(r, f, t, pf, ptt, sym_fork("use", 0, 1), true), f, t, pf, ptt); }
#else
  bool use = sym_fork("use", 0, 1);
  int m = (int) sym_fork("mode", 0, 3);
  if (m == 0) { auto d = geometry::distances(r, pf, ptt, true, true, use, use); sym_assert(near(d.first, f), "distance of the first point along the line"); sym_assert(near(d.second, t), "distance of the second point along the line"); }
  if (m == 1) { if (f == t) sym_end(); verify(geometry::substring_points(r, pf, ptt, use, use), f, t, pf, ptt); }
  if (m == 2) verify(geometry::substring_point_from(r, pf, use), f, total, pf, l.back());
  if (m == 3) verify(geometry::substring_point_to(r, ptt, use), 0, t, l.front(), ptt);
#endif
  sym_reach("end");
}
