// Simplification removes only points that stay within the tolerance of what replaces them.
#include "geo_common.h"
#include "pmr.h"
#include "geometry/algorithm/simplify.hpp"
static double px[8], py[8];
static double dist(int i, int a, int b) { // distance of point i to the segment a-b
  double dx = px[b] - px[a], dy = py[b] - py[a], x = px[i] - px[a], y = py[i] - py[a], l2 = dx * dx + dy * dy;
  double t = l2 > 0 ? (x * dx + y * dy) / l2 : 0; t = t < 0 ? 0 : t > 1 ? 1 : t; double ex = x - t * dx, ey = y - t * dy; return std::sqrt(ex * ex + ey * ey);
}
static bool reversal(int i) { double ax = px[i] - px[i - 1], ay = py[i] - py[i - 1], bx = px[i + 1] - px[i], by = py[i + 1] - py[i]; return (ax * by - ay * bx == 0) & (ax * bx + ay * by < 0); }
static const double EPS = 1e-9;
template<typename R> static void measures(const R &r) { Line l; for (std::size_t i = 0; i < r.size(); i++) l.push_back(r.at(i)); Eager f{l};
  sym_assert(r.has_length() == f.has_length(), "length available"); if (f.has_length()) sym_assert(std::fabs(r.length() - f.length()) <= EPS, "length after simplification");
  sym_assert(r.has_directions() == f.has_directions(), "directions available"); if (f.has_directions()) sym_assert(std::fabs(r.absolute_directions() - f.absolute_directions()) <= 1e-6, "directions after simplification"); }
extern "C" void sym_harness() {
  static const double tols[] = {0.3, 0.6, 0.8, 1.2}; double tol = tols[sym_fork("tolerance", 0, 3)]; bool keep = MODE == 0 ? false : (bool) sym_fork("retain", 0, 1);
  const int n = HX_N; Line l;
  for (int i = 0; i < n; i++) { px[i] = sym_fx("x", 0, HX_X, 0); py[i] = sym_fx("y", 0, HX_Y, 0);
#if MODE == 2
    if (i) sym_assume(px[i] != px[i - 1] || py[i] != py[i - 1]); // segments of the movement have a direction
#endif
    l.push_back(P2{px[i], py[i]}); }
  std::vector<int> gone(n, 0), rev(n, 0); if (keep) for (int i = 1; i + 1 < n; i++) rev[i] = reversal(i);
#if MODE == 2
  using ST = geometry::models<P2>::segment_type; using S = geometry::lazy_rich_segment<ST>;
  std::pmr::list<S> segs; for (int i = 0; i + 1 < n; i++) segs.push_back(S{ST{l[i], l[i + 1]}});
  geometry::simplify_rich_segments(segs, keep, tol);
  sym_assert(!segs.empty() && segs.size() <= (std::size_t) n - 1, "some segments remain");
  // the remaining points are a subsequence of the points of the line: some choice of indices satisfies the property
  std::vector<P2> r; { bool first = true; for (const auto &s : segs) { if (first) r.push_back(s.first()); else sym_assert(same_point(r.back(), s.first()), "segments stay connected"); first = false; r.push_back(s.second()); } }
  int found = 0; for (int m = 0; m < 1 << (n - 2); m++) { if (__builtin_popcount(m) + 2 != (int) r.size()) continue; bool ok = true; int k = 0, prev = 0;
      for (int i = 0; i < n && ok; i++) { if (i && i + 1 < n && !(m >> (i - 1) & 1)) { if (rev[i]) ok = false; continue; } if (!same_point(r[k++], l[i])) { ok = false; break; } for (int j = prev + 1; j < i && ok; j++) if (dist(j, prev, i) > tol + EPS) ok = false; prev = i; }
      if (ok) { found = 1; break; } }
  sym_assert(found, "the result keeps the ends, the reversals, and every point that is not within the tolerance");
  bool all = true; for (int i = 1; i + 1 < n; i++) if (rev[i] || dist(i, 0, n - 1) > tol - EPS) all = false; if (all) sym_assert(segs.size() == 1, "a straight movement becomes one segment");
  for (auto &s : segs) { double dx = gx(s.second()) - gx(s.first()), dy = gy(s.second()) - gy(s.first()), len = std::sqrt(dx * dx + dy * dy); sym_assert(s.has_length() == (len > 0), "segment length available"); if (len > 0) sym_assert(std::fabs(s.length() - len) <= EPS, "segment length"); }
#else
#if MODE == 0
  std::vector<std::size_t> idx = geometry::simplify_indices(l, 0, n, tol);
#else
#if HX_LAZY
  Lazy r{l}; if (sym_fork("queried", 0, 1)) { (void) r.has_length(); (void) r.has_directions(); (void) r.has_azimuth(); }
#else
  Eager r{l};
#endif
  std::vector<std::size_t> idx = geometry::simplify_rich_line_indices(r, keep, tol);
#endif
  std::size_t last = 0; for (std::size_t i : idx) { sym_assert(i > last && i + 1 < (std::size_t) n, "removed indices are inner, ascending and unique"); last = i; gone[i] = 1; }
  int prev = 0; for (int i = 1; i < n; i++) if (!gone[i]) { for (int j = prev + 1; j < i; j++) sym_assert(dist(j, prev, i) <= tol + EPS, "a removed point is within the tolerance of the segment replacing it"); prev = i; }
  for (int i = 1; i + 1 < n; i++) if (rev[i]) sym_assert(!gone[i], "reversals are retained");
  // a part between two anchors that is straight within the tolerance collapses
  int a = 0; for (int b = 1; b < n; b++) if (b + 1 == n || rev[b]) { bool all = true; for (int i = a + 1; i < b; i++) if (dist(i, a, b) > tol - EPS) all = false; if (all) for (int i = a + 1; i < b; i++) sym_assert(gone[i], "a straight part is simplified to its ends"); a = b; }
#if MODE == 0
  geometry::simplify(l, 0, n, tol); const Line &o = l;
#else
  geometry::simplify_rich_line(r, keep, tol); const auto &o = r.line(); measures(r);
#endif
  std::size_t k = 0; for (int i = 0; i < n; i++) if (!gone[i]) { sym_assert(k < o.size() && gx(o[k]) == px[i] && gy(o[k]) == py[i], "exactly the other points remain, in order"); k++; } sym_assert(k == o.size(), "nothing else remains");
#endif
  sym_reach("end");
}
