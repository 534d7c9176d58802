// Comparison of a matched line with a ground truth line.
#include "pmr.h"
#define MAP_MATCHING_2_GEOMETRY_ALGORITHM_BUFFER_HPP // the search box is replaced by its contract below
#include "geo_common.h"
namespace map_matching_2::geometry { // contract of the search box: it contains the circle around the point
  template<typename Point> typename models<Point>::box_type buffer_box(const Point &p, const double r) { using B = typename models<Point>::box_type; return B{Point{gx(p) - r, gy(p) - r}, Point{gx(p) + r, gy(p) + r}}; }
}
#include "geometry/algorithm/compare.hpp"
using Multi = geometry::multi_rich_line<Plain>;
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-6; }
static double len(const Line &l) { double s = 0; for (std::size_t i = 1; i < l.size(); i++) s += geometry::point_distance(l[i - 1], l[i]); return s; }
static Line line(int n) { Line l; for (int i = 0; i < n; i++) l.emplace_back(sym_fx("x", 0, HX_X, 0), sym_fx("y", 0, HX_Y, 0)); return l; }
template<class R> static void general(const R &r, double gl, double cl) {
  sym_assert(r.correct_fraction >= 0 && r.correct_fraction <= 1, "accuracy between 0 and 1"); sym_assert(r.error_fraction >= 0 && r.correct >= 0 && r.error_added >= 0 && r.error_missed >= 0, "nothing is negative");
  if (gl > 0) sym_assert(near(r.error_fraction, (r.error_added + r.error_missed) / gl), "the error fraction is relative to the ground truth");
  sym_assert((r.error_fraction == 0) == (r.error_added == 0 && r.error_missed == 0), "no error means none added or missed"); sym_assert(r.error_fraction != 0 || r.correct_fraction == 1, "no error means fully correct");
  if (r.error_fraction != 0 && gl > 0 && cl > 0) sym_assert(near(r.correct_fraction, std::min(1.0, r.correct / std::max(gl, cl))), "accuracy relative to the longer line"); if (r.error_fraction != 0 && (gl > 0) != (cl > 0)) sym_assert(r.correct_fraction == 0, "nothing correct if only one line has a length");
  double c = 0, a = 0, m = 0; for (auto &s : r.corrects) c += s.has_length() ? s.length() : 0; for (auto &s : r.error_adds) a += s.has_length() ? s.length() : 0; for (auto &s : r.error_misses) m += s.has_length() ? s.length() : 0;
  sym_assert(near(c, r.correct) && near(a, r.error_added) && near(m, r.error_missed), "lengths are those of the listed segments");
}
// how often the line runs along the unit edge from (x,y) to the right (d=0) or up (d=1), forwards (r=0) or backwards (r=1)
static int covers(const Line &l, int d, int x, int y, int r) { int n = 0; for (std::size_t i = 1; i < l.size(); i++) { double x0 = gx(l[i - 1]), y0 = gy(l[i - 1]), x1 = gx(l[i]), y1 = gy(l[i]); double s0 = d ? y0 : x0, s1 = d ? y1 : x1, o0 = d ? x0 : y0, o1 = d ? x1 : y1, s = d ? y : x, o = d ? x : y; bool on = (o0 == o) & (o1 == o); n += r ? on & (s0 >= s + 1) & (s1 <= s) : on & (s0 <= s) & (s1 >= s + 1); } return n; }
extern "C" void sym_harness() {
#if MODE == 0
  Line l = line(HX_N); geometry::line_comparator<Multi> cmp; cmp.split_distance_tolerance = HX_SPLIT; cmp.adoption_distance_tolerance = HX_ADOPT;
  auto r = cmp.compare(Plain{l}, Plain{l}); general(r, len(l), len(l)); sym_assert(r.error_fraction == 0 && r.correct_fraction == 1, "a line equals itself");
  if (HX_ADOPT < 0.5) sym_assert(near(r.correct, len(l)), "all of it is correct");
#elif MODE == 3
  // tiny differences are no errors
  Line a = line(HX_N), b; for (auto &p : a) b.emplace_back(gx(p) + sym_fx("ex", -1, 1, 5), gy(p) + sym_fx("ey", -1, 1, 5)); for (std::size_t i = 1; i < a.size(); i++) sym_assume((gx(a[i - 1]) != gx(a[i])) | (gy(a[i - 1]) != gy(a[i])));
  geometry::line_comparator<Multi> cmp; cmp.split_distance_tolerance = HX_SPLIT; cmp.adoption_distance_tolerance = HX_ADOPT;
  auto r = cmp.compare(Plain{a}, Plain{b}); general(r, len(a), len(b)); sym_assert(r.error_fraction == 0 && r.correct_fraction == 1, "a line within the tolerance is correct");
#elif MODE == 4
  // a line cut into parts compares like the whole line
  Line a = line(HX_N), b = line(HX_M); geometry::line_comparator<Multi> cmp; cmp.split_distance_tolerance = HX_SPLIT; cmp.adoption_distance_tolerance = HX_ADOPT;
  int k = (int) sym_fork("cut", 0, HX_N - 1); Multi ma{std::vector<Plain>{Plain{Line{a.begin(), a.begin() + k + 1}}, Plain{Line{a.begin() + k, a.end()}}}}, mb{Plain{b}};
  auto r = cmp.compare(ma, mb); general(r, len(a), len(b)); auto q = cmp.compare(Plain{a}, Plain{b}); sym_assert(near(r.correct, q.correct) && near(r.error_added, q.error_added) && near(r.error_missed, q.error_missed) && near(r.correct_fraction, q.correct_fraction), "cutting the ground truth changes nothing");
  auto w = cmp.compare(mb, ma), v = cmp.compare(Plain{b}, Plain{a}); sym_assert(near(w.correct, v.correct) && near(w.error_added, v.error_added) && near(w.error_missed, v.error_missed), "cutting the other line changes nothing");
#else
  Line a = line(HX_N), b = line(HX_M); geometry::line_comparator<Multi> cmp; cmp.split_distance_tolerance = HX_SPLIT; cmp.adoption_distance_tolerance = HX_ADOPT;
  for (auto *l : {&a, &b}) for (std::size_t i = 1; i < l->size(); i++) sym_assume((gx((*l)[i - 1]) == gx((*l)[i])) | (gy((*l)[i - 1]) == gy((*l)[i])));
#if MODE == 2
  // lines on the unit grid that use no unit edge twice in the same direction (reversals are fine): what both use in the same direction is correct
  double common = 0; bool once = true;
  for (int d = 0; d < 2; d++) for (int x = 0; x <= HX_X - !d; x++) for (int y = 0; y <= HX_Y - d; y++) { int ca[2], cb[2]; for (int r = 0; r < 2; r++) { ca[r] = covers(a, d, x, y, r); cb[r] = covers(b, d, x, y, r); } once &= (ca[0] <= 1) & (ca[1] <= 1) & (cb[0] <= 1) & (cb[1] <= 1); common += (double) (ca[0] * cb[0] + ca[1] * cb[1]); }
  sym_assume(once);
#endif
  auto r = cmp.compare(Plain{a}, Plain{b}); general(r, len(a), len(b));
#if MODE == 2
  sym_assert(near(r.correct, common), "what both lines share is correct"); sym_assert(near(r.error_missed, len(a) - common), "the rest of the ground truth is missed"); sym_assert(near(r.error_added, len(b) - common), "the rest of the other line is added");
#endif
#endif
  sym_reach("end");
}
