// Angle differences, degree conversion, powers of two, ordering/equality/hashing of points, line measures from first principles.
#include "geo_common.h"
#include "geometry/common.hpp"
#include "geometry/algorithm/length.hpp"
#include "geometry/algorithm/direction.hpp"
#include "geometry/algorithm/reverse.hpp"
#ifndef HX_N
#define HX_N 3
#endif
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-6; }
extern "C" void sym_harness() {
#if MODE == 0
  double a = sym_fx("a", -360ll << 20, 360ll << 20, 20), b = sym_fx("b", -360ll << 20, 360ll << 20, 20); double x = a - b; sym_assume((x >= -360) & (x <= 360));
  double d = geometry::angle_diff(a, b), r = geometry::angle_diff(b, a);
  sym_assert((d >= -180) & (d <= 180), "an angle difference is at most a half turn"); sym_assert(d == -r, "swapping the angles turns the difference around");
  sym_assert((d == x) | (d == x - 360) | (d == x + 360), "an angle difference is the difference up to a full turn"); if (x > -180 && x < 180) sym_assert(d == x, "a difference below a half turn is kept");
  sym_assert(geometry::direction_deg(a, b) == d, "the direction change between azimuths is their angle difference");
#elif MODE == 1
  uint64_t x = sym_u64("x"); sym_assume(x >= 1 && x <= (1ull << 63)); uint64_t p = geometry::next_pow2(x);
  sym_assert(p && (p & (p - 1)) == 0, "a power of two"); sym_assert(p >= x, "not below the value"); sym_assert(p / 2 < x, "the smallest one");
#elif MODE == 2
  P2 p[3]; for (auto &q : p) { double x = sym_fx("x", -1ll << 40, 1ll << 40, 20), y = sym_fx("y", -1ll << 40, 1ll << 40, 20); q = P2{x, y}; }
  auto &a = p[0], &b = p[1], &c = p[2]; bool ab = a < b, ba = b < a, bc = b < c, ac = a < c, eq = a == b, eqb = b == c;
  sym_assert((gx(a) == gx(b) && gy(a) == gy(b)) == eq, "points are equal iff their coordinates are"); sym_assert((a != b) == !eq, "inequality"); sym_assert((int) ab + ba + eq == 1, "points are totally ordered");
  sym_assert(!(ab && bc) || ac, "the order is transitive"); sym_assert(!(eq && eqb) || a == c, "equality is transitive"); sym_assert((a <= b) == !ba && (a > b) == ba && (a >= b) == !ab, "the comparison operators agree");
  sym_assert(ab == (gx(a) < gx(b) || (gx(a) == gx(b) && gy(a) < gy(b))), "lexicographic order");
  sym_assert(geometry::equals_points(a, b) == eq, "equals_points is the same equality");
#elif MODE == 3
  static const double vals[] = {0.0, -0.0, 1.5, -1.5, 1e-300, 1e300};
  P2 a{sym_pick("x", vals, 6), sym_pick("y", vals, 6)}, b{sym_pick("x", vals, 6), sym_pick("y", vals, 6)};
  if (a == b) sym_assert(std::hash<P2>{}(a) == std::hash<P2>{}(b), "equal points have equal hashes");
#elif MODE == 4
  double a = (double) sym_int("deg", -360, 360), b = (double) sym_int("deg", -360, 360); double r = geometry::deg2rad(a), s = geometry::deg2rad(b);
  sym_assert((r < s) == (a < b), "conversion to radians keeps the order"); sym_assert(near(geometry::rad2deg(r), a), "converting back gives the degrees"); sym_assert(geometry::deg2rad(-a) == -r, "conversion is odd"); sym_assert(geometry::deg2rad(180.0) == 3.141592653589793, "a half turn");
#elif MODE == 6
  // every coordinate system: the length of a line is the sum of the distances of its points, in meters
  using P = geometry::point_type<HX_CS>; using L = geometry::models<P>::line_type<>; L l; double sum = 0;
  for (int i = 0; i < HX_N; i++) { l.emplace_back((double) sym_int("x", 0, HX_X), (double) sym_int("y", 0, HX_Y)); if (i) { double d = geometry::point_distance(l[i - 1], l[i]); sym_assert(d >= 0, "distances are not negative"); sym_assert((d == 0) == (l[i - 1] == l[i]), "only equal points have no distance"); sym_assert(std::fabs(d - geometry::point_distance(l[i], l[i - 1])) <= 1e-6, "distances are symmetric"); sum += d; } }
  sym_assert(std::fabs(geometry::length(l) - sum) <= 1e-6 * (1 + sum), "the length of a line is the sum of the distances between its points");
  geometry::eager_rich_line<P> e{l}; geometry::lazy_rich_line<P> z{l}; geometry::rich_line<P> p{l}; if (sum != 0) sym_assert(std::fabs(e.length() - sum) <= 1e-6 * (1 + sum) && std::fabs(z.length() - sum) <= 1e-6 * (1 + sum) && std::fabs(p.length() - sum) <= 1e-6 * (1 + sum), "the length of rich lines");
  P a{0, 0}, b{0, 1}; sym_assert(HX_DEG - 1000 < geometry::distance(a, b) && geometry::distance(a, b) < HX_DEG + 1000, "a degree of latitude in meters");
#else
  // compass lines: steps to one of the eight neighbours or of length zero
  int n = HX_N; Line l; double len = 0, dir = 0, adir = 0, last = 0, rdir = 0, radir = 0; bool has = false, was = false; int64_t x = 0, y = 0; l.emplace_back(0, 0);
  for (int i = 1; i < n; i++) { int64_t dx = sym_int("dx", -1, 1), dy = sym_int("dy", -1, 1), m = sym_int("m", 1, HX_M); dx *= m; dy *= m; x += dx; y += dy; l.emplace_back(x, y);
    double s = dx && dy ? m * 1.4142135623730951 : dx || dy ? m : 0; len += s;
    double az = dx == 0 ? (dy < 0 ? 180 : 0) : dy == 0 ? (dx > 0 ? 90 : -90) : dx > 0 ? (dy > 0 ? 45 : 135) : (dy > 0 ? -45 : -135);
    sym_assert(near(geometry::point_distance(l[i - 1], l[i]), s), "distance of two points"); sym_assert(near(geometry::euclidean_distance(l[i - 1], l[i]), s), "euclidean distance of two points");
    double got = geometry::azimuth_deg(l[i - 1], l[i]); sym_assert(near(got, az) || (az == 180 && near(got, -180)), "azimuth from north, clockwise"); if (az == 180) az = got;
    if (i > 1) { double t = az - last; if (t >= 180 - 1e-9) t -= 360; else if (t <= -180 + 1e-9) t += 360; bool half = near(std::fabs(t), 180);
      double g = geometry::direction_deg(l[i - 2], l[i - 1], l[i]); if (half) { sym_assert(near(std::fabs(g), 180), "a reversal is a half turn"); t = -g; } sym_assert(near(-g, t) , "direction change"); dir += -t; adir += std::fabs(t); if (was & (s != 0)) { has = true; rdir += -t; radir += std::fabs(t); } }
    was = s != 0;
    last = az; }
  sym_assert(near(geometry::length(l), len), "the length is the sum of the distances"); sym_assert(near(geometry::directions_deg(l), dir), "directions are the sum of the turns"); sym_assert(near(geometry::absolute_directions_deg(l), adir), "absolute directions are the sum of the absolute turns");
  auto [cd, ca] = geometry::combined_directions_deg(l); sym_assert(near(cd, dir) && near(ca, adir), "combined directions");
  Eager e{l}; Lazy z{l}; Plain p{l}; 
  sym_assert(e.has_length() == (len != 0) && z.has_length() == (len != 0) && p.has_length() == (len != 0), "rich lines have a length if they are not degenerate"); sym_assert(e.has_directions() == has && z.has_directions() == has && p.has_directions() == has, "rich lines have turns if there are two consecutive segments of positive length");
  if (len != 0) sym_assert(near(e.length(), len) && near(z.length(), len) && near(p.length(), len), "length of rich lines");
  if (has) sym_assert(near(e.directions(), rdir) && near(e.absolute_directions(), radir) && near(z.directions(), rdir) && near(z.absolute_directions(), radir) && near(p.directions(), rdir) && near(p.absolute_directions(), radir), "turns of rich lines");
  Line r{l.rbegin(), l.rend()}; sym_assert(geometry::lines_are_reversed(l, r), "a line and its reversal"); bool pal = true; for (int i = 0; i < n; i++) pal &= same_point(l[i], l[n - 1 - i]); sym_assert(geometry::lines_are_reversed(l, l) == pal, "a line is its own reversal only if it is a palindrome");
#endif
  sym_reach("end");
}
