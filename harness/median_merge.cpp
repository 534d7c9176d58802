// Merging of points that lie close together: the line is cut into runs (a point and the points directly following it that
// are within the tolerance of it), each run becomes its coordinate-wise median.
#include "pmr.h"
#define MAP_MATCHING_2_GEOMETRY_ALGORITHM_BUFFER_HPP // the search box is replaced by its contract below
#include "geo_common.h"
namespace map_matching_2::geometry { // contract of the search box: it contains the circle around the point
  template<typename Point> typename models<Point>::box_type buffer_box(const Point &p, const double r) { using B = typename models<Point>::box_type; return B{Point{gx(p) - r, gy(p) - r}, Point{gx(p) + r, gy(p) + r}}; }
}
#include "geometry/algorithm/median_merge.hpp"
static double px[8], py[8];
static double med(const double *a, int f, int n) { double b[8]; for (int i = 0; i < n; i++) b[i] = a[f + i]; for (int i = 0; i < n; i++) for (int j = 0; j + 1 < n; j++) { double x = b[j], y = b[j + 1]; bool c = x <= y; b[j] = c ? x : y; b[j + 1] = c ? y : x; } return n % 2 ? b[n / 2] : (b[n / 2 - 1] + b[n / 2]) / 2; }
extern "C" void sym_harness() {
  static const double tols[] = {0.5, 1.2, 2.3}; double tol = tols[sym_fork("tolerance", 0, 2)]; Line l;
  for (int i = 0; i < HX_N; i++) { px[i] = sym_fx("x", 0, HX_X, 0); py[i] = sym_fx("y", 0, HX_Y, 0); l.push_back(P2{px[i], py[i]}); }
  Line r = geometry::median_merge(l, tol);
  std::size_t k = 0;
  for (int i = 0; i < HX_N;) { int j = i + 1; while (j < HX_N) { double dx = px[j] - px[i], dy = py[j] - py[i]; if (std::sqrt(dx * dx + dy * dy) > tol) break; j++; }
    sym_assert(k < r.size(), "one point per run"); sym_assert(gx(r[k]) == med(px, i, j - i) && gy(r[k]) == med(py, i, j - i), "a run becomes its median"); k++; i = j; }
  sym_assert(k == r.size(), "only one point per run"); sym_reach("end");
}
