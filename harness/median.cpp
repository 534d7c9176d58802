// Median, median absolute deviation, coordinate-wise median point.
#if HX_ANY_NTH
#include "sym.h"
#include <algorithm>
#include <iterator>
#include <vector>
// nth_element as the standard specifies it, every permutation that satisfies it (the library's own one
// behaves differently depending on the size, beyond what can be executed symbolically)
namespace std { template<class It> void hx_any_nth_element(It f, It nth, It l) {
  std::vector<typename std::iterator_traits<It>::value_type> o(f, l); int n = (int) o.size(), at = (int) (nth - f); std::vector<int> used(n, 0); if (at >= n) return;
  for (int i = 0; i < n; i++) { int c = (int) sym_fork("nth", 0, n - 1); if (used[c]) sym_end(); used[c] = 1; f[i] = o[c]; }
  for (int i = 0; i < n; i++) { if (i < at) sym_assume(f[i] <= f[at]); if (i > at) sym_assume(f[at] <= f[i]); }
}
  template<class It, class C> void hx_any_nth_element(It f, It n, It l, C c) { nth_element(f, n, l, c); } }
#define nth_element hx_any_nth_element
#endif
#include "geo_common.h"
#include "geometry/algorithm/median.hpp"
static void order(double *a, int n) { for (int i = 0; i < n; i++) for (int j = 0; j + 1 < n; j++) { double x = a[j], y = a[j + 1]; bool c = x <= y; a[j] = c ? x : y; a[j + 1] = c ? y : x; } }
static double oracle(double *a, int n) { order(a, n); return n % 2 ? a[n / 2] : (a[n / 2 - 1] + a[n / 2]) / 2; }
extern "C" void sym_harness() {
  int n = HX_N < 0 ? (int) sym_fork("n", 1, -HX_N) : HX_N; double a[16], b[16], c[16]; std::vector<double> v;
  for (int i = 0; i < n; i++) { a[i] = sym_fx("v", -HX_V, HX_V, 1); b[i] = a[i]; v.push_back(a[i]); }
#if MODE == 0
  double m = geometry::median(v); sym_assert(m == oracle(a, n), "the median is the middle value, or the mean of the two middle values");
#elif MODE == 1
  double m = geometry::median_absolute_deviation(v); double o = oracle(a, n);
  for (int i = 0; i < n; i++) { double x = b[i] - o; c[i] = x < 0 ? -x : x; }
  sym_assert(m == oracle(c, n), "the median of the distances to the median");
#else
  std::vector<P2> p; for (int i = 0; i < n; i++) { c[i] = sym_fx("y", -HX_V, HX_V, 1); p.push_back(P2{a[i], c[i]}); }
  P2 m = geometry::median_point(p); sym_assert(gx(m) == oracle(a, n), "median of the first coordinates"); sym_assert(gy(m) == oracle(c, n), "median of the second coordinates");
#endif
  sym_reach("end");
}
