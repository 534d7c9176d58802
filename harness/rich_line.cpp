// Any history of K operations on a rich line leaves every cached value equal to a recomputation on the plain line.
#include "geo_common.h"
static P2 pt(const char *n) { double x = sym_fx(n, 0, HX_X, 0); double y = sym_fx(n, 0, HX_Y, 0); return P2{x, y}; }
template<typename R> static void compare(const R &r, const char *what) {
  Plain p{r.line()}; const std::size_t n = p.size();
  for (std::size_t i = 0; i + 1 < n; i++) {
    bool h = p.has_length(i); sym_assert(r.has_length(i) == h, "segment length availability"); if (h) sym_assert(r.length(i) == p.length(i), "segment length");
    h = p.has_azimuth(i); sym_assert(r.has_azimuth(i) == h, "segment azimuth availability"); if (h) sym_assert(r.azimuth(i) == p.azimuth(i), "segment azimuth");
    auto s = r.rich_segment(i); sym_assert(same_point(s.first(), p[i]) && same_point(s.second(), p[i + 1]) && s.has_length() == p.has_length(i) && (!p.has_length(i) || s.length() == p.length(i)), "segment of the line");
  }
  for (std::size_t i = 0; i + 2 < n; i++) { bool h = p.has_direction(i); sym_assert(r.has_direction(i) == h, "direction availability"); if (h) { sym_assert(r.direction(i) == p.direction(i), "direction"); sym_assert(r.absolute_direction(i) == p.absolute_direction(i), "absolute direction"); } }
  bool h = p.has_length(); sym_assert(r.has_length() == h, "length availability"); if (h) sym_assert(r.length() == p.length(), "length");
  h = p.has_azimuth(); sym_assert(r.has_azimuth() == h, "azimuth availability"); if (h) sym_assert(r.azimuth() == p.azimuth(), "azimuth");
  h = p.has_directions(); sym_assert(r.has_directions() == h, "directions availability"); if (h) { sym_assert(r.directions() == p.directions(), "directions"); sym_assert(r.absolute_directions() == p.absolute_directions(), "absolute directions"); }
}
template<typename R> static void query(const R &r, int q) { // fills some of the caches of a lazy line
  if (q == 1) { if (r.size() >= 2) (void) r.length(0); } if (q == 2) (void) r.has_length(); if (q == 3) (void) r.has_azimuth(); if (q == 4) (void) r.has_directions(); if (q == 5) { (void) r.has_length(); (void) r.has_azimuth(); (void) r.has_directions(); } if (q == 6 && r.size() >= 3) (void) r.has_direction(r.size() - 3);
}
#if HX_LAZY
using R = Lazy; using O = Eager; enum { QN = 6 };
#else
using R = Eager; using O = Lazy; enum { QN = 0 };
#endif
static Line sub(const Line &l, std::size_t a, std::size_t b) { return Line(l.begin() + a, l.begin() + b); }
static bool same_line(const Line &a, const Line &b) { if (a.size() != b.size()) return false; bool s = true; for (std::size_t i = 0; i < a.size(); i++) s = s & same_point(a[i], b[i]); return s; }
extern "C" void sym_harness() {
  const int n0 = (int) sym_fork("points", HX_N < 0 ? 0 : HX_N, HX_N < 0 ? -HX_N : HX_N); Line l; for (int i = 0; i < n0; i++) l.push_back(pt("p"));
  R r{l}; Line m = l;
  for (int k = 0; k < HX_K; k++) {
    query(r, HX_Q ? (int) sym_fork("query", 0, 1) * 5 * (QN > 0) : (int) sym_fork("query", 0, QN));
    const int n = (int) m.size();
    switch (sym_fork("op", 0, 5)) {
      case 0: { if (!n) sym_end(); int i = (int) sym_fork("index", 0, n - 1); r.erase((std::size_t) i, true); m.erase(m.begin() + i); break; }
      case 1: { std::vector<std::size_t> ix; for (int i = 0; i < n; i++) if (sym_fork("erase", 0, 1)) ix.push_back(i); r.erase(ix); for (std::size_t i = ix.size(); i-- > 0;) m.erase(m.begin() + ix[i]); break; }
      case 2: { if (!n) sym_end(); int a = (int) sym_fork("from", 0, n - 1), b = (int) sym_fork("to", a, n); R s = r.sub_rich_line(a, b); compare(r, "original"); r = std::move(s); m = sub(m, a, b); break; }
      case 3: { Line t; if (n) t.push_back(m.back()); int c = (int) sym_fork("merged", 0, 1); for (int i = 0; i < (c ? 2 : 1); i++) t.push_back(pt("q")); R o{t}; query(o, (int) sym_fork("mquery", 0, QN ? 2 : 0) * 2);
        if (sym_fork("vector", 0, 1)) { std::vector<R> v; v.push_back(std::move(o)); if (c) { Line u{t.back()}; v.emplace_back(u); } r.merge(std::move(v)); } else r.merge(std::move(o)); for (std::size_t i = n ? 1 : 0; i < t.size(); i++) m.push_back(t[i]); break; }
      case 4: { int c = (int) sym_fork("assigned", 0, 2); Line t; for (int i = 0; i < c; i++) t.push_back(pt("a")); m = t;
        switch (sym_fork("assign", 0, 4)) { case 0: r = Plain{t}; break; case 1: { O o{t}; r = o; break; } case 2: { R o{t}; query(o, QN ? 5 : 0); r = o; break; } case 3: r = std::move(t); break; case 4: { R o{t}; r = std::move(o); break; } } break; }
      case 5: { switch (sym_fork("copy", 0, 3)) { case 0: { R c{r}; compare(c, "copy"); r = c; break; } case 1: { R c{std::move(r)}; r = std::move(c); break; } case 2: { O o{r}; compare(o, "converted"); r = o; break; } case 3: { Plain p{static_cast<const Plain &>(r)}; R c{p}; r = c; break; } } break; }
    }
    sym_assert(same_line(r.line(), m), "points of the line");
  }
  compare(r, "result");
  sym_reach("end");
}
