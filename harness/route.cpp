// Routes: own/reference bookkeeping (MODE 0), measures (MODE 1), return lines and trimming (MODE 2), joining (MODE 3).
#define GEO_NO_LINES
#include "geo_common.h"
#include "types/geometry/network/route/route.hpp"
#include "types/geometry/network/route/eager_route.hpp"
#include "types/geometry/network/route/lazy_route.hpp"
#include <memory>
using Line = geometry::linestring_type<P2>; using Plain = geometry::rich_line_type<P2>; using Eager = geometry::eager_rich_line_type<P2>; using Lazy = geometry::lazy_rich_line_type<P2>;
using V = geometry::rich_line_variant<geometry::cs_cartesian>;
using PR = geometry::network::route_type<geometry::cs_cartesian>; using ER = geometry::network::eager_route_type<geometry::cs_cartesian>; using LR = geometry::network::lazy_route_type<geometry::cs_cartesian>;
#if HX_KIND == 0
using R = PR;
#elif HX_KIND == 1
using R = ER;
#else
using R = LR;
#endif
using RV = R::rich_line_reference_variant_type; typedef std::vector<P2> Pts; typedef std::vector<Pts> Lines;
#ifndef HX_LO
#define HX_LO 0
#define HX_HI 7
#endif
#ifndef HX_MID
#define HX_MID 2
#endif
static P2 pt(const char *n) {
#ifdef HX_CONC
  static int c = 0; (void) n; return P2{double(c++), 0.0};
#endif
  double x = sym_fx(n, 0, HX_X, 0), y = 0; if (HX_Y) y = sym_fx(n, 0, HX_Y, 0); return P2{x, y}; }
template<typename Q> static Lines lines(const Q &r) { Lines o; for (auto &v : r.rich_lines()) { Pts p; std::visit([&](auto &&l) { for (std::size_t i = 0; i < l.get().size(); i++) p.push_back(l.get().at(i)); }, v); o.push_back(p); } return o; }
static void same(const Lines &a, const Lines &b, const char *m) { sym_assert(a.size() == b.size(), m); for (std::size_t i = 0; i < a.size(); i++) { sym_assert(a[i].size() == b[i].size(), m); bool s = true; for (std::size_t j = 0; j < a[i].size(); j++) s = s & same_point(a[i][j], b[i][j]); sym_assert(s, m); } }
static Pts flat(const Lines &l) { Pts o; for (auto &p : l) for (auto &x : p) if (o.empty() || !same_point(o.back(), x)) o.push_back(x); return o; }
static void same_way(const Pts &a, const Pts &b, const char *m) { if (b.size() <= 1) { sym_assert(a.size() <= 1, m); return; } sym_assert(a.size() == b.size(), m); for (std::size_t j = 0; j < a.size(); j++) sym_assert(same_point(a[j], b[j]), m); }
static double dist(const P2 &a, const P2 &b) { return geometry::point_distance(a, b); }
struct Store { std::list<Lazy> l; std::list<Eager> e; };
// a route over the given points, each line owned by the route or referenced in the store
static R make(const Lines &ls, Store &st, const char *nm, bool all_own = false, bool all_ref = false) {
  std::list<V> own; std::vector<RV> refs;
  for (auto &p : ls) { Line l(p.begin(), p.end()); int kind = all_own ? 0 : all_ref ? 1 : (int) sym_fork(nm, 0, 1);
    if (kind == 0) { auto &v = own.emplace_back(Lazy{l}); std::visit([&](auto &&x) { refs.emplace_back(std::cref(x)); }, v); }
    else if (kind == 1) { auto &x = st.e.emplace_back(l); refs.emplace_back(std::cref(x)); } }
  return R{std::move(own), std::move(refs)};
}
static Lines shape(const char *nm, int lmin, int lmax, int pmin, int pmax, bool attached) { Lines o; int n = (int) sym_fork(nm, lmin, lmax); for (int i = 0; i < n; i++) { int k = (int) sym_fork("size", pmin, pmax); Pts p; for (int j = 0; j < k; j++) p.push_back(attached && !j && i && !o.back().empty() ? o.back().back() : pt("p")); o.push_back(p); } return o; }
static bool mergeable(const Lines &l) { for (auto &p : l) for (std::size_t i = 0; i + 1 < p.size(); i++) if (!same_point(p[i], p[i + 1])) return true; return false; }
static bool near(double a, double b) { return std::fabs(a - b) < 1e-9; }
static void measures(const R &r, const char *m) { // measures are those of the lines of the route
  PR p{std::vector<RV>(r.rich_lines())}; if (r.empty()) return;
  bool h = p.has_length(); sym_assert(r.has_length() == h && (!h || near(r.length(), p.length())), m); h = p.has_azimuth(); sym_assert(r.has_azimuth() == h && (!h || near(r.azimuth(), p.azimuth())), m);
  h = p.has_directions(); sym_assert(r.has_directions() == h && (!h || (near(r.directions(), p.directions()) && near(r.absolute_directions(), p.absolute_directions()))), m); sym_assert(r.is_connected() == p.is_connected(), m);
}
static void query(const R &r, int q) { if (q & 1) (void) r.has_length(); if (q & 2) (void) r.has_azimuth(); if (q & 4) (void) r.has_directions(); }
extern "C" void sym_harness() {
  Store st;
#if MODE == 0
  Lines a = shape("lines", 1, HX_N, 1, HX_P, HX_ATT); auto src = std::make_unique<R>(make(a, st, "kind")); same(lines(*src), a, "lines of the route"); query(*src, (int) sym_fork("query", 0, 1) * 7);
  Lines want; R r;
  switch (sym_fork("op", HX_LO, HX_HI)) {
    case 0: { R c{*src}; r = R{std::move(c)}; want = a; break; }
    case 1: { Lines b = shape("blines", 0, 1, 2, 2, false); r = make(b, st, "bkind"); query(r, 7); r = *src; same(lines(*src), a, "copied route is unchanged"); measures(*src, "measures of the copied route"); want = a; break; }
    case 2: { Lines b = shape("blines", 0, 1, 2, 2, false); r = make(b, st, "bkind"); query(r, 7); r = std::move(*src); want = a; break; }
    case 3: { int f = (int) sym_fork("from", 0, (int) a.size() - 1), t = (int) sym_fork("to", f, (int) a.size()); r = src->sub_route(f, t); want = Lines(a.begin() + f, a.begin() + t); break; }
    case 4: { int f = (int) sym_fork("from", 0, (int) a.size() - 1), t = (int) sym_fork("to", f + 1, (int) a.size()); int fp = (int) sym_fork("frompos", 0, (int) a[f].size() - 1), tp = (int) sym_fork("topos", f + 1 == t ? fp + 1 : 1, (int) a[t - 1].size());
      r = src->sub_route<Lazy>(f, fp, t, tp); Lines w(a.begin() + f, a.begin() + t); if (tp < (int) w.back().size()) w.back().resize(tp); w[0].erase(w[0].begin(), w[0].begin() + fp); src.reset(); same_way(flat(lines(r)), mergeable(w) ? flat(w) : Pts{}, "sub route between positions"); measures(r, "measures of the sub route"); sym_reach("end"); return; }
    case 5: case 6: { Lines b = shape("blines", 0, 2, 2, 2, false); if (!b.empty() && sym_fork("attached", 0, 1)) b[0][0] = a.back().back(); int mid = b.size() == 1 ? (int) sym_fork("middle", 0, HX_MID) : 0; R rb = make(b, st, "bkind", mid > 0); bool connect = sym_fork("connect", 0, 1), except = sym_fork("except", 0, 1);
      bool ma = mergeable(a), mb = mergeable(b), gap = ma && mb && !same_point(a.back().back(), b.front().front()); bool threw = false;
      R m; if (mid == 1) m = R{true}; else if (mid == 2) m = make(Lines{Pts{pt("m")}}, st, "mkind", true); else if (mid == 3) m = make(Lines{Pts{}}, st, "mkind", true); // a route with nothing to merge in between
      bool move = mid || sym_fork("move", 0, 1); try { std::vector<R> v; if (move) { v.emplace_back(std::move(*src)); if (mid) v.emplace_back(std::move(m)); v.emplace_back(std::move(rb)); r = R::merge<Lazy>(std::move(v), connect, except); } else r = R::merge<Lazy>({*src, rb}, connect, except); } catch (geometry::network::route_merge_exception &) { threw = true; }
      sym_assert(threw == (gap && !connect && except), "a merge over a gap fails exactly if that is requested"); if (threw) { sym_reach("end"); return; }
      if (ma) want = a; if (gap && connect) want.push_back({a.back().back(), b.front().front()}); if (mb) want.insert(want.end(), b.begin(), b.end()); sym_assert(!r.is_invalid(), "merge of valid routes is valid"); break; }
    case 7: { std::vector<R> v; v.emplace_back(true); sym_assert(R::merge<Lazy>(std::vector<R>{}).is_invalid() && R::merge<Lazy>(std::move(v)).is_invalid(), "nothing to merge"); r = R::merge<Lazy>({R{true}, *src, R{true}}); if (mergeable(a)) want = a; break; }
  }
  src.reset(); same(lines(r), want, "lines after the operation, with the source gone"); measures(r, "measures after the operation");
#elif MODE == 1
  Lines a = shape("lines", 1, HX_N, HX_PMIN, HX_P, HX_ATT); R r = make(a, st, "kind", false, HX_N > 2); query(r, HX_KIND == 2 ? (int) sym_fork("query", 0, 7) : 0);
  double len = 0; bool any = false; for (auto &p : a) for (std::size_t i = 0; i + 1 < p.size(); i++) if (!same_point(p[i], p[i + 1])) { len += dist(p[i], p[i + 1]); any = true; }
  sym_assert(r.has_length() == any && (!any || near(r.length(), len)), "length of a route is the length of its lines");
  bool con = true; const Pts *prev = nullptr; for (auto &p : a) { if (prev && !prev->empty() && !p.empty() && !same_point(prev->back(), p.front())) con = false; prev = &p; } sym_assert(r.is_connected() == con, "connected");
  if (con && HX_PMIN > 1) { // a connected route has the measures of the line along it
    Line l; for (auto &p : a) { std::size_t i = l.empty() ? 0 : 1; for (; i < p.size(); i++) l.push_back(p[i]); } Plain w{l};
    bool h = w.has_azimuth(); sym_assert(r.has_azimuth() == h && (!h || near(r.azimuth(), w.azimuth())), "azimuth of a connected route"); h = w.has_directions(); sym_assert(r.has_directions() == h && (!h || (std::fabs(r.directions() - w.directions()) < 1e-9 && std::fabs(r.absolute_directions() - w.absolute_directions()) < 1e-9)), "directions of a connected route");
    Lazy g = r.get_rich_line<Lazy>(); same({Pts(g.line().begin(), g.line().end())}, {Pts(l.begin(), l.end())}, "line along the route"); }
  measures(r, "measures agree between the kinds of routes");
#elif MODE == 2
  Lines a = shape("lines", 1, HX_N, HX_PMIN, HX_P, true), b = shape("blines", 1, HX_M, HX_PMIN, HX_P, true); if (sym_fork("attached", 0, 1)) { b[0][0] = a.back().back(); } else sym_assume(!same_point(b[0][0], a.back().back()));
  auto ra = std::make_unique<R>(make(a, st, "kind", false, HX_N > 2)), rb = std::make_unique<R>(make(b, st, "bkind", false, HX_N > 2)); Pts fa = flat(a), fb = flat(b);
  bool att = same_point(fa.back(), fb.front()); std::size_t n = fa.size(), m = fb.size(), k = 0; while (k < n && k < m && same_point(fa[n - 1 - k], fb[k])) k++;
  auto parts = ra->find_return_line(*rb); sym_assert((parts == geometry::network::route_return_line_parts{}) == !att, "a return line needs attached routes");
  if (att) { Pts back(fa.end() - k, fa.end()), forth(fb.begin(), fb.begin() + k);
    Lazy s = ra->extract_return_line<Lazy>(*rb), o = ra->extract_return_line<Lazy>(*rb, false); same_way(flat({Pts(s.line().begin(), s.line().end())}), back, "return line in the route"); same_way(flat({Pts(o.line().begin(), o.line().end())}), forth, "return line in the other route");
    Pts ta(fa.begin(), fa.end() - (k - 1)), tb(fb.begin() + (k - 1), fb.end());
    double before = 0, after = 0, ret = 0; for (std::size_t i = 0; i + 1 < n; i++) before += dist(fa[i], fa[i + 1]); for (std::size_t i = 0; i + 1 < m; i++) before += dist(fb[i], fb[i + 1]); for (std::size_t i = 0; i + 1 < k; i++) ret += dist(fb[i], fb[i + 1]);
    R t = ra->trim_merge<Lazy>(*rb); ra.reset(); rb.reset(); sym_assert(!t.is_invalid(), "trimmed route is valid"); Pts ft = flat(lines(t)); for (std::size_t i = 0; i + 1 < ft.size(); i++) after += dist(ft[i], ft[i + 1]);
    Pts w = ta; if (ta.size() >= 2 && tb.size() >= 2) { const P2 &p = ta[ta.size() - 2], &q = ta.back(), &x = tb[1]; double ux = gx(p) - gx(q), uy = gy(p) - gy(q), vx = gx(x) - gx(q), vy = gy(x) - gy(q); if (ux * vy - uy * vx == 0 && ux * vx + uy * vy > 0) w.pop_back(); } // a reversal that is left over is cut off as well
    w.insert(w.end(), tb.begin() + (ta.empty() ? 0 : 1), tb.end()); if (ta.size() < 2) w = tb; same_way(ft, w, "trimmed route is the way without the return part");
    if (w.size() == ta.size() + tb.size() - 1) sym_assert(near(after, before - 2 * ret), "trimming removes exactly both directions of the return part"); else sym_assert(after <= before - 2 * ret + 1e-9, "trimming only shortens"); measures(t, "measures of the trimmed route"); }
  else sym_assert(ra->trim_merge<Lazy>(*rb).is_invalid(), "routes that do not attach cannot be trimmed");
#else
  Lines a = shape("lines", 1, HX_N, 2, HX_P, true), b = shape("blines", 1, HX_N, 2, HX_P, true); b[0][0] = a.back().back();
  R ra = make(a, st, "kind"), rb = make(b, st, "bkind"); query(ra, (int) sym_fork("query", 0, 1) * 7); query(rb, 7); bool retain = sym_fork("retain", 0, 1); Lines wa = a, wb = b;
  const P2 &p = a.back()[a.back().size() - 2], &q = a.back().back(), &x = b[0][1]; double ux = gx(p) - gx(q), uy = gy(p) - gy(q), vx = gx(x) - gx(q), vy = gy(x) - gy(q); bool rev = ux * vy - uy * vx == 0 && ux * vx + uy * vy > 0;
  if (!(retain && rev)) { wa.back().back() = b[0][1]; wb[0].erase(wb[0].begin()); if (wb[0].size() < 2) wb.erase(wb.begin()); }
  R::join<Lazy>(ra, rb, retain); same(lines(ra), wa, "first route after joining"); same(lines(rb), wb, "second route after joining"); measures(ra, "measures of the first joined route"); measures(rb, "measures of the second joined route");
#endif
  sym_reach("end");
}
