// Floating point operations over Val.
#pragma once
#include "sym.hpp"
struct Val { u64 c = 0, h = 0; Sym *s = nullptr; };
static inline Val CV(u64 c) { Val v; v.c = c; return v; }
static inline Val SV(Sym *s) { Val v; v.s = s; return v; }
static inline Val DV(double d) { return CV(dToBits(d)); }

struct SplitVar { int var; };          // engine must case-split on this choice variable and retry
struct SplitBV { Sym *s; };            // engine must enumerate this expression and retry
extern bool fpMode;

static Sym *fxOfConst(double d) {
  i64 n; int sc; if (!dyadic(d, n, sc)) return nullptr;
  Sym *s = mkFX(nk(n, 64), sc, n, n); s->op = F_CONST; s->cval = d; s->dag = true;
  if (d == 0 && std::signbit(d)) { s->hasNz = true; s->nz = Z->bool_val(true); }
  return s;
}
static Sym *asFX(Val const &v) { if (!v.s) return fxOfConst(bitsToD(v.c)); if (v.s->k == Sym::FX) return v.s; return nullptr; }
static Sym *dagOf(Val const &v) { if (!v.s) return constNode(bitsToD(v.c)); return v.s; }
static z3::expr fpaConst(double d) { return z3::expr(*Z, Z3_mk_fpa_numeral_double(*Z, d, Z->fpa_sort(11, 52 + 1))); }
static z3::expr rne() { return z3::expr(*Z, Z3_mk_fpa_rne(*Z)); }
static z3::expr asFP(Val const &v) {
  if (!v.s) return fpaConst(bitsToD(v.c));
  if (v.s->k == Sym::FP) return v.s->e;
  if (v.s->k == Sym::FX) {
    if (liaMode) throw std::runtime_error("IEEE encoding of a linear-integer value");
    z3::expr f(*Z, Z3_mk_fpa_to_fp_signed(*Z, rne(), v.s->e, Z->fpa_sort(11, 53)));
    if (v.s->sc) f = z3::expr(*Z, Z3_mk_fpa_mul(*Z, rne(), f, fpaConst(std::ldexp(1.0, -v.s->sc))));
    if (v.s->hasNz) f = z3::ite(v.s->nz && v.s->e == Z->bv_val(0, v.s->e.get_sort().bv_size()), fpaConst(-0.0), f);
    return f;
  }
  if (v.s->k == Sym::TAB) return tabToExpr(v.s->sup, tabOf(v.s), [](double d) { return fpaConst(d); });
  if (v.s->k == Sym::BV) return z3::expr(*Z, Z3_mk_fpa_to_fp_bv(*Z, v.s->e, Z->fpa_sort(11, 53)));
  throw std::runtime_error("asFP");
}
static Val normTab(Sym *s) {
  if (domSize(s->sup) <= 8192) { auto &t = tabOf(s); bool same = true; u64 b0 = dToBits(t[0]); for (double d : t) if (dToBits(d) != b0) { same = false; break; } if (same) return CV(b0); }
  return SV(s);
}
static z3::expr fxNeg(Sym *s) {
  z3::expr z = nk(0, liaMode ? 0 : s->e.get_sort().bv_size());
  z3::expr r = nlt(s->e, z); if (s->hasNz) r = r || (s->e == z && s->nz); return r;
}
static z3::expr fxZero(Sym *s) { return s->e == nk(0, liaMode ? 0 : s->e.get_sort().bv_size()); }
static Sym *setDag(Sym *s, FOp op, Sym *a, Sym *b = nullptr, Sym *c = nullptr) { s->op = op; s->ch[0] = a; s->ch[1] = b; s->ch[2] = c; finishDag(s); return s; }
static Val fxResult(Sym *s) {
  if (s->lo == s->hi && !s->hasNz) return DV(std::ldexp((double)s->lo, -s->sc));
  return SV(s);
}
static int pickVar(std::vector<int> const &sup) { int b = sup[0]; for (int v : sup) if (choiceVars[v].vals.size() > choiceVars[b].vals.size()) b = v; return b; }
// no FX encoding possible: TAB, else FP, else split
static Val tabOrFP(FOp op, Val const &a, Val const &b, void *fn, std::function<z3::expr()> const &fp, bool two, u8 sub = 0) {
  Sym *s = new Sym(Sym::TAB); s->fn = fn; s->sub = sub;
  bool anyFP = (a.s && (a.s->k == Sym::FP || a.s->k == Sym::BV)) || (two && b.s && (b.s->k == Sym::FP || b.s->k == Sym::BV));
  if (!anyFP) {
    setDag(s, op, dagOf(a), two ? dagOf(b) : nullptr);
    if (s->dag) { if (tabable(s)) return normTab(s); if (!fpMode) throw SplitVar{pickVar(s->sup)}; }
  }
  if (fpMode && fp) return SV(mkFP(fp()));
  for (Val const *v : {&a, &b}) if (v->s && !v->s->dag && (v->s->k == Sym::FX || v->s->k == Sym::BV)) throw SplitBV{v->s};
  for (Val const *v : {&a, &b}) if (v->s && v->s->dag && !v->s->sup.empty()) throw SplitVar{pickVar(v->s->sup)};
  throw std::runtime_error("fp operation on unbounded symbolic double outside --fp mode");
}
static bool fits(i128 lo, i128 hi) { return lo >= -(i128)FXMAX && hi <= (i128)FXMAX; }
static i128 shl128(i128 v, int s) { if (s > 70) return v == 0 ? 0 : (v > 0 ? (i128)1 << 100 : -((i128)1 << 100)); return v * ((i128)1 << s); }

static Val fpAddSub(Val const &a, Val const &b, bool sub) {
  if (!a.s && !b.s) return DV(sub ? bitsToD(a.c) - bitsToD(b.c) : bitsToD(a.c) + bitsToD(b.c));
  Sym *x = asFX(a), *y = asFX(b);
  if (x && !b.s && std::isinf(bitsToD(b.c))) return DV(sub ? -bitsToD(b.c) : bitsToD(b.c));
  if (y && !a.s && std::isinf(bitsToD(a.c))) return a;
  if (x && y) {
    int sc = std::max(x->sc, y->sc); int da = sc - x->sc, db = sc - y->sc;
    i128 xl = shl128(x->lo, da), xh = shl128(x->hi, da), yl = shl128(y->lo, db), yh = shl128(y->hi, db);
    i128 lo = sub ? xl - yh : xl + yl, hi = sub ? xh - yl : xh + yh;
    if (fits(lo, hi) && fits(xl, xh) && fits(yl, yh)) {
      i128 L = std::min({lo, xl, yl}), H = std::max({hi, xh, yh}); int w = bitsFor((i64)L, (i64)H);
      auto ex = [&](Sym *s, int d) { z3::expr e = resizeS(s->e, std::max(w, bitsFor(s->lo, s->hi))); e = nshl(e, d); return e; };
      z3::expr ea = ex(x, da), eb = ex(y, db);
      Sym *r = mkFX((sub ? ea - eb : ea + eb).simplify(), sc, (i64)lo, (i64)hi);
      setDag(r, sub ? F_SUB : F_ADD, dagOf(a), dagOf(b));
      // -0 result only if both operands are zeros of the right sign
      bool bn = sub ? !(y->hasNz && y->lo == 0 && y->hi == 0 && z3::eq(y->nz.simplify(), Z->bool_val(true))) : y->hasNz; // sub: -y is -0 iff y is +0
      if (x->hasNz && bn) { r->hasNz = true; z3::expr ny = sub ? (fxZero(y) && (y->hasNz ? !y->nz : Z->bool_val(true))) : (fxZero(y) && y->nz); r->nz = fxZero(x) && x->nz && ny; }
      return fxResult(r);
    }
  }
  FOp op = sub ? F_SUB : F_ADD;
  return tabOrFP(op, a, b, nullptr, [&] { return z3::expr(*Z, sub ? Z3_mk_fpa_sub(*Z, rne(), asFP(a), asFP(b)) : Z3_mk_fpa_add(*Z, rne(), asFP(a), asFP(b))); }, true);
}
static Val fpNeg(Val const &a);
static Val fpMul(Val const &a, Val const &b) {
  if (!a.s && !b.s) return DV(bitsToD(a.c) * bitsToD(b.c));
  Sym *x = asFX(a), *y = asFX(b);
  if (x && y) {
    i128 p[4] = {(i128)x->lo * y->lo, (i128)x->lo * y->hi, (i128)x->hi * y->lo, (i128)x->hi * y->hi};
    i128 lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4); bool same = x == y;
    if (same) { lo = 0; hi = std::max(p[0], p[3]); if (x->lo > 0) lo = p[0]; if (x->hi < 0) lo = p[3]; }
    int sc = x->sc + y->sc;
    if (fits(lo, hi) && sc < 900) {
      i64 L = std::min({(i64)lo, x->lo, y->lo}), H = std::max({(i64)hi, x->hi, y->hi}); int w = bitsFor(L, H);
      z3::expr e = (resizeS(x->e, w) * resizeS(y->e, w)).simplify();
      Sym *r = mkFX(e, sc, (i64)lo, (i64)hi); setDag(r, F_MUL, dagOf(a), dagOf(b));
      bool canNz = !same && ((x->lo < 0 || x->hasNz || y->lo < 0 || y->hasNz)) && lo <= 0 && hi >= 0;
      if (canNz) { r->hasNz = true; r->nz = (fxZero(x) || fxZero(y)) && (fxNeg(x) != fxNeg(y)); }
      return fxResult(r);
    }
  }
  return tabOrFP(F_MUL, a, b, nullptr, [&] { return z3::expr(*Z, Z3_mk_fpa_mul(*Z, rne(), asFP(a), asFP(b))); }, true);
}
static Val fpDiv(Val const &a, Val const &b) {
  if (!a.s && !b.s) return DV(bitsToD(a.c) / bitsToD(b.c));
  if (!b.s) {
    double d = bitsToD(b.c); int ex; double m = std::frexp(d, &ex);
    if (std::isfinite(d) && d != 0 && std::fabs(m) == 0.5 && ex > -400 && ex < 400) return fpMul(a, DV(1.0 / d));
  }
  if (a.s && a.s == b.s && a.s->k == Sym::FX && (a.s->lo > 0 || a.s->hi < 0)) return DV(1.0);
  return tabOrFP(F_DIV, a, b, nullptr, [&] { return z3::expr(*Z, Z3_mk_fpa_div(*Z, rne(), asFP(a), asFP(b))); }, true);
}
static Val fpRem(Val const &a, Val const &b) {
  if (!a.s && !b.s) return DV(std::fmod(bitsToD(a.c), bitsToD(b.c)));
  return tabOrFP(F_REM, a, b, nullptr, nullptr, true);
}
static Val fpNeg(Val const &a) {
  if (!a.s) return CV(a.c ^ (1ull << 63));
  if (a.s->k == Sym::FX) {
    Sym *x = a.s; int w = bitsFor(std::min(x->lo, -x->hi), std::max(x->hi, -x->lo));
    Sym *r = mkFX((-resizeS(x->e, w)).simplify(), x->sc, -x->hi, -x->lo); setDag(r, F_NEG, x);
    if (x->lo <= 0 && x->hi >= 0) { r->hasNz = true; r->nz = fxZero(x) && (x->hasNz ? !x->nz : Z->bool_val(true)); }
    return SV(r);
  }
  return tabOrFP(F_NEG, a, a, nullptr, [&] { return z3::expr(*Z, Z3_mk_fpa_neg(*Z, asFP(a))); }, false);
}
static Val fpAbs(Val const &a) {
  if (!a.s) return CV(a.c & ~(1ull << 63));
  if (a.s->k == Sym::FX) {
    Sym *x = a.s; if (x->lo >= 0 && !x->hasNz) return a;
    i64 hi = std::max(std::llabs(x->lo), std::llabs(x->hi)), lo = x->lo > 0 ? x->lo : x->hi < 0 ? -x->hi : 0; int w = bitsFor(-hi, hi);
    z3::expr e = resizeS(x->e, w); Sym *r = mkFX(z3::ite(nlt(e, nk(0, w)), -e, e).simplify(), x->sc, lo, hi); setDag(r, F_ABS, x); return fxResult(r);
  }
  return tabOrFP(F_ABS, a, a, nullptr, [&] { return z3::expr(*Z, Z3_mk_fpa_abs(*Z, asFP(a))); }, false);
}
static bool isZeroC(Sym *s) { return (s->op == F_CONST && s->cval == 0) || (s->k == Sym::FX && s->lo == 0 && s->hi == 0); }
static Val fpSqrt(Val const &a) {
  if (!a.s) return DV(std::sqrt(bitsToD(a.c)));
  Sym *x = a.s;
  if (x->k == Sym::FX) {
    Sym *y = x;
    for (;;) { if (y->op == F_ADD && isZeroC(y->ch[0])) y = y->ch[1]; else if (y->op == F_ADD && isZeroC(y->ch[1])) y = y->ch[0]; else break; }
    if (y->op == F_MUL && y->ch[0] == y->ch[1] && y->ch[0]->k == Sym::FX) return fpAbs(SV(y->ch[0]));
  }
  return tabOrFP(F_SQRT, a, a, nullptr, [&] { return z3::expr(*Z, Z3_mk_fpa_sqrt(*Z, rne(), asFP(a))); }, false);
}
static Val fpFun1(Fun1 f, Val const &a) { if (!a.s) return DV(f(bitsToD(a.c))); return tabOrFP(F_FUN1, a, a, (void *)f, nullptr, false); }
static Val fpFun2(Fun2 f, Val const &a, Val const &b) { if (!a.s && !b.s) return DV(f(bitsToD(a.c), bitsToD(b.c))); return tabOrFP(F_FUN2, a, b, (void *)f, nullptr, true); }
// rounding to integral: mode 0 trunc 1 floor 2 ceil 3 round(half away) 4 rint/nearbyint (half even)
static Val fpRound(Val const &a, int mode) {
  static Fun1 fs[5] = {[](double d) { return std::trunc(d); }, [](double d) { return std::floor(d); }, [](double d) { return std::ceil(d); }, [](double d) { return std::round(d); }, [](double d) { return std::nearbyint(d); }};
  if (!a.s) return DV(fs[mode](bitsToD(a.c)));
  if (a.s->k == Sym::FX) {
    Sym *x = a.s; if (x->sc == 0) return a;
    if (x->sc < 60 && mode < 3 && !x->hasNz && (x->lo >= 0 || mode == 1)) {
      int w = bitsFor(x->lo, x->hi) + 2; i64 one = (i64)1 << x->sc; if (x->sc >= w) w = x->sc + 2; if (w > 62) goto tab;
      z3::expr e = resizeS(x->e, w); i64 lo = x->lo, hi = x->hi;
      if (mode == 2) { e = e + nk(one - 1, w); lo += one - 1; hi += one - 1; }
      e = nashr(e, x->sc).simplify(); Sym *r = mkFX(e, 0, lo >> x->sc, hi >> x->sc); r->fn = (void *)fs[mode]; setDag(r, F_FUN1, x); return fxResult(r);
    }
  }
tab:
  return fpFun1(fs[mode], a);
}
struct CmpRes { bool conc; bool v; Sym *s; };
static Val boolVal(z3::expr e) { e = e.simplify(); if (e.is_true()) return CV(1); if (e.is_false()) return CV(0); return SV(mkBool(e)); }
static Val fpCmp(u8 p, Val const &a, Val const &b) {
  if (!a.s && !b.s) return CV(evalCmp(p, bitsToD(a.c), bitsToD(b.c)));
  if ((!a.s && std::isnan(bitsToD(a.c))) || (!b.s && std::isnan(bitsToD(b.c)))) return CV(p >= C_UNO);
  bool fa = a.s && a.s->k == Sym::FX, fb = b.s && b.s->k == Sym::FX;
  if (fa != fb && (!a.s || !b.s)) {           // FX against a concrete double
    Sym *x = fa ? a.s : b.s; double c = bitsToD(fa ? b.c : a.c); u8 q = p; if (!fa) { static u8 sw[] = {C_OEQ, C_ONE, C_OGT, C_OGE, C_OLT, C_OLE, C_ORD, C_UNO, C_UEQ, C_UNE, C_UGT, C_UGE, C_ULT, C_ULE}; q = sw[p]; }
    if (q == C_ORD) return CV(1); if (q == C_UNO) return CV(0);
    if (std::isinf(c)) return CV(evalCmp(q, 0.0, c));
    double t = std::ldexp(c, x->sc), f = std::floor(t); bool isI = f == t;
    if (f > (double)FXMAX * 4) return CV(evalCmp(q, 0.0, 1.0)); if (f < -(double)FXMAX * 4) return CV(evalCmp(q, 0.0, -1.0));
    i64 n = (i64)f; int w = bitsFor(std::min(x->lo, n), std::max(x->hi, n)); z3::expr e = resizeS(x->e, w), k = nk(n, w);
    z3::expr lt = isI ? nlt(e, k) : nle(e, k), eq = isI ? (e == k) : Z->bool_val(false), r(*Z);
    switch (q) { case C_OEQ: case C_UEQ: r = eq; break; case C_ONE: case C_UNE: r = !eq; break; case C_OLT: case C_ULT: r = lt; break; case C_OLE: case C_ULE: r = lt || eq; break;
      case C_OGT: case C_UGT: r = !(lt || eq); break; default: r = !lt; break; }
    // interval shortcut
    Val v;
    if (x->lo > n) v = CV(evalCmp(q, 1.0, 0.0)); else if (x->hi < n) v = CV(evalCmp(q, -1.0, 0.0)); else v = boolVal(r);
    if (v.s) { v.s->sub = p; setDag(v.s, F_CMP, dagOf(a), dagOf(b)); }
    return v;
  }
  if (fa && fb) {
    if (p == C_ORD) return CV(1); if (p == C_UNO) return CV(0);
    Sym *x = a.s, *y = b.s; int sc = std::max(x->sc, y->sc); int da = sc - x->sc, db = sc - y->sc;
    i128 xl = shl128(x->lo, da), xh = shl128(x->hi, da), yl = shl128(y->lo, db), yh = shl128(y->hi, db);
    if (xh < yl) return CV(evalCmp(p, 0.0, 1.0)); if (xl > yh) return CV(evalCmp(p, 1.0, 0.0));
    i128 L = std::min(xl, yl), H = std::max(xh, yh); i128 lim = (i128)1 << 61;
    if (L > -lim && H < lim) {
      int w = bitsFor((i64)L, (i64)H); auto ex = [&](Sym *s, int d) { z3::expr e = resizeS(s->e, std::max(w, bitsFor(s->lo, s->hi))); e = nshl(e, d); return resizeS(e, w); };
      z3::expr ea = ex(x, da), eb = ex(y, db), r(*Z);
      switch (p) { case C_OEQ: case C_UEQ: r = ea == eb; break; case C_ONE: case C_UNE: r = ea != eb; break; case C_OLT: case C_ULT: r = nlt(ea, eb); break; case C_OLE: case C_ULE: r = nle(ea, eb); break;
        case C_OGT: case C_UGT: r = nlt(eb, ea); break; default: r = nle(eb, ea); break; }
      Val v = boolVal(r); if (v.s) { v.s->sub = p; setDag(v.s, F_CMP, x, y); } return v;
    }
  }
  bool anyFP = (a.s && (a.s->k == Sym::FP || a.s->k == Sym::BV)) || (b.s && (b.s->k == Sym::FP || b.s->k == Sym::BV));
  if (!anyFP) {
    Sym *s = new Sym(Sym::BOOL); s->sub = p; s->w = 1; setDag(s, F_CMP, dagOf(a), dagOf(b));
    if (s->dag) {
      if (tabable(s)) { z3::expr e = tabToExpr(s->sup, tabOf(s), [](double d) { return Z->bool_val(d != 0); }).simplify(); if (e.is_true()) return CV(1); if (e.is_false()) return CV(0); s->e = e; return SV(s); }
      if (!fpMode) throw SplitVar{pickVar(s->sup)};
    } else if (!fpMode) { for (Val const *v : {&a, &b}) if (v->s && !v->s->dag) throw SplitBV{v->s}; }
  }
  if (!fpMode) throw std::runtime_error("fp compare on unbounded symbolic double outside --fp mode");
  z3::expr x = asFP(a), y = asFP(b); z3::context &c = *Z;
  z3::expr nan(c, Z3_mk_or(c, 2, std::vector<Z3_ast>{z3::expr(c, Z3_mk_fpa_is_nan(c, x)), z3::expr(c, Z3_mk_fpa_is_nan(c, y))}.data()));
  auto E = [&](Z3_ast t) { return z3::expr(c, t); }; z3::expr r(c);
  switch (p) { case C_OEQ: r = E(Z3_mk_fpa_eq(c, x, y)); break; case C_OLT: r = E(Z3_mk_fpa_lt(c, x, y)); break; case C_OLE: r = E(Z3_mk_fpa_leq(c, x, y)); break; case C_OGT: r = E(Z3_mk_fpa_gt(c, x, y)); break; case C_OGE: r = E(Z3_mk_fpa_geq(c, x, y)); break;
    case C_ONE: r = !nan && !E(Z3_mk_fpa_eq(c, x, y)); break; case C_ORD: r = !nan; break; case C_UNO: r = nan; break; case C_UEQ: r = nan || E(Z3_mk_fpa_eq(c, x, y)); break; case C_UNE: r = !E(Z3_mk_fpa_eq(c, x, y)); break;
    case C_ULT: r = nan || E(Z3_mk_fpa_lt(c, x, y)); break; case C_ULE: r = nan || E(Z3_mk_fpa_leq(c, x, y)); break; case C_UGT: r = nan || E(Z3_mk_fpa_gt(c, x, y)); break; default: r = nan || E(Z3_mk_fpa_geq(c, x, y)); }
  return boolVal(r);
}
// bit pattern of a symbolic double
static z3::expr fpBits(Val const &v) {
  if (!v.s) return bvconst(v.c, 64);
  Sym *s = v.s;
  if (s->k == Sym::BV) return s->e;
  if (s->k == Sym::FP) return z3::expr(*Z, Z3_mk_fpa_to_ieee_bv(*Z, s->e));
  if (s->dag) { if (tabable(s)) return tabToExpr(s->sup, tabOf(s), [](double d) { return bvconst(dToBits(d), 64); }); if (!fpMode) throw SplitVar{pickVar(s->sup)}; }
  if (fpMode) return z3::expr(*Z, Z3_mk_fpa_to_ieee_bv(*Z, asFP(v)));
  throw SplitBV{s};
}
static Val fpSelect(Sym *c, Val const &a, Val const &b, bool &ok) {
  ok = true;
  if (!a.s && !b.s && a.c == b.c) return a;
  Sym *x = asFX(a), *y = asFX(b);
  if (x && y) {
    int sc = std::max(x->sc, y->sc); int da = sc - x->sc, db = sc - y->sc;
    i128 xl = shl128(x->lo, da), xh = shl128(x->hi, da), yl = shl128(y->lo, db), yh = shl128(y->hi, db); i128 lo = std::min(xl, yl), hi = std::max(xh, yh);
    if (fits(lo, hi)) {
      int w = bitsFor((i64)lo, (i64)hi); auto ex = [&](Sym *s, int d) { z3::expr e = resizeS(s->e, std::max(w, bitsFor(s->lo, s->hi))); e = nshl(e, d); return resizeS(e, w); };
      Sym *r = mkFX(z3::ite(c->e, ex(x, da), ex(y, db)), sc, (i64)lo, (i64)hi); setDag(r, F_SEL, c, dagOf(a), dagOf(b));
      if (x->hasNz || y->hasNz) { r->hasNz = true; r->nz = z3::ite(c->e, x->hasNz ? x->nz : Z->bool_val(false), y->hasNz ? y->nz : Z->bool_val(false)); }
      return fxResult(r);
    }
  }
  bool anyFP = (a.s && (a.s->k == Sym::FP || a.s->k == Sym::BV)) || (b.s && (b.s->k == Sym::FP || b.s->k == Sym::BV));
  if (!anyFP) { Sym *s = new Sym(Sym::TAB); setDag(s, F_SEL, c, dagOf(a), dagOf(b)); if (tabable(s)) return normTab(s); }
  if (fpMode) return SV(mkFP(z3::ite(c->e, asFP(a), asFP(b))));
  ok = false; return Val();
}
// double -> signed/unsigned integer of width w
static Val fpToInt(Val const &a, unsigned w, bool sg) {
  if (!a.s) { double d = bitsToD(a.c); u64 r = sg ? (u64)(i64)d : (u64)d; if (w < 64) r &= (1ull << w) - 1; return CV(r); }
  Sym *x = a.s;
  if (x->k == Sym::FX && x->sc < 55) {
    Sym *n = x;
    if (x->sc > 0) {
      int ww = std::max(bitsFor(x->lo, x->hi) + 2, x->sc + 2); z3::expr e = resizeS(x->e, ww); i64 one = (i64)1 << x->sc;
      z3::expr q = z3::ite(nlt(e, nk(0, ww)), nashr(e + nk(one - 1, ww), x->sc), nashr(e, x->sc));
      n = mkFX(q.simplify(), 0, x->lo / one, x->hi / one); setDag(n, F_TRUNCI, x);
      if (n->lo == n->hi) { u64 r = (u64)n->lo; if (w < 64) r &= (1ull << w) - 1; return CV(r); }
    }
    Sym *r = mkBV(numToBV(n->e, w).simplify()); if (bitsFor(n->lo, n->hi) <= (int)w) { Sym *m = new Sym(*n); m->hasNz = false; r->num = m; } return SV(r);
  }
  if (x->dag && tabable(x)) {
    return SV(mkBV(tabToExpr(x->sup, tabOf(x), [&](double d) { u64 r = std::isfinite(d) ? (sg ? (u64)(i64)d : (u64)d) : (1ull << (w - 1)); return bvconst(w < 64 ? r & ((1ull << w) - 1) : r, w); }).simplify()));
  }
  if (fpMode) { z3::expr r(*Z, sg ? Z3_mk_fpa_to_sbv(*Z, z3::expr(*Z, Z3_mk_fpa_rtz(*Z)), asFP(a), w) : Z3_mk_fpa_to_ubv(*Z, z3::expr(*Z, Z3_mk_fpa_rtz(*Z)), asFP(a), w)); return SV(mkBV(r)); }
  if (x->dag) throw SplitVar{pickVar(x->sup)};
  throw SplitBV{x};
}
