// msym: symbolic values.  Integers are z3 bit-vectors.  Doubles live in one of three exact domains:
//   FX   value = N * 2^-sc, N a z3 signed bit-vector with a proved interval |N| < 2^53 (so IEEE ops are exact)
//   TAB  value = table over the joint domain of a few bounded choice variables, entries computed natively (bit exact)
//   FP   z3 IEEE-754 double
#pragma once
#include <z3++.h>
#include <cstdint>
#include <cmath>
#include <cstring>
#include <vector>
#include <string>
#include <map>
#include <algorithm>
#include <functional>

typedef uint64_t u64; typedef int64_t i64; typedef unsigned __int128 u128; typedef __int128 i128; typedef uint32_t u32; typedef uint8_t u8;

extern z3::context *Z;

enum FOp : u8 { F_NONE, F_LEAF, F_CONST, F_ADD, F_SUB, F_MUL, F_DIV, F_REM, F_NEG, F_ABS, F_SQRT, F_SEL, F_FUN1, F_FUN2, F_CMP, F_BAND, F_BOR, F_BXOR, F_BNOT, F_TRUNCI };

struct ChoiceVar { std::string name; z3::expr e; std::vector<double> vals; int bits; bool isDouble; i64 lo; int sc; };
extern std::vector<ChoiceVar> choiceVars;

struct Sym {
  enum K : u8 { BV, BOOL, FX, TAB, FP } k;
  uint16_t w = 64;
  z3::expr e;           // BV / BOOL / FX numerator / FP
  int sc = 0; i64 lo = 0, hi = 0;
  bool hasNz = false; z3::expr nz;
  Sym *num = nullptr;   // BV: numeric (FX) view of the signed value
  // DAG for tabulation
  FOp op = F_NONE; u8 sub = 0; Sym *ch[3] = {nullptr, nullptr, nullptr}; double cval = 0; int var = -1; void *fn = nullptr;
  bool dag = false; std::vector<int> sup; std::vector<double> *tab = nullptr; int epoch = -1;
  Sym(K k, z3::expr const &e) : k(k), e(e), nz(*Z) {}
  explicit Sym(K k) : k(k), e(*Z), nz(*Z) {}
};

inline double bitsToD(u64 b) { double d; memcpy(&d, &b, 8); return d; }
inline u64 dToBits(double d) { u64 b; memcpy(&b, &d, 8); return b; }

static const u64 TABLIM = 1u << 16;
extern u64 statTabs; extern int tabEpoch;

inline u64 domSize(std::vector<int> const &sup) { u64 p = 1; for (int v : sup) { p *= choiceVars[v].vals.size(); if (p > TABLIM) return TABLIM + 1; } return p; }

inline int bitsFor(i64 lo, i64 hi) { int b = 1; while (b < 63 && !(lo >= -((i64)1 << (b - 1)) && hi <= ((i64)1 << (b - 1)) - 1)) b++; return b; }

inline z3::expr bvconst(u128 v, unsigned w) {
  if (w <= 64) return Z->bv_val((uint64_t)(w == 64 ? (u64)v : ((u64)v & ((1ull << w) - 1))), w);
  return z3::concat(Z->bv_val((uint64_t)(v >> 64), w - 64), Z->bv_val((uint64_t)v, 64));
}
extern bool liaMode;                   // numerators are z3 integers instead of bit-vectors
inline z3::expr nk(i64 v, unsigned w) { if (liaMode) return Z->int_val((int64_t)v); return Z->bv_val((int64_t)v, w); }
inline z3::expr nlt(z3::expr const &a, z3::expr const &b) { return a.is_int() ? a < b : z3::slt(a, b); }
inline z3::expr nle(z3::expr const &a, z3::expr const &b) { return a.is_int() ? a <= b : z3::sle(a, b); }
inline z3::expr nshl(z3::expr const &e, int d) { if (!d) return e; return e.is_int() ? e * Z->int_val((int64_t)((i64)1 << d)) : z3::shl(e, Z->bv_val(d, e.get_sort().bv_size())); }
inline z3::expr nashr(z3::expr const &e, int d) { if (!d) return e; return e.is_int() ? z3::expr(*Z, Z3_mk_div(*Z, e, Z->int_val((int64_t)((i64)1 << d)))) : z3::ashr(e, Z->bv_val(d, e.get_sort().bv_size())); }
inline z3::expr numToBV(z3::expr const &e, unsigned w);
inline z3::expr resizeS(z3::expr const &e, unsigned w) {
  if (e.is_int()) return e;
  unsigned s = e.get_sort().bv_size();
  if (s == w) return e;
  if (s < w) return z3::sext(e, w - s);
  return e.extract(w - 1, 0);
}

inline z3::expr numToBV(z3::expr const &e, unsigned w) { if (e.is_int()) return z3::expr(*Z, Z3_mk_int2bv(*Z, w, e)); return resizeS(e, w); }

// ---------- tabulation
inline void mergeSup(std::vector<int> &a, std::vector<int> const &b) { std::vector<int> r; std::set_union(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r)); a.swap(r); }
inline void finishDag(Sym *s) {
  s->dag = true; s->sup.clear();
  for (Sym *c : s->ch) if (c) { if (!c->dag) { s->dag = false; s->sup.clear(); return; } mergeSup(s->sup, c->sup); }
}
inline bool tabable(Sym *s) { return s->dag && domSize(s->sup) <= TABLIM; }
inline Sym *constNode(double d) {
  Sym *s = new Sym(Sym::TAB); s->op = F_CONST; s->cval = d; s->dag = true; return s;
}
typedef double (*Fun1)(double); typedef double (*Fun2)(double, double);
enum CmpK : u8 { C_OEQ, C_ONE, C_OLT, C_OLE, C_OGT, C_OGE, C_ORD, C_UNO, C_UEQ, C_UNE, C_ULT, C_ULE, C_UGT, C_UGE };
inline bool evalCmp(u8 c, double a, double b) {
  bool u = std::isnan(a) || std::isnan(b);
  switch (c) {
    case C_OEQ: return !u && a == b; case C_ONE: return !u && a != b; case C_OLT: return !u && a < b; case C_OLE: return !u && a <= b;
    case C_OGT: return !u && a > b; case C_OGE: return !u && a >= b; case C_ORD: return !u; case C_UNO: return u;
    case C_UEQ: return u || a == b; case C_UNE: return u || a != b; case C_ULT: return u || a < b; case C_ULE: return u || a <= b;
    case C_UGT: return u || a > b; case C_UGE: return u || a >= b; }
  return false;
}
inline std::vector<double> const &tabOf(Sym *s) {
  if (s->tab && s->epoch == tabEpoch) return *s->tab;
  s->epoch = tabEpoch;
  u64 n = domSize(s->sup); auto *t = new std::vector<double>(n);
  statTabs++;
  if (s->op == F_CONST) { (*t)[0] = s->cval; s->tab = t; return *t; }
  if (s->op == F_LEAF) { *t = choiceVars[s->var].vals; s->tab = t; return *t; }
  std::vector<double> const *ct[3]; std::vector<u64> str[3];
  for (int i = 0; i < 3; i++) if (s->ch[i]) {
    ct[i] = &tabOf(s->ch[i]); str[i].assign(s->sup.size(), 0); u64 st = 1;
    for (size_t j = 0; j < s->ch[i]->sup.size(); j++) {
      size_t p = std::lower_bound(s->sup.begin(), s->sup.end(), s->ch[i]->sup[j]) - s->sup.begin();
      str[i][p] = st; st *= choiceVars[s->ch[i]->sup[j]].vals.size(); }
  }
  std::vector<u64> idx(s->sup.size(), 0); u64 ci[3] = {0, 0, 0};
  for (u64 x = 0; x < n; x++) {
    double a = s->ch[0] ? (*ct[0])[ci[0]] : 0, b = s->ch[1] ? (*ct[1])[ci[1]] : 0, r = 0;
    switch (s->op) {
      case F_ADD: r = a + b; break; case F_SUB: r = a - b; break; case F_MUL: r = a * b; break; case F_DIV: r = a / b; break;
      case F_REM: r = std::fmod(a, b); break; case F_NEG: r = -a; break; case F_ABS: r = std::fabs(a); break; case F_SQRT: r = std::sqrt(a); break;
      case F_SEL: r = a != 0 ? b : (*ct[2])[ci[2]]; break;
      case F_FUN1: r = ((Fun1)s->fn)(a); break; case F_FUN2: r = ((Fun2)s->fn)(a, b); break;
      case F_CMP: r = evalCmp(s->sub, a, b); break;
      case F_BAND: r = a != 0 && b != 0; break; case F_BOR: r = a != 0 || b != 0; break; case F_BXOR: r = (a != 0) != (b != 0); break; case F_BNOT: r = a == 0; break;
      case F_TRUNCI: r = std::trunc(a) + 0.0; break;
      default: break; }
    (*t)[x] = r;
    for (size_t j = 0; j < idx.size(); j++) {
      u64 d = choiceVars[s->sup[j]].vals.size();
      if (++idx[j] < d) { for (int i = 0; i < 3; i++) if (s->ch[i]) ci[i] += str[i][j]; break; }
      for (int i = 0; i < 3; i++) if (s->ch[i]) ci[i] -= str[i][j] * (d - 1);
      idx[j] = 0; }
  }
  s->tab = t; return *t;
}
inline z3::expr varEq(int v, unsigned k) { auto &c = choiceVars[v]; return c.e == nk(k, c.bits); }
inline z3::expr tabToExpr(std::vector<int> const &sup, std::vector<double> const &t, std::function<z3::expr(double)> const &leaf) {
  // strides: sup[0] fastest.  Recurse from the slowest variable.
  std::map<u64, z3::expr> leaves;
  std::function<z3::expr(int, u64, u64)> rec = [&](int d, u64 base, u64 stride) -> z3::expr {
    if (d < 0) { u64 b = dToBits(t[base]); auto it = leaves.find(b); if (it != leaves.end()) return it->second; z3::expr e = leaf(t[base]); leaves.emplace(b, e); return e; }
    auto &cv = choiceVars[sup[d]]; u64 n = cv.vals.size(); u64 st = stride / n;
    std::vector<z3::expr> subs; for (u64 k = 0; k < n; k++) subs.push_back(rec(d - 1, base + k * st, st));
    // group runs
    std::vector<std::pair<z3::expr, std::vector<std::pair<u64, u64>>>> groups;
    for (u64 k = 0; k < n; k++) { bool f = false; for (auto &g : groups) if (z3::eq(g.first, subs[k])) { if (g.second.back().second + 1 == k) g.second.back().second = k; else g.second.push_back({k, k}); f = true; break; }
      if (!f) groups.push_back({subs[k], {{k, k}}}); }
    std::sort(groups.begin(), groups.end(), [](auto const &a, auto const &b) { return a.second.size() > b.second.size(); });
    z3::expr r = groups[0].first;
    for (size_t g = 1; g < groups.size(); g++) {
      z3::expr c(*Z); bool first = true;
      for (auto &rg : groups[g].second) {
        z3::expr q = rg.first == rg.second ? (cv.e == nk(rg.first, cv.bits)) : liaMode ? (cv.e >= nk(rg.first, 0) && cv.e <= nk(rg.second, 0))
          : (z3::uge(cv.e, Z->bv_val((unsigned)rg.first, cv.bits)) && z3::ule(cv.e, Z->bv_val((unsigned)rg.second, cv.bits)));
        c = first ? q : (c || q); first = false; }
      r = z3::ite(c, groups[g].first, r); }
    return r; };
  u64 n = domSize(sup); return rec((int)sup.size() - 1, 0, n);
}

// ---------- constructors
inline Sym *mkBV(z3::expr const &e) { Sym *s = new Sym(Sym::BV, e); s->w = e.get_sort().bv_size(); return s; }
inline Sym *mkBool(z3::expr const &e) { Sym *s = new Sym(Sym::BOOL, e); s->w = 1; return s; }
inline Sym *mkFP(z3::expr const &e) { return new Sym(Sym::FP, e); }

static const i64 FXMAX = (i64)1 << 53;
// make FX from numerator expr; interval must be within +-2^53
inline Sym *mkFX(z3::expr e, int sc, i64 lo, i64 hi) {
  int b = bitsFor(lo, hi); e = resizeS(e, b);
  Sym *s = new Sym(Sym::FX, e); s->sc = sc; s->lo = lo; s->hi = hi; return s;
}
// try to represent a concrete double as dyadic N*2^-sc with small N
inline bool dyadic(double d, i64 &n, int &sc) {
  if (!std::isfinite(d)) return false;
  if (d == 0) { n = 0; sc = 0; return true; }
  int ex; double m = std::frexp(d, &ex); i64 mm = (i64)std::ldexp(m, 53); ex -= 53;
  while (!(mm & 1)) { mm >>= 1; ex++; }
  if (ex >= 0) { if (ex > 52) return false; i128 v = (i128)mm << ex; if (v > FXMAX || v < -FXMAX) return false; n = (i64)v; sc = 0; return true; }
  if (-ex > 60) return false;
  n = mm; sc = -ex; return true;
}
