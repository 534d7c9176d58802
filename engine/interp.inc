// interpreter core
static z3::solver *S; static z3::model *mdl; static u64 pathInstr = 0, instrBase = 0; static bool ownToken = true; static std::vector<std::string> pathNotes;
struct Frame { Fn *fn; int pc; Val *r; u64 stk; int dst; CallInfo *ci; Val *rtop; };
enum TState { T_RUN, T_BLOCK, T_DONE };
struct Thread { std::vector<Frame> fr; u64 stkBase, stkTop; Val *regBase, *regTop; TState st = T_RUN; u64 waitObj = 0; int waitKind = 0; u64 joinHandle = 0; bool detached = false; u64 excCur = 0; std::vector<u64> caught; Val *lastRet = nullptr; };
static std::vector<Thread *> threads; static int cur = 0; static Thread *T;
struct ExcRec { u64 obj, tinfo; std::exception_ptr ep; u64 adjusted; int handlers = 0; };
static std::map<u64, ExcRec> excs; static std::map<u64, int> typeIds; static u64 inflight = 0; static int inflightSel = 0;
struct InVar { std::string name; int kind; z3::expr e; i64 lo; int sc; std::vector<double> vals; }; // kind 0 int (value = sext e), 1 fx index, 2 pick index, 3 raw 64 bit
static std::vector<InVar> inputs; static std::map<std::string, int> nameCnt;
static Ins *curIns; static Fn *curFn;

[[noreturn]] static void endPath() {
  SH->instrs += pathInstr - instrBase; SH->live--; if (ownToken) SH->tokens++; _exit(0);
}
static std::string backtrace() { std::string s; for (size_t i = T->fr.size(); i-- > 0;) { s += demangle(T->fr[i].fn->name).substr(0, 200); s += "\n"; if (s.size() > 4000) break; } return s; }
static std::string jsq(std::string const &s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((u8)c < 32) r += ' '; else r += c; } return r + "\""; }
static u64 evalU(z3::model &m, z3::expr const &e) { z3::expr v = m.eval(e, true); u64 r = 0; if (v.is_int()) { i64 q = 0; if (!v.is_numeral_i64(q)) v.simplify().is_numeral_i64(q); return (u64)q; } if (!v.is_numeral_u64(r)) { v = v.simplify(); v.is_numeral_u64(r); } return r; }
static std::string inputsJson(z3::model *m) {
  std::ostringstream o;
  for (size_t i = 0; i < inputs.size(); i++) { auto &v = inputs[i]; u64 x = m ? evalU(*m, v.e) : 0; o << (i ? "," : "") << "{\"name\":" << jsq(v.name) << ",\"value\":";
    if (v.kind == 0) { unsigned w = v.e.is_int() ? 64 : v.e.get_sort().bv_size(); i64 y = w < 64 ? (i64)(x << (64 - w)) >> (64 - w) : (i64)x; o << "\"i " << y << "\""; }
    else if (v.kind == 1) { double d = std::ldexp((double)((i64)x + v.lo), -v.sc); char b[64]; snprintf(b, 64, "d %a", d); o << jsq(b); }
    else if (v.kind == 2) { char b[64]; snprintf(b, 64, "d %a", v.vals[x]); o << jsq(b); }
    else { char b[64]; snprintf(b, 64, "u %llu", (unsigned long long)x); o << jsq(b); }
    o << "}"; }
  return o.str();
}
static int maxSamples = 0;
static bool wantSample(u64 n) { return n < 3 || (n & (n - 1)) == 0 || n % 997 == 0; }
[[noreturn]] static void pathDone();
[[noreturn]] static void violation(std::string const &kind, std::string const &msg, z3::model *m) {
  u64 n = SH->violations++;
  if (n < 32) {
    std::ostringstream o; o << "{\"kind\":" << jsq(kind) << ",\"message\":" << jsq(msg) << ",\"inputs\":[" << inputsJson(m);
    o << "],\"trace\":" << jsq(backtrace()) << "}";
    char fn[512]; snprintf(fn, 512, "%s/viol-%llu.json", outDir.c_str(), (unsigned long long)n); std::ofstream(fn) << o.str() << "\n";
    if (verbose) fprintf(stderr, "VIOL %s: %s\n%s\n", kind.c_str(), msg.c_str(), o.str().substr(0, 3000).c_str());
  }
  if ((int)SH->violations >= maxViol) SH->stop = 1;
  SH->paths++; endPath();
}
// linear mode must never see a bit-vector term (that solver would treat it as uninterpreted)
static std::map<unsigned, bool> bvSeen; static std::vector<z3::expr> bvKeep;
static bool hasBV(z3::expr const &e) {
  if (!e.is_app()) return true; if (e.num_args() == 0) return e.is_bv();
  auto it = bvSeen.find(e.id()); if (it != bvSeen.end()) return it->second;
  bool r = e.is_bv(); for (unsigned i = 0; i < e.num_args() && !r; i++) r = hasBV(e.arg(i));
  bvSeen[e.id()] = r; bvKeep.push_back(e); return r;
}
static z3::check_result chk(z3::expr const &extra) {
  if (liaMode && hasBV(extra)) { incomplete("bit-vector term in linear mode"); SH->paths++; endPath(); }
  double t = now(); z3::check_result r; 
  try { z3::expr ex = extra; r = S->check(1, &ex); } catch (z3::exception &e) { incomplete(std::string("z3: ") + e.msg()); r = z3::unknown; }
  SH->solverNs += (u64)((now() - t) * 1e9); SH->queries++; if (r == z3::sat) SH->satq++; else if (r == z3::unsat) SH->unsatq++; else { SH->unknowns++; incomplete("solver returned unknown"); }
  return r;
}
static void needModel() { if (!mdl) { z3::check_result r = chk(Z->bool_val(true)); if (r != z3::sat) { endPath(); } mdl = new z3::model(S->get_model()); } }
[[noreturn]] static void pathDone() {
  u64 n = SH->paths++;
  if (maxSamples && wantSample(n)) { int k = SH->samples++; if (k < maxSamples) { needModel(); char fn[512]; snprintf(fn, 512, "%s/sample-%d.json", outDir.c_str(), k); std::ofstream(fn) << "{\"path\":" << n << ",\"inputs\":[" << inputsJson(mdl) << "]}\n"; } }
  endPath();
}
static void setModel() { mdl = new z3::model(S->get_model()); }
static bool evalB(z3::expr const &e) { z3::expr v = mdl->eval(e, true); if (v.is_true()) return true; if (v.is_false()) return false; v = v.simplify(); return v.is_true(); }
static bool doFork() { // true in child
  SH->live++; SH->forks++; siteFork[curIns ? curIns->site : 0]++;
  if (SH->stop) endPath();
  bool tok = false; int t = SH->tokens.load(); while (t > 0) if (SH->tokens.compare_exchange_weak(t, t - 1)) { tok = true; break; }
  pid_t p; int tries = 0;
  while ((p = fork()) < 0 && tries++ < 200) usleep(20000);
  if (p < 0) { incomplete("fork failed"); SH->live--; if (tok) SH->tokens++; return false; }
  if (p == 0) { ownToken = tok; instrBase = pathInstr; return true; }
  if (!tok) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) incomplete("engine process ended abnormally (code " + std::to_string(st) + ")"); }
  else { while (waitpid(-1, nullptr, WNOHANG) > 0) {} }
  return false;
}
static bool branchE(z3::expr const &c0) {
  z3::expr c = c0; if (c.is_true()) return true; if (c.is_false()) return false;
  needModel(); bool side = evalB(c);
  z3::expr other = side ? !c : c;
  z3::check_result r = chk(other);
  if (r == z3::unsat) return side;
  if (r == z3::unknown) return side;
  z3::model om = S->get_model();
  if (doFork()) { S->add(other); mdl = new z3::model(om); return !side; }
  S->add(side ? c : !c); return side;
}
static bool branchV(Val const &v) { if (!v.s) return v.c & 1; if (v.s->k == Sym::BOOL) return branchE(v.s->e); return branchE(v.s->e == Z->bv_val(1, 1)); }
static void restrictVar(int v, u64 k) { auto &cv = choiceVars[v]; double d = cv.vals[k]; cv.vals.assign(1, d); tabEpoch++; }
// enumerate all feasible values of e, one path each
static u64 concretizeE(z3::expr const &e) {
  for (;;) {
    needModel(); u64 v = evalU(*mdl, e); z3::expr eq = e == (e.is_int() ? Z->int_val((int64_t)v) : Z->bv_val((uint64_t)v, e.get_sort().bv_size()));
    z3::check_result r = chk(!eq); if (r != z3::sat) { return v; }
    z3::model om = S->get_model();
    if (doFork()) { S->add(eq); return v; }
    S->add(!eq); mdl = new z3::model(om);
  }
}
static void splitVar(int v) { SH->splits++; auto &cv = choiceVars[v]; u64 k = concretizeE(cv.e); restrictVar(v, k); }
static u64 concrete(Val const &v, unsigned w = 64);
static z3::expr toBV(Val const &v, unsigned w) {
  if (v.s && liaMode) return bvconst(w < 64 ? concrete(v) & ((1ull << w) - 1) : concrete(v), w);
  if (!v.s) { if (w <= 64) return bvconst(v.c, w); return z3::concat(Z->bv_val((uint64_t)v.h, w - 64), Z->bv_val((uint64_t)v.c, 64)); }
  if (v.s->k == Sym::BV) return v.s->e;
  if (v.s->k == Sym::BOOL) return z3::ite(v.s->e, Z->bv_val(1, 1), Z->bv_val(0, 1));
  return fpBits(v);
}
static z3::expr toBool(Val const &v) { if (!v.s) return Z->bool_val(v.c & 1); if (v.s->k == Sym::BOOL) return v.s->e; return v.s->e == Z->bv_val(1, 1); }
static Val fromBV(z3::expr e) {
  e = e.simplify(); unsigned w = e.get_sort().bv_size();
  if (e.is_numeral()) { u64 x; if (w <= 64 && e.is_numeral_u64(x)) return CV(x); if (w > 64) { Val v; e.extract(63, 0).simplify().is_numeral_u64(v.c); e.extract(w - 1, 64).simplify().is_numeral_u64(v.h); return v; } }
  if (w == 1) return boolVal(e == Z->bv_val(1, 1));
  return SV(mkBV(e));
}
static Sym *numOf(Val const &v, unsigned w) {
  if (v.s) return v.s->k == Sym::BV ? v.s->num : nullptr; if (w > 64) return nullptr;
  i64 x = w < 64 ? (i64)(v.c << (64 - w)) >> (64 - w) : (i64)v.c; if (x > FXMAX || x < -FXMAX) return nullptr; return fxOfConst((double)x);
}
static Val fromNum(Val n, unsigned w) { // n is a double-valued FX/const with integral value
  if (!n.s) { u64 r = (u64)(i64)bitsToD(n.c); if (w < 64) r &= (1ull << w) - 1; return CV(r); }
  if (n.s->k != Sym::FX || n.s->sc != 0 || bitsFor(n.s->lo, n.s->hi) > (int)w) return Val();
  Sym *m = n.s; if (m->hasNz) { m = new Sym(*m); m->hasNz = false; }
  Sym *r = mkBV(numToBV(m->e, w)); r->num = m; return SV(r);
}
static u64 maskw(u64 v, unsigned w) { return w < 64 ? v & ((1ull << w) - 1) : v; }
static i64 sx(u64 v, unsigned w) { return w < 64 ? (i64)(v << (64 - w)) >> (64 - w) : (i64)v; }
static u128 v128(Val const &v) { return ((u128)v.h << 64) | v.c; }
static Val mk128(u128 x, unsigned w) { Val r; r.c = (u64)x; r.h = (u64)(x >> 64); if (w < 128 && w > 64) r.h &= (1ull << (w - 64)) - 1; if (w <= 64) { r.c = maskw(r.c, w); r.h = 0; } return r; }
[[noreturn]] static void trapNow(std::string const &kind, std::string const &msg) { needModel(); violation(kind, msg, mdl); }

static Val ibin(uint16_t op, unsigned w, Val const &a, Val const &b) {
  if (!a.s && !b.s) {
    if (w <= 64) {
      u64 x = a.c, y = b.c, r = 0;
      switch (op) { case Q_ADD: r = x + y; break; case Q_SUB: r = x - y; break; case Q_MUL: r = x * y; break; case Q_AND: r = x & y; break; case Q_OR: r = x | y; break; case Q_XOR: r = x ^ y; break;
        case Q_SHL: r = y >= w ? 0 : x << y; break; case Q_LSHR: r = y >= w ? 0 : x >> y; break; case Q_ASHR: r = y >= w ? (sx(x, w) < 0 ? ~0ull : 0) : (u64)(sx(x, w) >> y); break;
        case Q_UDIV: case Q_UREM: if (!y) trapNow("division", "integer division by zero"); r = op == Q_UDIV ? x / y : x % y; break;
        case Q_SDIV: case Q_SREM: { if (!y) trapNow("division", "integer division by zero"); i64 p = sx(x, w), q = sx(y, w); if (q == -1) r = op == Q_SDIV ? (u64)0 - (u64)p : 0; else r = op == Q_SDIV ? (u64)(p / q) : (u64)(p % q); break; } }
      return CV(maskw(r, w));
    }
    u128 x = v128(a), y = v128(b), r = 0;
    switch (op) { case Q_ADD: r = x + y; break; case Q_SUB: r = x - y; break; case Q_MUL: r = x * y; break; case Q_AND: r = x & y; break; case Q_OR: r = x | y; break; case Q_XOR: r = x ^ y; break; case Q_SHL: r = y >= w ? 0 : x << (int)y; break; case Q_LSHR: r = y >= w ? 0 : x >> (int)y; break;
      case Q_UDIV: if (!y) trapNow("division", "zero"); r = x / y; break; case Q_UREM: if (!y) trapNow("division", "zero"); r = x % y; break; case Q_SDIV: r = (u128)((i128)x / (i128)y); break; case Q_SREM: r = (u128)((i128)x % (i128)y); break; case Q_ASHR: r = (u128)((i128)x >> (int)y); break; }
    return mk128(r, w);
  }
  if (w == 1) { z3::expr x = toBool(a), y = toBool(b); FOp fo = F_NONE; z3::expr r(*Z); switch (op) { case Q_AND: r = x && y; fo = F_BAND; break; case Q_OR: r = x || y; fo = F_BOR; break; case Q_XOR: case Q_ADD: case Q_SUB: r = x != y; fo = F_BXOR; break; default: return fromBV(toBV(a, 1)); }
    Val v = boolVal(r); if (v.s) { auto dg = [](Val const &q) { return q.s ? q.s : constNode(q.c & 1); }; Sym *da = dg(a), *db = dg(b); setDag(v.s, fo, da, db); } return v; }
  if (op == Q_SHL && a.s && !b.s && b.c < 40 && numOf(a, w)) return ibin(Q_MUL, w, a, CV(1ull << b.c));
  if (op == Q_ADD || op == Q_SUB || op == Q_MUL) { Sym *x = numOf(a, w), *y = numOf(b, w); if (x && y) { i128 cand[4] = {(i128)x->lo * y->lo, (i128)x->lo * y->hi, (i128)x->hi * y->lo, (i128)x->hi * y->hi}; bool ok = op != Q_MUL || (*std::min_element(cand, cand + 4) > -FXMAX && *std::max_element(cand, cand + 4) < FXMAX);
      if (ok) { Val n = op == Q_ADD ? fpAddSub(SV(x), SV(y), false) : op == Q_SUB ? fpAddSub(SV(x), SV(y), true) : fpMul(SV(x), SV(y)); if (!n.s) return fromNum(n, w); if (n.s->k == Sym::FX) { Val r = fromNum(n, w); if (r.s) return r; } } } }
  z3::expr x = toBV(a, w), y = toBV(b, w), r(*Z);
  switch (op) { case Q_ADD: r = x + y; break; case Q_SUB: r = x - y; break; case Q_MUL: r = x * y; break; case Q_AND: r = x & y; break; case Q_OR: r = x | y; break; case Q_XOR: r = x ^ y; break;
    case Q_SHL: r = z3::shl(x, y); break; case Q_LSHR: r = z3::lshr(x, y); break; case Q_ASHR: r = z3::ashr(x, y); break;
    default: if (b.s) { if (!branchE(y != bvconst(0, w))) trapNow("division", "integer division by zero"); } else if (!b.c && !b.h) trapNow("division", "integer division by zero");
      r = op == Q_UDIV ? z3::udiv(x, y) : op == Q_UREM ? z3::urem(x, y) : op == Q_SDIV ? x / y : z3::srem(x, y); }
  return fromBV(r);
}
static Val icmp(u8 p, unsigned w, Val const &a, Val const &b) {
  if (!a.s && !b.s) {
    if (w > 64) { u128 x = v128(a), y = v128(b); switch (p) { case CmpInst::ICMP_EQ: return CV(x == y); case CmpInst::ICMP_NE: return CV(x != y); case CmpInst::ICMP_ULT: return CV(x < y); case CmpInst::ICMP_UGT: return CV(x > y); case CmpInst::ICMP_ULE: return CV(x <= y); case CmpInst::ICMP_UGE: return CV(x >= y); case CmpInst::ICMP_SLT: return CV((i128)x < (i128)y); case CmpInst::ICMP_SGT: return CV((i128)x > (i128)y); case CmpInst::ICMP_SLE: return CV((i128)x <= (i128)y); default: return CV((i128)x >= (i128)y); } }
    u64 x = a.c, y = b.c; i64 p1 = sx(x, w), q = sx(y, w);
    switch (p) { case CmpInst::ICMP_EQ: return CV(x == y); case CmpInst::ICMP_NE: return CV(x != y); case CmpInst::ICMP_ULT: return CV(x < y); case CmpInst::ICMP_UGT: return CV(x > y); case CmpInst::ICMP_ULE: return CV(x <= y); case CmpInst::ICMP_UGE: return CV(x >= y); case CmpInst::ICMP_SLT: return CV(p1 < q); case CmpInst::ICMP_SGT: return CV(p1 > q); case CmpInst::ICMP_SLE: return CV(p1 <= q); default: return CV(p1 >= q); } }
  if (w > 1) { Sym *x = numOf(a, w), *y = numOf(b, w); if (x && y) { bool nn = x->lo >= 0 && y->lo >= 0; int q = -1;
      switch (p) { case CmpInst::ICMP_EQ: q = C_OEQ; break; case CmpInst::ICMP_NE: q = C_UNE; break; case CmpInst::ICMP_SLT: q = C_OLT; break; case CmpInst::ICMP_SGT: q = C_OGT; break; case CmpInst::ICMP_SLE: q = C_OLE; break; case CmpInst::ICMP_SGE: q = C_OGE; break;
        case CmpInst::ICMP_ULT: if (nn) q = C_OLT; break; case CmpInst::ICMP_UGT: if (nn) q = C_OGT; break; case CmpInst::ICMP_ULE: if (nn) q = C_OLE; break; case CmpInst::ICMP_UGE: if (nn) q = C_OGE; break; }
      if (q >= 0) return fpCmp(q, SV(x), SV(y)); } }
  if (w == 1 && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) { Val x = ibin(Q_XOR, 1, a, b); return p == CmpInst::ICMP_NE ? x : ibin(Q_XOR, 1, x, CV(1)); }
  z3::expr x = toBV(a, w), y = toBV(b, w), r(*Z);
  switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = z3::ult(x, y); break; case CmpInst::ICMP_UGT: r = z3::ugt(x, y); break; case CmpInst::ICMP_ULE: r = z3::ule(x, y); break; case CmpInst::ICMP_UGE: r = z3::uge(x, y); break;
    case CmpInst::ICMP_SLT: r = z3::slt(x, y); break; case CmpInst::ICMP_SGT: r = z3::sgt(x, y); break; case CmpInst::ICMP_SLE: r = z3::sle(x, y); break; default: r = z3::sge(x, y); }
  return boolVal(r);
}
static u64 concrete(Val const &v, unsigned w) { if (!v.s) return v.c; if (v.s->k == Sym::BOOL) return branchE(v.s->e); if (v.s->k == Sym::BV) return v.s->num && liaMode ? maskw(concretizeE(v.s->num->e), v.s->w) : concretizeE(v.s->e);
  if (v.s->dag) { for (int x : v.s->sup) if (choiceVars[x].vals.size() > 1) splitVar(x); return dToBits(tabOf(v.s)[0]); }
  if (v.s->k == Sym::FX) { u64 n = concretizeE(v.s->e); return dToBits(std::ldexp((double)sx(n, liaMode ? 64 : v.s->e.get_sort().bv_size()), -v.s->sc)); }
  return concretizeE(fpBits(v)); }

// ---------- memory access
static bool accessOk(u64 a, u64 n) {
  if (!inArena(a) || !inArena(a + n - 1)) return false;
  while (n) { u64 o = a & 7, m = std::min<u64>(n, 8 - o); u8 s = shadow[(a - ABASE) >> 3] & 15; if (s < o + m) return false; a += m; n -= m; } return true;
}
static std::string describe(u64 a) { char b[128]; snprintf(b, 128, "address 0x%llx", (unsigned long long)a); std::string s = b; u64 best = 0; for (auto &g : gName) if (g.first <= a && g.first > best) best = g.first; if (best && a - best < 100000 && a < ABASE + GSZ) s += " near global " + gName[best]; return s; }
static void memFault(u64 a, u64 n, const char *what) { trapNow("memory", std::string("invalid ") + what + " of " + std::to_string(n) + " bytes at " + describe(a)); }
static inline bool hasSym(u64 a, u64 n) { for (u64 w = a & ~7ull; w < a + n; w += 8) if (shadow[(w - ABASE) >> 3] & 0x80) return true; return false; }
static void putBytes(u64 a, Sym *s, unsigned n) { for (unsigned i = 0; i < n; i++) { u64 w = (a + i) & ~7ull; u8 &sh = shadow[(w - ABASE) >> 3]; Word &wd = symMem[w]; if (!(sh & 0x80)) { memset(&wd, 0, sizeof wd); sh |= 0x80; } wd.b[(a + i) & 7] = {s, (u8)i}; } }
static void clearBytes(u64 a, u64 n) { for (u64 i = 0; i < n;) { u64 w = (a + i) & ~7ull; u64 m = std::min<u64>(n - i, 8 - ((a + i) & 7)); u8 &sh = shadow[(w - ABASE) >> 3]; if (sh & 0x80) { Word &wd = symMem[w]; for (u64 k = 0; k < m; k++) wd.b[((a + i) & 7) + k].s = nullptr; bool any = false; for (auto &x : wd.b) any |= x.s != nullptr; if (!any) sh &= 0x7f; } i += m; } }
static Sym *asBVSym(Sym *s) { if (liaMode) { unsigned w = s->k == Sym::BV ? s->w : s->k == Sym::BOOL ? 8 : 64; return mkBV(toBV(SV(s), w)); } if (s->k == Sym::BV) return s; return mkBV(s->k == Sym::BOOL ? z3::ite(s->e, Z->bv_val(1, 8), Z->bv_val(0, 8)) : fpBits(SV(s))); }
static Val loadMem(u64 a, unsigned w, u8 k) {
  unsigned n = (w + 7) / 8;
  if (!inArena(a)) { if (a < 65536 || a >= FBASE) memFault(a, n, "load"); Val v; memcpy(&v, (void *)a, std::min(n, 16u)); if (w < 64) v.c = maskw(v.c, w); return v; }
  u8 s = shadow[(a - ABASE) >> 3];
  if (!(s == 8 && (a & 7) + n <= 8)) {
    if (!accessOk(a, n)) memFault(a, n, "load");
    if (hasSym(a, n)) {
      Word &w0 = symMem[a & ~7ull]; Sym *s0 = nullptr; if (shadow[(a - ABASE) >> 3] & 0x80) s0 = w0.b[a & 7].s;
      if (s0 && w0.b[a & 7].i == 0) { unsigned sb = s0->k == Sym::BV ? (s0->w + 7) / 8 : s0->k == Sym::BOOL ? 1 : 8; if (sb == n) { bool all = true; for (unsigned i = 0; i < n && all; i++) { u64 x = a + i; if (!(shadow[(x - ABASE) >> 3] & 0x80)) { all = false; break; } ByteRef &r = symMem[x & ~7ull].b[x & 7]; all = r.s == s0 && r.i == i; } if (all) { if (w < 8 && s0->k == Sym::BV) return fromBV(toBV(SV(s0), s0->w).extract(w - 1, 0)); return SV(s0); } } }
      bool any = false; for (unsigned i = 0; i < n; i++) { u64 x = a + i; if ((shadow[(x - ABASE) >> 3] & 0x80) && symMem[x & ~7ull].b[x & 7].s) any = true; }
      if (any) {
        z3::expr r(*Z);
        for (unsigned i = 0; i < n; i++) { u64 x = a + i; z3::expr b = Z->bv_val((unsigned)*(u8 *)x, 8); if (shadow[(x - ABASE) >> 3] & 0x80) { ByteRef &q = symMem[x & ~7ull].b[x & 7]; if (q.s) { Sym *bs = asBVSym(q.s); unsigned hi = q.i * 8 + 7; b = hi < bs->w ? bs->e.extract(hi, q.i * 8) : bs->e; if (b.get_sort().bv_size() < 8) b = z3::zext(b, 8 - b.get_sort().bv_size()); } } r = i ? z3::concat(b, r) : b; }
        if (w < n * 8) r = r.extract(w - 1, 0);
        return fromBV(r); } } }
  Val v; memcpy(&v, (void *)a, std::min(n, 16u)); if (w < 64) v.c = maskw(v.c, w); return v;
}
static void storeMem(u64 a, unsigned w, Val const &v) {
  unsigned n = (w + 7) / 8;
  if (!inArena(a)) { if (a < 65536 || a >= FBASE) memFault(a, n, "store"); if (v.s) { incomplete("symbolic value stored outside the arena"); Val c = CV(concrete(v)); memcpy((void *)a, &c, n); return; } memcpy((void *)a, &v, n); return; }
  u8 s = shadow[(a - ABASE) >> 3];
  if (!(s == 8 && (a & 7) + n <= 8)) { if (!accessOk(a, n)) memFault(a, n, "store"); if (!v.s && hasSym(a, n)) clearBytes(a, n); }
  if (v.s) { Sym *t = v.s; if (t->k == Sym::BV && (w & 7)) t = mkBV(z3::zext(toBV(v, w), n * 8 - w)); else if (t->k == Sym::BOOL && n > 1) t = liaMode ? mkBV(toBV(v, n * 8)) : mkBV(z3::ite(t->e, Z->bv_val(1, n * 8), Z->bv_val(0, n * 8))); putBytes(a, t, n); return; }
  memcpy((void *)a, &v, n);
}
static void copyMem(u64 d, u64 s, u64 n) {
  if (!n) return;
  bool ds = inArena(d), ss = inArena(s);
  if (ss ? !accessOk(s, n) : (s < 65536 || s >= FBASE)) memFault(s, n, "read"); if (ds ? !accessOk(d, n) : (d < 65536 || d >= FBASE)) memFault(d, n, "write");
  if (ss && hasSym(s, n)) {
    if (!ds) { incomplete("symbolic memory copied outside the arena"); memmove((void *)d, (void *)s, n); return; }
    std::vector<ByteRef> tmp(n); for (u64 i = 0; i < n; i++) { u64 x = s + i; tmp[i] = (shadow[(x - ABASE) >> 3] & 0x80) ? symMem[x & ~7ull].b[x & 7] : ByteRef{nullptr, 0}; }
    memmove((void *)d, (void *)s, n); if (hasSym(d, n)) clearBytes(d, n);
    for (u64 i = 0; i < n; i++) if (tmp[i].s) { u64 w = (d + i) & ~7ull; u8 &sh = shadow[(w - ABASE) >> 3]; Word &wd = symMem[w]; if (!(sh & 0x80)) { memset(&wd, 0, sizeof wd); sh |= 0x80; } wd.b[(d + i) & 7] = tmp[i]; }
    return; }
  if (ds && hasSym(d, n)) clearBytes(d, n);
  memmove((void *)d, (void *)s, n);
}
// ---------- native calls
extern "C" void msym_ncall(void *fn, u64 *gp, double *fp, u64 *st, u64 nst, u64 *ret, u64 nfp);
asm(R"(
.text
.globl msym_ncall
.type msym_ncall,@function
msym_ncall:
 .cfi_startproc
 pushq %rbp
 .cfi_def_cfa_offset 16
 .cfi_offset %rbp,-16
 movq %rsp,%rbp
 .cfi_def_cfa_register %rbp
 pushq %rbx
 pushq %r12
 .cfi_offset %rbx,-24
 .cfi_offset %r12,-32
 movq %r9,%rbx
 movq %rdi,%r11
 movq %rsi,%r10
 movq 16(%rbp),%r12
 movq %r8,%rax
 testq $1,%rax
 jz 1f
 subq $8,%rsp
1: testq %rax,%rax
 jz 2f
 pushq -8(%rcx,%rax,8)
 decq %rax
 jmp 1b
2: movsd 0(%rdx),%xmm0
 movsd 8(%rdx),%xmm1
 movsd 16(%rdx),%xmm2
 movsd 24(%rdx),%xmm3
 movsd 32(%rdx),%xmm4
 movsd 40(%rdx),%xmm5
 movsd 48(%rdx),%xmm6
 movsd 56(%rdx),%xmm7
 movq %r12,%rax
 movq 0(%r10),%rdi
 movq 8(%r10),%rsi
 movq 16(%r10),%rdx
 movq 24(%r10),%rcx
 movq 32(%r10),%r8
 movq 40(%r10),%r9
 callq *%r11
 movq %rax,0(%rbx)
 movq %rdx,8(%rbx)
 movsd %xmm0,16(%rbx)
 movsd %xmm1,24(%rbx)
 leaq -16(%rbp),%rsp
 popq %r12
 popq %rbx
 popq %rbp
 .cfi_def_cfa %rsp,8
 retq
 .cfi_endproc
.size msym_ncall,.-msym_ncall
)");
static void doThrow(u64 obj, u64 tinfo, std::exception_ptr ep = nullptr);
static bool callNative(CallInfo *ci, void *fn, Val *args, int n, Val *r, std::string const &name) { // false if an exception was raised
  u64 gp[6] = {0}, ret[4] = {0}; double fp[8] = {0}; std::vector<u64> st; int g = 0, f = 0;
  for (int i = 0; i < n; i++) {
    if (args[i].s) args[i] = CV(concrete(args[i]));
    if (ci->byval[i]) { u64 sz = (ci->byval[i] + 7) / 8; for (u64 k = 0; k < sz; k++) st.push_back(((u64 *)args[i].c)[k]); continue; }
    u64 c = args[i].c; if (ci->at[i].k == L_INT && ci->at[i].w < 64) c = ci->at[i].w == 32 ? (u64)(i64)(int)c : c;
    if (ci->at[i].k == L_PTR && inArena(c)) { u64 q = c & ~7ull; for (int k = 0; k < 4; k++, q += 8) { u8 s = shadow[(q - ABASE) >> 3]; if (!(s & 15)) break; if (s & 0x80) { SH->nativeSym++; if (verbose) fprintf(stderr, "native %s touches symbolic memory\n", name.c_str()); break; } } }
    if (ci->at[i].k == L_F64 || ci->at[i].k == L_F32) { if (f < 8) fp[f++] = bitsToD(c); else st.push_back(c); }
    else if (ci->at[i].k == L_F80) { st.push_back(c); st.push_back(args[i].h); }
    else if (g < 6) gp[g++] = c; else st.push_back(c); }
  std::exception_ptr ep; inNative++;
  try { msym_ncall(fn, gp, fp, st.data(), st.size(), ret, f); } catch (...) { ep = std::current_exception(); }
  inNative--;
  if (ep) { void *obj = *(void **)&ep; std::type_info const *ti = ep.__cxa_exception_type(); doThrow((u64)obj, (u64)ti, ep); return false; }
  int gi = 0, fi = 0; for (size_t i = 0; i < ci->ret.size(); i++) { if (ci->ret[i].k == L_F64 || ci->ret[i].k == L_F32) r[i] = CV(ret[2 + fi++]); else { r[i] = CV(maskw(ret[gi++], ci->ret[i].w)); } if (ci->ret[i].k == L_F32) r[i].c &= 0xffffffff; }
  return true;
}
// ---------- calls, exceptions
static void pushFrame(Fn *fn, Val const *args, int n, int dst, CallInfo *ci) {
  if (!fn->ready) { incomplete("call of undefined function " + demangle(fn->name)); SH->paths++; endPath(); }
  fnHit[fn->id] = 1;
  Frame f; f.fn = fn; f.pc = 0; f.r = T->regTop; f.stk = T->stkTop; f.dst = dst; f.ci = ci; f.rtop = T->regTop; T->regTop += fn->nregs + 1;
  if (T->regTop > T->regBase + (1 << 22) || T->fr.size() > 20000) trapNow("stack", "stack overflow (unbounded recursion)");
  for (int i = 0; i < fn->nargs && i < n; i++) { f.r[i] = args[i]; if (fn->byval[i]) { u64 sz = fn->byval[i]; u64 p = (T->stkTop + 32 + 15) & ~15ull; T->stkTop = p + ((sz + 15) & ~15ull) + 16; unpoison(p, sz); u64 s = args[i].c; copyMem(p, s, sz); f.r[i] = CV(p); } }
  if (T->stkTop > T->stkBase + TSTK - 65536) trapNow("stack", "stack overflow");
  T->fr.push_back(f);
}
static void popFrame() { Frame &f = T->fr.back(); if (T->stkTop > f.stk) { poison(f.stk, T->stkTop - f.stk); } T->stkTop = f.stk; T->regTop = f.rtop; T->fr.pop_back(); }
static void takeEdge(Frame &f, Edge *e) {
  size_t n = e->mv.size();
  if (n == 1) { auto &m = e->mv[0]; f.r[m.first] = m.second >= 0 ? f.r[m.second] : f.fn->consts[~m.second]; }
  else if (n) { Val tmp[64]; std::vector<Val> big; Val *t = tmp; if (n > 64) { big.resize(n); t = big.data(); } for (size_t i = 0; i < n; i++) { int s = e->mv[i].second; t[i] = s >= 0 ? f.r[s] : f.fn->consts[~s]; } for (size_t i = 0; i < n; i++) f.r[e->mv[i].first] = t[i]; }
  f.pc = e->pc;
}
static int typeId(u64 ti) { auto it = typeIds.find(ti); if (it != typeIds.end()) return it->second; int n = typeIds.size() + 1; typeIds[ti] = n; return n; }
static bool catches(u64 catchTi, ExcRec &e) {
  if (!catchTi) { e.adjusted = e.obj; return true; }
  std::type_info *c = (std::type_info *)catchTi; std::type_info *t = (std::type_info *)e.tinfo; void *o = (void *)e.obj; if (t->__is_pointer_p()) o = *(void **)o;
  inNative++; bool ok = c->__do_catch(t, &o, 1); inNative--; if (ok) e.adjusted = (u64)o; return ok;
}
static void threadDone();
static void unwindWith(u64 obj) { // unwinds T from the current frame (whose pc is at a call / resume)
  for (;;) {
    if (T->fr.empty()) { auto &e = excs[obj]; std::string w = demangle(std::string("_ZTS") + ((std::type_info *)e.tinfo)->name()); int st; char *dn = abi::__cxa_demangle(((std::type_info *)e.tinfo)->name(), nullptr, nullptr, &st); std::string nm = dn ? dn : "?"; trapNow("exception", "uncaught exception of type " + nm); }
    Frame &f = T->fr.back(); Ins &i = f.fn->code[f.pc];
    if (i.op == Q_CALL) { CallInfo *ci = (CallInfo *)i.ext; if (ci->unw) {
        LpadInfo *li = nullptr; for (int p = ci->unw->pc;; p++) if (f.fn->code[p].op == Q_LPAD) { li = (LpadInfo *)f.fn->code[p].ext; break; }
        int sel = 0; bool match = false; for (auto &c : li->cl) if (c.first && catches(c.second, excs[obj])) { sel = c.second ? typeId(c.second) : typeId(0); match = true; break; } else if (!c.first) { match = true; sel = -1; break; }
        if (match || li->cleanup) { inflight = obj; inflightSel = sel; takeEdge(f, ci->unw); return; } } }
    popFrame();
    if (!T->fr.empty()) {} }
}
static void doThrow(u64 obj, u64 tinfo, std::exception_ptr ep) { ExcRec &e = excs[obj]; e.obj = obj; e.tinfo = tinfo; e.ep = ep; e.adjusted = obj; unwindWith(obj); }

static Val selectV(Ins &I, Val const &c, Val const &a, Val const &b, bool &ok) {
  ok = true; if (!c.s) return (c.c & 1) ? a : b;
  if (a.s == b.s && a.s) return a; if (!a.s && !b.s && a.c == b.c && a.h == b.h) return a;
  Sym *cs = c.s->k == Sym::BOOL ? c.s : mkBool(toBool(c));
  auto isD = [](Val const &v) { return v.s && (v.s->k == Sym::FX || v.s->k == Sym::TAB || v.s->k == Sym::FP); };
  if (I.k == L_F64 || isD(a) || isD(b)) return fpSelect(cs, a, b, ok);
  if (I.k == L_F32 || I.k == L_F80) { ok = false; return Val(); }
  if (I.w == 1) { z3::expr r = z3::ite(cs->e, toBool(a), toBool(b)); Val v = boolVal(r); if (v.s) { auto dg = [](Val const &q) { return q.s ? q.s : constNode(q.c & 1); }; setDag(v.s, F_SEL, cs, dg(a), dg(b)); } return v; }
  if (I.k == L_PTR) { ok = false; return Val(); }
  Sym *x = numOf(a, I.w), *y = numOf(b, I.w); if (x && y) { bool o2; Val n = fpSelect(cs, SV(x), SV(y), o2); if (o2) { if (!n.s) return fromNum(n, I.w); if (n.s->k == Sym::FX && n.s->sc == 0) { Val r = fromNum(n, I.w); if (r.s) return r; } } }
  return fromBV(z3::ite(cs->e, toBV(a, I.w), toBV(b, I.w)));
}
static Val intToFp(Val const &a, unsigned w, bool sg) {
  if (!a.s) return DV(sg ? (double)sx(a.c, w) : (double)a.c);
  if (a.s->k == Sym::BOOL) { bool ok; Val r = fpSelect(a.s, DV(sg ? -1.0 : 1.0), DV(0.0), ok); if (ok) return r; return DV(branchE(a.s->e) ? (sg ? -1.0 : 1.0) : 0.0); }
  Sym *n = a.s->num; if (n && (sg || n->lo >= 0)) { return SV(n); }
  z3::expr e = a.s->e; if (liaMode) return DV(sg ? (double)sx(concrete(a), w) : (double)concrete(a));
  for (int k : {8, 16, 31, 52}) if (k < (int)w) { z3::expr lo = Z->bv_val((int64_t)-((i64)1 << k), w), hi = Z->bv_val((int64_t)((i64)1 << k), w); z3::expr in = sg ? (z3::sge(e, lo) && z3::sle(e, hi)) : z3::ule(e, hi); if (chk(!in) == z3::unsat) { Sym *r = mkFX(e, 0, sg ? -((i64)1 << k) : 0, (i64)1 << k); return SV(r); } }
  if (w < 53) { Sym *r = mkFX(sg ? e : z3::zext(e, 1), 0, sg ? -((i64)1 << (w - 1)) : 0, ((i64)1 << w) - 1); return SV(r); }
  if (fpMode) return SV(mkFP(z3::expr(*Z, sg ? Z3_mk_fpa_to_fp_signed(*Z, rne(), e, Z->fpa_sort(11, 53)) : Z3_mk_fpa_to_fp_unsigned(*Z, rne(), e, Z->fpa_sort(11, 53)))));
  return DV(sg ? (double)(i64)concretizeE(e) : (double)concretizeE(e));
}
static float bf(u64 c) { float f; u32 x = c; memcpy(&f, &x, 4); return f; }
static u64 fb(float f) { u32 x; memcpy(&x, &f, 4); return x; }
static long double bl(Val const &v) { long double l = 0; memcpy(&l, &v, 10); return l; }
static Val lb(long double l) { Val v; memcpy(&v, &l, 10); v.h &= 0xffff; return v; }
static Val fbin(Ins &I, Val const &a0, Val const &b0) {
  if (I.k == L_F64) {
    if (!a0.s && !b0.s) { double a = bitsToD(a0.c), b = bitsToD(b0.c); switch (I.op) { case Q_FADD: return DV(a + b); case Q_FSUB: return DV(a - b); case Q_FMUL: return DV(a * b); case Q_FDIV: return DV(a / b); default: return DV(std::fmod(a, b)); } }
    switch (I.op) { case Q_FADD: return fpAddSub(a0, b0, false); case Q_FSUB: return fpAddSub(a0, b0, true); case Q_FMUL: return fpMul(a0, b0); case Q_FDIV: return fpDiv(a0, b0); default: return fpRem(a0, b0); } }
  Val a = a0, b = b0; if (a.s) a = CV(concrete(a)); if (b.s) b = CV(concrete(b));
  if (I.k == L_F32) { float x = bf(a.c), y = bf(b.c), r; switch (I.op) { case Q_FADD: r = x + y; break; case Q_FSUB: r = x - y; break; case Q_FMUL: r = x * y; break; case Q_FDIV: r = x / y; break; default: r = std::fmod(x, y); } return CV(fb(r)); }
  long double x = bl(a), y = bl(b), r; switch (I.op) { case Q_FADD: r = x + y; break; case Q_FSUB: r = x - y; break; case Q_FMUL: r = x * y; break; case Q_FDIV: r = x / y; break; default: r = std::fmod(x, y); } return lb(r);
}
static u8 fpred(unsigned p) {
  switch (p) { case CmpInst::FCMP_OEQ: return C_OEQ; case CmpInst::FCMP_ONE: return C_ONE; case CmpInst::FCMP_OLT: return C_OLT; case CmpInst::FCMP_OLE: return C_OLE; case CmpInst::FCMP_OGT: return C_OGT; case CmpInst::FCMP_OGE: return C_OGE; case CmpInst::FCMP_ORD: return C_ORD; case CmpInst::FCMP_UNO: return C_UNO; case CmpInst::FCMP_UEQ: return C_UEQ; case CmpInst::FCMP_UNE: return C_UNE; case CmpInst::FCMP_ULT: return C_ULT; case CmpInst::FCMP_ULE: return C_ULE; case CmpInst::FCMP_UGT: return C_UGT; default: return C_UGE; } }

static bool wantSwitch = false; static void schedule();
static void threadExited();
static void runLoop() {
  for (;;) {
    try {
      for (;;) {
        if (wantSwitch) { wantSwitch = false; schedule(); }
        Frame &f = T->fr.back(); Val *R = f.r; Val *K = f.fn->consts.data();
#define V(x) ((x) >= 0 ? R[x] : K[~(x)])
        Ins &I = f.fn->code[f.pc]; curIns = &I;
        if ((++pathInstr & 0xfff) == 0) { if (SH->stop) endPath(); if (pathInstr > maxSteps) { SH->killedSteps++; trapNow("steps", "step bound exceeded (possible non-termination)"); } }
        switch (I.op) {
          case Q_ADD: case Q_SUB: case Q_MUL: case Q_UDIV: case Q_SDIV: case Q_UREM: case Q_SREM: case Q_SHL: case Q_LSHR: case Q_ASHR: case Q_AND: case Q_OR: case Q_XOR: R[I.dst] = ibin(I.op, I.w, V(I.a), V(I.b)); f.pc++; break;
          case Q_FADD: case Q_FSUB: case Q_FMUL: case Q_FDIV: case Q_FREM: R[I.dst] = fbin(I, V(I.a), V(I.b)); f.pc++; break;
          case Q_FNEG: if (I.k == L_F64) R[I.dst] = fpNeg(V(I.a)); else if (I.k == L_F32) R[I.dst] = CV(V(I.a).c ^ 0x80000000u); else R[I.dst] = lb(-bl(V(I.a))); f.pc++; break;
          case Q_ICMP: R[I.dst] = icmp(I.sub, I.w, V(I.a), V(I.b)); f.pc++; break;
          case Q_FCMP: { if (I.sub == CmpInst::FCMP_TRUE) R[I.dst] = CV(1); else if (I.sub == CmpInst::FCMP_FALSE) R[I.dst] = CV(0); else if (I.k == L_F64) R[I.dst] = fpCmp(fpred(I.sub), V(I.a), V(I.b)); else if (I.k == L_F32) R[I.dst] = CV(evalCmp(fpred(I.sub), bf(V(I.a).c), bf(V(I.b).c))); else { long double x = bl(V(I.a)), y = bl(V(I.b)); double d = x < y ? -1 : x > y ? 1 : x == y ? 0 : NAN; R[I.dst] = CV(evalCmp(fpred(I.sub), d, 0)); } f.pc++; break; }
          case Q_TRUNC: { Val v = V(I.a); if (!v.s) { v.c = maskw(v.c, I.w); if (I.w <= 64) v.h = 0; R[I.dst] = v; } else { if (v.s->k == Sym::BV && v.s->num && bitsFor(v.s->num->lo, v.s->num->hi) <= I.w && I.w > 1) { Sym *r = mkBV(numToBV(v.s->num->e, I.w)); r->num = v.s->num; R[I.dst] = SV(r); } else R[I.dst] = fromBV(toBV(v, I.imm).extract(I.w - 1, 0)); } f.pc++; break; }
          case Q_ZEXT: { Val v = V(I.a); if (v.s) { if (v.s->k == Sym::BOOL) { bool ok; Val n = fpSelect(v.s, DV(1.0), DV(0.0), ok); v = fromNum(n, I.w); } else if (v.s->num && v.s->num->lo >= 0) { Sym *r = mkBV(numToBV(v.s->num->e, I.w)); r->num = v.s->num; v = SV(r); } else v = fromBV(z3::zext(toBV(v, I.imm), I.w - I.imm)); } R[I.dst] = v; f.pc++; break; }
          case Q_SEXT: { Val v = V(I.a); if (v.s) { if (v.s->k == Sym::BOOL) { bool ok; Val n = fpSelect(v.s, DV(-1.0), DV(0.0), ok); v = fromNum(n, I.w); } else if (v.s->num) { Sym *r = mkBV(numToBV(v.s->num->e, I.w)); r->num = v.s->num; v = SV(r); } else v = fromBV(z3::sext(toBV(v, I.imm), I.w - I.imm)); } else { i64 x = sx(v.c, I.imm); v.c = maskw((u64)x, I.w); v.h = 0; if (I.w > 64) v.h = x < 0 ? ~0ull : 0; if (I.w > 64 && I.w < 128) v.h &= (1ull << (I.w - 64)) - 1; } R[I.dst] = v; f.pc++; break; }
          case Q_FPTRUNC: { Val v = V(I.a); if (v.s) v = CV(concrete(v)); double d = I.sub == L_F80 ? (double)bl(v) : bitsToD(v.c); R[I.dst] = I.k == L_F32 ? CV(fb(I.sub == L_F80 ? (float)bl(v) : (float)d)) : DV(d); f.pc++; break; }
          case Q_FPEXT: { Val v = V(I.a); if (I.sub == L_F32) { float x = bf(v.c); R[I.dst] = I.k == L_F64 ? DV(x) : lb(x); } else { if (v.s) v = CV(concrete(v)); R[I.dst] = lb(bitsToD(v.c)); } f.pc++; break; }
          case Q_FPTOSI: case Q_FPTOUI: { Val v = V(I.a); bool sg = I.op == Q_FPTOSI; if (I.sub == L_F64) R[I.dst] = fpToInt(v, I.w, sg); else { long double x = I.sub == L_F32 ? bf(v.c) : bl(v); R[I.dst] = CV(maskw(sg ? (u64)(i64)x : (u64)x, I.w)); } f.pc++; break; }
          case Q_SITOFP: case Q_UITOFP: { Val v = V(I.a); bool sg = I.op == Q_SITOFP; if (I.k == L_F64) R[I.dst] = intToFp(v, I.imm, sg); else { if (v.s) v = CV(concrete(v)); long double x = sg ? (long double)sx(v.c, I.imm) : (long double)v.c; R[I.dst] = I.k == L_F32 ? CV(fb(sg ? (float)sx(v.c, I.imm) : (float)v.c)) : lb(x); } f.pc++; break; }
          case Q_MOV: R[I.dst] = V(I.a); f.pc++; break;
          case Q_SELECT: { bool ok; Val v = selectV(I, V(I.c), V(I.a), V(I.b), ok); if (!ok) v = branchV(V(I.c)) ? V(I.a) : V(I.b); R[I.dst] = v; f.pc++; break; }
          case Q_LOAD: { Val p = V(I.a); u64 a = (p.s ? concrete(p) : p.c) + I.imm; R[I.dst] = loadMem(a, I.w, I.k); f.pc++; break; }
          case Q_STORE: { Val p = V(I.a); u64 a = (p.s ? concrete(p) : p.c) + I.imm; storeMem(a, I.w, V(I.b)); f.pc++; break; }
          case Q_GEP: { GepInfo *g = (GepInfo *)I.ext; Val p = V(I.a); if (!p.s) p.c += g->off; else p = ibin(Q_ADD, 64, p, CV(g->off));
            for (auto &[o, sc, w] : g->var) { Val x = V(o); if (!x.s && !p.s) p.c += (u64)sx(x.c, w) * sc; else { Val y = x; if (x.s && w < 64) { if (x.s->num) { Sym *r = mkBV(numToBV(x.s->num->e, 64)); r->num = x.s->num; y = SV(r); } else y = fromBV(z3::sext(toBV(x, w), 64 - w)); } else if (!x.s) y = CV((u64)sx(x.c, w)); p = ibin(Q_ADD, 64, p, ibin(Q_MUL, 64, y, CV(sc))); } }
            R[I.dst] = p; f.pc++; break; }
          case Q_ALLOCA: { u64 n = concrete(V(I.a)) * I.imm; u64 al = I.b; u64 p = (T->stkTop + 32 + al - 1) & ~(al - 1); T->stkTop = p + ((n + 15) & ~15ull) + 16; if (T->stkTop > T->stkBase + TSTK - 65536) trapNow("stack", "stack overflow"); unpoison(p, n); R[I.dst] = CV(p); f.pc++; break; }
          case Q_BR: takeEdge(f, (Edge *)I.ext); break;
          case Q_CBR: { Val c = V(I.a); bool b = c.s ? branchV(c) : (c.c & 1); takeEdge(f, b ? (Edge *)I.ext : (Edge *)I.imm); break; }
          case Q_SWITCH: { SwitchInfo *si = (SwitchInfo *)I.ext; Val c = V(I.a); Edge *e = si->def;
            if (!c.s) { for (auto &p : si->cs) if (p.first == c.c) { e = p.second; break; } }
            else { for (auto &p : si->cs) { Val q = icmp(CmpInst::ICMP_EQ, I.w, c, CV(p.first)); if (branchV(q)) { e = p.second; break; } } }
            takeEdge(f, e); break; }
          case Q_RET: {
            Fn *fn = f.fn; Val rv[16]; std::vector<Val> big; Val *p = rv; size_t n = fn->ret.size(); if (n > 16) { big.resize(n); p = big.data(); } for (size_t i = 0; i < n; i++) p[i] = V(I.a >= 0 ? I.a + (int)i : I.a - (int)i);
            int dst = f.dst; CallInfo *ci = f.ci; popFrame();
            if (T->fr.empty()) { if (cur == 0) return; threadExited(); break; }
            if (ci == (CallInfo *)1) { break; }
            Frame &c = T->fr.back(); for (size_t i = 0; i < n; i++) c.r[dst + i] = p[i]; if (ci->norm) takeEdge(c, ci->norm); else c.pc++; break; }
          case Q_CALL: {
            CallInfo *ci = (CallInfo *)I.ext; Val av[24]; std::vector<Val> big; Val *a = av; size_t n = ci->args.size(); if (n > 24) { big.resize(n); a = big.data(); } for (size_t i = 0; i < n; i++) a[i] = V(ci->args[i]);
            Fn *fn = ci->fn; void *nat = ci->native; Builtin *bi = ci->bi; std::string const *nm = &ci->name;
            if (ci->indirect) { u64 t = concrete(V(ci->target)); nat = nullptr; if (t - FBASE < fns.size() * FSTEP) { fn = fns[(t - FBASE) / FSTEP]; if (!fn->ready || findBuiltin(fn->name)) { bi = findBuiltin(fn->name); nm = &fn->name; if (bi) fn = nullptr; } } else if (t > 65536 && !inArena(t)) nat = (void *)t; else trapNow("memory", "call through an invalid function pointer"); }
            if (fn) { pushFrame(fn, a, n, I.dst, ci); break; }
            Val rv[8]; 
            if (bi) { Ctx cx{ci, a, (int)n, rv}; Frame *before = &T->fr.back(); size_t depth = T->fr.size(); int pc0 = f.pc; Thread *t0 = T; (*bi)(cx); if (T != t0 || T->fr.size() != depth || &T->fr.back() != before || T->fr.back().pc != pc0) break; Frame &c = T->fr.back(); for (size_t i = 0; i < ci->ret.size(); i++) c.r[I.dst + i] = rv[i]; if (ci->norm) takeEdge(c, ci->norm); else c.pc++; break; }
            if (!nat) { incomplete("call of undefined external " + (ci->name.empty() ? std::string("?") : demangle(ci->name))); SH->paths++; endPath(); }
            if (verbose && 0) fprintf(stderr, "native %s\n", nm->c_str());
            if (callNative(ci, nat, a, n, rv, *nm)) { Frame &c = T->fr.back(); for (size_t i = 0; i < ci->ret.size(); i++) c.r[I.dst + i] = rv[i]; if (ci->norm) takeEdge(c, ci->norm); else c.pc++; }
            break; }
          case Q_UNREACH: trapNow("unreachable", "unreachable instruction executed (undefined behaviour)");
          case Q_RESUME: { u64 o = V(I.a).c; f.pc = f.pc; popFrame(); unwindWith(o); break; }
          case Q_LPAD: R[I.dst] = CV(inflight); R[I.dst + 1] = CV((u32)inflightSel); f.pc++; break;
          case Q_RMW: { Val p = V(I.a); u64 a = concrete(p); Val o = loadMem(a, I.w, I.k), v = V(I.b), n; switch (I.sub) { case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = ibin(Q_ADD, I.w, o, v); break; case AtomicRMWInst::Sub: n = ibin(Q_SUB, I.w, o, v); break; case AtomicRMWInst::And: n = ibin(Q_AND, I.w, o, v); break; case AtomicRMWInst::Or: n = ibin(Q_OR, I.w, o, v); break; case AtomicRMWInst::Xor: n = ibin(Q_XOR, I.w, o, v); break; default: incomplete("atomicrmw"); endPath(); } storeMem(a, I.w, n); R[I.dst] = o; f.pc++; if (threads.size() > 1) wantSwitch = true; break; }
          case Q_CMPXCHG: { u64 a = concrete(V(I.a)); Val o = loadMem(a, I.w, L_INT); Val eq = icmp(CmpInst::ICMP_EQ, I.w, o, V(I.b)); bool b = branchV(eq); if (b) storeMem(a, I.w, V(I.c)); R[I.dst] = o; R[I.dst + 1] = CV(b); f.pc++; if (threads.size() > 1) wantSwitch = true; break; }
          case Q_NOP: f.pc++; if (I.src && isa<InvokeInst>(I.src)) {} break;
          case Q_BITCASTV: { auto *p = (std::pair<std::vector<Leaf>, std::vector<Leaf>> *)I.ext; bool sy = false; size_t n = p->first.size(), m = p->second.size();
            for (size_t i = 0; i < n; i++) if (V(I.a >= 0 ? I.a + (int)i : I.a - (int)i).s) sy = true;
            if (!sy) { u8 bits[512]; unsigned nb = 0; for (size_t i = 0; i < n; i++) { Val v = V(I.a >= 0 ? I.a + (int)i : I.a - (int)i); for (unsigned k = 0; k < p->first[i].w; k++) bits[nb++] = (k < 64 ? v.c >> k : v.h >> (k - 64)) & 1; } nb = 0;
              for (size_t i = 0; i < m; i++) { Val v; for (unsigned k = 0; k < p->second[i].w; k++, nb++) { if (k < 64) v.c |= (u64)bits[nb] << k; else v.h |= (u64)bits[nb] << (k - 64); } R[I.dst + i] = v; } }
            else { z3::expr e(*Z); for (size_t i = 0; i < n; i++) { z3::expr x = toBV(V(I.a >= 0 ? I.a + (int)i : I.a - (int)i), p->first[i].w); e = i ? z3::concat(x, e) : x; } unsigned nb = 0; for (size_t i = 0; i < m; i++) { R[I.dst + i] = fromBV(e.extract(nb + p->second[i].w - 1, nb)); nb += p->second[i].w; } }
            f.pc++; break; }
          case Q_EXTELT: { u64 k = concrete(V(I.b)); R[I.dst] = V(I.a >= 0 ? I.a + (int)k : I.a - (int)k); f.pc++; break; }
          case Q_INSELT: { u64 k = concrete(V(I.c)); for (u64 j = 0; j < I.imm; j++) R[I.dst + j] = j == k ? V(I.b) : V(I.a >= 0 ? I.a + (int)j : I.a - (int)j); f.pc++; break; }
          default: { std::string is; raw_string_ostream os(is); if (I.src) I.src->print(os); incomplete("unsupported instruction: " + os.str()); SH->paths++; endPath(); }
        }
      }
    } catch (SplitVar &sv) { splitVar(sv.var); }
    catch (SplitBV &sb) { Sym *s = sb.s; u64 n = concretizeE(s->e); if (s->k == Sym::FX) { s->lo = s->hi = sx(n, liaMode ? 64 : s->e.get_sort().bv_size()); s->op = F_CONST; s->cval = std::ldexp((double)s->lo, -s->sc); s->dag = true; s->sup.clear(); s->tab = nullptr; } else { incomplete("integer used as double bits"); SH->paths++; endPath(); } }
    catch (z3::exception &e) { incomplete(std::string("z3 exception: ") + e.msg()); SH->paths++; endPath(); }
    catch (std::exception &e) { incomplete(std::string("engine: ") + e.what() + " in " + demangle(T->fr.back().fn->name).substr(0, 120)); SH->paths++; endPath(); }
  }
}
static Thread *newThread() {
  Thread *t = new Thread; int id = threads.size(); t->stkBase = t->stkTop = ABASE + GSZ + (u64)id * TSTK; if (id >= (int)NTHR) { incomplete("too many threads"); endPath(); }
  t->regBase = t->regTop = (Val *)mmap(nullptr, sizeof(Val) * ((1 << 22) + 100000), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); threads.push_back(t); return t;
}
static sigjmp_buf segvJmp; static bool segvReady = false; static std::string segvMsg;
static void onSegv(int sig, siginfo_t *si, void *) {
  static bool in = false; if (in) { _exit(4); } in = true;
  char b[100]; snprintf(b, 100, "signal %d at %p", sig, si->si_addr); std::string w = inNative ? " in a native library call" : "";
  static std::string m; m = std::string(b) + w + " fn " + (T && !T->fr.empty() ? demangle(T->fr.back().fn->name).substr(0, 100) : "?");
  if (segvReady) { segvReady = in = false; segvMsg = m; siglongjmp(segvJmp, 1); }
  incomplete("crash: " + m);
  SH->paths++; endPath();
}
static void initInterp() {
  S = new z3::solver(fpMode ? z3::solver(*Z) : z3::solver(*Z, liaMode ? "QF_LIA" : "QF_BV"));
  if (rlimitPer) { z3::params p(*Z); p.set("rlimit", (unsigned)rlimitPer); S->set(p); }
  static u8 alt[1 << 16]; stack_t ss{alt, 0, sizeof alt}; sigaltstack(&ss, nullptr); struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onSegv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGABRT, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr);
}
static void runAll(Function *ef, std::vector<Function *> const &ctors) {
  T = newThread(); cur = 0;
  for (Function *c : ctors) { pushFrame(getFn(c), nullptr, 0, 0, nullptr); runLoop(); }
  pathInstr = 0;
  if (sigsetjmp(segvJmp, 1)) { inNative = 0; trapNow("memory", segvMsg); }
  segvReady = true;
  pushFrame(getFn(ef), nullptr, 0, 0, nullptr); runLoop();
  pathDone();
}
