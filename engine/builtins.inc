// builtins: harness API, C/C++ runtime, intrinsics, threads
static std::string cstr(u64 p) { if (!p) return ""; std::string s; for (;;) { char c = *(char *)p++; if (!c) break; s += c; } return s; }
static std::string uniqueName(u64 p) { std::string n = cstr(p); int k = nameCnt[n]++; return k ? n + "#" + std::to_string(k) : n; }
static int newChoice(std::string const &nm, u64 n) { // returns var index, domain 0..n-1
  int bits = 1; while ((1ull << bits) < n) bits++;
  if (liaMode) { z3::expr e = Z->int_const(nm.c_str()); S->add(e >= 0 && e <= Z->int_val((int64_t)(n - 1))); choiceVars.push_back(ChoiceVar{nm, e, {}, bits, true, 0, 0}); return choiceVars.size() - 1; }
  z3::expr e = Z->bv_const(nm.c_str(), bits); if (n != (1ull << bits)) { z3::expr c = z3::ule(e, Z->bv_val((uint64_t)(n - 1), bits)); S->add(c); }
  choiceVars.push_back(ChoiceVar{nm, e, {}, bits, true, 0, 0}); return choiceVars.size() - 1;
}
static Sym *mkFxVar(std::string const &nm, i64 lo, i64 hi, int sh, int kind) {
  u64 n = (u64)(hi - lo) + 1; int v = newChoice(nm, n); auto &cv = choiceVars[v]; inputs.push_back({nm, kind, cv.e, lo, sh, {}});
  int w = bitsFor(std::min<i64>(lo, 0), std::max<i64>(hi, (i64)n - 1)); z3::expr N = liaMode ? cv.e : z3::zext(cv.e, std::max(1, w - cv.bits + 1));
  N = N + nk(lo, liaMode ? 0 : N.get_sort().bv_size());
  Sym *s = mkFX(N.simplify(), sh, lo, hi);
  if (n <= 4096) { for (u64 k = 0; k < n; k++) cv.vals.push_back(std::ldexp((double)(lo + (i64)k), -sh)); s->op = F_LEAF; s->var = v; s->dag = true; s->sup = {v}; }
  return s;
}
static void inputKind0(Sym *s) { inputs.back().kind = 0; inputs.back().e = resizeS(s->e, 64); }
static void tHook();
static void blockOn(int kind, u64 obj);
static void wake(int kind, u64 obj, bool all);

static double dRint(double d) { return std::nearbyint(d); }
static void initBuiltins() {
  auto &B = builtins;
#define BI(n) B[n] = [](Ctx & c)
  // ---- harness API
  BI("sym_int") { i64 lo = c.a[1].c, hi = c.a[2].c; std::string nm = uniqueName(c.a[0].c);
    if (hi < lo) { endPath(); }
    if (lo == hi) { inputs.push_back({nm, 0, Z->bv_val((int64_t)lo, 64), 0, 0, {}}); c.r[0] = CV(lo); return; }
    if ((u64)(hi - lo) >= (1ull << 52) || hi > FXMAX || lo < -FXMAX) { z3::expr e = Z->bv_const(nm.c_str(), 64); S->add(z3::sge(e, Z->bv_val((int64_t)lo, 64)) && z3::sle(e, Z->bv_val((int64_t)hi, 64))); delete mdl; mdl = nullptr; inputs.push_back({nm, 0, e, 0, 0, {}}); c.r[0] = SV(mkBV(e)); return; }
    Sym *s = mkFxVar(nm, lo, hi, 0, 0); Sym *r = mkBV(numToBV(s->e, 64)); r->num = s; inputs.back().e = liaMode ? s->e : r->e; c.r[0] = SV(r); };
  BI("sym_fx") { i64 lo = c.a[1].c, hi = c.a[2].c; int sh = (int)c.a[3].c; std::string nm = uniqueName(c.a[0].c); if (lo == hi) { inputs.push_back({nm, 1, Z->bv_val(0, 1), lo, sh, {}}); c.r[0] = DV(std::ldexp((double)lo, -sh)); return; } c.r[0] = SV(mkFxVar(nm, lo, hi, sh, 1)); };
  BI("sym_pick") { std::string nm = uniqueName(c.a[0].c); int n = (int)c.a[2].c; int v = newChoice(nm, n); auto &cv = choiceVars[v]; for (int i = 0; i < n; i++) cv.vals.push_back(*(double *)(c.a[1].c + 8 * i)); inputs.push_back({nm, 2, cv.e, 0, 0, cv.vals}); Sym *s = new Sym(Sym::TAB); s->op = F_LEAF; s->var = v; s->dag = true; s->sup = {v}; c.r[0] = n == 1 ? DV(cv.vals[0]) : SV(s); };
  BI("sym_fork") { i64 lo = c.a[1].c, hi = c.a[2].c; std::string nm = uniqueName(c.a[0].c); if (hi < lo) endPath(); i64 v = lo; // fresh and unconstrained: every value is feasible, no query needed
    while (v < hi && !doFork()) v++;
    inputs.push_back({nm, 0, Z->bv_val((int64_t)v, 64), 0, 0, {}}); c.r[0] = CV((u64)v); };
  BI("sym_u64") { std::string nm = uniqueName(c.a[0].c); z3::expr e = Z->bv_const(nm.c_str(), 64); inputs.push_back({nm, 3, e, 0, 0, {}}); c.r[0] = SV(mkBV(e)); };
  BI("sym_f64") { std::string nm = uniqueName(c.a[0].c); z3::expr e = Z->bv_const(nm.c_str(), 64); inputs.push_back({nm, 3, e, 0, 0, {}}); c.r[0] = SV(mkFP(z3::expr(*Z, Z3_mk_fpa_to_fp_bv(*Z, e, Z->fpa_sort(11, 53))))); };
  BI("sym_byte") { std::string nm = uniqueName(c.a[0].c); z3::expr e = Z->bv_const(nm.c_str(), 8); inputs.push_back({nm, 3, e, 0, 0, {}}); c.r[0] = SV(mkBV(e)); };
  BI("sym_assume") { Val v = c.a[0]; if (!v.s) { if (v.c & 1) return; SH->pruned++; endPath(); } z3::expr e = toBool(v); if (mdl && evalB(e)) { S->add(e); return; } z3::check_result r = chk(e); if (r != z3::sat) { SH->pruned++; endPath(); } setModel(); S->add(e); };
  BI("sym_assert") { SH->asserts++; Val v = c.a[0]; std::string m = cstr(c.a[1].c); if (!v.s) { if (v.c & 1) return; needModel(); violation("assert", m, mdl); }
    z3::expr e = toBool(v); z3::check_result r = chk(!e); if (r == z3::sat) { z3::model md = S->get_model(); violation("assert", m, &md); } if (r == z3::unsat) SH->assertsProved++; else { S->add(e); delete mdl; mdl = nullptr; } };
  BI("sym_reach") { std::string m = cstr(c.a[0].c); for (int i = 0, n = SH->nreach; i < n; i++) if (SH->reach[i] && m.substr(0, 63) == SH->reachName[i]) { SH->reach[i]++; return; } needModel(); for (;;) { int n = SH->nreach; for (int i = 0; i < n; i++) if (m.substr(0, 63) == SH->reachName[i]) { SH->reach[i]++; return; } int z = 0; if (SH->reachLock.compare_exchange_strong(z, 1)) { n = SH->nreach; bool f = false; for (int i = 0; i < n; i++) f |= m.substr(0, 63) == SH->reachName[i]; if (!f && n < 256) { strncpy(SH->reachName[n], m.c_str(), 63); SH->nreach++; } SH->reachLock = 0; if (n >= 256) return; } } };
  BI("sym_concrete") { c.r[0] = CV(concrete(c.a[0])); };
  BI("sym_concrete_d") { c.r[0] = CV(concrete(c.a[0])); };
  BI("sym_symbolic") { c.r[0] = CV(1); };
  BI("sym_fail") { needModel(); SH->asserts++; violation("assert", cstr(c.a[0].c), mdl); };
  BI("sym_end") { pathDone(); };
  BI("sym_dump") { std::string s; if (c.a[1].s) { std::ostringstream o; o << (int)c.a[1].s->k << " "; if (c.a[1].s->k != Sym::TAB) o << c.a[1].s->e; s = o.str(); } else s = std::to_string((i64)c.a[1].c); fprintf(stderr, "DUMP %s = %s\n", cstr(c.a[0].c).c_str(), s.c_str()); };
  BI("sym_dump_d") { std::string s; if (c.a[1].s) { std::ostringstream o; o << (int)c.a[1].s->k << " sc " << c.a[1].s->sc << " [" << c.a[1].s->lo << "," << c.a[1].s->hi << "] "; if (c.a[1].s->k != Sym::TAB) o << c.a[1].s->e; s = o.str(); } else s = std::to_string(bitsToD(c.a[1].c)); fprintf(stderr, "DUMP %s = %s\n", cstr(c.a[0].c).c_str(), s.c_str()); };
  // ---- allocation
  auto al = [](Ctx &c) { u64 n = concrete(c.a[0]); if (n > (1ull << 32)) { // std::bad_alloc
      u64 o = heapAlloc(64); static void *ti = nullptr; ti = dlsym(RTLD_DEFAULT, "_ZTISt9bad_alloc"); *(u64 *)o = (u64)dlsym(RTLD_DEFAULT, "_ZTVSt9bad_alloc") + 16; doThrow(o, (u64)ti); return; } c.r[0] = CV(heapAlloc(n)); };
  for (auto n : {"_Znwm", "_Znam", "malloc", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) B[n] = al;
  auto al2 = [](Ctx &c) { c.r[0] = CV(heapAlloc(concrete(c.a[0]), c.a[1].c)); }; for (auto n : {"_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) B[n] = al2;
  BI("aligned_alloc") { c.r[0] = CV(heapAlloc(concrete(c.a[1]), c.a[0].c)); };
  BI("calloc") { u64 n = concrete(c.a[0]) * concrete(c.a[1]); u64 p = heapAlloc(n); memset((void *)p, 0, n); c.r[0] = CV(p); };
  BI("realloc") { u64 p = c.a[0].c, n = concrete(c.a[1]); u64 q = heapAlloc(n); if (p) { u64 o = *(u64 *)(p - 8); copyMem(q, p, std::min(o, n)); arenaFree(p); } c.r[0] = CV(q); };
  auto fr = [](Ctx &c) { u64 p = c.a[0].c; if (!p) return; if (!inArena(p)) { if (p < 65536) trapNow("memory", "free of an invalid pointer"); free((void *)p); return; } if (!accessOk(p, 1) && *(u64 *)(p - 8) != 0) { trapNow("memory", "double or invalid free"); } if (!arenaFree(p)) trapNow("memory", "free of a pointer that is not an allocation"); };
  for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) B[n] = fr;
  // ---- memory intrinsics
  auto cp = [](Ctx &c) { u64 n = concrete(c.a[2]); copyMem(concrete(c.a[0]), concrete(c.a[1]), n); if (!c.ci->ret.empty()) c.r[0] = c.a[0]; }; for (auto n : {"llvm.memcpy", "llvm.memmove", "llvm.memcpy.inline", "memcpy", "memmove"}) B[n] = cp;
  auto ms = [](Ctx &c) { u64 d = concrete(c.a[0]), n = concrete(c.a[2]); if (n) { if (inArena(d) ? !accessOk(d, n) : d < 65536) memFault(d, n, "write"); if (c.a[1].s) { Val b = c.a[1]; if (b.s->w != 8) b = fromBV(toBV(b, c.ci->at[1].w).extract(7, 0)); for (u64 i = 0; i < n; i++) storeMem(d + i, 8, b); } else { if (inArena(d) && hasSym(d, n)) clearBytes(d, n); memset((void *)d, c.a[1].c & 255, n); } } if (!c.ci->ret.empty()) c.r[0] = c.a[0]; }; B["llvm.memset"] = ms; B["memset"] = ms;
  auto mc = [](Ctx &c) { u64 a = concrete(c.a[0]), b = concrete(c.a[1]), n = concrete(c.a[2]);
    if (n && ((inArena(a) && !accessOk(a, n)) || (inArena(b) && !accessOk(b, n)))) memFault(accessOk(a, n) ? b : a, n, "compare");
    for (u64 i = 0; i < n; i++) { Val x = loadMem(a + i, 8, L_INT), y = loadMem(b + i, 8, L_INT); if (branchV(icmp(CmpInst::ICMP_EQ, 8, x, y))) continue; c.r[0] = branchV(icmp(CmpInst::ICMP_ULT, 8, x, y)) ? CV(0xffffffffu) : CV(1); return; } c.r[0] = CV(0); };
  B["memcmp"] = mc; B["bcmp"] = mc;
  BI("strlen") { u64 p = concrete(c.a[0]), n = 0; for (;; n++) { Val x = loadMem(p + n, 8, L_INT); if (branchV(icmp(CmpInst::ICMP_EQ, 8, x, CV(0)))) break; } c.r[0] = CV(n); };
  BI("memchr") { u64 p = concrete(c.a[0]), n = concrete(c.a[2]); Val k = c.a[1]; Val kb = k.s ? fromBV(toBV(k, 32).extract(7, 0)) : CV(k.c & 255); for (u64 i = 0; i < n; i++) if (branchV(icmp(CmpInst::ICMP_EQ, 8, loadMem(p + i, 8, L_INT), kb))) { c.r[0] = CV(p + i); return; } c.r[0] = CV(0); };
  // ---- C++ runtime
  BI("__cxa_allocate_exception") { c.r[0] = CV(heapAlloc(c.a[0].c)); };
  BI("__cxa_free_exception") {};
  BI("__cxa_throw") { doThrow(c.a[0].c, c.a[1].c); };
  BI("__cxa_begin_catch") { auto &e = excs[c.a[0].c]; e.handlers++; T->caught.push_back(e.obj); c.r[0] = CV(e.adjusted); };
  BI("__cxa_get_exception_ptr") { c.r[0] = CV(excs[c.a[0].c].adjusted); };
  BI("__cxa_end_catch") { if (!T->caught.empty()) T->caught.pop_back(); };
  BI("__cxa_rethrow") { if (T->caught.empty()) trapNow("exception", "rethrow without exception"); unwindWith(T->caught.back()); };
  BI("_ZSt17current_exceptionv") { *(u64 *)c.a[0].c = T->caught.empty() ? 0 : T->caught.back(); };
  BI("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE") { unwindWith(*(u64 *)c.a[0].c); };
  for (auto n : {"_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", "_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", "_ZNSt15__exception_ptr13exception_ptrD1Ev"}) B[n] = [](Ctx &) {};
  BI("_ZNSt15__exception_ptr13exception_ptrC1ERKS0_") { *(u64 *)c.a[0].c = *(u64 *)c.a[1].c; };
  BI("_ZSt19uncaught_exceptionsv") { c.r[0] = CV(0); };
  BI("_ZSt18uncaught_exceptionv") { c.r[0] = CV(0); };
  BI("llvm.eh.typeid.for") { c.r[0] = CV((u32)typeId(c.a[0].c)); };
  BI("_ZSt9terminatev") { trapNow("terminate", "std::terminate called"); };
  BI("__clang_call_terminate") { trapNow("terminate", "exception escaped a noexcept function"); };
  BI("abort") { trapNow("abort", "abort called"); };
  BI("__assert_fail") { needModel(); violation("assertion", "assertion failed in the code: " + cstr(c.a[0].c) + " at " + cstr(c.a[1].c) + ":" + std::to_string(c.a[2].c), mdl); };
  BI("__cxa_pure_virtual") { trapNow("abort", "pure virtual call"); };
  BI("exit") { SH->paths++; endPath(); };
  for (auto n : {"__cxa_atexit", "__cxa_thread_atexit", "atexit"}) B[n] = [](Ctx &c) { c.r[0] = CV(0); };
  BI("__cxa_guard_acquire") { u8 &g = *(u8 *)c.a[0].c; c.r[0] = CV(g ? 0 : 1); };
  BI("__cxa_guard_release") { *(u8 *)c.a[0].c = 1; };
  BI("__cxa_guard_abort") {};
  BI("__dynamic_cast") { inNative++; void *(*f)(const void *, const void *, const void *, long) = (void *(*)(const void *, const void *, const void *, long))dlsym(RTLD_DEFAULT, "__dynamic_cast"); void *r = f((void *)c.a[0].c, (void *)c.a[1].c, (void *)c.a[2].c, (long)c.a[3].c); inNative--; c.r[0] = CV((u64)r); };
  BI("msym_empty_string") { u64 p = c.a[0].c; *(u64 *)p = p + 16; *(u64 *)(p + 8) = 0; *(u8 *)(p + 16) = 0; };
  overridePrefix.push_back({"std::vformat[abi:cxx11](std::basic_string_view", "msym_empty_string"});
  overridePrefix.push_back({"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > std::format<", "msym_empty_string"});
  // ---- intrinsics
  BI("llvm.expect") { c.r[0] = c.a[0]; };
  BI("llvm.is.constant") { c.r[0] = CV(0); };
  BI("llvm.objectsize") { c.r[0] = CV(~0ull); };
  BI("llvm.threadlocal.address") { c.r[0] = c.a[0]; };
  BI("llvm.launder.invariant.group") { c.r[0] = c.a[0]; };
  BI("llvm.strip.invariant.group") { c.r[0] = c.a[0]; };
  BI("llvm.stacksave") { c.r[0] = CV(T->stkTop); };
  BI("llvm.stackrestore") {};
  BI("llvm.trap") { trapNow("trap", "trap executed"); };
  BI("llvm.ubsantrap") { trapNow("trap", "sanitizer trap executed"); };
  auto cmp2 = [](Ctx &c, u8 p) { unsigned w = c.ci->at[0].w; Val q = icmp(p, w, c.a[0], c.a[1]); Ins I; memset(&I, 0, sizeof I); I.k = L_INT; I.w = w; bool ok; Val v = selectV(I, q, c.a[0], c.a[1], ok); if (!ok) v = branchV(q) ? c.a[0] : c.a[1]; c.r[0] = v; };
  B["llvm.smax"] = [cmp2](Ctx &c) { cmp2(c, CmpInst::ICMP_SGT); }; B["llvm.smin"] = [cmp2](Ctx &c) { cmp2(c, CmpInst::ICMP_SLT); }; B["llvm.umax"] = [cmp2](Ctx &c) { cmp2(c, CmpInst::ICMP_UGT); }; B["llvm.umin"] = [cmp2](Ctx &c) { cmp2(c, CmpInst::ICMP_ULT); };
  BI("llvm.abs") { unsigned w = c.ci->at[0].w; Val q = icmp(CmpInst::ICMP_SLT, w, c.a[0], CV(0)); Val n = ibin(Q_SUB, w, CV(0), c.a[0]); Ins I; memset(&I, 0, sizeof I); I.k = L_INT; I.w = w; bool ok; c.r[0] = selectV(I, q, n, c.a[0], ok); };
  auto ov = [](Ctx &c, uint16_t op, bool sg) { unsigned w = c.ci->at[0].w; Val r = ibin(op, w, c.a[0], c.a[1]); c.r[0] = r;
    if (!c.a[0].s && !c.a[1].s) { u128 x, y; i128 p = sx(c.a[0].c, w), q = sx(c.a[1].c, w); x = c.a[0].c; y = c.a[1].c; bool o; if (sg) { i128 z = op == Q_ADD ? p + q : op == Q_SUB ? p - q : p * q; o = z != (i128)sx(r.c, w); } else { if (op == Q_SUB) o = x < y; else { u128 z = op == Q_ADD ? x + y : x * y; o = z != (u128)r.c; } } c.r[1] = CV(o); return; }
    z3::expr a = toBV(c.a[0], w), b = toBV(c.a[1], w); unsigned W = op == Q_MUL ? 2 * w : w + 1; z3::expr A = sg ? z3::sext(a, W - w) : z3::zext(a, W - w), Bv = sg ? z3::sext(b, W - w) : z3::zext(b, W - w); z3::expr F = op == Q_ADD ? A + Bv : op == Q_SUB ? A - Bv : A * Bv; z3::expr R = toBV(r, w); z3::expr RR = sg ? z3::sext(R, W - w) : z3::zext(R, W - w); c.r[1] = boolVal(F != RR); };
  B["llvm.uadd.with.overflow"] = [ov](Ctx &c) { ov(c, Q_ADD, false); }; B["llvm.usub.with.overflow"] = [ov](Ctx &c) { ov(c, Q_SUB, false); }; B["llvm.umul.with.overflow"] = [ov](Ctx &c) { ov(c, Q_MUL, false); };
  B["llvm.sadd.with.overflow"] = [ov](Ctx &c) { ov(c, Q_ADD, true); }; B["llvm.ssub.with.overflow"] = [ov](Ctx &c) { ov(c, Q_SUB, true); }; B["llvm.smul.with.overflow"] = [ov](Ctx &c) { ov(c, Q_MUL, true); };
  BI("llvm.usub.sat") { unsigned w = c.ci->at[0].w; Val q = icmp(CmpInst::ICMP_ULT, w, c.a[0], c.a[1]); Ins I; memset(&I, 0, sizeof I); I.k = L_INT; I.w = w; bool ok; c.r[0] = selectV(I, q, CV(0), ibin(Q_SUB, w, c.a[0], c.a[1]), ok); };
  BI("llvm.uadd.sat") { unsigned w = c.ci->at[0].w; Val s = ibin(Q_ADD, w, c.a[0], c.a[1]); Val q = icmp(CmpInst::ICMP_ULT, w, s, c.a[0]); Ins I; memset(&I, 0, sizeof I); I.k = L_INT; I.w = w; bool ok; c.r[0] = selectV(I, q, CV(maskw(~0ull, w)), s, ok); };
  BI("llvm.ctpop") { c.r[0] = CV(__builtin_popcountll(concrete(c.a[0]))); };
  BI("llvm.ctlz") { unsigned w = c.ci->at[0].w; Val v = c.a[0]; if (v.s) { z3::expr e = toBV(v, w); z3::expr r = Z->bv_val(w, w); for (unsigned i = 0; i < w; i++) r = z3::ite(e.extract(i, i) == Z->bv_val(1, 1), Z->bv_val(w - 1 - i, w), r); c.r[0] = fromBV(r); return; } u64 x = v.c; c.r[0] = CV(x ? __builtin_clzll(x) - (64 - w) : w); };
  BI("llvm.cttz") { unsigned w = c.ci->at[0].w; Val v = c.a[0]; u64 x = concrete(v); c.r[0] = CV(x ? __builtin_ctzll(x) : w); };
  BI("llvm.bswap") { unsigned w = c.ci->at[0].w; u64 x = concrete(c.a[0]); c.r[0] = CV(w == 64 ? __builtin_bswap64(x) : w == 32 ? __builtin_bswap32((u32)x) : __builtin_bswap16((uint16_t)x)); };
  auto fsh = [](Ctx &c, bool l) { unsigned w = c.ci->at[0].w; Val s = ibin(Q_UREM, w, c.a[2], CV(w)); u64 k = concrete(s); if (l) { c.r[0] = k ? ibin(Q_OR, w, ibin(Q_SHL, w, c.a[0], CV(k)), ibin(Q_LSHR, w, c.a[1], CV(w - k))) : c.a[0]; } else c.r[0] = k ? ibin(Q_OR, w, ibin(Q_SHL, w, c.a[0], CV(w - k)), ibin(Q_LSHR, w, c.a[1], CV(k))) : c.a[1]; };
  B["llvm.fshl"] = [fsh](Ctx &c) { fsh(c, true); }; B["llvm.fshr"] = [fsh](Ctx &c) { fsh(c, false); };
  // ---- floating point functions
  auto f1 = [](std::function<Val(Val const &)> d, float (*f)(float), long double (*l)(long double)) { return [d, f, l](Ctx &c) { LK k = c.ci->at[0].k; if (k == L_F64) c.r[0] = d(c.a[0]); else if (k == L_F32) c.r[0] = CV(fb(f(bf(c.a[0].c)))); else c.r[0] = lb(l(bl(c.a[0]))); }; };
  auto sq = f1(fpSqrt, [](float x) { return std::sqrt(x); }, [](long double x) { return std::sqrt(x); }); B["llvm.sqrt"] = sq; B["sqrt"] = sq; B["sqrtl"] = sq; B["sqrtf"] = sq;
  auto ab = f1(fpAbs, [](float x) { return std::fabs(x); }, [](long double x) { return std::fabs(x); }); B["llvm.fabs"] = ab; B["fabs"] = ab;
#define RND(nm, mode, fn) { auto q = f1([](Val const &v) { return fpRound(v, mode); }, [](float x) { return (float)fn(x); }, [](long double x) { return (long double)fn(x); }); B["llvm." nm] = q; B[nm] = q; B[nm "f"] = q; B[nm "l"] = q; }
  RND("trunc", 0, std::trunc) RND("floor", 1, std::floor) RND("ceil", 2, std::ceil) RND("round", 3, std::round) RND("rint", 4, std::nearbyint) RND("nearbyint", 4, std::nearbyint)
#define F1(nm) { static Fun1 fp = [](double d) { return (double)::nm(d); }; B[#nm] = [](Ctx &c) { c.r[0] = fpFun1(fp, c.a[0]); }; B["llvm." #nm] = [](Ctx &c) { if (c.ci->at[0].k == L_F32) c.r[0] = CV(fb((float)::nm(bf(c.a[0].c)))); else c.r[0] = fpFun1(fp, c.a[0]); }; }
  F1(sin) F1(cos) F1(tan) F1(asin) F1(acos) F1(atan) F1(sinh) F1(cosh) F1(tanh) F1(asinh) F1(acosh) F1(atanh) F1(exp) F1(exp2) F1(expm1) F1(log) F1(log2) F1(log10) F1(log1p) F1(cbrt) F1(erf) F1(erfc)
#define F2(nm) { static Fun2 fp = [](double a, double b) { return (double)::nm(a, b); }; auto q = [](Ctx &c) { c.r[0] = fpFun2(fp, c.a[0], c.a[1]); }; B[#nm] = q; B["llvm." #nm] = q; }
  F2(atan2) F2(hypot) F2(pow) F2(fmod) F2(remainder) F2(copysign) F2(nextafter)
  auto minmax = [](Ctx &c, bool mx) { if (c.ci->at[0].k != L_F64) { float a = bf(c.a[0].c), b = bf(c.a[1].c); c.r[0] = CV(fb(mx ? std::fmax(a, b) : std::fmin(a, b))); return; }
    Val q = fpCmp(mx ? C_OGT : C_OLT, c.a[0], c.a[1]); Val bn = fpCmp(C_UNO, c.a[1], c.a[1]); q = ibin(Q_OR, 1, q, bn); Ins I; memset(&I, 0, sizeof I); I.k = L_F64; I.w = 64; bool ok; Val v = selectV(I, q, c.a[0], c.a[1], ok); if (!ok) v = branchV(q) ? c.a[0] : c.a[1]; c.r[0] = v; };
  for (auto n : {"llvm.maxnum", "fmax"}) B[n] = [minmax](Ctx &c) { minmax(c, true); }; for (auto n : {"llvm.minnum", "fmin"}) B[n] = [minmax](Ctx &c) { minmax(c, false); };
  auto fma_ = [](Ctx &c) { if (c.ci->at[0].k != L_F64) { c.r[0] = CV(fb(bf(c.a[0].c) * bf(c.a[1].c) + bf(c.a[2].c))); return; } c.r[0] = fpAddSub(fpMul(c.a[0], c.a[1]), c.a[2], false); }; B["llvm.fmuladd"] = fma_;
  BI("llvm.fma") { if (!c.a[0].s && !c.a[1].s && !c.a[2].s) c.r[0] = DV(std::fma(bitsToD(c.a[0].c), bitsToD(c.a[1].c), bitsToD(c.a[2].c))); else { Val m = fpMul(c.a[0], c.a[1]); Val s = fpAddSub(m, c.a[2], false); if ((m.s && m.s->k != Sym::FX)) incomplete("fma approximated"); c.r[0] = s; } }; B["fma"] = B["llvm.fma"];
  BI("llvm.is.fpclass") { Val v = c.a[0]; u64 m = c.a[1].c; if (c.ci->at[0].k == L_F64 && v.s && v.s->k == Sym::FX) { bool pz = m & 0x40, nz = m & 0x20, pn = m & 0x100, nn = m & 0x8; if (pz == nz && pn == nn && pz == pn) { c.r[0] = CV(pz); return; } if ((m & 0x3fc) == 0) { c.r[0] = CV(0); return; } if ((m & 0x1f8) == 0x1f8 ) { c.r[0] = CV(1); return; } }
    if (v.s && v.s->dag && tabable(v.s)) { v = SV(mkBV(fpBits(v))); }
    auto cls = [](double d, u64 m) { int k = std::fpclassify(d); bool s = std::signbit(d); u64 bit = k == FP_NAN ? 3 : k == FP_INFINITE ? (s ? 4 : 0x200) : k == FP_NORMAL ? (s ? 8 : 0x100) : k == FP_SUBNORMAL ? (s ? 0x10 : 0x80) : (s ? 0x20 : 0x40); return (m & bit) != 0; };
    if (!v.s) { c.r[0] = CV(cls(c.ci->at[0].k == L_F32 ? (double)bf(v.c) : c.ci->at[0].k == L_F80 ? (double)bl(v) : bitsToD(v.c), m)); return; }
    z3::expr b = toBV(v, 64); z3::expr ex = b.extract(62, 52), man = b.extract(51, 0), sg = b.extract(63, 63) == Z->bv_val(1, 1); z3::expr ones = ex == Z->bv_val(2047, 11), zer = ex == Z->bv_val(0, 11), m0 = man == Z->bv_val(0, 52); z3::expr r = Z->bool_val(false);
    if (m & 3) r = r || (ones && !m0); if (m & 4) r = r || (ones && m0 && sg); if (m & 0x200) r = r || (ones && m0 && !sg); if (m & 8) r = r || (!ones && !zer && sg); if (m & 0x100) r = r || (!ones && !zer && !sg); if (m & 0x10) r = r || (zer && !m0 && sg); if (m & 0x80) r = r || (zer && !m0 && !sg); if (m & 0x20) r = r || (zer && m0 && sg); if (m & 0x40) r = r || (zer && m0 && !sg); c.r[0] = boolVal(r); };
  BI("llvm.copysign") { if (!c.a[0].s && !c.a[1].s) { c.r[0] = c.ci->at[0].k == L_F64 ? DV(std::copysign(bitsToD(c.a[0].c), bitsToD(c.a[1].c))) : CV(fb(std::copysign(bf(c.a[0].c), bf(c.a[1].c)))); return; } static Fun2 fp = [](double a, double b) { return std::copysign(a, b); }; c.r[0] = fpFun2(fp, c.a[0], c.a[1]); }; B["copysign"] = B["llvm.copysign"];
  BI("llvm.powi") { static Fun2 fp = [](double a, double b) { return std::pow(a, b); }; c.r[0] = fpFun2(fp, c.a[0], DV((double)(int)c.a[1].c)); };
  // llvm integer reductions over small vectors
  auto red = [](Ctx &c, uint16_t op) { Val r = c.a[0]; for (int i = 1; i < c.n; i++) r = ibin(op, c.ci->at[0].w, r, c.a[i]); c.r[0] = r; };
  B["llvm.vector.reduce.add"] = [red](Ctx &c) { red(c, Q_ADD); }; B["llvm.vector.reduce.or"] = [red](Ctx &c) { red(c, Q_OR); }; B["llvm.vector.reduce.and"] = [red](Ctx &c) { red(c, Q_AND); };
#include "threads.inc"
}
static void schedule() {}
static void threadExited() { endPath(); }
