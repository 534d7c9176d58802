// decoding LLVM IR into flat code
static std::vector<Function *> collectCtors() {
  std::vector<std::pair<u64, Function *>> v; std::vector<Function *> r;
  if (auto *g = M->getGlobalVariable("llvm.global_ctors", true)) if (auto *ca = dyn_cast<ConstantArray>(g->getInitializer()))
    for (auto &o : ca->operands()) { auto *cs = cast<ConstantStruct>(o); if (auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
  std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
  for (auto &p : v) { getFn(p.second); r.push_back(p.second); } return r;
}
static Builtin *findBuiltin(std::string const &n) { auto it = builtins.find(n); return it == builtins.end() ? nullptr : &it->second; }
static std::vector<std::pair<std::string, std::string>> overridePrefix; // demangled prefix -> builtin name

struct Dec {
  Fn *F; std::unordered_map<Value *, int> slot; std::unordered_map<Constant *, int> cslot; std::unordered_map<BasicBlock *, int> bbpc; std::vector<std::pair<Edge *, BasicBlock *>> fix;
  int idx(int i, int k) { return i >= 0 ? i + k : i - k; }
  int opnd(Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) { auto it = cslot.find(c); if (it != cslot.end()) return it->second; int s = ~(int)F->consts.size(); std::vector<Val> o; constLeaves(c, o); for (auto &x : o) F->consts.push_back(x); if (o.empty()) F->consts.push_back(Val()); cslot[c] = s; return s; }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return ~0;
    auto it = slot.find(v); if (it == slot.end()) { fprintf(stderr, "decode: unmapped value\n"); _exit(3); } return it->second;
  }
  Ins &emit(Opc op, Instruction *src, int dst = 0, int a = 0, int b = 0, int c = 0) { Ins i; memset(&i, 0, sizeof i); i.op = op; i.dst = dst; i.a = a; i.b = b; i.c = c; i.src = src; i.site = nSites < MAXSITES - 1 ? nSites++ : nSites; F->code.push_back(i); return F->code.back(); }
  Edge *edge(BasicBlock *from, BasicBlock *to) {
    Edge *e = new Edge; fix.push_back({e, to});
    for (PHINode &p : to->phis()) { int n = nLeaves(p.getType()); int s = opnd(p.getIncomingValueForBlock(from)), d = slot[&p]; for (int i = 0; i < n; i++) e->mv.push_back({d + i, idx(s, i)}); }
    return e;
  }
  static unsigned ew(Type *t) { t = t->getScalarType(); return t->isPointerTy() ? 64 : t->isIntegerTy() ? t->getIntegerBitWidth() : t->isDoubleTy() ? 64 : t->isFloatTy() ? 32 : 80; }
  static u8 ek(Type *t) { t = t->getScalarType(); return t->isDoubleTy() ? L_F64 : t->isFloatTy() ? L_F32 : t->isX86_FP80Ty() ? L_F80 : t->isPointerTy() ? L_PTR : L_INT; }
  void gep(GEPOperator *g, Instruction *src, int d) {
    GepInfo *gi = new GepInfo; gi->off = 0;
    for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
      Value *op = it.getOperand();
      if (StructType *st = it.getStructTypeOrNull()) gi->off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(op)->getZExtValue());
      else { u64 es = DL->getTypeAllocSize(it.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(op)) gi->off += ci->getSExtValue() * (i64)es; else gi->var.push_back({opnd(op), es, (int)op->getType()->getIntegerBitWidth()}); } }
    Ins &i = emit(Q_GEP, src, d, opnd(g->getPointerOperand())); i.ext = gi; i.w = 64;
  }
  void call(CallBase *cb) {
    int d = slot.count(cb) ? slot[cb] : 0;
    if (cb->isInlineAsm()) { auto *ia = cast<InlineAsm>(cb->getCalledOperand()); if (ia->getAsmString().empty() || ia->getAsmString().find("pause") != std::string::npos) { emit(Q_NOP, cb); return; } emit(Q_UNSUP, cb); return; }
    Value *cv = cb->getCalledOperand()->stripPointerCasts(); if (auto *al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
    CallInfo *ci = new CallInfo; Function *cf = dyn_cast<Function>(cv);
    if (cf && cf->isIntrinsic()) {
      switch (cf->getIntrinsicID()) {
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::sideeffect: emit(Q_NOP, cb); return;
        default: break; }
      std::string bn = Intrinsic::getBaseName(cf->getIntrinsicID()).str(); ci->name = bn; ci->bi = findBuiltin(bn);
      if (!ci->bi) { emit(Q_UNSUP, cb); return; }
      if (auto *vt = dyn_cast<FixedVectorType>(cb->getType())) { // lane-wise
        int n = vt->getNumElements();
        for (int l = 0; l < n; l++) { CallInfo *c2 = new CallInfo(*ci); std::vector<Leaf> rl; leavesOf(cb->getType(), 0, rl); c2->ret = {rl[l]};
          for (auto &ar : cb->args()) { std::vector<Leaf> lf; leavesOf(ar->getType(), 0, lf); int o = opnd(ar); int k = ar->getType()->isVectorTy() ? l : 0; c2->args.push_back(idx(o, k)); c2->at.push_back(lf[k]); c2->byval.push_back(0); }
          Ins &i = emit(Q_CALL, cb, d + l); i.ext = c2; }
        return; }
    } else if (cf) {
      ci->name = cf->getName().str(); ci->bi = findBuiltin(ci->name);
      if (!ci->bi && !overridePrefix.empty()) { std::string dm = demangle(ci->name); for (auto &o : overridePrefix) if (dm.compare(0, o.first.size(), o.first) == 0) { ci->bi = findBuiltin(o.second); break; } }
      if (!ci->bi) { if (cf->isDeclaration()) { ci->native = nativeSym(ci->name); } else ci->fn = getFn(cf); }
    } else { ci->indirect = true; ci->target = opnd(cv); }
    for (unsigned k = 0; k < cb->arg_size(); k++) { Value *ar = cb->getArgOperand(k); if (ar->getType()->isMetadataTy()) continue; std::vector<Leaf> lf; leavesOf(ar->getType(), 0, lf); int o = opnd(ar);
      u64 bv = cb->isByValArgument(k) ? (u64)DL->getTypeAllocSize(cb->getParamByValType(k)) : 0;
      for (size_t l = 0; l < lf.size(); l++) { ci->args.push_back(idx(o, l)); ci->at.push_back(lf[l]); ci->byval.push_back(bv); } }
    leavesOf(cb->getType(), 0, ci->ret);
    if (auto *iv = dyn_cast<InvokeInst>(cb)) { ci->norm = edge(cb->getParent(), iv->getNormalDest()); ci->unw = edge(cb->getParent(), iv->getUnwindDest()); }
    Ins &i = emit(Q_CALL, cb, d); i.ext = ci;
  }
  void run() {
    Function *f = F->f; F->vararg = f->isVarArg(); int n = 0;
    for (auto &a : f->args()) { slot[&a] = n; std::vector<Leaf> l; leavesOf(a.getType(), 0, l); n += l.size(); for (size_t i = 0; i < l.size(); i++) F->byval.push_back(a.hasByValAttr() ? (u64)DL->getTypeAllocSize(a.getParamByValType()) : 0); }
    F->nargs = n; leavesOf(f->getReturnType(), 0, F->ret);
    for (auto &bb : *f) for (auto &i : bb) if (!i.getType()->isVoidTy() && !i.getType()->isTokenTy()) { slot[&i] = n; n += nLeaves(i.getType()); }
    F->nregs = n;
    for (auto &bb : *f) { bbpc[&bb] = F->code.size(); for (auto &i : bb) ins(&i); }
    for (auto &p : fix) p.first->pc = bbpc[p.second];
    F->ready = true;
  }
  void ins(Instruction *I) {
    Type *t = I->getType(); int d = slot.count(I) ? slot[I] : 0;
    if (isa<PHINode>(I)) return;
    if (auto *bo = dyn_cast<BinaryOperator>(I)) {
      static const std::map<unsigned, Opc> m = {{Instruction::Add, Q_ADD}, {Instruction::Sub, Q_SUB}, {Instruction::Mul, Q_MUL}, {Instruction::UDiv, Q_UDIV}, {Instruction::SDiv, Q_SDIV}, {Instruction::URem, Q_UREM}, {Instruction::SRem, Q_SREM}, {Instruction::Shl, Q_SHL}, {Instruction::LShr, Q_LSHR}, {Instruction::AShr, Q_ASHR}, {Instruction::And, Q_AND}, {Instruction::Or, Q_OR}, {Instruction::Xor, Q_XOR}, {Instruction::FAdd, Q_FADD}, {Instruction::FSub, Q_FSUB}, {Instruction::FMul, Q_FMUL}, {Instruction::FDiv, Q_FDIV}, {Instruction::FRem, Q_FREM}};
      int n = nLeaves(t), a = opnd(bo->getOperand(0)), b = opnd(bo->getOperand(1)); for (int k = 0; k < n; k++) { Ins &i = emit(m.at(bo->getOpcode()), I, d + k, idx(a, k), idx(b, k)); i.w = ew(t); i.k = ek(t); } return; }
    if (auto *u = dyn_cast<UnaryOperator>(I)) { int n = nLeaves(t), a = opnd(u->getOperand(0)); for (int k = 0; k < n; k++) { Ins &i = emit(Q_FNEG, I, d + k, idx(a, k)); i.w = ew(t); i.k = ek(t); } return; }
    if (auto *c = dyn_cast<CmpInst>(I)) { Type *ot = c->getOperand(0)->getType(); int n = nLeaves(ot), a = opnd(c->getOperand(0)), b = opnd(c->getOperand(1)); for (int k = 0; k < n; k++) { Ins &i = emit(isa<ICmpInst>(I) ? Q_ICMP : Q_FCMP, I, d + k, idx(a, k), idx(b, k)); i.w = ew(ot); i.k = ek(ot); i.sub = c->getPredicate(); } return; }
    if (auto *c = dyn_cast<CastInst>(I)) {
      Type *st = c->getOperand(0)->getType(); int a = opnd(c->getOperand(0)), n = nLeaves(t), m = nLeaves(st); Opc op;
      switch (c->getOpcode()) { case Instruction::Trunc: op = Q_TRUNC; break; case Instruction::ZExt: op = Q_ZEXT; break; case Instruction::SExt: op = Q_SEXT; break; case Instruction::FPTrunc: op = Q_FPTRUNC; break; case Instruction::FPExt: op = Q_FPEXT; break; case Instruction::FPToSI: op = Q_FPTOSI; break; case Instruction::FPToUI: op = Q_FPTOUI; break; case Instruction::SIToFP: op = Q_SITOFP; break; case Instruction::UIToFP: op = Q_UITOFP; break;
        case Instruction::PtrToInt: op = ew(t) < 64 ? Q_TRUNC : ew(t) > 64 ? Q_ZEXT : Q_MOV; break; case Instruction::IntToPtr: op = ew(st) < 64 ? Q_ZEXT : Q_MOV; break; default: op = Q_MOV; }
      if (op == Q_MOV && n != m) { Ins &i = emit(Q_BITCASTV, I, d, a); auto *p = new std::pair<std::vector<Leaf>, std::vector<Leaf>>; leavesOf(st, 0, p->first); leavesOf(t, 0, p->second); i.ext = p; return; }
      for (int k = 0; k < n; k++) { Ins &i = emit(op, I, d + k, idx(a, k)); i.w = ew(t); i.imm = ew(st); i.k = ek(t); i.sub = ek(st); } return; }
    switch (I->getOpcode()) {
      case Instruction::Select: { int n = nLeaves(t), c = opnd(I->getOperand(0)), a = opnd(I->getOperand(1)), b = opnd(I->getOperand(2)); bool vc = I->getOperand(0)->getType()->isVectorTy(); std::vector<Leaf> l; leavesOf(t, 0, l); for (int k = 0; k < n; k++) { Ins &i = emit(Q_SELECT, I, d + k, idx(a, k), idx(b, k), vc ? idx(c, k) : c); i.w = l[k].w; i.k = l[k].k; } return; }
      case Instruction::Load: { auto *l = cast<LoadInst>(I); std::vector<Leaf> lf; leavesOf(t, 0, lf); int a = opnd(l->getPointerOperand()); for (size_t k = 0; k < lf.size(); k++) { Ins &i = emit(Q_LOAD, I, d + k, a); i.w = lf[k].w; i.k = lf[k].k; i.imm = lf[k].off; } return; }
      case Instruction::Store: { auto *s = cast<StoreInst>(I); std::vector<Leaf> lf; leavesOf(s->getValueOperand()->getType(), 0, lf); int a = opnd(s->getPointerOperand()), v = opnd(s->getValueOperand()); for (size_t k = 0; k < lf.size(); k++) { Ins &i = emit(Q_STORE, I, 0, a, idx(v, k)); i.w = lf[k].w; i.k = lf[k].k; i.imm = lf[k].off; } return; }
      case Instruction::GetElementPtr: gep(cast<GEPOperator>(I), I, d); return;
      case Instruction::Alloca: { auto *al = cast<AllocaInst>(I); Ins &i = emit(Q_ALLOCA, I, d, opnd(al->getArraySize())); i.imm = DL->getTypeAllocSize(al->getAllocatedType()); i.b = std::max<u64>(16, al->getAlign().value()); return; }
      case Instruction::Br: { auto *b = cast<BranchInst>(I); if (b->isUnconditional()) { Edge *e = edge(I->getParent(), b->getSuccessor(0)); Ins &i = emit(Q_BR, I); i.ext = e; } else { int c = opnd(b->getCondition()); Edge *e0 = edge(I->getParent(), b->getSuccessor(0)), *e1 = edge(I->getParent(), b->getSuccessor(1)); Ins &i = emit(Q_CBR, I, 0, c); i.ext = e0; i.imm = (u64)e1; } return; }
      case Instruction::Switch: { auto *s = cast<SwitchInst>(I); auto *si = new SwitchInfo; for (auto &c : s->cases()) si->cs.push_back({c.getCaseValue()->getZExtValue(), edge(I->getParent(), c.getCaseSuccessor())}); si->def = edge(I->getParent(), s->getDefaultDest()); int c = opnd(s->getCondition()); Ins &i = emit(Q_SWITCH, I, 0, c); i.w = ew(s->getCondition()->getType()); i.ext = si; return; }
      case Instruction::Ret: { auto *r = cast<ReturnInst>(I); int a = r->getReturnValue() ? opnd(r->getReturnValue()) : 0; emit(Q_RET, I, 0, a); return; }
      case Instruction::Call: case Instruction::Invoke: call(cast<CallBase>(I)); return;
      case Instruction::Unreachable: emit(Q_UNREACH, I); return;
      case Instruction::Resume: { int a = opnd(I->getOperand(0)); emit(Q_RESUME, I, 0, a); return; }
      case Instruction::LandingPad: { auto *lp = cast<LandingPadInst>(I); auto *li = new LpadInfo; li->cleanup = lp->isCleanup(); for (unsigned k = 0; k < lp->getNumClauses(); k++) { if (lp->isCatch(k)) li->cl.push_back({true, constInt(lp->getClause(k))}); else li->cl.push_back({false, 0}); } Ins &i = emit(Q_LPAD, I, d); i.ext = li; return; }
      case Instruction::ExtractValue: { auto *e = cast<ExtractValueInst>(I); int off = leafOff(e->getAggregateOperand()->getType(), e->getIndices()); int a = opnd(e->getAggregateOperand()), n = nLeaves(t); for (int k = 0; k < n; k++) emit(Q_MOV, I, d + k, idx(a, off + k)); return; }
      case Instruction::InsertValue: { auto *e = cast<InsertValueInst>(I); int off = leafOff(t, e->getIndices()); int a = opnd(e->getAggregateOperand()), v = opnd(e->getInsertedValueOperand()), n = nLeaves(t), m = nLeaves(e->getInsertedValueOperand()->getType()); for (int k = 0; k < n; k++) emit(Q_MOV, I, d + k, k >= off && k < off + m ? idx(v, k - off) : idx(a, k)); return; }
      case Instruction::ExtractElement: { int a = opnd(I->getOperand(0)); if (auto *ci = dyn_cast<ConstantInt>(I->getOperand(1))) { emit(Q_MOV, I, d, idx(a, ci->getZExtValue())); return; } Ins &i = emit(Q_EXTELT, I, d, a, opnd(I->getOperand(1))); i.imm = nLeaves(I->getOperand(0)->getType()); return; }
      case Instruction::InsertElement: { int a = opnd(I->getOperand(0)), v = opnd(I->getOperand(1)), n = nLeaves(t); if (auto *ci = dyn_cast<ConstantInt>(I->getOperand(2))) { for (int k = 0; k < n; k++) emit(Q_MOV, I, d + k, k == (int)ci->getZExtValue() ? v : idx(a, k)); return; } Ins &i = emit(Q_INSELT, I, d, a, v, opnd(I->getOperand(2))); i.imm = n; return; }
      case Instruction::ShuffleVector: { auto *s = cast<ShuffleVectorInst>(I); int a = opnd(s->getOperand(0)), b = opnd(s->getOperand(1)), m = nLeaves(s->getOperand(0)->getType()); int n = nLeaves(t); for (int k = 0; k < n; k++) { int x = s->getMaskValue(k); emit(Q_MOV, I, d + k, x < 0 ? idx(a, 0) : x < m ? idx(a, x) : idx(b, x - m)); } return; }
      case Instruction::AtomicRMW: { auto *r = cast<AtomicRMWInst>(I); int p = opnd(r->getPointerOperand()), v = opnd(r->getValOperand()); Ins &i = emit(Q_RMW, I, d, p, v); i.w = ew(t); i.k = ek(t); i.sub = r->getOperation(); return; }
      case Instruction::AtomicCmpXchg: { auto *r = cast<AtomicCmpXchgInst>(I); int p = opnd(r->getPointerOperand()), e = opnd(r->getCompareOperand()), nv = opnd(r->getNewValOperand()); Ins &i = emit(Q_CMPXCHG, I, d, p, e, nv); i.w = ew(r->getCompareOperand()->getType()); return; }
      case Instruction::Fence: emit(Q_NOP, I); return;
      case Instruction::Freeze: { int a = opnd(I->getOperand(0)), n = nLeaves(t); for (int k = 0; k < n; k++) emit(Q_MOV, I, d + k, idx(a, k)); return; }
      default: emit(Q_UNSUP, I); return;
    }
  }
  static int leafOff(Type *t, ArrayRef<unsigned> ix) {
    int off = 0; for (unsigned i : ix) { if (auto *s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) off += nLeaves(s->getElementType(k)); t = s->getElementType(i); } else { auto *a = cast<ArrayType>(t); off += i * nLeaves(a->getElementType()); t = a->getElementType(); } } return off;
  }
};
static void decodeAll(Function *ef, std::vector<Function *> const &) {
  getFn(ef);
  for (size_t i = 0; i < fns.size(); i++) { Fn *f = fns[i]; if (f->f && !f->f->isDeclaration()) { Dec d; d.F = f; d.run(); } }
}
