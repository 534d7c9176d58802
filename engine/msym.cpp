// msym: a forking symbolic executor for LLVM 18 bitcode, deciding path conditions and assertions with z3.
#include <setjmp.h>
#include "fpops.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <unordered_map>
#include <iostream>
#include <fstream>
#include <sstream>
#include <set>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <llvm/IR/InlineAsm.h>
#include <time.h>
#include <cxxabi.h>
#include <exception>
#include <typeinfo>
#include <atomic>
#include <semaphore.h>

z3::context *Z; std::vector<ChoiceVar> choiceVars; u64 statTabs = 0; int tabEpoch = 0; bool fpMode = false, liaMode = false;
using namespace llvm;

// ---------------------------------------------------------------- shared statistics
struct Shared {
  std::atomic<u64> paths, pruned, queries, satq, unsatq, unknowns, solverNs, instrs, forks, asserts, assertsProved, violations, incomplete, killedSteps, splits, nativeSym, live;
  std::atomic<int> samples;
  std::atomic<int> tokens; std::atomic<int> stop;
  std::atomic<u64> reach[256]; char reachName[256][64]; std::atomic<int> nreach; std::atomic<int> reachLock;
  char incMsg[16][256]; std::atomic<int> nInc;
};
static Shared *SH; static u8 *fnHit; static u32 *siteCnt; static u32 *siteFork;
static std::string outDir = "/tmp/msym-out"; static u64 maxSteps = 50000000; static u64 rlimitPer = 0; static bool verbose = false; static int maxViol = 1; static double deadline = 1e18; static int jobs = 8; static bool uninitFill = true;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void incomplete(std::string const &m) { SH->incomplete++; int i = SH->nInc.load(); for (int j = 0; j < std::min(i, 16); j++) if (!strncmp(SH->incMsg[j], m.c_str(), 255)) return; i = SH->nInc++; if (i < 16) { strncpy(SH->incMsg[i], m.c_str(), 255); } if (verbose) fprintf(stderr, "INCOMPLETE %s\n", m.c_str()); }

// ---------------------------------------------------------------- memory
static const u64 ABASE = 0x100000000000ull, GSZ = 1ull << 28, TSTK = 1ull << 26, NTHR = 8, ASZ = 1ull << 34, FBASE = 0x180000000000ull, FSTEP = 16;
static u8 *shadow; // per 8 byte word: low 4 bits = addressable bytes 0..8, bit 7 = has symbolic bytes
static u64 gTop = ABASE, hTop = ABASE + GSZ + NTHR * TSTK;
static inline bool inArena(u64 a) { return a - ABASE < ASZ; }
struct ByteRef { Sym *s; u8 i; };
struct Word { ByteRef b[8]; };
static std::unordered_map<u64, Word> symMem;
static void poison(u64 a, u64 n) { memset(shadow + ((a - ABASE) >> 3), 0, (n + 7) >> 3); }
static void unpoison(u64 a, u64 n) { u8 *p = shadow + ((a - ABASE) >> 3); u64 f = n >> 3; memset(p, 8, f); if (n & 7) p[f] = n & 7; }
static u64 heapAlloc(u64 n, u64 al = 16) {
  if (al < 16) al = 16; u64 p = (hTop + 32 + al - 1) & ~(al - 1); *(u64 *)(p - 8) = n; *(u64 *)(p - 16) = 0x5ca1ab1e0000ull + 1; hTop = p + ((n + 15) & ~15ull) + 16;
  if (hTop > ABASE + ASZ) { fprintf(stderr, "arena exhausted\n"); _exit(3); }
  unpoison(p, n); if (n) memset((void *)p, 0xA5, n); return p;
}
static int inNative = 0;
static bool arenaFree(u64 p); 
extern "C" void *__libc_malloc(size_t); extern "C" void __libc_free(void *);
void *operator new(size_t n) { if (inNative) return (void *)heapAlloc(n); void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if (inArena((u64)p)) { if (p) arenaFree((u64)p); return; } free(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
static bool arenaFree(u64 p) {
  if (!p) return true;
  if (*(u64 *)(p - 16) != 0x5ca1ab1e0000ull + 1) return false;
  *(u64 *)(p - 16) = 0x5ca1ab1e0000ull + 2; poison(p, *(u64 *)(p - 8)); return true;
}

// ---------------------------------------------------------------- code representation
enum Opc : uint16_t { Q_ADD, Q_SUB, Q_MUL, Q_UDIV, Q_SDIV, Q_UREM, Q_SREM, Q_SHL, Q_LSHR, Q_ASHR, Q_AND, Q_OR, Q_XOR,
  Q_FADD, Q_FSUB, Q_FMUL, Q_FDIV, Q_FREM, Q_FNEG, Q_ICMP, Q_FCMP, Q_TRUNC, Q_ZEXT, Q_SEXT, Q_FPTRUNC, Q_FPEXT, Q_FPTOSI, Q_FPTOUI, Q_SITOFP, Q_UITOFP,
  Q_MOV, Q_SELECT, Q_LOAD, Q_STORE, Q_GEP, Q_ALLOCA, Q_BR, Q_CBR, Q_SWITCH, Q_RET, Q_CALL, Q_UNREACH, Q_RESUME, Q_LPAD, Q_RMW, Q_CMPXCHG, Q_NOP, Q_BITCASTV, Q_EXTELT, Q_INSELT, Q_UNSUP };
enum LK : u8 { L_INT, L_PTR, L_F32, L_F64, L_F80 };
struct Leaf { LK k; uint16_t w; u32 off; };
struct Ins { uint16_t op; uint16_t w; u8 k; u8 sub; int dst, a, b, c; u64 imm; void *ext; Instruction *src; u32 site; };
struct Edge { int pc; std::vector<std::pair<int, int>> mv; };
struct SwitchInfo { std::vector<std::pair<u64, Edge *>> cs; Edge *def; };
struct GepInfo { i64 off; std::vector<std::tuple<int, u64, int>> var; };
struct Fn { std::string name, dem; Function *f; int id; int nregs = 0, nargs = 0; bool ready = false, vararg = false; std::vector<Ins> code; std::vector<Val> consts; std::vector<Leaf> ret; std::vector<u64> byval; std::vector<std::string> lines; };
struct CallInfo;
struct Ctx { CallInfo *ci; Val *a; int n; Val *r; };
typedef std::function<void(Ctx &)> Builtin;
struct CallInfo { Fn *fn = nullptr; Builtin *bi = nullptr; void *native = nullptr; std::string name; int target = 0; bool indirect = false; std::vector<int> args; std::vector<Leaf> at; std::vector<Leaf> ret; Edge *norm = nullptr, *unw = nullptr; std::vector<u64> byval; };
struct LpadInfo { bool cleanup; std::vector<std::pair<bool, u64>> cl; };

static std::vector<Fn *> fns; static std::unordered_map<Function *, Fn *> fnOf; static std::unordered_map<GlobalVariable *, u64> gAddr; static std::unordered_map<std::string, Builtin> builtins; static Module *M; static const DataLayout *DL;
static std::unordered_map<u64, std::string> gName;
static u32 nSites = 0; static const u32 MAXSITES = 1 << 22;

static void leavesOf(Type *t, u32 off, std::vector<Leaf> &o) {
  if (t->isVoidTy()) return;
  if (t->isIntegerTy()) o.push_back({L_INT, (uint16_t)t->getIntegerBitWidth(), off});
  else if (t->isPointerTy()) o.push_back({L_PTR, 64, off});
  else if (t->isFloatTy()) o.push_back({L_F32, 32, off});
  else if (t->isDoubleTy()) o.push_back({L_F64, 64, off});
  else if (t->isX86_FP80Ty()) o.push_back({L_F80, 80, off});
  else if (auto *s = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) leavesOf(s->getElementType(i), off + sl->getElementOffset(i), o); }
  else if (auto *a = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(a->getElementType()); for (unsigned i = 0; i < a->getNumElements(); i++) leavesOf(a->getElementType(), off + i * es, o); }
  else if (auto *v = dyn_cast<FixedVectorType>(t)) { u64 bits = DL->getTypeSizeInBits(v->getElementType()); for (unsigned i = 0; i < v->getNumElements(); i++) { if (bits % 8) o.push_back({L_INT, (uint16_t)bits, off}); else leavesOf(v->getElementType(), off + i * bits / 8, o); } }
  else if (t->isMetadataTy() || t->isTokenTy()) {}
  else { std::string s; raw_string_ostream os(s); t->print(os); fprintf(stderr, "leavesOf: unsupported type %s\n", os.str().c_str()); _exit(3); }
}
static int nLeaves(Type *t) { std::vector<Leaf> l; leavesOf(t, 0, l); return l.size(); }

static void *nativeSym(std::string const &n) { return dlsym(RTLD_DEFAULT, n.c_str()); }
static u64 addrOfGlobal(GlobalValue *g);
static void constLeaves(Constant *c, std::vector<Val> &o);
static u64 constInt(Constant *c) { std::vector<Val> v; constLeaves(c, v); return v[0].c; }
static void constLeaves(Constant *c, std::vector<Val> &o) {
  Type *t = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) { Val v; APInt a = ci->getValue(); v.c = a.getBitWidth() <= 64 ? a.getZExtValue() : a.extractBitsAsZExtValue(64, 0); if (a.getBitWidth() > 64) v.h = a.extractBitsAsZExtValue(a.getBitWidth() - 64, 64); o.push_back(v); return; }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { APInt a = cf->getValueAPF().bitcastToAPInt(); Val v; v.c = a.getBitWidth() <= 64 ? a.getZExtValue() : a.extractBitsAsZExtValue(64, 0); if (a.getBitWidth() > 64) v.h = a.extractBitsAsZExtValue(a.getBitWidth() - 64, 64); o.push_back(v); return; }
  if (isa<ConstantPointerNull>(c)) { o.push_back(Val()); return; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { int n = nLeaves(t); for (int i = 0; i < n; i++) o.push_back(Val()); return; }
  if (auto *g = dyn_cast<GlobalValue>(c)) { o.push_back(CV(addrOfGlobal(g))); return; }
  if (auto *ag = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ag->getNumOperands(); i++) constLeaves(ag->getOperand(i), o); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constLeaves(cd->getElementAsConstant(i), o); return; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) break; o.push_back(CV(constInt(ce->getOperand(0)) + off.getSExtValue())); return; }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Trunc: { u64 v = constInt(ce->getOperand(0)); unsigned w = t->isIntegerTy() ? t->getIntegerBitWidth() : 64; if (w < 64) v &= (1ull << w) - 1; o.push_back(CV(v)); return; }
      case Instruction::Add: o.push_back(CV(constInt(ce->getOperand(0)) + constInt(ce->getOperand(1)))); return;
      case Instruction::Sub: o.push_back(CV(constInt(ce->getOperand(0)) - constInt(ce->getOperand(1)))); return;
      case Instruction::ICmp: { u64 a = constInt(ce->getOperand(0)), b = constInt(ce->getOperand(1)); o.push_back(CV(ce->getPredicate() == CmpInst::ICMP_EQ ? a == b : a != b)); return; }
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "constLeaves: unsupported %s\n", os.str().c_str()); _exit(3);
}
static void initConst(Constant *c, u64 a) {
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return;
  Type *t = c->getType();
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy((void *)a, r.data(), r.size()); return; }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initConst(cs->getOperand(i), a + sl->getElementOffset(i)); return; }
  if (auto *ca = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initConst(ca->getOperand(i), a + i * es); return; }
  std::vector<Val> v; std::vector<Leaf> l; constLeaves(c, v); leavesOf(t, 0, l);
  for (size_t i = 0; i < v.size(); i++) memcpy((void *)(a + l[i].off), &v[i], (l[i].w + 7) / 8);
}
static Fn *getFn(Function *f) {
  auto it = fnOf.find(f); if (it != fnOf.end()) return it->second;
  Fn *n = new Fn; n->f = f; n->name = f->getName().str(); n->id = fns.size(); fns.push_back(n); fnOf[f] = n; return n;
}
static u64 addrOfGlobal(GlobalValue *g) {
  if (auto *al = dyn_cast<GlobalAlias>(g)) return addrOfGlobal(cast<GlobalValue>(al->getAliaseeObject()));
  if (auto *f = dyn_cast<Function>(g)) {
    if (f->isDeclaration()) { std::string n = f->getName().str(); if (!builtins.count(n)) { void *p = nativeSym(n); if (p) return (u64)p; if (f->hasExternalWeakLinkage()) return 0; } }
    return FBASE + getFn(f)->id * FSTEP;
  }
  auto *v = cast<GlobalVariable>(g); auto it = gAddr.find(v); if (it != gAddr.end()) return it->second;
  if (v->isDeclaration() && v->getName() == "__libc_single_threaded") { u64 a = (gTop + 47) & ~15ull; gTop = a + 16; unpoison(a, 1); *(u8 *)a = 1; gAddr[v] = a; gName[a] = v->getName().str(); return a; }
  if (v->isDeclaration()) { void *p = nativeSym(v->getName().str()); if (!p && !v->hasExternalWeakLinkage()) fprintf(stderr, "warning: undefined global %s\n", v->getName().str().c_str()); gAddr[v] = (u64)p; return (u64)p; }
  u64 n = DL->getTypeAllocSize(v->getValueType()), al = std::max<u64>(16, v->getAlign() ? v->getAlign()->value() : 16);
  u64 a = (gTop + 32 + al - 1) & ~(al - 1); gTop = a + ((n + 15) & ~15ull); if (gTop > ABASE + GSZ) { fprintf(stderr, "globals region exhausted\n"); _exit(3); }
  unpoison(a, n); gAddr[v] = a; gName[a] = v->getName().str(); initConst(v->getInitializer(), a); return a;
}

#include "decode.inc"
#include "interp.inc"
#include "builtins.inc"

int main(int argc, char **argv) {
  std::string bc, entry = "sym_harness", stats; std::vector<std::string> a(argv + 1, argv + argc); bool profile = false;
  for (size_t i = 0; i < a.size(); i++) {
    if (a[i] == "--out") outDir = a[++i]; else if (a[i] == "--max-steps") maxSteps = std::stoull(a[++i]); else if (a[i] == "--rlimit") rlimitPer = std::stoull(a[++i]);
    else if (a[i] == "--time") deadline = now() + std::stod(a[++i]); else if (a[i] == "--jobs") jobs = std::stoi(a[++i]); else if (a[i] == "--fp") fpMode = true; else if (a[i] == "--lia") liaMode = true; else if (a[i] == "-v") verbose = true;
    else if (a[i] == "--max-viol") maxViol = std::stoi(a[++i]); else if (a[i] == "--samples") maxSamples = std::stoi(a[++i]); else if (a[i] == "--stats") stats = a[++i]; else if (a[i] == "--profile") profile = true; else if (a[i] == "--entry") entry = a[++i]; else bc = a[i];
  }
  double t0 = now();
  mkdir(outDir.c_str(), 0755);
  SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  fnHit = (u8 *)mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  siteCnt = (u32 *)mmap(nullptr, MAXSITES * 4, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  siteFork = (u32 *)mmap(nullptr, MAXSITES * 4, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  void *p = mmap((void *)ABASE, ASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (p != (void *)ABASE) { perror("mmap arena"); return 3; }
  shadow = (u8 *)mmap(nullptr, ASZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (shadow == MAP_FAILED) { perror("mmap shadow"); return 3; }
  LLVMContext LC; SMDiagnostic err; std::unique_ptr<Module> mod = parseIRFile(bc, err, LC); if (!mod) { err.print("msym", errs()); return 3; }
  M = mod.get(); DL = &M->getDataLayout();
  z3::set_param("parallel.enable", false);
  Z = new z3::context();
  initBuiltins();
  Function *ef = M->getFunction(entry); if (!ef) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  std::vector<Function *> ctors = collectCtors();
  decodeAll(ef, ctors);
  if (verbose) fprintf(stderr, "load+decode %.2fs, %zu functions, %u sites\n", now() - t0, fns.size(), nSites);
  initInterp();
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  fflush(stdout); fflush(stderr);
  SH->tokens = jobs - 1; SH->live = 1;
  pid_t root = fork();
  if (root == 0) { setpgid(0, 0); runAll(ef, ctors); endPath(); }
  setpgid(root, root);
  bool timedOut = false; double crashes = 0;
  for (;;) {
    int st; pid_t w = waitpid(-1, &st, WNOHANG);
    if (w > 0) { if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { crashes++; incomplete("engine process ended abnormally"); if (verbose) fprintf(stderr, "child %d status %x\n", w, st); } continue; }
    if (w < 0) break;
    if (now() > deadline && !timedOut) { timedOut = true; SH->stop = 1; kill(-root, SIGKILL); }
    usleep(2000);
  }
  double el = now() - t0;
  std::ostringstream o; auto js = [](std::string const &s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((u8)c < 32) r += ' '; else r += c; } return r + "\""; };
  o << "{\"paths\":" << SH->paths << ",\"pruned\":" << SH->pruned << ",\"queries\":" << SH->queries << ",\"sat\":" << SH->satq << ",\"unsat\":" << SH->unsatq << ",\"unknown\":" << SH->unknowns << ",\"solver_seconds\":" << SH->solverNs * 1e-9
    << ",\"instructions\":" << SH->instrs << ",\"forks\":" << SH->forks << ",\"case_splits\":" << SH->splits << ",\"asserts\":" << SH->asserts << ",\"asserts_proved_by_solver\":" << SH->assertsProved << ",\"violations\":" << SH->violations << ",\"incomplete\":" << SH->incomplete
    << ",\"native_sym\":" << SH->nativeSym << ",\"timed_out\":" << (timedOut ? "true" : "false") << ",\"elapsed\":" << el << ",\"incomplete_reasons\":[";
  for (int i = 0; i < std::min(16, SH->nInc.load()); i++) o << (i ? "," : "") << js(SH->incMsg[i]);
  o << "],\"reach\":{"; for (int i = 0; i < SH->nreach; i++) o << (i ? "," : "") << js(SH->reachName[i]) << ":" << SH->reach[i]; o << "},\"functions\":[";
  bool first = true; for (Fn *f : fns) if (fnHit[f->id] && f->f) { std::string d = demangle(f->name); if (d.find("map_matching_2") == std::string::npos) continue; o << (first ? "" : ",") << js(d.substr(0, 300)); first = false; }
  o << "]}\n";
  if (stats.empty()) { std::string s = o.str(); if (!verbose) std::cout << s; else std::cout << s.substr(0, s.find(",\"functions\"")) << "}\n"; } else std::ofstream(stats) << o.str();
  if (profile) {
    std::vector<std::tuple<u32, u32, u32>> v; for (u32 i = 0; i < nSites; i++) if (siteFork[i]) v.push_back({siteFork[i], siteCnt[i], i}); std::sort(v.rbegin(), v.rend());
    std::unordered_map<u32, std::pair<Fn *, Ins *>> m; for (Fn *f : fns) for (Ins &i : f->code) if (i.op == Q_CBR || i.op == Q_SWITCH || i.op == Q_SELECT || i.op == Q_LOAD || i.op == Q_STORE || i.op == Q_CALL || i.op == Q_FCMP || i.op >= Q_FADD) if (!m.count(i.site)) m[i.site] = {f, &i};
    for (size_t i = 0; i < std::min<size_t>(v.size(), 25); i++) { auto [f, c, s] = v[i]; auto &x = m[s]; std::string is; if (x.second && x.second->src) { raw_string_ostream os(is); x.second->src->print(os); } fprintf(stderr, "fork %u cnt %u %s :: %s\n", f, c, x.first ? demangle(x.first->name).substr(0, 160).c_str() : "?", is.c_str()); }
  }
  std::cout.flush(); _exit(0);
}
