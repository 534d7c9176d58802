// Native replay runtime: answers the sym_* API from a recorded assignment (file named by $SYM_REPLAY,
// lines "name type value").  Exit 10: an assertion of the harness failed; 77: the assignment does not fit.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <string>
#include <unistd.h>
static std::map<std::string, std::string> vals;
static std::map<std::string, int> seen;
static std::string get(const char *name, bool &ok) {
  int k = seen[name]++; std::string n = name; if (k) n += "#" + std::to_string(k);
  auto it = vals.find(n); ok = it != vals.end(); return ok ? it->second : "";
}
static bool trace() { static bool t = getenv("SYM_TRACE"); return t; }
static int64_t geti(const char *name, int64_t dflt) { bool ok; auto s = get(name, ok); int64_t v = ok ? (int64_t) strtoull(s.c_str(), 0, 10) : dflt;
  if (ok && s[0] == '-') v = strtoll(s.c_str(), 0, 10); if (trace()) fprintf(stderr, "  %s = %lld\n", name, (long long) v); return v; }
static double getd(const char *name, double dflt) { bool ok; auto s = get(name, ok); double v = ok ? strtod(s.c_str(), 0) : dflt;
  if (trace()) fprintf(stderr, "  %s = %.17g\n", name, v); return v; }
[[noreturn]] static void quit(int c) { fflush(stdout); fflush(stderr); _exit(c); }
extern "C" {
int64_t sym_int(const char *n, int64_t lo, int64_t) { return geti(n, lo); }
int64_t sym_fork(const char *n, int64_t lo, int64_t) { return geti(n, lo); }
double sym_fx(const char *n, int64_t lo, int64_t, int sh) { return getd(n, (double) lo / (double) (1ull << sh)); }
double sym_pick(const char *n, const double *v, int) { return getd(n, v[0]); }
uint64_t sym_u64(const char *n) { return (uint64_t) geti(n, 0); }
double sym_f64(const char *n) { return getd(n, 0); }
uint8_t sym_byte(const char *n) { return (uint8_t) geti(n, 0); }
void sym_assume(bool c) { if (!c) { fprintf(stderr, "REPLAY: assumption not met\n"); quit(77); } }
void sym_assert(bool c, const char *m) { if (!c) { fprintf(stderr, "REPLAY: assertion failed: %s\n", m); quit(10); } }
void sym_reach(const char *t) { if (trace()) fprintf(stderr, "  reach %s\n", t); }
void sym_fail(const char *m) { fprintf(stderr, "REPLAY: assertion failed: %s\n", m); quit(10); }
void sym_end() { quit(0); }
int64_t sym_concrete(int64_t v) { return v; }
int sym_symbolic() { return 0; }
void sym_dump(const char *n, int64_t v) { if (trace()) fprintf(stderr, "  dump %s = %lld\n", n, (long long) v); }
void sym_dump_d(const char *n, double v) { if (trace()) fprintf(stderr, "  dump %s = %.17g\n", n, v); }
}
int main() {
  const char *f = getenv("SYM_REPLAY");
  if (f) if (FILE *h = fopen(f, "r")) { char n[512], ty[8], v[512]; while (fscanf(h, "%511s %7s %511s", n, ty, v) == 3) vals[n] = v; fclose(h); }
  std::set_terminate([] { fprintf(stderr, "REPLAY: std::terminate / uncaught exception\n"); quit(11); });
  sym_harness();
  quit(0);
}
