// Viterbi over HX_T observations with up to HX_C candidates each; log-probabilities k/2 in [-1000,0] symbolic, any subset
// of transitions impossible (-inf) in MODE 1, leading observations possibly empty.
#include "sym.h"
#include <vector>
#include <limits>
#include <cstdint>
#include <type_traits>
#include "learning/algorithms/viterbi.hpp"
using namespace map_matching_2;
struct env {
  using action_type = std::int64_t; const action_type no_action = -1; std::vector<std::vector<double>> obs; std::vector<std::vector<std::vector<double>>> tr;
  const auto &observations() const { return obs; } const auto &transitions() const { return tr; } bool abort() { return false; }
};
static env e; static double best; static bool exists; static int HTn, first;
// mode 0: does any possible path exist; mode 1: every possible path is at most as likely as the selected one
static void all(int mode, int t, int prev, double sum) {
  if (t == HTn) { if (mode) sym_assert(sum <= best, "the selected path has maximal probability"); else exists = true; return; }
  for (std::size_t g = 0; g < e.obs[t].size(); g++) { double x = t == first ? (t == 0 ? e.tr[0][g][0] : 0.0) : e.tr[t][g][prev]; if (x == -std::numeric_limits<double>::infinity()) continue; all(mode, t + 1, (int) g, sum + x + e.obs[t][g]); }
}
extern "C" void sym_harness() {
  const double inf = std::numeric_limits<double>::infinity(); HTn = HX_T;
  first = MODE == 2 ? (int) sym_fork("empty_prefix", 0, HX_T) : 0;
  e.obs.resize(HX_T); e.tr.resize(HX_T);
  for (int t = 0; t < HX_T; t++) {
    int c = t < first ? 0 : MODE == 2 ? (int) sym_fork("candidates", 1, HX_C) : HX_C, p = t == 0 ? 1 : (int) e.obs[t - 1].size();
    for (int g = 0; g < c; g++) {
      e.obs[t].push_back(sym_fx("obs", MODE == 2 ? -3 : -2000, 0, 1)); e.tr[t].emplace_back();
      for (int s = 0; s < p; s++) e.tr[t][g].push_back(MODE == 1 && t > 0 && sym_fork("impossible", 0, 1) ? -inf : sym_fx("tr", MODE == 2 ? -3 : -2000, 0, 1));
    }
  }
  matching::settings st; learning::viterbi<env> v{e, st};
  auto policy = v();
  exists = false; if (first < HX_T) all(0, first, -1, 0);
  if (first > 0 && first < HX_T && policy.empty()) sym_fail("a policy exists after empty leading observations");
  if (!exists) { sym_assert(policy.size() <= HX_T, "no complete path"); sym_reach("none"); }
  else {
    sym_assert((int) policy.size() == HX_T - first, "one selection per observation when a complete path exists");
    double sum = 0; int prev = -1;
    for (std::size_t k = 0; k < policy.size(); k++) {
      int t = first + (int) k; sym_assert((int) policy[k].first == t, "selections are in observation order"); sym_assert(policy[k].second < e.obs[t].size(), "selected candidate exists");
      int g = (int) policy[k].second; sum += e.obs[t][g]; double x = t == first ? (t == 0 ? e.tr[0][g][0] : 0.0) : e.tr[t][g][prev]; sym_assert(x != -inf, "no impossible transition is used"); sum += x; prev = g;
    }
    best = sum; all(1, first, -1, 0);
  }
  sym_reach("end");
}
