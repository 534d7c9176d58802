// Value iteration and policy iteration on every acyclic decision process with HS states and 2 actions per state,
// non-positive rewards k/4 symbolic, discount DISC; one action may be turned into a skip by the environment.
#include "sym.h"
#include <cassert>
#include <cmath>
#include <limits>
#include <vector>
#include <tuple>
#include <type_traits>
#include "learning/algorithms/value_iteration.hpp"
#include "learning/algorithms/policy_iteration.hpp"
using namespace map_matching_2;
static int nxt[HS][2]; static double rew[HS][2]; static int skip_at = -1;
struct env {
  using state_type = std::size_t; using action_type = std::size_t; using reward_type = double;
  state_type state = 0; bool inited = false;
  void init() { inited = true; } bool abort() { return false; }
  state_type reset() { state = 0; return state; }
  std::vector<action_type> actions() { return {2, 3}; }
  std::tuple<state_type, action_type, reward_type, bool> step(action_type a) {
    if (a < 2 || a > 3 || state >= HS) sym_fail("environment stepped with an action that does not exist");
    int i = (int) state, k = (int) a - 2; state = nxt[i][k];
    return {state, i * 2 + k == skip_at ? 1 : a, rew[i][k], nxt[i][k] >= HS};
  }
  std::vector<std::int64_t> state2internal(state_type s) const { return {9, (std::int64_t) s}; }
  std::int64_t action2internal(action_type a) const { return a == 1 ? -2 : a == 0 ? -1 : (std::int64_t) a - 2; }
};
template<template<typename> typename Learner> static void run(const char *) {
  env e; matching::settings st; st.discount = DISC; Learner<env> l{e, st};
  auto policy = l();
  int s = 0; double sum = 0, f = 1; std::size_t k = 0;
  if (skip_at < 0) {
    while (s < HS) { sym_assert(k < policy.size() && (int) policy[k].first == s && policy[k].second < 2, "the policy is a trajectory of the environment"); int a = (int) policy[k].second; sum += f * rew[s][a]; f *= DISC; s = nxt[s][a]; k++; }
    sym_assert(k == policy.size(), "the policy ends when the episode is done");
    for (int m = 0; m < 1 << HS; m++) { // no stationary policy does better
      double o = 0, g = 1; int x = 0; bool dup = false; for (int i = 0, vis = 0; x < HS; i++) { vis |= 1 << x; int a = m >> x & 1; o += g * rew[x][a]; g *= DISC; x = nxt[x][a]; if (x >= HS && (m & ~vis)) dup = true; }
      if (!dup) sym_assert(sum >= o, "the policy has the maximal discounted reward"); }
  } else {
    // skipped positions contribute no selection of their own (repeat of the previous one at most)
    for (std::size_t i = 0; i < policy.size(); i++) sym_assert((int) (policy[i].first * 2 + policy[i].second) != skip_at, "a skipped edge is not selected");
    for (std::size_t i = 1; i < policy.size(); i++) sym_assert(policy[i].first >= policy[i - 1].first, "selections are in order");
  }
}
extern "C" void sym_harness() {
  for (int i = 0; i < HS; i++) for (int k = 0; k < 2; k++) { nxt[i][k] = (int) sym_fork("next", i + 1, HS); rew[i][k] = sym_fx("reward", -4000, 0, 2); }
#if SKIP
  skip_at = (int) sym_fork("skip", 0, 2 * HS - 1);
#endif
  run<learning::value_iteration>("vi"); run<learning::policy_iteration>("pi");
  sym_reach("end");
}
