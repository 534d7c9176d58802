// Preparation of a track and matching of a whole track.
#include "match_common.h"
#include "matching/algorithm/algorithms.hpp"
#include "matching/defect.cpp"
#include "environment/environments/single.hpp"
#include "environment/environments/hmm.hpp"
#include "learning/algorithms/value_iteration.hpp"
#include "learning/algorithms/policy_iteration.hpp"
#include "learning/algorithms/viterbi.hpp"
using Track = typename Tr::track_type; using TL = typename Track::rich_line_type; using Single = environment::single<NW>; using Hmm = environment::hmm<NW>;
static TL line(const std::vector<XY> &p) { typename Track::line_type l; for (auto &x : p) l.push_back(P2{x.first, x.second}); return TL{l}; }
// points at the same place as the one before are found and removed, others stay
static void duplicates(int N, int X) {
  std::vector<XY> p, want; for (int i = 0; i < N; i++) { p.push_back({sym_fx("px", 0, X, 0), sym_fx("py", 0, X, 0)}); if (i == 0 || p[i] != p[i - 1]) want.push_back(p[i]); }
  TL l = line(p); using D = matching::detector<TL>; auto d = D::detect(l); sym_assert(d.size() == p.size(), "every point is judged");
  for (int i = 0; i < N; i++) { bool dup = i > 0 && p[i] == p[i - 1]; sym_assert(d[i].contains(matching::defect::equal) == dup, "duplicates are found"); sym_assert(d[i].contains(matching::defect::none) == !dup, "points that are no duplicates have no defect"); }
  D::remove_defects(l, d); sym_assert(l.size() == want.size(), "duplicates are removed and nothing else"); for (size_t i = 0; i < want.size(); i++) sym_assert(same_point(l.at(i), P2{want[i].first, want[i].second}), "other points stay");
}
static S exact() { S s; s.candidate_search = S::NEAREST; s.k_nearest = 2; s.candidate_adoption_nearby = s.candidate_adoption_siblings = false; s.simplify_track = s.median_merge = false; s.routing_max_distance_factor = -1; s.mdp_distance_factor = s.mdp_length_factor = s.mdp_azimuth_factor = s.mdp_direction_factor = s.mdp_turn_factor = 0.5; s.discount = 0.5; return s; }
static Net road(int net) { return net == 0 ? make({{0, 0}, {4, 0}, {8, 0}}, {{0, 1, {{0, 0}, {4, 0}}}, {1, 0, {{4, 0}, {0, 0}}}, {1, 2, {{4, 0}, {8, 0}}}}) : make({{0, 0}, {8, 0}}, {{0, 1, {{0, 0}, {8, 0}}}, {1, 0, {{8, 0}, {0, 0}}}}); }
static std::vector<std::pair<std::size_t, std::size_t>> learn(Single &env, const S &s, int how) { if (how == 1) { learning::policy_iteration<Single> l{env, s}; return l(); } learning::value_iteration<Single> l{env, s}; return l(); }
// a track along the roads is matched to itself
static void along(int net, int P, int X, bool set, int how = 0) {
  Net n = road(net); std::vector<XY> p; for (int i = 0; i < P; i++) { p.push_back({sym_fx("px", 0, X, 0), 0}); if (i > 0) sym_assume(p[i - 1].first <= p[i].first); } S s = exact(); s.filter_duplicates = sym_fork("filter", 0, 1);
  util::time_helper th; matching::algorithms<NW> al{n.n, th}; Single env{n.n, al, s}; env.set(Track{"t", line(p)});
  std::vector<XY> want; for (int i = 0; i < P; i++) if (!s.filter_duplicates || i == 0 || p[i] != p[i - 1]) want.push_back(p[i]); sym_assert(env.track().rich_line.size() == want.size(), "the prepared track has the points of the track"); for (size_t i = 0; i < want.size(); i++) sym_assert(same_point(env.track().rich_line.at(i), P2{want[i].first, want[i].second}), "the prepared track is the track");
  if (set) return; auto r = env.result(learn(env, s, how)); driven(n, r); double l = r.has_length() ? r.length() : 0;
  sym_assert(l == p.back().first - p.front().first, "the match is as long as the track");
}
// any track is matched to what can be driven
static void ways(int net, int P, int X, int Y, int how, int size = 2) {
  Net n = net == 0 ? make({{0, 0}, {8, 0}, {8, 4}, {0, 4}}, {{0, 1, {{0, 0}, {8, 0}}}, {1, 2, {{8, 0}, {8, 4}}}, {2, 3, {{8, 4}, {0, 4}}}, {3, 0, {{0, 4}, {0, 0}}}})
       : net == 2 ? make({{0, 0}, {2, 0}, {8, 0}}, {{0, 1, {{0, 0}, {2, 0}}}, {1, 0, {{2, 0}, {0, 0}}}, {1, 2, {{2, 0}, {8, 0}}}})
                 : make({{0, 0}, {8, 0}, {0, 4}, {8, 4}}, {{0, 1, {{0, 0}, {8, 0}}}, {2, 3, {{0, 4}, {8, 4}}}, {3, 2, {{8, 4}, {0, 4}}}});
  std::vector<XY> p; for (int i = 0; i < P; i++) p.push_back({sym_fx("px", 0, X, 0), sym_fx("py", 0, Y, 0)}); S s = exact(); s.filter_duplicates = false; s.skip_errors = sym_fork("skip", 0, 1); s.state_size = size; s.within_edge_turns = sym_fork("turns", 0, HX_T);
  util::time_helper th; matching::algorithms<NW> al{n.n, th}; Single env{n.n, al, s}; env.set(Track{"t", line(p)}); auto policy = learn(env, s, how); auto r = env.result(policy); driven(n, r);
}
extern "C" void sym_harness() {
  switch (sym_fork("part", HX_LO, HX_HI)) {
    case 0: duplicates(3, 1); break; case 1: along(0, 3, 8, true); break; case 2: along(1, 2, 8, false); break; case 3: along(0, 2, 8, false, 1); break; case 4: along(0, 3, 8, false); break;
    case 5: ways(1, 2, 8, 4, 0); break; case 6: ways(2, 3, 5, 0, 1); break; case 7: ways(2, 4, 4, 0, 0, 3); break;
    case 8: duplicates(4, 2); break; case 9: ways(0, 2, 8, 4, 0); break; case 10: along(0, 4, 8, false); break; case 11: ways(1, 3, 3, 4, 0); break; case 12: ways(2, 3, 5, 0, 0); break; case 13: ways(2, 3, 5, 0, 0, 3); break; case 14: ways(0, 3, 2, 4, 0); break; case 15: ways(1, 2, 8, 4, 1); break; case 16: ways(2, 4, 6, 0, 0, 2); break; case 17: ways(2, 2, 9, 2, 0); break;
  }
  sym_reach("end");
}
