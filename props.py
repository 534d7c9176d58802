COMMON_ASSUMPTIONS = [
  "clang 18 -O1 bitcode of the header templates stands for the shipped build (same flags as /repo's own build, asserts active)",
  "the symbolic executor (/verif/engine) is trusted for 'held'; every violation is replayed on the native build before it is reported, and sampled passing paths are replayed natively as well",
  "libstdc++ functions that are only in the shared library, and log output, run natively on concrete data",
]
def H(name, src, bounds, defs=None, **kw): return dict(name=name, src=src, bounds=bounds, defs=defs or {}, **kw)
T = ("thorough",)
PROPS = {}
PROPS["C01"] = dict(
  outside="graphs larger than the stated sizes; weights that are not quarters in 0..4000; inconsistent heuristics",
  harnesses=[H(f"{'astar' if m else 'dijkstra'}_{'csr' if c else 'list'}_{n}v{e}e", "shortest.cpp", f"all directed multigraphs with {n} vertices and {e} edges, weights k/4, k=0..16000 symbolic" + (", every consistent heuristic k/4" if m else ""), dict(HN=n, HE=e, MODE=m, CSRG=c), args=["--lia"], **kw)
    for m, c, n, e, kw in [(0, 0, 3, 5, {}), (0, 1, 3, 5, {}), (1, 0, 4, 4, {}), (1, 1, 4, 4, {}), (0, 0, 4, 5, dict(tiers=T, time=600)), (0, 1, 4, 5, dict(tiers=T, time=600)), (1, 0, 4, 5, dict(tiers=T, time=900)), (0, 1, 4, 6, dict(tiers=T, time=1500))]])
PROPS["C02"] = dict(outside="larger graphs; undirected graphs", harnesses=[
  H("traverse_3v3e", "traversal.cpp", "all directed multigraphs with 3 vertices, 3 edges in any insertion order, every stop vertex or none; list and CSR; BFS and DFS", dict(HN=3, HE=3)),
  H("traverse_4v4e", "traversal.cpp", "4 vertices, 4 edges", dict(HN=4, HE=4), tiers=T, time=1200)])
PROPS["C03"] = dict(outside="more vertices/edges/operations than stated", harnesses=[
  H(f"mutate_{n}_{a}v{e}e{k}k", "mutate.cpp", f"{n} list graph, {a} vertices, {e} initial edges, every history of {k} operations (add edge, remove pair, remove edge, clear+remove vertex), then reindex/copy/move", dict(DIR=d, HN=a, HE=e, HK=k), **kw)
  for d, n in enumerate(["directed", "undirected", "bidirectional"]) for a, e, k, kw in [(2, 2, 2, {}), (3, 2, 2, {}), (2, 2, 3, dict(tiers=T, time=900)), (3, 3, 2, dict(tiers=T, time=1500))]] + [
  H(f"fault_{n}_{c}", "graph_fault.cpp", f"{n} {c} graph, 2 vertices, 0-2 edges; the next insertion fails at any allocation", dict(DIR=d, CONT="std::"+c), reach=["end", "threw", "fine"]) for d, n in enumerate(["directed", "undirected", "bidirectional"]) for c in ["list", "vector"]])
PROPS["C04"] = dict(outside="larger graphs", harnesses=[
  H(f"csr_{n}_{a}v{e}e", "csr.cpp", f"{n} list graph, {a} vertices, {e} edges in any order, optionally one edge and one vertex removed, reindexed, converted with changed data types", dict(DIR=d, HN=a, HE=e), **kw) for d, n in enumerate(["directed", "undirected", "bidirectional"]) for a, e, kw in [(3, 2, {}), (3, 3, dict(tiers=T, time=900))]])
LIA = ["--lia"]
PROPS["C05"] = dict(outside="more observations/candidates; log-probabilities that are not halves in -1000..0 or -infinity", harnesses=[
  H("viterbi_5x2", "viterbi.cpp", "5 observations x 2 candidates, all finite log-probabilities", dict(HX_T=5, HX_C=2, MODE=0), args=LIA),
  H("viterbi_3x3", "viterbi.cpp", "3 observations x 3 candidates, all finite log-probabilities", dict(HX_T=3, HX_C=3, MODE=0), args=LIA),
  H("viterbi_4x2_impossible", "viterbi.cpp", "4 observations x 2 candidates, any subset of transitions impossible", dict(HX_T=4, HX_C=2, MODE=1), args=LIA),
  H("viterbi_3x2_empty", "viterbi.cpp", "3 observations, empty prefix of any length, 1-2 candidates each, log-probabilities -1.5..0", dict(HX_T=3, HX_C=2, MODE=2), args=LIA),
  H("viterbi_6x2", "viterbi.cpp", "6 observations x 2 candidates", dict(HX_T=6, HX_C=2, MODE=0), tiers=T, time=1200, args=LIA),
  H("viterbi_4x3", "viterbi.cpp", "4 observations x 3 candidates", dict(HX_T=4, HX_C=3, MODE=0), tiers=T, time=1200, args=LIA)])
PROPS["C06"] = dict(outside="cyclic decision processes, positive rewards, more states; Q-learning (randomised heuristic)", harnesses=[
  H("mdp_3s", "mdp.cpp", "3 states, 2 actions, all acyclic successor functions, rewards k/4 in -1000..0, discount 1/2", dict(HS=3, SKIP=0, DISC="0.5"), args=LIA),
  H("mdp_3s_nodisc", "mdp.cpp", "as mdp_3s, discount 1", dict(HS=3, SKIP=0, DISC="1.0"), args=LIA),
  H("mdp_3s_skip", "mdp.cpp", "as mdp_3s, one action is turned into a skip by the environment", dict(HS=3, SKIP=1, DISC="1.0"), args=LIA),
  H("mdp_4s", "mdp.cpp", "4 states, 2 actions", dict(HS=4, SKIP=0, DISC="0.5"), tiers=T, time=1500, args=LIA)])
def RL(name, lazy, x, y, n, k, q=0, **kw): return H(name, "rich_line.cpp", f"{'lazy' if lazy else 'eager'} line of {n if n > 0 else '0..' + str(-n)} points with symbolic coordinates 0..{x} x 0..{y}, every history of {k} operations (erase one/many, sub line, merge, assign from every kind, copy/move/convert)" + (", each preceded by any partial query" if lazy else ""), dict(HX_LAZY=lazy, HX_X=x, HX_Y=y, HX_N=n, HX_K=k, HX_Q=q), args=LIA, **kw)
PROPS["C08"] = dict(outside="longer lines and histories; coordinates other than small integers; geographic and spherical coordinates", harnesses=[
  RL("lazy_2p_2op", 1, 1, 0, 2, 2, 1, time=300, jobs=4), RL("eager_2p_2op", 0, 2, 1, 2, 2), RL("eager_3p_1op", 0, 2, 1, 3, 1), RL("lazy_3p_1op", 1, 2, 1, 3, 1), RL("lazy_4p_1op", 1, 1, 1, 4, 1, 1),
  H("multi_line", "rich_multi.cpp", "multi lines of 1-2 lines of 1-2 points, every assignment between the kinds", dict(HX_X=1, HX_Y=1, MODE=0), args=LIA),
  H("segments", "rich_multi.cpp", "segments, every assignment between the kinds, any partial query before", dict(HX_X=2, HX_Y=1, MODE=1), args=LIA),
  H("cache", "rich_multi.cpp", "distance and azimuth caching on/off/reset, 3 points, all 9 pairs queried twice", dict(HX_X=1, HX_Y=1, MODE=2), args=LIA),
  RL("lazy_4p_1op_wide", 1, 2, 1, 4, 1, tiers=T, time=600), RL("lazy_2p_2op_full", 1, 2, 0, 2, 2, tiers=T, time=900), RL("eager_3p_2op", 0, 1, 1, 3, 2, tiers=T, time=900), RL("eager_2p_3op", 0, 1, 0, -2, 3, tiers=T, time=900)])

def SU(k, m, n, s, mn, b, **kw): return H(f"{['plain', 'eager', 'lazy'][k]}_{['distances', 'points'][m]}_{n}s{s}{['', '_back', '_uturn'][b]}{'' if mn else '_repeats'}", "substring.cpp", f"{['plain', 'eager', 'lazy'][k]} axis-parallel line of {n} segments of length {mn}..{s}{['', ', with reversals', ', with U-turns'][b]}, every pair of half-integer positions, " + ("cut by distances" if m == 0 else "distances of and cut by points"), dict(HX_KIND=k, MODE=m, HX_N=n, HX_S=s, HX_MIN=mn, HX_BACK=b), args=LIA, **kw)
PROPS["C09"] = dict(outside="non axis-parallel lines, longer lines, geographic and spherical coordinates, points that are not on the line", harnesses=[
  *[SU(k, m, 3, 2, 0, 0) for k in range(3) for m in range(2)], SU(0, 0, 3, 2, 1, 1), SU(1, 0, 4, 2, 1, 0), SU(2, 1, 4, 1, 1, 0), SU(0, 1, 3, 4, 1, 2),
  *[SU(k, m, 4, 2, 0, 0, tiers=T, time=900) for k in range(3) for m in range(2)], SU(1, 1, 3, 4, 1, 2, tiers=T, time=900), SU(2, 1, 3, 4, 1, 2, tiers=T, time=900), SU(1, 0, 4, 3, 0, 1, tiers=T, time=900)])
def MD(nm, b, m, n, a=0, **kw): return H(nm, "median.cpp", b, dict(MODE=m, HX_N=n, HX_V=1000, HX_ANY_NTH=a), args=LIA, **kw)
def SI(nm, m, lz, n, x, y, **kw): return H(nm, "simplify.cpp", f"{['plain line', 'lazy rich line' if lz else 'eager rich line', 'segment list'][m]} of {n} points, coordinates 0..{x} x 0..{y}, tolerances 0.3, 0.6, 0.8, 1.2" + (", with and without retained reversals" if m else ""), dict(MODE=m, HX_LAZY=lz, HX_N=n, HX_X=x, HX_Y=y), args=LIA, **kw)
def MM(n, x, y, **kw): return H(f"merge_{n}p_{x}x{y}", "median_merge.cpp", f"merging of {n} points with coordinates 0..{x} x 0..{y}, tolerances 0.5, 1.2, 2.3; the boost search box is replaced by its contract", dict(HX_N=n, HX_X=x, HX_Y=y), args=LIA, **kw)
PROPS["C10"] = dict(outside="longer lines, coordinates other than small integers, other tolerances, geographic and spherical coordinates; the adaptive tolerance from a network", harnesses=[
  MD("median", "1-5 values in -500..500 (halves)", 0, -5), MD("median_any_selection", "1-4 values, nth_element replaced by every permutation its specification allows", 0, -4, 1), MD("deviation", "1-4 values", 1, -4), MD("median_point", "1-3 points", 2, -3),
  SI("simplify_line", 0, 0, 5, 1, 1), SI("simplify_eager", 1, 0, 4, 2, 1), SI("simplify_lazy", 1, 1, 4, 1, 1), SI("simplify_segments", 2, 0, 5, 1, 1), MM(3, 3, 1), MM(4, 3, 0),
  MD("median_7", "7 values", 0, 7, tiers=T, time=600), MD("deviation_6", "1-6 values", 1, -6, tiers=T, time=900), SI("simplify_line_wide", 0, 0, 5, 2, 1, tiers=T, time=900), SI("simplify_line_6", 0, 0, 6, 1, 1, tiers=T, time=900), SI("simplify_lazy_wide", 1, 1, 4, 2, 1, tiers=T, time=900), SI("simplify_segments_wide", 2, 0, 5, 2, 1, tiers=T, time=900), MM(4, 3, 1, tiers=T, time=900), MM(5, 3, 0, tiers=T, time=900)])

def NU(nm, m, b, **d): kw = {k: d.pop(k) for k in ("tiers", "time") if k in d}; return H(nm, "numbers.cpp", b, dict(MODE=m, **d), args=LIA, **kw)
CSS = [("geographic", "geometry::cs_geographic", 111000), ("spherical", "geometry::cs_spherical_equatorial", 111000), ("cartesian", "geometry::cs_cartesian", 1)]
PROPS["C07"] = dict(outside="angles and coordinates that are not multiples of 2^-20 in the stated ranges; steps to other than the eight neighbour directions for the first-principle measures; metric accuracy of the geodesic formulas themselves", harnesses=[
  NU("angle_diff", 0, "all pairs of angles k*2^-20 in -360..360 at most a full turn apart"), H("next_pow2", "numbers.cpp", "all 64-bit integers 1..2^63", dict(MODE=1)), NU("point_order", 2, "all triples of points with coordinates k*2^-20, |k| <= 2^40"), NU("point_hash", 3, "all pairs of points with coordinates among 0, -0, +-1.5, 1e-300, 1e300"), NU("degrees", 4, "all pairs of whole degrees -360..360", time=200),
  NU("compass_line", 5, "all lines of 3 points with steps of 0-2 to the eight neighbours", HX_M=2, HX_N=3), NU("compass_line_4", 5, "all lines of 4 points with steps of 0-1 to the eight neighbours", HX_M=1, HX_N=4), NU("compass_line_5", 5, "all lines of 5 points", HX_M=1, HX_N=5, tiers=T, time=900),
  *[NU(f"measures_{n}", 6, f"all lines of 3 points with whole coordinates 0..2 x 0..1, {n} coordinates", HX_N=3, HX_X=2, HX_Y=1, HX_CS=c, HX_DEG=d) for n, c, d in CSS],
  *[NU(f"measures_{n}_wide", 6, f"all lines of 2 points with whole coordinates 0..9 x 0..7, {n} coordinates", HX_N=2, HX_X=9, HX_Y=7, HX_CS=c, HX_DEG=d, tiers=T, time=600) for n, c, d in CSS]])

def CM(nm, m, n, k, x, y, b, sp=0.2, ad=0.1, **kw): return H(nm, "compare.cpp", b + f"; {n}{f' and {k}' if m in (1, 2, 4) else ''} points, coordinates 0..{x} x 0..{y}, split tolerance {sp}, adoption tolerance {ad}; the boost search box is replaced by its contract", dict(MODE=m, HX_N=n, HX_M=k, HX_X=x, HX_Y=y, HX_SPLIT=sp, HX_ADOPT=ad), args=LIA, **kw)
OV, SE, PE, CU = "all pairs of axis-parallel lines using no unit edge twice in the same direction", "every line against itself", "every line against a copy with every coordinate off by up to 1/32", "every ground truth cut anywhere into two parts"
PROPS["C11"] = dict(outside="longer lines, other tolerances, lines that pass the same edge repeatedly in the same direction (repetitions are deliberately reported once), geographic and spherical coordinates", harnesses=[
  CM("overlap_2_2", 2, 2, 2, 3, 0, OV), CM("overlap_3_2", 2, 3, 2, 2, 1, OV), CM("overlap_4_3_line", 2, 4, 3, 2, 0, OV), CM("overlap_5_5_line", 2, 5, 5, 1, 0, OV), CM("overlap_4_2", 2, 4, 2, 1, 1, OV),
  CM("self_3", 0, 3, 0, 2, 1, SE), CM("self_3_coarse", 0, 3, 0, 2, 1, SE, 1.2, 1.2), CM("general_3_3_coarse", 1, 3, 3, 2, 0, "all pairs of lines", 1.2, 1.2), CM("perturbed_2", 3, 2, 0, 1, 1, PE), CM("perturbed_3_line", 3, 3, 0, 1, 0, PE), CM("cut_3_2", 4, 3, 2, 2, 0, CU), CM("cut_3_3", 4, 3, 3, 1, 0, CU),
  CM("overlap_3_3", 2, 3, 3, 2, 1, OV, tiers=T, time=900), CM("overlap_4_3", 2, 4, 3, 1, 1, OV, tiers=T, time=900), CM("overlap_4_4_line", 2, 4, 4, 3, 0, OV, tiers=T, time=1800), CM("self_4", 0, 4, 0, 2, 1, SE, tiers=T, time=900), CM("perturbed_3", 3, 3, 0, 1, 1, PE, tiers=T, time=900), CM("cut_3_3_wide", 4, 3, 3, 2, 0, CU, tiers=T, time=900)])

def RO(nm, m, k, b, **d): kw = {x: d.pop(x) for x in ("tiers", "time") if x in d}; return H(nm, "route.cpp", f"{['plain', 'eager', 'lazy'][k]} routes, {b}", dict(MODE=m, HX_KIND=k, **{"HX_" + x: v for x, v in dict(dict(X=1, Y=0), **d).items()}), args=LIA, **kw)
PROPS["C12"] = dict(outside="more and longer lines; empty and single-point lines while trimming; geographic and spherical coordinates", harnesses=[
  RO("ownership", 0, 2, "1-3 lines of 1-2 distinct points, each owned or referenced: copy, assignment, move, every sub route", N=3, P=2, ATT=1, CONC=1, LO=0, HI=4), RO("sub_route", 0, 1, "1-2 lines of 1-2 points, every range of lines and points", N=2, P=2, ATT=1, LO=4, HI=4), RO("sub_route_line", 0, 2, "one line of 1-3 points, every range", N=1, P=3, ATT=1, LO=4, HI=4), RO("merge", 0, 1, "merge of a line of 1-2 points with 0-2 lines of 2 points, attached or not, connected or failing on demand, copied or moved", N=1, P=2, ATT=1, LO=6, HI=7),
  RO("measures_eager", 1, 1, "1-2 lines of 0-2 points with coordinates 0..1 x 0..1", N=2, P=2, PMIN=0, ATT=0, Y=1), RO("measures_lazy", 1, 2, "1-2 lines of 0-2 points, any partial query before", N=2, P=2, PMIN=0, ATT=0, Y=1), RO("measures_connected", 1, 2, "1-3 connected lines of 2 points, any partial query before", N=3, P=2, PMIN=2, ATT=1, Y=1),
  RO("trim_lines", 2, 2, "pairs of 1-2 and 1 connected lines of 2 points, coordinates 0..2", N=2, M=1, P=2, PMIN=2, X=2), RO("trim_plane", 2, 2, "pairs of 1-3 and 1-2 connected lines of 2 points, coordinates 0..1 x 0..1", N=3, M=2, P=2, PMIN=2, Y=1), RO("trim_points", 2, 0, "pairs of lines of 2-3 points, coordinates 0..2", N=1, M=1, P=3, PMIN=2, X=2),
  RO("join_eager", 3, 1, "pairs of 1-2 connected lines of 2 points, coordinates 0..2, reversals retained or not", N=2, P=2, X=2), RO("join_lazy", 3, 2, "as join_eager, measures queried before or not", N=2, P=2, X=2), RO("join_points", 3, 2, "pairs of lines of 2-3 points", N=1, P=3, X=2),
  RO("ownership_wide", 0, 2, "1-3 lines of 1-3 distinct points", N=3, P=3, ATT=1, CONC=1, LO=0, HI=4, tiers=T, time=300), RO("ops_wide", 0, 2, "1-2 lines of 1-2 points, every operation", N=2, P=2, ATT=1, tiers=T, time=900), RO("merge_points", 0, 2, "a line of 1-3 points", N=1, P=3, ATT=1, LO=4, HI=7, MID=3, tiers=T, time=600), RO("measures_wide", 1, 2, "1-2 lines of 2-3 points, attached or not", N=2, P=3, PMIN=2, ATT=0, Y=1, tiers=T, time=600), RO("trim_points_wide", 2, 2, "pairs of lines of 2-4 points, coordinates 0..3", N=1, M=1, P=4, PMIN=2, X=3, tiers=T, time=600), RO("trim_wide", 2, 2, "pairs of 1-2 lines of 2-3 points, coordinates 0..2", N=2, M=2, P=3, PMIN=2, X=2, tiers=T, time=900)])

PROPS["C13"] = dict(outside="larger networks, memory-mapped storage, node tags, geographic coordinates (the same templates)", harnesses=[
  H("network", "network_import.cpp", "networks of up to 5 nodes and 3-4 roads of three points, every start and end incl. parallel roads and loops, one-way or two-way with the same or another shape, symbolic coordinates 0..1 (places of nodes 0..1 for duplicates), ids and tags", dict(HX_LO=0, HX_HI=8), args=LIA, time=300),
  H("network_wide", "network_import.cpp", "up to 5 nodes and 4 two-way roads", dict(HX_LO=0, HX_HI=6, HX_WIDE=1), args=LIA, tiers=T, time=2400)])
PROPS["C14"] = dict(outside="larger networks, geographic coordinates, memory-mapped storage", harnesses=[
  H("ways", "network_route.cpp", "every network of 3 nodes and 2-3 roads and of 2 nodes and 3 roads (loops and parallel roads), places of nodes and shapes of roads symbolic on a line (lengths 0..5), every goal, every symbolic distance limit, two queries in a row", dict(HX_LO=0, HX_HI=2), args=LIA, time=300, reach=["end"]),
  H("ways_wide", "network_route.cpp", "3 nodes and 4 roads, 4 nodes and 4 roads, 3 nodes and 3 roads with symbolic places", dict(HX_LO=3, HX_HI=6), args=LIA, tiers=T, time=2400)])
PROPS["C15"] = dict(outside="larger networks, roads that are not parallel to an axis, measurements beside the corner of a road, geographic coordinates, memory-mapped storage", harnesses=[
  H("candidates", "candidates.cpp", "one measurement on an eighth-grid of the square 0..4 between one-way, two-way and bent roads; one measurement and 2 roads with symbolic places on a line; two measurements 0..8 with a gap in between; all four kinds of search, two radius limits, fixed and adapted radius, all settings of adopting", dict(HX_LO=0, HX_HI=2, HX_S=3), args=LIA, time=300, reach=["end"]),
  H("candidates_wide", "candidates.cpp", "3 nodes and 3 roads with symbolic places; two measurements with every kind of search and adopting; three measurements", dict(HX_LO=3, HX_HI=5, HX_S=3), args=LIA, tiers=T, time=2400, reach=["end"])])
PROPS["C16"] = dict(outside="larger networks, other places of the roads, geographic coordinates, memory-mapped storage", harnesses=[
  H("routing", "routing.cpp", "every pair of candidates of two measurements at symbolic places near a line of roads, a ring of bent one-way roads and a bent two-way road, with and without turns within roads and A*; three measurements along a line, every choice of candidates, with and without joining", dict(HX_LO=0, HX_HI=3, HX_T=1, HX_A=1, HX_ROADS=1), args=LIA, time=300, reach=["end"]),
  H("routing_wide", "routing.cpp", "three measurements with two candidates each; four measurements, some without candidates or without a way between them", dict(HX_LO=4, HX_HI=6, HX_T=0, HX_A=0, HX_ROADS=1), args=LIA, tiers=T, time=2400, reach=["end"])])
PROPS["C17"] = dict(outside="other networks, longer tracks, the hidden Markov model (its probabilities are powers and logarithms; its decoding is C05), Q-learning, geographic coordinates, memory-mapped storage", harnesses=[
  H("match", "match.cpp", "tracks of 2-3 points at symbolic places along roads; any track of 2 points beside a one-way and a two-way road, of 3-4 points along a partly one-way road; value and policy iteration, with and without skipping of errors, remembering one or two positions; tracks of 3 points 0..1 with any duplicates", dict(HX_LO=0, HX_HI=7, HX_T=0), args=LIA, time=300, reach=["end"]),
  H("match_wide", "match.cpp", "tracks of 4 points along roads; any track of 2-3 points near a ring of one-way roads and parallel roads, 4 points along a line, with and without turns within roads; tracks of 4 points 0..2 with any duplicates", dict(HX_LO=8, HX_HI=17, HX_T=1), args=LIA, tiers=T, time=2400, reach=["end"])])
