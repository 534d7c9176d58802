prop("C01", "Shortest-path searches return minimum-weight paths",
  "For every directed graph with non-negative edge weights and every start vertex, Dijkstra's search reports for each vertex exactly the minimum total weight over all paths from the start, and reports unreached vertices as unreached. A* with any consistent heuristic reaches the goal exactly when it is reachable and with the minimum total weight, and the predecessors it reports form a path of that weight. Both hold equally on the mutable list graph and on the compressed graph.",
  ["inputs"], "every directed multigraph (parallel edges and loops included), every assignment of weights, every start/goal, every consistent heuristic",
  "The tests run one or two fixed graphs with distinct fixed weights; ties, zero weights, parallel edges and re-relaxation orders are not reached.",
  ["graph/algorithm/dijkstra_shortest_path.hpp", "graph/algorithm/a_star_shortest_path.hpp", "graph/algorithm/priority_type_comparator.hpp", "graph/algorithm/visitor.hpp"],
  [("priority queue relaxation with stale-entry check", "graph/algorithm/dijkstra_shortest_path.hpp"), ("priority = cost + heuristic", "graph/algorithm/a_star_shortest_path.hpp")])
prop("C02", "Graph traversals visit exactly the reachable part once",
  "Breadth-first and depth-first search started at a vertex discover every vertex reachable from it exactly once and no other vertex, and examine every outgoing edge of each visited vertex. Breadth-first search discovers vertices in order of non-decreasing hop distance and depth-first search in a depth-first order. If the visitor stops the search at a vertex, nothing is discovered after it.",
  ["inputs"], "every directed multigraph, every edge insertion order, every start vertex, every stopping vertex, list and compressed graphs",
  "The tests traverse a single small graph and check one visiting order.",
  ["graph/algorithm/breadth_first_search.hpp", "graph/algorithm/depth_first_search.hpp", "graph/algorithm/visitor.hpp"],
  [("queue/stack with visited set", "graph/algorithm/breadth_first_search.hpp"), ("stack with visited set", "graph/algorithm/depth_first_search.hpp")])
prop("C03", "Graph mutation histories keep vertices and edges consistent",
  "After any sequence of adding and removing vertices and edges, a graph contains exactly the surviving vertices and edges with their data, each edge is listed exactly once with its endpoints (outgoing, and incoming where the graph keeps incoming lists), and degrees agree with those lists. Copies, moves, assignments and renumbering preserve content and leave copies independent of the original. If an insertion fails because memory runs out, the graph is left as it was before that insertion.",
  ["histories", "fault_sequences"], "every history of additions and removals, every copy/move/assignment, every allocation failing during an insertion",
  "The tests perform a handful of fixed mutations; loops, parallel edges, removal orders, and memory exhaustion are not exercised.",
  ["graph/adjacency_list.hpp", "graph/container_view.hpp", "graph/container_subview.hpp"],
  [("edge lists at endpoints updated together with the edge container", "graph/adjacency_list.hpp"), ("descriptor translation while copying", "graph/adjacency_list.hpp")])
prop("C04", "Compressed graph is an exact image of the source graph",
  "Converting a graph into its compressed form yields the same number of vertices and edges in the same numbering, every edge with the same source, target and data, and for every vertex exactly the same set of outgoing (and, for bidirectional graphs, incoming) edges. Converting data types on the way uses the given conversion for every vertex and edge.",
  ["inputs", "histories"], "every graph, including ones from which vertices and edges were removed before conversion, in every insertion order",
  "The tests convert one fixed graph; interleaved edge orders, empty rows, loops and removed vertices are not covered.",
  ["graph/compressed_sparse_row.hpp", "graph/container_subview.hpp", "graph/adjacency_list.hpp"],
  [("row offsets built from the sorted edge list", "graph/compressed_sparse_row.hpp")])
prop("C05", "Viterbi decoding returns a maximum-probability state sequence",
  "For every trellis of candidate states with emission and transition log-probabilities, the decoded sequence has one state per observation and no other sequence of states has a higher total log-probability. Impossible transitions are never used when a possible sequence exists, and observations without candidates do not corrupt the decoding of the others.",
  ["inputs"], "every assignment of emission and transition log-probabilities, including impossible (minus infinity) ones and ties, every number of candidates per observation",
  "The tests only match a few recorded tracks, where most trellises have one dominating sequence; ties, impossible transitions and backtracking from every final state are not reached.",
  ["learning/algorithms/viterbi.hpp", "environment/environments/hmm.hpp"],
  [("forward maximisation and backtracking", "learning/algorithms/viterbi.hpp")])
prop("C06", "Value and policy iteration learn an optimal decision policy",
  "For every finite acyclic decision process with non-positive rewards, value iteration and policy iteration terminate and following the policy they return yields the maximum achievable discounted return from the start state. The actions they return are always actions that the environment offers in the states where they are taken, also when the environment replaces an action by skipping a state.",
  ["inputs"], "every acyclic transition function and reward assignment, with and without discounting and skipping",
  "The learners are run by the tests on a few recorded tracks only, and nothing compares the learned policy to the optimum.",
  ["learning/algorithms/value_iteration.hpp", "learning/algorithms/policy_iteration.hpp"],
  [("value sweep until convergence", "learning/algorithms/value_iteration.hpp"), ("evaluate/improve until stable", "learning/algorithms/policy_iteration.hpp")])
prop("C07", "Distances, lengths, azimuths and turns obey their geometry",
  "In every coordinate system the length of a line is the sum of the distances between its consecutive points in the same unit (meter on the globe); distances are symmetric, never negative, and zero exactly for equal points. Azimuths are measured clockwise from north, a turn is the difference of two azimuths wrapped into a half turn to either side without losing or inventing rotation, and a line's turns are the sums of these. Points are totally ordered, and equality, ordering and hashing of points agree.",
  ["inputs"], "every pair of angles, every point (including signed zeros), every line including repeated points and reversals, every coordinate system",
  "The tests compare a few fixed distances and angles; wrap-around at half turns, ties and the coordinate systems' units are not compared with each other.",
  ["geometry/common.hpp", "geometry/point.hpp", "geometry/algorithm/azimuth.hpp", "geometry/algorithm/direction.hpp", "geometry/algorithm/distance.hpp", "geometry/algorithm/length.hpp", "geometry/algorithm/reverse.hpp"],
  [("wrap-around of angle differences", "geometry/common.hpp"), ("per coordinate system distance strategy", "geometry/algorithm/distance.hpp")])
prop("C08", "Cached line measures always equal a recomputation",
  "After any history of queries, point removals, merges, sub-line extraction, copies, moves and assignments between the eager, lazy and plain line, multi-line and segment kinds, every measure reported by a line (length, azimuth, directions, absolute directions, and those of its segments) equals what a fresh computation on its current points gives, including whether the measure is available. Switching the distance and azimuth caches on, off or resetting them changes no result.",
  ["histories", "inputs"], "every history of operations in every interleaving with partial queries, on lines with any points including repeated ones",
  "The tests query measures of freshly built lines only; stale values need a query, then a mutation, then another query.",
  ["geometry/rich_type/rich_line_data.hpp", "geometry/rich_type/lazy_rich_line.hpp", "geometry/rich_type/eager_rich_line.hpp", "geometry/rich_type/multi_rich_line_data.hpp", "geometry/rich_type/lazy_rich_segment.hpp", "geometry/rich_type/eager_rich_segment.hpp", "geometry/cache.hpp"],
  [("invalidation and selective replacement of cached values", "geometry/rich_type/rich_line_data.hpp"), ("keyed thread-local caches", "geometry/algorithm/distance.hpp")])
prop("C09", "Cutting a line returns exactly the part between two positions",
  "Cutting a line between two positions, given as distances along it or as points on it, returns a line that starts at the first position, passes through exactly the original points strictly in between in order, and ends at the second position, so that its length is the difference of the positions. An empty or reversed range gives an empty line, and the distance reported for a point on the line is its distance along the line from the start. Repeated points in the line change nothing of this.",
  ["inputs"], "every line without self-overlap, every pair of positions on it including its points, its ends, and equal positions; cutting from the start, to the end, or both",
  "The tests cut one line at a few fixed inner positions; cuts exactly at points, at the ends, within one segment, and repeated points are not covered.",
  ["geometry/algorithm/substring.hpp", "geometry/rich_type/rich_line.hpp"],
  [("accumulation of segment lengths to find the cut segments", "geometry/algorithm/substring.hpp")])
prop("C10", "Simplifying, merging and medians stay true to the input",
  "Simplifying a line or a list of segments keeps both ends, the order of the remaining points and (if requested) every reversal point, removes a point only if it lies within the tolerance of the straight piece that replaces it, and collapses a part that is straight within the tolerance to its ends; measures of the simplified line are those of its remaining points. Merging close points replaces each run (a point and the points directly following it within the tolerance) by one point, its coordinate-wise median. The median is the middle value, or the mean of the two middle values, for every number of values in every order.",
  ["inputs"], "every line, tolerance and reversal setting; every number and order of values, for every conforming behaviour of the standard library's selection",
  "The tests simplify and merge a few fixed lines; unbalanced selections, closed lines, repeated points and reversals next to the ends are not reached.",
  ["geometry/algorithm/simplify.hpp", "geometry/algorithm/median.hpp", "geometry/algorithm/median_merge.hpp"],
  [("recursive split at the farthest point", "geometry/algorithm/simplify.hpp"), ("selection of the middle elements", "geometry/algorithm/median.hpp")])
prop("C11", "Comparing lines accounts every part as correct, missed or added",
  "Comparing a line with a ground truth reports as correct exactly what both run along in the same direction, as missed the rest of the ground truth and as added the rest of the line (for lines that repeat no part in the same direction), however each is divided into points or sub lines. The error fraction is the missed and added length relative to the ground truth, the correct fraction is the correct length relative to the longer of both lines, it is one and the error zero for equal lines and for differences within the tolerance, and the reported lengths are those of the listed segments.",
  ["inputs"], "every pair of lines including reversals, crossings, repeated and degenerate points and empty overlap, every division into sub lines, every small displacement",
  "The tests compare a list of fixed line pairs; the evaluation of every match rests on this accounting for arbitrary pairs.",
  ["geometry/algorithm/compare.hpp", "geometry/algorithm/compare/comparison.hpp", "geometry/algorithm/simplify.hpp"],
  [("adaption and splitting of segments at each other's points", "geometry/algorithm/compare.hpp"), ("sequential matching with reversal handling", "geometry/algorithm/compare.hpp")])
prop("C12", "Routes keep their lines through copies, merges and trimming",
  "Copies, moves, merges and parts of a route consist of exactly the selected lines and points in order and stay usable when the route they were made from is gone; merging over a gap leaves it, bridges it or fails as requested. All measures of a route are those of its lines (of the joined line where they touch), also after routes were joined. Trimming two touching routes removes exactly the way that the second runs back on the first (and cuts off a remaining reversal), joining removes the point where they meet and retains a reversal if requested.",
  ["histories", "inputs"], "every split of a way into owned and referenced lines, every range, every overlap of the way back including complete and repeated points, every order of queries and changes",
  "The tests use a few fixed routes; mixtures of owned and referenced lines, partial ranges within one line and measures after joining are not covered.",
  ["geometry/network/route/route.hpp", "geometry/network/route/route_data.hpp", "geometry/network/route/lazy_route.hpp", "geometry/network/route/eager_route.hpp"],
  [("owned lines list beside the list of references", "geometry/network/route/route.hpp"), ("search for the common way back", "geometry/network/route/route.hpp")])
prop("C13", "Cleaning up an imported network keeps its roads and ways",
  "Simplifying a network removes only nodes at which a road merely continues, joins the roads there in order and with their shape and tags (only roads of the same identity unless complete simplification is requested), and leaves every other node with its roads, so that ways between remaining nodes stay. Joining nodes at the same place leaves one node per place and moves every road to it, removing duplicate roads leaves exactly one of each, and removing unconnected parts leaves exactly the largest part that hangs together, regardless of the order of the input. The network used for matching has the nodes, roads and tags of the imported one.",
  ["inputs"], "every small network with one-way, two-way, parallel, closed and equal roads, in every order of its nodes and roads, with any shape and identity of the roads",
  "The tests simplify one fixed network; orders of nodes and roads, partially joined roads, loops and triples of equal nodes or roads are not covered.",
  ["geometry/network/network_import.hpp", "io/helper/graph_helper.hpp", "io/helper/tag_helper.hpp", "graph/adjacency_list.hpp"],
  [("pairing and joining of roads at a node", "geometry/network/network_import.hpp"), ("conversion to the compact network", "io/helper/graph_helper.hpp")])
prop("C14", "Routing between nodes finds a shortest way within the limit",
  "For every network, two nodes and distance limit, a way is found exactly if the shortest way along the roads (respecting one-way roads) is not longer than the limit, and the found way is a shortest one. Both search methods agree on this, regardless of other goals and earlier queries. The route for a way begins at the first and ends at the last node, is connected and as long as the way, also over parallel roads and roads without length; for no way it is invalid.",
  ["inputs", "histories"], "every small network with one-way, parallel and closed roads and roads without length, every set of goals, every limit and no limit, repeated queries",
  "The tests route on one fixed network without limit; unreachable goals, limits between parallel roads of different length and reused buffers are not covered.",
  ["geometry/network/network.hpp", "graph/algorithm/dijkstra_shortest_path.hpp", "graph/algorithm/a_star_shortest_path.hpp"],
  [("distance limit applied while roads are examined", "geometry/network/network.hpp"), ("choice among parallel roads", "geometry/network/network.hpp")])
prop("C15", "Candidates are the nearest places on the roads near a track point",
  "For every network and track point the candidate search returns, each once and ordered by distance, the roads the chosen kind of search asks for: all within the radius (doubled up to its limit until there is one), the nearest ones up to the given number, both combined, or the next road with its opposite direction. Each candidate is the nearest place on its road, with its true distance, and the parts of the road before and after it make up the road. Adopting candidates adds exactly those of the neighbouring points or of the points within reach, as requested, and nothing that is no candidate of another point.",
  ["inputs"], "every place of a track point between one-way, two-way and bent roads, every kind of search, radius, radius limit and adoption setting, tracks with repeated points",
  "The tests search candidates for a few recorded tracks and compare the final match only; empty radii, ties between roads and combinations of settings are not covered.",
  ["matching/algorithm/candidate_search.hpp", "matching/candidate.hpp", "geometry/network/network.hpp"],
  [("widening of the radius and filtering of the nearest roads", "matching/algorithm/candidate_search.hpp"), ("projection and cutting of the road at the candidate", "matching/algorithm/candidate_search.hpp")])
prop("C16", "Routes between candidates are shortest ways along the roads",
  "Between two candidates there is a route exactly if one can drive from one to the other (respecting one-way roads); it begins and ends at the candidates, is connected and as long as the shortest way, also when both lie on one road, and permitting turns within roads never makes it longer. The roads listed for a route follow each other and make up the route. The route over a sequence of chosen candidates consists of these routes in order, runs along the roads in their direction everywhere, and leaves a gap where there is no way or a point has no candidates.",
  ["inputs", "histories"], "every pair of places on one-way, two-way and bent roads, every sequence of chosen candidates including points without candidates and pairs without a way, joined or not",
  "The tests check a handful of matches on a fixed network; candidates at the ends of roads, several points without candidates in a row and gaps next to joins are not covered.",
  ["matching/algorithm/route.hpp", "geometry/network/network.hpp", "geometry/network/route/route.hpp"],
  [("case distinction for two candidates on the same road", "matching/algorithm/route.hpp"), ("skipping and joining over a sequence", "matching/algorithm/route.hpp")])
prop("C17", "Tracks are matched to drivable ways, tracks on roads to themselves",
  "For every track the match learned by value or policy iteration runs along the roads in their direction wherever it is connected, and is as long as its lines. A track that itself runs along the roads is matched to exactly the part of the roads between its first and last point. Preparing a track removes, if requested, exactly the points at the same place as the one before, and keeps all others.",
  ["inputs"], "every track near small networks with one-way and two-way roads, every track along the roads, with repeated points, with and without skipping of errors, remembering one or two previous positions",
  "The tests match a few fixed tracks; gaps between points that cannot be connected, repeated points and turns on two-way roads are not covered.",
  ["environment/environments/single.hpp", "matching/algorithm/detect.hpp", "matching/algorithm/route.hpp", "matching/algorithm/candidate_search.hpp", "learning/algorithms/value_iteration.hpp", "learning/algorithms/policy_iteration.hpp"],
  [("rewards and states of the decision process", "environment/environments/single.hpp"), ("filter for duplicate points", "matching/algorithm/detect.hpp")])
