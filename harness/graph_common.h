#pragma once
#include "sym.h"
#include <vector>
#include <list>
#include <map>
#include <set>
#include "graph/adjacency_list.hpp"
#include "graph/compressed_sparse_row.hpp"
#include "graph/algorithm/dijkstra_shortest_path.hpp"
#include "graph/algorithm/a_star_shortest_path.hpp"
#include "graph/algorithm/breadth_first_search.hpp"
#include "graph/algorithm/depth_first_search.hpp"
using namespace map_matching_2;
struct node { int id = 0; bool operator==(const node &) const = default; };
struct edge { double weight = 0; bool operator==(const edge &) const = default; };
using AL = graph::adjacency_list<std::list, std::list, graph::directional, node, edge, std::list>;
using CSR = graph::compressed_sparse_row<std::vector, std::vector, graph::directional, node, edge>;
