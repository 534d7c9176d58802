#pragma once
#include "sym.h"
#include <cmath>
#include <list>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "types/geometry/point.hpp"
#include "types/geometry/models.hpp"
#include "types/geometry/rich_type/rich_segment.hpp"
#include "types/geometry/rich_type/eager_rich_segment.hpp"
#include "types/geometry/rich_type/lazy_rich_segment.hpp"
#include "types/geometry/rich_type/rich_line.hpp"
#include "types/geometry/rich_type/eager_rich_line.hpp"
#include "types/geometry/rich_type/lazy_rich_line.hpp"
#include "types/geometry/rich_type/multi_rich_line.hpp"
#include "types/geometry/rich_type/eager_multi_rich_line.hpp"
#include "types/geometry/rich_type/lazy_multi_rich_line.hpp"
#include "geometry/cache.cpp"
using namespace map_matching_2;
using P2 = geometry::point_type<geometry::cs_cartesian>;
#ifndef GEO_NO_LINES
using Line = geometry::models<P2>::line_type<>;
using Plain = geometry::rich_line<P2>; using Eager = geometry::eager_rich_line<P2>; using Lazy = geometry::lazy_rich_line<P2>;
#endif
static inline double gx(const P2 &p) { return boost::geometry::get<0>(p); }
static inline double gy(const P2 &p) { return boost::geometry::get<1>(p); }
static inline bool same_point(const P2 &a, const P2 &b) { return gx(a) == gx(b) && gy(a) == gy(b); }
