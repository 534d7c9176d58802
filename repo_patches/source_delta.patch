From f6ef5c75f1bbbac7e7b834fb4d1c7c4a95938b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:13 +0000
Subject: [PATCH 01/28] fix: return after initializing the azimuths of a lazy
 rich line direction

---
 src/library/include/geometry/rich_type/rich_line_data.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/library/include/geometry/rich_type/rich_line_data.hpp b/src/library/include/geometry/rich_type/rich_line_data.hpp
index 5ece7a1..c57b47d 100644
--- a/src/library/include/geometry/rich_type/rich_line_data.hpp
+++ b/src/library/include/geometry/rich_type/rich_line_data.hpp
@@ -437,6 +437,7 @@ namespace map_matching_2::geometry {
             if (pos + 1 < _azimuths.size()) {
                 _initialize_azimuth(rich_line, pos);
                 _initialize_azimuth(rich_line, pos + 1);
+                return;
             }
 
             throw std::out_of_range(std::format(
-- 
2.43.0


From 589c696a97dfb6d971a1e7406be012e96e950132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:13 +0000
Subject: [PATCH 02/28] fix: take over cached totals of a rich line only for
 the complete sub line

---
 .../geometry/rich_type/rich_line_data.hpp        | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/library/include/geometry/rich_type/rich_line_data.hpp b/src/library/include/geometry/rich_type/rich_line_data.hpp
index c57b47d..c8e065e 100644
--- a/src/library/include/geometry/rich_type/rich_line_data.hpp
+++ b/src/library/include/geometry/rich_type/rich_line_data.hpp
@@ -477,10 +477,10 @@ namespace map_matching_2::geometry {
                 return rich_line_data{};
             }
             return rich_line_data{
-                    (from == 0 and to + 1 == _lengths.size()) ? _length : not_initialized<length_type>,
-                    (from == 0 and to + 1 == _lengths.size()) ? _azimuth : not_initialized<angle_type>,
-                    (from == 0 and to + 1 == _azimuths.size()) ? _directions : not_initialized<angle_type>,
-                    (from == 0 and to + 1 == _azimuths.size()) ? _absolute_directions : not_initialized<angle_type>,
+                    (from == 0 and to == _lengths.size()) ? _length : not_initialized<length_type>,
+                    (from == 0 and to == _lengths.size()) ? _azimuth : not_initialized<angle_type>,
+                    (from == 0 and to == _azimuths.size()) ? _directions : not_initialized<angle_type>,
+                    (from == 0 and to == _azimuths.size()) ? _absolute_directions : not_initialized<angle_type>,
                     (not _lengths.empty() and from <= to and from < _lengths.size() and to <= _lengths.size())
                     ? length_container_type{_lengths.cbegin() + from, _lengths.cbegin() + to}
                     : length_container_type{},
@@ -499,10 +499,10 @@ namespace map_matching_2::geometry {
                 return rich_line_data{allocator};
             }
             return rich_line_data{
-                    (from == 0 and to + 1 == _lengths.size()) ? _length : not_initialized<length_type>,
-                    (from == 0 and to + 1 == _lengths.size()) ? _azimuth : not_initialized<angle_type>,
-                    (from == 0 and to + 1 == _azimuths.size()) ? _directions : not_initialized<angle_type>,
-                    (from == 0 and to + 1 == _azimuths.size()) ? _absolute_directions : not_initialized<angle_type>,
+                    (from == 0 and to == _lengths.size()) ? _length : not_initialized<length_type>,
+                    (from == 0 and to == _lengths.size()) ? _azimuth : not_initialized<angle_type>,
+                    (from == 0 and to == _azimuths.size()) ? _directions : not_initialized<angle_type>,
+                    (from == 0 and to == _azimuths.size()) ? _absolute_directions : not_initialized<angle_type>,
                     (not _lengths.empty() and from <= to and from < _lengths.size() and to <= _lengths.size())
                     ? length_container_type{_lengths.cbegin() + from, _lengths.cbegin() + to, allocator}
                     : length_container_type{allocator},
-- 
2.43.0


From 95e9f6a9068e07c25071b7c179f18241c7e2d5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:13 +0000
Subject: [PATCH 03/28] fix: refresh the azimuth of a rich line when its last
 point is erased

---
 src/library/include/geometry/rich_type/eager_rich_line.hpp | 3 ++-
 src/library/include/geometry/rich_type/lazy_rich_line.hpp  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/library/include/geometry/rich_type/eager_rich_line.hpp b/src/library/include/geometry/rich_type/eager_rich_line.hpp
index 96f2bf4..b3ce89f 100644
--- a/src/library/include/geometry/rich_type/eager_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/eager_rich_line.hpp
@@ -316,7 +316,8 @@ namespace map_matching_2::geometry {
             rich_line_base_type::erase(index);
             rich_line_data_base_type::_erase_and_replace(*this, index);
             if (rebuild) {
-                bool azimuth = index == 0 or index + 1 == this->size();
+                // the point was already erased, so the former last index equals the current size
+                bool azimuth = index == 0 or index == this->size();
                 rich_line_data_base_type::_rebuild(*this, true, azimuth, true);
             }
         }
diff --git a/src/library/include/geometry/rich_type/lazy_rich_line.hpp b/src/library/include/geometry/rich_type/lazy_rich_line.hpp
index b60a459..5c24891 100644
--- a/src/library/include/geometry/rich_type/lazy_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/lazy_rich_line.hpp
@@ -306,7 +306,8 @@ namespace map_matching_2::geometry {
             rich_line_base_type::erase(index);
             rich_line_data_base_type::_erase_and_replace(*this, index);
             if (invalidate) {
-                bool azimuth = index == 0 or index + 1 == this->size();
+                // the point was already erased, so the former last index equals the current size
+                bool azimuth = index == 0 or index == this->size();
                 rich_line_data_base_type::_invalidate(true, azimuth, true, false, false);
             }
         }
-- 
2.43.0


From 751622a3cbbf12ff27c7090cc4a4a8d442c17c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:35 +0000
Subject: [PATCH 04/28] fix: drop stale cached values when assigning to rich
 segments and lines

---
 .../include/geometry/rich_type/eager_multi_rich_line.hpp       | 3 +++
 src/library/include/geometry/rich_type/eager_rich_line.hpp     | 3 +++
 src/library/include/geometry/rich_type/eager_rich_segment.hpp  | 2 ++
 .../include/geometry/rich_type/lazy_multi_rich_line.hpp        | 1 +
 src/library/include/geometry/rich_type/lazy_rich_line.hpp      | 1 +
 src/library/include/geometry/rich_type/lazy_rich_segment.hpp   | 2 ++
 src/library/include/geometry/rich_type/rich_line_data.hpp      | 2 ++
 7 files changed, 14 insertions(+)

diff --git a/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp b/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
index 8747488..43913ff 100644
--- a/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/eager_multi_rich_line.hpp
@@ -130,6 +130,7 @@ namespace map_matching_2::geometry {
         template<typename RichLineTypeT>
         eager_multi_rich_line &operator=(const multi_rich_line<RichLineTypeT> &other) {
             multi_rich_line_base_type::operator=(other);
+            multi_rich_line_data_base_type::_invalidate();
             multi_rich_line_data_base_type::_compute(*this);
             return *this;
         }
@@ -143,6 +144,8 @@ namespace map_matching_2::geometry {
             multi_rich_line_data_base_type::_azimuth = other.azimuth();
             multi_rich_line_data_base_type::_directions = other.directions();
             multi_rich_line_data_base_type::_absolute_directions = other.absolute_directions();
+            multi_rich_line_data_base_type::_lengths.clear();
+            multi_rich_line_data_base_type::_azimuths.clear();
             std::copy(std::cbegin(other.lengths()), std::cend(other.lengths()),
                     std::back_inserter(multi_rich_line_data_base_type::_lengths));
             std::copy(std::cbegin(other.azimuths()), std::cend(other.azimuths()),
diff --git a/src/library/include/geometry/rich_type/eager_rich_line.hpp b/src/library/include/geometry/rich_type/eager_rich_line.hpp
index b3ce89f..6a21b60 100644
--- a/src/library/include/geometry/rich_type/eager_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/eager_rich_line.hpp
@@ -193,6 +193,7 @@ namespace map_matching_2::geometry {
             template<typename> typename AllocatorT>
         eager_rich_line &operator=(const rich_line<point_type, ContainerT, AllocatorT> &other) {
             rich_line_base_type::line().assign(std::cbegin(other.line()), std::cend(other.line()));
+            rich_line_data_base_type::_invalidate();
             rich_line_data_base_type::_compute(*this);
             return *this;
         }
@@ -204,6 +205,8 @@ namespace map_matching_2::geometry {
             rich_line_data_base_type::_azimuth = other.azimuth();
             rich_line_data_base_type::_directions = other.directions();
             rich_line_data_base_type::_absolute_directions = other.absolute_directions();
+            rich_line_data_base_type::_lengths.clear();
+            rich_line_data_base_type::_azimuths.clear();
             std::copy(std::cbegin(other.lengths()), std::cend(other.lengths()),
                     std::back_inserter(rich_line_data_base_type::_lengths));
             std::copy(std::cbegin(other.azimuths()), std::cend(other.azimuths()),
diff --git a/src/library/include/geometry/rich_type/eager_rich_segment.hpp b/src/library/include/geometry/rich_type/eager_rich_segment.hpp
index c757eba..c3a4ed7 100644
--- a/src/library/include/geometry/rich_type/eager_rich_segment.hpp
+++ b/src/library/include/geometry/rich_type/eager_rich_segment.hpp
@@ -115,6 +115,8 @@ namespace map_matching_2::geometry {
         template<typename SegmentT>
         constexpr eager_rich_segment &operator=(const rich_segment<SegmentT> &other) {
             rich_segment_base_type::operator=(other);
+            rich_segment_data_base_type::_length = not_initialized<length_type>;
+            rich_segment_data_base_type::_azimuth = not_initialized<angle_type>;
             rich_segment_data_base_type::_compute(*this);
             return *this;
         }
diff --git a/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp b/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp
index e30ba5e..1cfc9c5 100644
--- a/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/lazy_multi_rich_line.hpp
@@ -113,6 +113,7 @@ namespace map_matching_2::geometry {
         template<typename RichLineTypeT>
         constexpr lazy_multi_rich_line &operator=(const multi_rich_line<RichLineTypeT> &other) {
             multi_rich_line_base_type::operator=(other);
+            multi_rich_line_data_base_type::_invalidate();
             return *this;
         }
 
diff --git a/src/library/include/geometry/rich_type/lazy_rich_line.hpp b/src/library/include/geometry/rich_type/lazy_rich_line.hpp
index 5c24891..6b54349 100644
--- a/src/library/include/geometry/rich_type/lazy_rich_line.hpp
+++ b/src/library/include/geometry/rich_type/lazy_rich_line.hpp
@@ -162,6 +162,7 @@ namespace map_matching_2::geometry {
             template<typename> typename AllocatorT>
         constexpr lazy_rich_line &operator=(const rich_line<point_type, ContainerT, AllocatorT> &other) {
             rich_line_base_type::line().assign(std::cbegin(other.line()), std::cend(other.line()));
+            rich_line_data_base_type::_invalidate();
             return *this;
         }
 
diff --git a/src/library/include/geometry/rich_type/lazy_rich_segment.hpp b/src/library/include/geometry/rich_type/lazy_rich_segment.hpp
index f2b2114..7760537 100644
--- a/src/library/include/geometry/rich_type/lazy_rich_segment.hpp
+++ b/src/library/include/geometry/rich_type/lazy_rich_segment.hpp
@@ -107,6 +107,8 @@ namespace map_matching_2::geometry {
         template<typename SegmentT>
         constexpr lazy_rich_segment &operator=(const rich_segment<SegmentT> &other) {
             rich_segment_base_type::operator=(other);
+            rich_segment_data_base_type::_length = not_initialized<length_type>;
+            rich_segment_data_base_type::_azimuth = not_initialized<angle_type>;
             return *this;
         }
 
diff --git a/src/library/include/geometry/rich_type/rich_line_data.hpp b/src/library/include/geometry/rich_type/rich_line_data.hpp
index c8e065e..d56911f 100644
--- a/src/library/include/geometry/rich_type/rich_line_data.hpp
+++ b/src/library/include/geometry/rich_type/rich_line_data.hpp
@@ -117,6 +117,8 @@ namespace map_matching_2::geometry {
             _azimuth = other.azimuth();
             _directions = other.directions();
             _absolute_directions = other.absolute_directions();
+            _lengths.clear();
+            _azimuths.clear();
             std::copy(std::cbegin(other.lengths()), std::cend(other.lengths()), std::back_inserter(_lengths));
             std::copy(std::cbegin(other.azimuths()), std::cend(other.azimuths()), std::back_inserter(_azimuths));
             return *this;
-- 
2.43.0


From 9607e85c28c21aaef1ab99cb4cd3392f71103430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:07 +0000
Subject: [PATCH 05/28] fix: lines with repeated points can be cut by distance

A segment between two equal points has no length (infinity, or an
exception for plain rich lines), so that substring and distances lost
everything behind repeated points.
---
 .../include/geometry/algorithm/substring.hpp      | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/library/include/geometry/algorithm/substring.hpp b/src/library/include/geometry/algorithm/substring.hpp
index c7dd192..90cf6c7 100644
--- a/src/library/include/geometry/algorithm/substring.hpp
+++ b/src/library/include/geometry/algorithm/substring.hpp
@@ -76,7 +76,10 @@ namespace map_matching_2::geometry {
             bool found{false};
             for (std::size_t i = 0; i < line.size() - 1; ++i) {
                 const auto segment = rich_line.rich_referring_segment(i);
-                current_distance += segment.length();
+                // repeated points have no length
+                if (segment.has_length()) {
+                    current_distance += segment.length();
+                }
 
                 if (not found and current_distance > from_distance) {
                     from_index = i + 1;
@@ -185,7 +188,8 @@ namespace map_matching_2::geometry {
 
             const auto rich_segment = rich_line.rich_referring_segment(from_nearest_segment);
             const auto distance_from = geometry::distance(rich_segment.first(), from);
-            if (distance_from > rich_segment.length() and from_nearest_segment + 1 < rich_line.size() - 1) {
+            if (rich_segment.has_length() and distance_from > rich_segment.length() and
+                from_nearest_segment + 1 < rich_line.size() - 1) {
                 from_nearest_segment++;
             }
         }
@@ -218,7 +222,7 @@ namespace map_matching_2::geometry {
 
             const auto rich_segment = rich_line.rich_referring_segment(to_nearest_segment);
             const auto distance_to = geometry::distance(rich_segment.second(), to);
-            if (distance_to > rich_segment.length() and to_nearest_segment > 0) {
+            if (rich_segment.has_length() and distance_to > rich_segment.length() and to_nearest_segment > 0) {
                 to_nearest_segment--;
             }
         }
@@ -228,7 +232,10 @@ namespace map_matching_2::geometry {
         bool found_to_distance = !calculate_to;
         for (std::size_t i = 0; i < rich_line.size() - 1; ++i) {
             const auto rich_segment = rich_line.rich_referring_segment(i);
-            const auto distance = rich_segment.length();
+            // repeated points have no length
+            const length_type distance = rich_segment.has_length()
+                                             ? rich_segment.length()
+                                             : default_float_type<length_type>::v0;
 
             if (calculate_from) {
                 if (i < from_nearest_segment) {
-- 
2.43.0


From 68ab2c52010b9bd879dea116861e0ef2bdb4d36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:34 +0000
Subject: [PATCH 06/28] fix: median of an even number of elements

The second nth_element ran over the whole container and was free to
move another element to the upper middle position, which happens with
libstdc++ for 26 elements and more.
---
 src/library/include/geometry/algorithm/median.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/library/include/geometry/algorithm/median.hpp b/src/library/include/geometry/algorithm/median.hpp
index d208ae0..d17a90d 100644
--- a/src/library/include/geometry/algorithm/median.hpp
+++ b/src/library/include/geometry/algorithm/median.hpp
@@ -35,7 +35,8 @@ namespace map_matching_2::geometry {
         if (container.size() % 2 == 1) {
             return container[middle];
         } else {
-            std::nth_element(container.begin(), container.begin() + middle - 1, container.end());
+            // must not touch the already selected upper middle element
+            std::nth_element(container.begin(), container.begin() + middle - 1, container.begin() + middle);
             return (container[middle - 1] + container[middle]) / static_cast<Element>(2);
         }
     }
-- 
2.43.0


From bcbc77457f48f7add941da035237d383048e4d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 07/28] fix: length of spherical lines in meter like distances

---
 src/library/include/geometry/algorithm/length.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/include/geometry/algorithm/length.hpp b/src/library/include/geometry/algorithm/length.hpp
index 28c6b56..fb7fb57 100644
--- a/src/library/include/geometry/algorithm/length.hpp
+++ b/src/library/include/geometry/algorithm/length.hpp
@@ -28,7 +28,7 @@ namespace map_matching_2::geometry {
     length(const Geometry &geometry) {
         using coordinate_system_type = typename boost::geometry::coordinate_system<Geometry>::type;
         if constexpr (std::same_as<coordinate_system_type, cs_spherical_equatorial>) {
-            return boost::geometry::length(geometry, boost::geometry::strategy::distance::haversine(6371));
+            return boost::geometry::length(geometry, boost::geometry::strategy::distance::haversine(6371.0 * 1000));
         } else {
             return boost::geometry::length(geometry);
         }
-- 
2.43.0


From 7c30806aac36c60647d653588edeb2c0cf66bccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:17 +0000
Subject: [PATCH 08/28] fix: directions of a route with an attached line of one
 point

---
 src/library/include/geometry/network/route/route.hpp      | 6 +++---
 src/library/include/geometry/network/route/route_data.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/library/include/geometry/network/route/route.hpp b/src/library/include/geometry/network/route/route.hpp
index 6688258..b0259f2 100644
--- a/src/library/include/geometry/network/route/route.hpp
+++ b/src/library/include/geometry/network/route/route.hpp
@@ -294,7 +294,7 @@ namespace map_matching_2::geometry::network {
                             // has direction only when attached
                             if (_size(curr_rich_line) >= 2 and
                                 _has_azimuth(curr_rich_line, _size(curr_rich_line) - 2) and
-                                _has_azimuth(next_rich_line, 0)) {
+                                _size(next_rich_line) >= 2 and _has_azimuth(next_rich_line, 0)) {
                                 return true;
                             }
                         }
@@ -334,7 +334,7 @@ namespace map_matching_2::geometry::network {
                             // add direction inbetween only when attached
                             if (_size(curr_rich_line) >= 2 and
                                 _has_azimuth(curr_rich_line, _size(curr_rich_line) - 2) and
-                                _has_azimuth(next_rich_line, 0)) {
+                                _size(next_rich_line) >= 2 and _has_azimuth(next_rich_line, 0)) {
                                 const auto direction = geometry::direction_deg(
                                         _get_azimuth(curr_rich_line, _size(curr_rich_line) - 2),
                                         _get_azimuth(next_rich_line, 0));
@@ -385,7 +385,7 @@ namespace map_matching_2::geometry::network {
                             // add direction inbetween only when attached
                             if (_size(curr_rich_line) >= 2 and
                                 _has_azimuth(curr_rich_line, _size(curr_rich_line) - 2) and
-                                _has_azimuth(next_rich_line, 0)) {
+                                _size(next_rich_line) >= 2 and _has_azimuth(next_rich_line, 0)) {
                                 const auto direction = geometry::direction_deg(
                                         _get_azimuth(curr_rich_line, _size(curr_rich_line) - 2),
                                         _get_azimuth(next_rich_line, 0));
diff --git a/src/library/include/geometry/network/route/route_data.hpp b/src/library/include/geometry/network/route/route_data.hpp
index 667cbff..a4ce6bf 100644
--- a/src/library/include/geometry/network/route/route_data.hpp
+++ b/src/library/include/geometry/network/route/route_data.hpp
@@ -243,7 +243,7 @@ namespace map_matching_2::geometry::network {
                                 const auto _curr_size = route_type::_size(curr_rich_line);
                                 if (_curr_size >= 2 and
                                     route_type::_has_azimuth(curr_rich_line, _curr_size - 2) and
-                                    route_type::_has_azimuth(next_rich_line, 0)) {
+                                    route_type::_size(next_rich_line) >= 2 and route_type::_has_azimuth(next_rich_line, 0)) {
                                     const auto direction = geometry::direction_deg(
                                             route_type::_get_azimuth(curr_rich_line, _curr_size - 2),
                                             route_type::_get_azimuth(next_rich_line, 0));
-- 
2.43.0


From 835da5b2ec8478cf580e59b950c2a519979212d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:17 +0000
Subject: [PATCH 09/28] fix: sub route takes over lines owned by the source
 behind referenced lines

---
 src/library/include/geometry/network/route/route.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/library/include/geometry/network/route/route.hpp b/src/library/include/geometry/network/route/route.hpp
index b0259f2..98b8fa2 100644
--- a/src/library/include/geometry/network/route/route.hpp
+++ b/src/library/include/geometry/network/route/route.hpp
@@ -481,19 +481,18 @@ namespace map_matching_2::geometry::network {
                 auto copy_rich_line = [&](const rich_line_reference_variant_type &rich_line_ref,
                         auto &next_rich_it, const auto &end_rich_it) {
                     bool data_moved = false;
-                    while (next_rich_it != end_rich_it) {
-                        const rich_line_variant_type &next_rich_line = *next_rich_it;
+                    for (auto rich_it = next_rich_it; rich_it != end_rich_it; ++rich_it) {
+                        const rich_line_variant_type &next_rich_line = *rich_it;
                         if (_equal_reference(next_rich_line, rich_line_ref)) {
                             // reference has local data, move it
                             const auto &_own_rich_line = new_rich_lines.emplace_back(next_rich_line);
                             std::visit([&new_references](auto &&_rich_line) {
                                 new_references.emplace_back(std::cref(_rich_line));
                             }, _own_rich_line);
-                            ++next_rich_it;
+                            next_rich_it = std::next(rich_it);
                             data_moved = true;
                             break;
                         }
-                        ++next_rich_it;
                     }
 
                     // only reference movement
-- 
2.43.0


From 0261d68770e8561cf945a5e3965551a7b5ebe39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:17 +0000
Subject: [PATCH 10/28] fix: sub route can start and end in the same line

---
 src/library/include/geometry/network/route/route.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/library/include/geometry/network/route/route.hpp b/src/library/include/geometry/network/route/route.hpp
index 98b8fa2..a37e7bb 100644
--- a/src/library/include/geometry/network/route/route.hpp
+++ b/src/library/include/geometry/network/route/route.hpp
@@ -529,12 +529,12 @@ namespace map_matching_2::geometry::network {
                 if (from_pos > 0) {
                     routes.emplace_back(_route_type{
                             _as<_rich_line_type>(_rich_lines[from]).
-                            sub_rich_line(from_pos, _size(_rich_lines[from]))
+                            sub_rich_line(from_pos, from + 1 == to ? to_pos : _size(_rich_lines[from]))
                     });
                     from++;
                 }
 
-                if (to > 0 and to_pos < _size(_rich_lines[to - 1])) {
+                if (to > 0 and from != to and to_pos < _size(_rich_lines[to - 1])) {
                     routes.emplace_back(sub_route<_route_type>(from, to - 1));
                     routes.emplace_back(_route_type{
                             _as<_rich_line_type>(_rich_lines[to - 1]).
@@ -553,7 +553,7 @@ namespace map_matching_2::geometry::network {
                     from < size() and not _empty(_rich_lines[from])
                     ? _size(_rich_lines[from])
                     : -1,
-                    to <= size() and not _empty(_rich_lines[to - 1])
+                    to > 0 and to <= size() and not _empty(_rich_lines[to - 1])
                     ? _size(_rich_lines[to - 1])
                     : -1));
         }
-- 
2.43.0


From d07576c0ea09c8a519a9718ec7a6dd4edc07406c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:17 +0000
Subject: [PATCH 11/28] fix: refresh the measures of routes after joining

---
 src/library/include/geometry/network/route/eager_route.hpp | 6 +++++-
 src/library/include/geometry/network/route/lazy_route.hpp  | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/library/include/geometry/network/route/eager_route.hpp b/src/library/include/geometry/network/route/eager_route.hpp
index 1cd7fc5..2094f0b 100644
--- a/src/library/include/geometry/network/route/eager_route.hpp
+++ b/src/library/include/geometry/network/route/eager_route.hpp
@@ -161,7 +161,11 @@ namespace map_matching_2::geometry::network {
 
         template<is_rich_line RichLineT, is_route RouteT = eager_route>
         static void join(RouteT &a, RouteT &b, bool retain_reversal = false) {
-            return route_base_type::template join<RichLineT, RouteT>(a, b, retain_reversal);
+            route_base_type::template join<RichLineT, RouteT>(a, b, retain_reversal);
+            a._invalidate();
+            a._compute(a);
+            b._invalidate();
+            b._compute(b);
         }
 
     };
diff --git a/src/library/include/geometry/network/route/lazy_route.hpp b/src/library/include/geometry/network/route/lazy_route.hpp
index ff585e4..5a4040a 100644
--- a/src/library/include/geometry/network/route/lazy_route.hpp
+++ b/src/library/include/geometry/network/route/lazy_route.hpp
@@ -163,7 +163,9 @@ namespace map_matching_2::geometry::network {
 
         template<is_rich_line RichLineT, is_route RouteT = lazy_route>
         static void join(RouteT &a, RouteT &b, bool retain_reversal = false) {
-            return route_base_type::template join<RichLineT, RouteT>(a, b, retain_reversal);
+            route_base_type::template join<RichLineT, RouteT>(a, b, retain_reversal);
+            a._invalidate();
+            b._invalidate();
         }
 
     };
-- 
2.43.0


From 83769f114bdf505f339b94a1e69ef63b69db849b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:30 +0000
Subject: [PATCH 12/28] fix: sub route can start and end in the same line
 (comment)

---
 src/library/include/geometry/network/route/route.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/library/include/geometry/network/route/route.hpp b/src/library/include/geometry/network/route/route.hpp
index a37e7bb..8d44b69 100644
--- a/src/library/include/geometry/network/route/route.hpp
+++ b/src/library/include/geometry/network/route/route.hpp
@@ -527,6 +527,7 @@ namespace map_matching_2::geometry::network {
                 routes.reserve(to - from + 2); // plus two for possible from_pos and to_pos sub_rich_lines
 
                 if (from_pos > 0) {
+                    // start and end can be in the same line
                     routes.emplace_back(_route_type{
                             _as<_rich_line_type>(_rich_lines[from]).
                             sub_rich_line(from_pos, from + 1 == to ? to_pos : _size(_rich_lines[from]))
-- 
2.43.0


From e3a807354270554daaad70749724d51e3185a994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:30 +0000
Subject: [PATCH 13/28] fix: simplification joins either all roads at a node or
 none

---
 src/library/include/geometry/network/network_import.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/library/include/geometry/network/network_import.hpp b/src/library/include/geometry/network/network_import.hpp
index bb69636..6d6e733 100644
--- a/src/library/include/geometry/network/network_import.hpp
+++ b/src/library/include/geometry/network/network_import.hpp
@@ -438,6 +438,11 @@ namespace map_matching_2::geometry::network {
                     }
                 }
             }
+
+            if (merge_edges.size() != in_edges_v.size() or merge_edges.size() != out_edges_v.size()) {
+                // the vertex would remain and lose a part of its edges
+                merge_edges.clear();
+            }
         }
 
         class vertex_visitor : public graph::visitor {
-- 
2.43.0


From 8ad816dc632e3ed5e36711ef1a25db30644d01df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:48 +0000
Subject: [PATCH 14/28] fix: unconnected components are weakly connected
 components

---
 .../geometry/network/network_import.hpp       | 55 ++++++++++---------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/src/library/include/geometry/network/network_import.hpp b/src/library/include/geometry/network/network_import.hpp
index 6d6e733..cffe88c 100644
--- a/src/library/include/geometry/network/network_import.hpp
+++ b/src/library/include/geometry/network/network_import.hpp
@@ -23,8 +23,6 @@
 
 #include "geometry/algorithm/reverse.hpp"
 
-#include "graph/algorithm/breadth_first_search.hpp"
-
 namespace map_matching_2::geometry::network {
 
     template<typename GraphHelper>
@@ -116,22 +114,45 @@ namespace map_matching_2::geometry::network {
 
         void remove_unconnected_components() {
             boost::unordered_flat_set<std::size_t> visited;
-            graph::queue_type<vertex_descriptor> queue;
 
             using discovered_type = std::vector<vertex_descriptor>;
             std::vector<discovered_type> components;
 
-            const auto vertices_v = this->graph().vertices_view();
+            graph_type &graph = this->graph();
+            const auto vertices_v = graph.vertices_view();
             for (auto it = vertices_v.begin(); it != vertices_v.end(); it = vertices_v.next(it)) {
-                const auto vertex_index = this->graph().vertex_index(it);
-                if (not visited.contains(vertex_index)) {
-                    auto &discovered = components.emplace_back(discovered_type{});
-                    vertex_visitor vertex_visitor{discovered};
+                if (visited.emplace(graph.vertex_index(it)).second) {
+                    auto &discovered = components.emplace_back(discovered_type{it});
+
+                    // follow the edges in both directions, the components are weakly connected
+                    for (std::size_t i = 0; i < discovered.size(); ++i) {
+                        const vertex_descriptor vertex_desc = discovered[i];
+
+                        const auto out_edges_v = graph.out_edges_view(vertex_desc);
+                        for (auto out_it = out_edges_v.begin();
+                             out_it != out_edges_v.end(); out_it = out_edges_v.next(out_it)) {
+                            const vertex_descriptor target = graph.target(out_edges_v[out_it]);
+                            if (visited.emplace(graph.vertex_index(target)).second) {
+                                discovered.emplace_back(target);
+                            }
+                        }
 
-                    graph::breadth_first_search(this->graph(), it, visited, queue, vertex_visitor);
+                        const auto in_edges_v = graph.in_edges_view(vertex_desc);
+                        for (auto in_it = in_edges_v.begin();
+                             in_it != in_edges_v.end(); in_it = in_edges_v.next(in_it)) {
+                            const vertex_descriptor source = graph.source(in_edges_v[in_it]);
+                            if (visited.emplace(graph.vertex_index(source)).second) {
+                                discovered.emplace_back(source);
+                            }
+                        }
+                    }
                 }
             }
 
+            if (components.empty()) {
+                return;
+            }
+
             const auto component_comparator = [](const auto &a, const auto &b) {
                 return a.size() < b.size();
             };
@@ -445,22 +466,6 @@ namespace map_matching_2::geometry::network {
             }
         }
 
-        class vertex_visitor : public graph::visitor {
-
-        public:
-            explicit constexpr vertex_visitor(std::vector<vertex_descriptor> &discovered)
-                : _discovered{discovered} {}
-
-            template<typename Graph>
-            void discover_vertex(const Graph &graph, typename Graph::vertex_descriptor vertex_desc) {
-                _discovered.emplace_back(vertex_desc);
-            }
-
-        private:
-            std::vector<vertex_descriptor> &_discovered;
-
-        };
-
     };
 
 }
-- 
2.43.0


From 48b516d33dc23320b162484fbb427553898cda3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:48 +0000
Subject: [PATCH 15/28] fix: joining duplicate nodes used descriptors of
 removed edges

---
 src/library/include/geometry/network/network_import.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/include/geometry/network/network_import.hpp b/src/library/include/geometry/network/network_import.hpp
index cffe88c..f55e80f 100644
--- a/src/library/include/geometry/network/network_import.hpp
+++ b/src/library/include/geometry/network/network_import.hpp
@@ -207,7 +207,7 @@ namespace map_matching_2::geometry::network {
                     for (in_edge_val = in_edge_desc; in_edge_desc != in_edges_v.end(); in_edge_desc = in_edge_val) {
                         in_edge_val = in_edges_v.next(in_edge_val);
 
-                        const edge_descriptor &in_edge = in_edges_v[in_edge_desc];
+                        const edge_descriptor in_edge = in_edges_v[in_edge_desc];
                         edge_data_type &edge = edges_v[in_edge].get();
                         const vertex_descriptor source_vertex = graph.source(in_edge);
 
@@ -223,7 +223,7 @@ namespace map_matching_2::geometry::network {
                          out_edge_desc = out_edge_val) {
                         out_edge_val = out_edges_v.next(out_edge_val);
 
-                        const edge_descriptor &out_edge = out_edges_v[out_edge_desc];
+                        const edge_descriptor out_edge = out_edges_v[out_edge_desc];
                         edge_data_type &edge = edges_v[out_edge].get();
                         const vertex_descriptor target_vertex = graph.target(out_edge);
 
-- 
2.43.0


From 4724fa673ed96ed28924d93644fa57ae91a2e7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:48 +0000
Subject: [PATCH 16/28] fix: removing duplicate edges kept references to
 removed edges

---
 src/library/include/geometry/network/network_import.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/include/geometry/network/network_import.hpp b/src/library/include/geometry/network/network_import.hpp
index f55e80f..b034a7b 100644
--- a/src/library/include/geometry/network/network_import.hpp
+++ b/src/library/include/geometry/network/network_import.hpp
@@ -276,9 +276,9 @@ namespace map_matching_2::geometry::network {
                 if (edge_set.contains(edge)) {
                     graph.remove_edge(edge_desc);
                     reindex = true;
+                } else {
+                    edge_set.emplace(edge);
                 }
-
-                edge_set.emplace(edge);
             }
 
             if (reindex) {
-- 
2.43.0


From 325ce8f3bb3e8811546b957f5b67fa2bc724d8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:48 +0000
Subject: [PATCH 17/28] fix: simplify at joined duplicate nodes only after all
 are joined

---
 .../geometry/network/network_import.hpp       | 32 ++++++++++---------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/library/include/geometry/network/network_import.hpp b/src/library/include/geometry/network/network_import.hpp
index b034a7b..056602b 100644
--- a/src/library/include/geometry/network/network_import.hpp
+++ b/src/library/include/geometry/network/network_import.hpp
@@ -179,6 +179,8 @@ namespace map_matching_2::geometry::network {
             using in_edge_descriptor = typename graph_type::in_edge_descriptor;
 
             boost::unordered_flat_map<point_type, vertex_descriptor> node_map;
+            boost::unordered_flat_set<vertex_size_type> duplicate_indices;
+            std::vector<vertex_descriptor> duplicate_vertices;
 
             std::vector<std::pair<edge_descriptor, edge_descriptor>> adjacent_edges;
             std::vector<std::pair<edge_descriptor, edge_descriptor>> merge_edges;
@@ -234,27 +236,27 @@ namespace map_matching_2::geometry::network {
                     assert(graph.degree(vertex_desc) == 0);
                     graph.remove_vertex(vertex_desc);
 
-                    if (simplify) {
-                        // check if current node can be omitted
-                        if (_is_mergeable(existing_vertex_desc, adjacent_edges)) {
-                            _populate_merges(existing_vertex_desc, merge_edges, simplify_network_complete);
-
-                            if (not merge_edges.empty()) {
-                                for (const auto &merge_edge : merge_edges) {
-                                    _merge(merge_edge.first, merge_edge.second);
-                                }
-
-                                merge_edges.clear();
-                            }
-
-                            node_map.erase(it);
-                        }
+                    if (simplify and duplicate_indices.emplace(graph.vertex_index(existing_vertex_desc)).second) {
+                        duplicate_vertices.emplace_back(existing_vertex_desc);
                     }
                 } else {
                     node_map.emplace(point, vertex_desc);
                 }
             }
 
+            // only after all duplicates are joined, it is known which nodes can be omitted
+            for (const vertex_descriptor &duplicate_vertex : duplicate_vertices) {
+                if (_is_mergeable(duplicate_vertex, adjacent_edges)) {
+                    _populate_merges(duplicate_vertex, merge_edges, simplify_network_complete);
+
+                    for (const auto &merge_edge : merge_edges) {
+                        _merge(merge_edge.first, merge_edge.second);
+                    }
+
+                    merge_edges.clear();
+                }
+            }
+
             graph.reindex();
         }
 
-- 
2.43.0


From 087f77ff27c537dedbd56d0740ae81250cb9cf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:29 +0000
Subject: [PATCH 18/28] fix: an unreachable goal led to a made up way with A*

---
 src/library/include/geometry/network/network.hpp | 11 +++++++----
 src/library/include/matching/algorithm/route.hpp |  5 +++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/library/include/geometry/network/network.hpp b/src/library/include/geometry/network/network.hpp
index a1721e4..39635e6 100644
--- a/src/library/include/geometry/network/network.hpp
+++ b/src/library/include/geometry/network/network.hpp
@@ -280,10 +280,13 @@ namespace map_matching_2::geometry::network {
                     predecessors, distances, colors, queue, visitor, weight_func, heuristic_func);
 
             std::list<vertex_descriptor> shortest_path;
-            for (vertex_descriptor vertex = goal;; vertex = predecessors[vertex]) {
-                shortest_path.emplace_front(vertex);
-                if (predecessors[vertex] == vertex)
-                    break;
+            if (predecessors.contains(goal)) {
+                // else goal was not found, the path is empty
+                for (vertex_descriptor vertex = goal;; vertex = predecessors[vertex]) {
+                    shortest_path.emplace_front(vertex);
+                    if (predecessors[vertex] == vertex)
+                        break;
+                }
             }
 
             predecessors.clear();
diff --git a/src/library/include/matching/algorithm/route.hpp b/src/library/include/matching/algorithm/route.hpp
index 1101e13..5c3e265 100644
--- a/src/library/include/matching/algorithm/route.hpp
+++ b/src/library/include/matching/algorithm/route.hpp
@@ -124,6 +124,11 @@ namespace map_matching_2::matching {
                 }
 
                 for (const auto &shortest_path : shortest_paths) {
+                    if (shortest_path.empty()) {
+                        // goal was not found
+                        continue;
+                    }
+
                     route_cache_key_type new_key{shortest_path.front(), shortest_path.back()};
 
                     auto new_search = _route_cache.find(new_key);
-- 
2.43.0


From c7281d4e0740174529538f498ef50b0b83b19a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:50 +0000
Subject: [PATCH 19/28] fix: a road beyond the distance limit blocked shorter
 ways to its target

---
 .../include/geometry/network/network.hpp      | 27 +++++++------------
 .../graph/algorithm/a_star_shortest_path.hpp  |  4 +++
 .../algorithm/dijkstra_shortest_path.hpp      |  4 +++
 .../include/graph/algorithm/visitor.hpp       |  6 +++++
 4 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/library/include/geometry/network/network.hpp b/src/library/include/geometry/network/network.hpp
index 39635e6..07cd0e5 100644
--- a/src/library/include/geometry/network/network.hpp
+++ b/src/library/include/geometry/network/network.hpp
@@ -225,7 +225,7 @@ namespace map_matching_2::geometry::network {
 
             boost::unordered_flat_set<vertex_descriptor> goals_found;
             goals_visitor<decltype(weight_func)> visitor{
-                    max_distance, max_distance_factor, goals, goals_found, distances, colors, weight_func
+                    max_distance, max_distance_factor, goals, goals_found, distances, weight_func
             };
 
             graph::dijkstra_shortest_path(this->graph(), start,
@@ -273,7 +273,7 @@ namespace map_matching_2::geometry::network {
             };
 
             goal_visitor<decltype(weight_func)> visitor{
-                    max_distance, max_distance_factor, goal, distances, colors, weight_func
+                    max_distance, max_distance_factor, goal, distances, weight_func
             };
 
             graph::a_star_shortest_path(this->graph(), start, goal,
@@ -413,27 +413,23 @@ namespace map_matching_2::geometry::network {
             constexpr base_max_distance_visitor(const distance_type max_distance,
                     const double max_distance_factor,
                     graph::distances_type<length_type> &distances,
-                    graph::colors_type &colors,
                     const WeightFunc &weight_func)
                 : _max_distance{max_distance}, _max_distance_factor{max_distance_factor}, _distances{distances},
-                _colors{colors}, _weight_func{weight_func} {}
+                _weight_func{weight_func} {}
 
-            void examine_edge(const graph_type &graph,
-                    const typename graph::graph_traits<graph_type>::edge_descriptor &edge_desc) {
+            [[nodiscard]] bool accept_edge(const graph_type &graph,
+                    const typename graph::graph_traits<graph_type>::edge_descriptor &edge_desc) const {
                 if (_max_distance_factor < 0.0) {
                     // effectively disable this method if the max-distance-factor is disabled
-                    return;
+                    return true;
                 }
 
                 const vertex_descriptor &source = graph.source(edge_desc);
                 const auto distance_source = _distances[source];
                 const auto weight = _weight_func(graph.get_edge_data(edge_desc));
                 const auto distance_target = distance_source + weight;
-                if (distance_target > _max_distance_factor * _max_distance) {
-                    // disable target
-                    const vertex_descriptor &target = graph.target(edge_desc);
-                    _colors[target] = graph::color::BLACK;
-                }
+                // do not follow this edge when it leads too far, the target may still be reached in a shorter way
+                return distance_target <= _max_distance_factor * _max_distance;
             }
 
         private:
@@ -441,7 +437,6 @@ namespace map_matching_2::geometry::network {
             const double _max_distance_factor;
 
             graph::distances_type<length_type> &_distances;
-            graph::colors_type &_colors;
             const WeightFunc &_weight_func;
 
         };
@@ -457,9 +452,8 @@ namespace map_matching_2::geometry::network {
                     const boost::unordered_flat_set<vertex_descriptor> &goals,
                     boost::unordered_flat_set<vertex_descriptor> &goals_found,
                     graph::distances_type<length_type> &distances,
-                    graph::colors_type &colors,
                     const WeightFunc &weight_func)
-                : base_type{max_distance, max_distance_factor, distances, colors, weight_func},
+                : base_type{max_distance, max_distance_factor, distances, weight_func},
                 _goals{goals}, _goals_found{goals_found} {}
 
             void finish_vertex(const graph_type &graph,
@@ -489,9 +483,8 @@ namespace map_matching_2::geometry::network {
                     const double max_distance_factor,
                     const vertex_descriptor &goal,
                     graph::distances_type<length_type> &distances,
-                    graph::colors_type &colors,
                     const WeightFunc &weight_func)
-                : base_type{max_distance, max_distance_factor, distances, colors, weight_func},
+                : base_type{max_distance, max_distance_factor, distances, weight_func},
                 _goal{goal} {}
 
             void finish_vertex(const graph_type &graph,
diff --git a/src/library/include/graph/algorithm/a_star_shortest_path.hpp b/src/library/include/graph/algorithm/a_star_shortest_path.hpp
index 35278ed..e9f8d05 100644
--- a/src/library/include/graph/algorithm/a_star_shortest_path.hpp
+++ b/src/library/include/graph/algorithm/a_star_shortest_path.hpp
@@ -82,6 +82,10 @@ namespace map_matching_2::graph {
 
                 visitor.examine_edge(graph, *edge_desc);
 
+                if (not visitor.accept_edge(graph, *edge_desc)) {
+                    continue;
+                }
+
                 const auto &target_desc = graph.target(*edge_desc);
                 const auto target_index = graph.vertex_index(target_desc);
 
diff --git a/src/library/include/graph/algorithm/dijkstra_shortest_path.hpp b/src/library/include/graph/algorithm/dijkstra_shortest_path.hpp
index 61d2190..42a274c 100644
--- a/src/library/include/graph/algorithm/dijkstra_shortest_path.hpp
+++ b/src/library/include/graph/algorithm/dijkstra_shortest_path.hpp
@@ -81,6 +81,10 @@ namespace map_matching_2::graph {
 
                 visitor.examine_edge(graph, *edge_desc);
 
+                if (not visitor.accept_edge(graph, *edge_desc)) {
+                    continue;
+                }
+
                 const auto &target_desc = graph.target(*edge_desc);
                 const auto target_index = graph.vertex_index(target_desc);
 
diff --git a/src/library/include/graph/algorithm/visitor.hpp b/src/library/include/graph/algorithm/visitor.hpp
index 4b5cdf6..4d3ff52 100644
--- a/src/library/include/graph/algorithm/visitor.hpp
+++ b/src/library/include/graph/algorithm/visitor.hpp
@@ -38,6 +38,12 @@ namespace map_matching_2::graph {
         template<typename Graph>
         void examine_edge(const Graph &graph, const typename Graph::edge_descriptor &edge_desc) {}
 
+        // edges that are not accepted are not followed
+        template<typename Graph>
+        [[nodiscard]] bool accept_edge(const Graph &graph, const typename Graph::edge_descriptor &edge_desc) const {
+            return true;
+        }
+
         template<typename Graph>
         void finish_vertex(const Graph &graph, const typename Graph::vertex_descriptor &vertex_desc) {}
 
-- 
2.43.0


From 4c37ede9446409389cdea9193d0c4ee78eaf1bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:22 +0000
Subject: [PATCH 20/28] fix: roads between nodes at the same place were not
 usable as a way

---
 .../include/geometry/network/network.hpp      | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/library/include/geometry/network/network.hpp b/src/library/include/geometry/network/network.hpp
index 07cd0e5..af4ff0d 100644
--- a/src/library/include/geometry/network/network.hpp
+++ b/src/library/include/geometry/network/network.hpp
@@ -220,7 +220,10 @@ namespace map_matching_2::geometry::network {
                 graph::colors_type &colors,
                 graph::priority_queue_type<graph::priority_type<length_type, vertex_descriptor>> &queue) const {
             constexpr auto weight_func = [](const edge_data_type &edge) constexpr {
-                return edge.rich_line.length();
+                // edges without a length begin and end at the same place
+                return edge.rich_line.has_length()
+                           ? edge.rich_line.length()
+                           : geometry::default_float_type<length_type>::v0;
             };
 
             boost::unordered_flat_set<vertex_descriptor> goals_found;
@@ -262,7 +265,10 @@ namespace map_matching_2::geometry::network {
                 graph::colors_type &colors,
                 graph::priority_queue_type<graph::priority_type<length_type, vertex_descriptor>> &queue) const {
             constexpr auto weight_func = [](const edge_data_type &edge) constexpr {
-                return edge.rich_line.length();
+                // edges without a length begin and end at the same place
+                return edge.rich_line.has_length()
+                           ? edge.rich_line.length()
+                           : geometry::default_float_type<length_type>::v0;
             };
 
             const auto heuristic_func = [this](const vertex_descriptor &vertex_desc,
@@ -320,12 +326,14 @@ namespace map_matching_2::geometry::network {
                     for (auto it = out_edges_v.begin(); it != out_edges_v.end(); it = out_edges_v.next(it)) {
                         if (this->graph().target(it) == *next_vertex_it) {
                             const edge_data_type &edge = this->graph().get_edge_data(it);
-                            if (not edge.rich_line.empty() and
-                                (not edge.rich_line.has_length() or edge.rich_line.length() < shortest_length)) {
-                                if (edge.rich_line.has_length()) {
-                                    shortest_length = edge.rich_line.length();
+                            if (not edge.rich_line.empty()) {
+                                const length_type length = edge.rich_line.has_length()
+                                                               ? edge.rich_line.length()
+                                                               : geometry::default_float_type<length_type>::v0;
+                                if (length < shortest_length) {
+                                    shortest_length = length;
+                                    rich_line_ptr = &edge.rich_line;
                                 }
-                                rich_line_ptr = &edge.rich_line;
                             }
                         }
                     }
-- 
2.43.0


From 053cd15c0d6025c614103a13cbfe41ac56aac0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:18 +0000
Subject: [PATCH 21/28] fix: doubling the radius of the combined candidate
 search had no effect

---
 src/library/include/matching/algorithm/candidate_search.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/library/include/matching/algorithm/candidate_search.hpp b/src/library/include/matching/algorithm/candidate_search.hpp
index d708a62..475053e 100644
--- a/src/library/include/matching/algorithm/candidate_search.hpp
+++ b/src/library/include/matching/algorithm/candidate_search.hpp
@@ -97,6 +97,8 @@ namespace map_matching_2::matching {
 
             if (match_settings.candidate_search == settings::CANDIDATE_SEARCH::COMBINED or
                 match_settings.candidate_search == settings::CANDIDATE_SEARCH::CIRCLE) {
+                // nearest edges are filtered again with every radius
+                const auto nearest_result = edge_result;
                 bool found = false;
                 bool adaptive_radius = match_settings.adaptive_radius;
                 double current_radius = match_settings.radius;
@@ -123,6 +125,8 @@ namespace map_matching_2::matching {
                         // create bounding box with at least buffer_distance
                         const auto buffer = geometry::buffer_box(point, current_radius);
                         edge_result = _network.query_segments_unique(boost::geometry::index::intersects(buffer));
+                    } else {
+                        edge_result = nearest_result;
                     }
 
                     for (auto edge_it = edge_result.begin(); edge_it != edge_result.end();) {
-- 
2.43.0


From 327e9ef77ce10e2bf513fcea5af0db6a5cea5ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:18 +0000
Subject: [PATCH 22/28] fix: distance of an adjacent edge was taken from the
 wrong edge

---
 src/library/include/matching/algorithm/candidate_search.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/include/matching/algorithm/candidate_search.hpp b/src/library/include/matching/algorithm/candidate_search.hpp
index 475053e..e07311d 100644
--- a/src/library/include/matching/algorithm/candidate_search.hpp
+++ b/src/library/include/matching/algorithm/candidate_search.hpp
@@ -171,8 +171,8 @@ namespace map_matching_2::matching {
                 for (const auto vertex : std::array{source, target}) {
                     const auto out_edges_v = _network.graph().out_edges_view(vertex);
                     for (auto it = out_edges_v.begin(); it != out_edges_v.end(); it = out_edges_v.next(it)) {
-                        const auto &adj_edge = out_edges_v[it];
-                        const auto &adj_edge_line = edge.rich_line.line();
+                        const auto &adj_edge = _network.edge(it);
+                        const auto &adj_edge_line = adj_edge.rich_line.line();
                         const auto adj_distance = geometry::distance(point, adj_edge_line);
                         if (adj_distance <= edge_distance) {
                             additions.emplace_back(it);
-- 
2.43.0


From 21699deba3fc9a88990d1bc44f3bdddbad412626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:18 +0000
Subject: [PATCH 23/28] fix: detour over other edges for a candidate at the
 begin of its edge

---
 src/library/include/matching/algorithm/route.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/library/include/matching/algorithm/route.hpp b/src/library/include/matching/algorithm/route.hpp
index 5c3e265..7d68636 100644
--- a/src/library/include/matching/algorithm/route.hpp
+++ b/src/library/include/matching/algorithm/route.hpp
@@ -186,13 +186,16 @@ namespace map_matching_2::matching {
                     const auto &edge = _network.edge(candidate_from.edge_desc);
                     if (edge.rich_line.has_length() and start->length() + end->length() >= edge.rich_line.length()) {
                         // if both lines overlap (which is only possible when sum of lengths is larger or equal than edge length)
-                        if (candidate_from.from->has_length() and candidate_to.from->has_length() and
-                            candidate_from.from->length() <= candidate_to.from->length()) {
+                        // there is no line before a candidate at the front of the edge
+                        const auto from_length = candidate_from.from->has_length()
+                                                     ? candidate_from.from->length()
+                                                     : geometry::default_float_type<length_type>::v0;
+                        if (from_length <= candidate_to.from->length()) {
                             // only continue if substring is possible, else routing is needed
                             // std::cout << edge << "\n" << candidate_from << "\n" << candidate_to << std::endl;
                             return route_type{
                                     geometry::substring<lazy_rich_line_type>(
-                                            edge.rich_line, candidate_from.from->length(), candidate_to.from->length(),
+                                            edge.rich_line, from_length, candidate_to.from->length(),
                                             candidate_from.projection_point, candidate_to.projection_point, true, true)
                             };
                         }
-- 
2.43.0


From 9ac7b2c189a73174074e10444f85793767a62f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:18 +0000
Subject: [PATCH 24/28] fix: touched collinear edges were listed as edges of a
 route

---
 src/library/include/geometry/network/network.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/library/include/geometry/network/network.hpp b/src/library/include/geometry/network/network.hpp
index af4ff0d..27ece58 100644
--- a/src/library/include/geometry/network/network.hpp
+++ b/src/library/include/geometry/network/network.hpp
@@ -190,16 +190,22 @@ namespace map_matching_2::geometry::network {
             const auto azimuth = geometry::azimuth_segment_deg(segment);
             const edge_descriptor *edge = nullptr;
             const segment_type *best_segment = nullptr;
+            bool best_covers = false;
 
             const auto segments = query_segments(boost::geometry::index::intersects(segment));
             for (const auto &segment_pair : segments) {
                 const segment_type &near_segment = segment_pair.first;
                 const auto near_azimuth = geometry::azimuth_segment_deg(near_segment);
                 const auto angle_diff = std::fabs(geometry::angle_diff(azimuth, near_azimuth));
+                // segments that are only touched by the segment are worse than segments on which it lies
+                const bool covers = geometry::distance(segment.first, near_segment) < 1e-4 and
+                        geometry::distance(segment.second, near_segment) < 1e-4;
                 if (best_segment == nullptr or
                     (geometry::equals_points(segment.first, near_segment.first) and
-                        geometry::equals_points(segment.second, near_segment.second)) or angle_diff < best_angle) {
+                        geometry::equals_points(segment.second, near_segment.second)) or
+                    (covers and not best_covers) or (covers == best_covers and angle_diff < best_angle)) {
                     best_angle = angle_diff;
+                    best_covers = covers;
                     best_segment = &near_segment;
                     edge = &segment_pair.second.first;
                 }
-- 
2.43.0


From 665d640d5cd591000d969588ab94831184317dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:18 +0000
Subject: [PATCH 25/28] fix: an even number of positions without candidates was
 bridged

---
 src/library/include/matching/algorithm/route.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/library/include/matching/algorithm/route.hpp b/src/library/include/matching/algorithm/route.hpp
index 7d68636..b77a929 100644
--- a/src/library/include/matching/algorithm/route.hpp
+++ b/src/library/include/matching/algorithm/route.hpp
@@ -261,7 +261,7 @@ namespace map_matching_2::matching {
                 const bool a_star = false, const double max_distance_factor = 10.0) const {
             std::vector<route_type> routes;
             routes.reserve(not candidates.empty() ? candidates.size() - 1 : 0);
-            bool skipped = false;
+            bool skip = false, skipped = false;
             for (std::size_t i = 0, j = 1; j < policy.size(); ++i, ++j) {
                 const auto &from_policy_pair = policy[i];
                 const auto &to_policy_pair = policy[j];
@@ -270,11 +270,14 @@ namespace map_matching_2::matching {
                 const auto to = to_policy_pair.first;
 
                 if (from == to) {
-                    // skip detected
-                    ++i;
-                    ++j;
+                    // skip detected, can be repeated
+                    skip = true;
                     skipped = true;
                     continue;
+                } else if (skip) {
+                    // no route over the skipped positions
+                    skip = false;
+                    continue;
                 }
 
                 const auto source = from_policy_pair.second;
-- 
2.43.0


From a0c46f73c07e1ef7d2039a7dfe0370373544d493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:18 +0000
Subject: [PATCH 26/28] fix: without any defect, removing defects removed all
 points

---
 src/library/include/matching/algorithm/detect.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/library/include/matching/algorithm/detect.hpp b/src/library/include/matching/algorithm/detect.hpp
index 163a0c9..e4ae834 100644
--- a/src/library/include/matching/algorithm/detect.hpp
+++ b/src/library/include/matching/algorithm/detect.hpp
@@ -67,7 +67,8 @@ namespace map_matching_2::matching {
             }
 
             for (auto &defect_set : defects) {
-                if (not defect_set.empty()) {
+                if (defect_set.size() > 1) {
+                    // there is at least one actual defect
                     defect_set.erase(defect::none);
                 }
             }
-- 
2.43.0


From 4559c962c9e60ebbc0b5d05559413d748f324195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:18 +0000
Subject: [PATCH 27/28] fix: duplicates of a track were searched in a moved
 track

---
 src/library/include/environment/environments/hmm.hpp    | 4 ++--
 src/library/include/environment/environments/single.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/library/include/environment/environments/hmm.hpp b/src/library/include/environment/environments/hmm.hpp
index 0091824..5b46e04 100644
--- a/src/library/include/environment/environments/hmm.hpp
+++ b/src/library/include/environment/environments/hmm.hpp
@@ -78,8 +78,8 @@ namespace map_matching_2::environment {
             _track = std::move(track);
 
             if (_settings.filter_duplicates) {
-                const auto defects = _algorithms.detector.detect(track.rich_line, _settings.filter_duplicates);
-                _algorithms.detector.remove_defects(track.rich_line, defects);
+                const auto defects = _algorithms.detector.detect(_track.rich_line, _settings.filter_duplicates);
+                _algorithms.detector.remove_defects(_track.rich_line, defects);
 
                 if (abort()) {
                     return;
diff --git a/src/library/include/environment/environments/single.hpp b/src/library/include/environment/environments/single.hpp
index 270eaaa..748aaaa 100644
--- a/src/library/include/environment/environments/single.hpp
+++ b/src/library/include/environment/environments/single.hpp
@@ -98,8 +98,8 @@ namespace map_matching_2::environment {
             _track = std::move(track);
 
             if (_settings.filter_duplicates) {
-                const auto defects = _algorithms.detector.detect(track.rich_line, _settings.filter_duplicates);
-                _algorithms.detector.remove_defects(track.rich_line, defects);
+                const auto defects = _algorithms.detector.detect(_track.rich_line, _settings.filter_duplicates);
+                _algorithms.detector.remove_defects(_track.rich_line, defects);
 
                 if (abort()) {
                     return;
-- 
2.43.0


From a17b0eedacdece60b0def87982ecdd47e53186b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:22 +0000
Subject: [PATCH 28/28] fix: routes on both sides of an impossible transition
 were joined

---
 src/library/include/matching/algorithm/route.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/library/include/matching/algorithm/route.hpp b/src/library/include/matching/algorithm/route.hpp
index b77a929..5fc1f55 100644
--- a/src/library/include/matching/algorithm/route.hpp
+++ b/src/library/include/matching/algorithm/route.hpp
@@ -304,7 +304,10 @@ namespace map_matching_2::matching {
                     }
                 }
 
-                if (not route.is_invalid() and route.has_length()) {
+                if (route.is_invalid()) {
+                    // no route to this position, the next route does not attach
+                    skipped = true;
+                } else if (route.has_length()) {
                     skipped = false;
                     routes.emplace_back(std::move(route));
                 }
-- 
2.43.0

