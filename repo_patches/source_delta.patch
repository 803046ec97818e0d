From dc76cd9b0da83fb0c6650fc3854e06938c5c4bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:53 +0000
Subject: [PATCH 01/51] fix: AABB::distanceSquared measured from the wrong
 point

getDist2FromLineSegment takes the point as its middle argument; the distance
that was computed is that of a box corner to a segment ending in the point.
---
 src/utils/AABB.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/AABB.cpp b/src/utils/AABB.cpp
index 649fbfd..9881a2a 100644
--- a/src/utils/AABB.cpp
+++ b/src/utils/AABB.cpp
@@ -67,10 +67,10 @@ coord_t AABB::distanceSquared(const Point2LL& p) const
     const Point2LL a = Point2LL(max_.X, min_.Y);
     const Point2LL b = Point2LL(min_.X, max_.Y);
     return (contains(p) ? -1 : 1)
-         * std::min({ LinearAlg2D::getDist2FromLineSegment(min_, a, p),
-                      LinearAlg2D::getDist2FromLineSegment(a, max_, p),
-                      LinearAlg2D::getDist2FromLineSegment(max_, b, p),
-                      LinearAlg2D::getDist2FromLineSegment(b, min_, p) });
+         * std::min({ LinearAlg2D::getDist2FromLineSegment(min_, p, a),
+                      LinearAlg2D::getDist2FromLineSegment(a, p, max_),
+                      LinearAlg2D::getDist2FromLineSegment(max_, p, b),
+                      LinearAlg2D::getDist2FromLineSegment(b, p, min_) });
 }
 
 coord_t AABB::distanceSquared(const AABB& other) const
-- 
2.43.0


From 9261df6aeb53b2bc9a3499fcbd7c7c93ddb9eceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:53 +0000
Subject: [PATCH 02/51] fix: getClosestConnection projected a1 twice and a2
 never

---
 src/utils/linearAlg2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/linearAlg2D.cpp b/src/utils/linearAlg2D.cpp
index ef1a8be..f122764 100644
--- a/src/utils/linearAlg2D.cpp
+++ b/src/utils/linearAlg2D.cpp
@@ -135,7 +135,7 @@ std::pair<Point2LL, Point2LL> LinearAlg2D::getClosestConnection(Point2LL a1, Poi
     coord_t b2_on_a_dist2 = vSize2(b2_on_a - b2);
     Point2LL a1_on_b = getClosestOnLineSegment(a1, b1, b2);
     coord_t a1_on_b_dist2 = vSize2(a1_on_b - a1);
-    Point2LL a2_on_b = getClosestOnLineSegment(a1, b1, b2);
+    Point2LL a2_on_b = getClosestOnLineSegment(a2, b1, b2);
     coord_t a2_on_b_dist2 = vSize2(a2_on_b - a2);
     if (b1_on_a_dist2 < b2_on_a_dist2 && b1_on_a_dist2 < a1_on_b_dist2 && b1_on_a_dist2 < a2_on_b_dist2)
     {
-- 
2.43.0


From f993931852670fc97d45d66d7bb075a1b620768e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:53 +0000
Subject: [PATCH 03/51] fix: UnionFind::unite lost members when not given the
 root handles

The handle that add() returns stops being the root of its set once that set is
united with another. Re-parenting such a handle tears its subtree off the old
set instead of uniting the two sets.
---
 include/utils/UnionFind.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/utils/UnionFind.h b/include/utils/UnionFind.h
index e2d42cc..c6824b4 100644
--- a/include/utils/UnionFind.h
+++ b/include/utils/UnionFind.h
@@ -104,15 +104,15 @@ public:
         //The tree with the greatest rank becomes the parent. This creates shallower trees.
         if (rank[first_root] < rank[second_root])
         {
-            parent_index[first] = second;
+            parent_index[first_root] = second_root;
             rank[second_root] += rank[first_root];
-            return second;
+            return second_root;
         }
         else
         {
-            parent_index[second] = first;
+            parent_index[second_root] = first_root;
             rank[first_root] += rank[second_root];
-            return first;
+            return first_root;
         }
     }
 
-- 
2.43.0


From ac8a15d15069f83844687f84b4409edd063806ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:53 +0000
Subject: [PATCH 04/51] fix: Polyline::length overflowed beyond 2^31

The sum was accumulated in an int.
---
 src/geometry/Polyline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/Polyline.cpp b/src/geometry/Polyline.cpp
index fcbab0f..4a6ff18 100644
--- a/src/geometry/Polyline.cpp
+++ b/src/geometry/Polyline.cpp
@@ -137,7 +137,7 @@ coord_t Polyline::length() const
     return std::accumulate(
         beginSegments(),
         endSegments(),
-        0,
+        coord_t(0),
         [](coord_t total, const const_segments_iterator::value_type& segment)
         {
             return total + vSize(segment.end - segment.start);
-- 
2.43.0


From ab95b92e413e9f23278a28f6fe5e97f1a68f9341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:53 +0000
Subject: [PATCH 05/51] fix: Shape::smooth truncated a degenerate polygon
 instead of dropping it

An empty polygon made it resize to SIZE_MAX.
---
 src/geometry/Shape.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/Shape.cpp b/src/geometry/Shape.cpp
index cd67a67..ea4b415 100644
--- a/src/geometry/Shape.cpp
+++ b/src/geometry/Shape.cpp
@@ -644,7 +644,7 @@ Shape Shape::smooth(int remove_length) const
         Polygon& back = ret.back();
         if (back.size() < 3)
         {
-            back.resize(back.size() - 1);
+            ret.pop_back();
         }
     }
     return ret;
-- 
2.43.0


From caa6ad245a6613124e3eda67958e2d23858f0137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 06/51] fix: BestElementFinder compared candidates with the
 wrong score while dropping outsiders

---
 src/utils/scoring/BestElementFinder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/scoring/BestElementFinder.cpp b/src/utils/scoring/BestElementFinder.cpp
index c0f79cd..9e5825c 100644
--- a/src/utils/scoring/BestElementFinder.cpp
+++ b/src/utils/scoring/BestElementFinder.cpp
@@ -68,13 +68,14 @@ std::optional<size_t> cura::BestElementFinder::findBestElement(const size_t cand
         }
 
         // Skip candidates that have a score too far from the actual best one
+        const double best_score = best_candidate_iterator->score; // Candidates are moved while removing, so the iterator may refer to another one by then
         const double delta_threshold = criteria_pass.outsider_delta_threshold + std::numeric_limits<double>::epsilon();
         end = std::remove_if(
             begin,
             end,
-            [&best_candidate_iterator, &delta_threshold](const Candidate& candidate)
+            [&best_score, &delta_threshold](const Candidate& candidate)
             {
-                return best_candidate_iterator->score - candidate.score > delta_threshold;
+                return best_score - candidate.score > delta_threshold;
             });
 
         if (std::distance(begin, end) == 1)
-- 
2.43.0


From 2f4b39a6089b428b1c51ac8bdc5d6cdb03ef88c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 07/51] fix: DistanceScoringCriterion referred to a target
 position that may be gone

---
 include/utils/scoring/DistanceScoringCriterion.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/scoring/DistanceScoringCriterion.h b/include/utils/scoring/DistanceScoringCriterion.h
index 71911c6..3df9963 100644
--- a/include/utils/scoring/DistanceScoringCriterion.h
+++ b/include/utils/scoring/DistanceScoringCriterion.h
@@ -25,7 +25,7 @@ public:
     };
 
 private:
-    const Point2LL& target_pos_;
+    const Point2LL target_pos_;
     const DistanceType distance_type_;
 
     /*!
-- 
2.43.0


From 1b7d482dc0dfdf453c103c4205a8c2580e27922a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 08/51] fix: PathOrderMonotonic marked the wrong lines of a
 string as backwards

---
 src/PathOrderMonotonic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PathOrderMonotonic.cpp b/src/PathOrderMonotonic.cpp
index 64ac702..b51574e 100644
--- a/src/PathOrderMonotonic.cpp
+++ b/src/PathOrderMonotonic.cpp
@@ -160,7 +160,7 @@ std::deque<typename PathOrderMonotonic<PathType>::Path*> PathOrderMonotonic<Path
         result.push_back(last);
         size_t farthest_vertex = getFarthestEndpoint(last, close_line_after->point); // Get to the opposite side.
         last->start_vertex_ = (farthest_vertex == 0) ? last->converted_->size() - 1 : 0;
-        last->backwards_ = farthest_vertex != 0;
+        last->backwards_ = last->start_vertex_ != 0;
         last_endpoint = (*last->converted_)[farthest_vertex];
         lines_after = line_bucket_grid.getNearby(last_endpoint, coincident_point_distance_);
         close_line_after = std::find_if(
-- 
2.43.0


From 95453e87ff254c2f92bb84fa62f365b73c4a693c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 09/51] fix: PathOrderMonotonic printed a line twice when two
 lines connect to it

---
 src/PathOrderMonotonic.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/PathOrderMonotonic.cpp b/src/PathOrderMonotonic.cpp
index b51574e..5bd8f64 100644
--- a/src/PathOrderMonotonic.cpp
+++ b/src/PathOrderMonotonic.cpp
@@ -301,7 +301,10 @@ std::vector<typename PathOrderMonotonic<PathType>::Path> PathOrderMonotonic<Path
             for (size_t i = 0; i < polystring.size() - 1; ++i) // Iterate over every pair of adjacent polylines in the string (so skip the last one)!
             {
                 connections[polystring[i]] = polystring[i + 1];
-                connected_lines.insert(polystring[i + 1]);
+                if (! connected_lines.insert(polystring[i + 1]).second) // Another line already connects to this one, so we must be able to start there.
+                {
+                    starting_lines.insert(polystring[i + 1]);
+                }
 
                 // Even though we chain polylines, we still want to find lines that they overlap with.
                 // The strings of polylines may still have weird shapes which interweave with other strings of polylines or loose lines.
-- 
2.43.0


From 0b7d5013666cd388b49b7a07793a2ae9089aa453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 10/51] fix: pass the thickness, not the number, of the extra
 infill walls

generateWallToolPaths takes a wall thickness; generateGradualInfill gave it the
number of walls, so that infill_wall_line_count=1 asked for walls of 1 um: zero
walls of zero width, and an access out of bounds in LimitedBeadingStrategy.
---
 src/skin.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skin.cpp b/src/skin.cpp
index 2cdc020..4582e9a 100644
--- a/src/skin.cpp
+++ b/src/skin.cpp
@@ -642,8 +642,8 @@ void SkinInfillAreaComputation::generateGradualInfill(SliceMeshStorage& mesh)
 
     const Simplify simplifier(mesh.settings.get<ExtruderTrain&>("infill_extruder_nr").settings_);
 
-    const auto infill_wall_count = mesh.settings.get<size_t>("infill_wall_line_count");
     const auto infill_wall_width = mesh.settings.get<coord_t>("infill_line_width");
+    const coord_t infill_wall_thickness = static_cast<coord_t>(mesh.settings.get<size_t>("infill_wall_line_count")) * infill_wall_width;
     const auto is_connected = mesh.settings.get<bool>("zig_zaggify_infill") || mesh.settings.get<EFillMethod>("infill_pattern") == EFillMethod::ZIG_ZAG;
     for (LayerIndex layer_idx = 0; layer_idx < static_cast<LayerIndex>(mesh.layers.size()); layer_idx++)
     { // loop also over layers which don't contain infill cause of bottom_ and top_layer to initialize their infill_area_per_combine_per_density
@@ -656,7 +656,7 @@ void SkinInfillAreaComputation::generateGradualInfill(SliceMeshStorage& mesh)
             const Shape& infill_area = Infill::generateWallToolPaths(
                 part.infill_wall_toolpaths,
                 part.getOwnInfillArea(),
-                infill_wall_count,
+                infill_wall_thickness,
                 infill_wall_width,
                 mesh.settings,
                 layer_idx,
-- 
2.43.0


From d07a71e1e6c16f783c68c86cd8eefb35a8365929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:07 +0000
Subject: [PATCH 11/51] fix: connect the junctions of the skeleton in a
 reproducible order

connectJunctions started each domain at the begin() of a hash set of pointers, so
that the start of every wall, and with it the g-code, differed from run to run of
the same slice with the layout of memory.
---
 src/arachne/SkeletalTrapezoidation.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/arachne/SkeletalTrapezoidation.cpp b/src/arachne/SkeletalTrapezoidation.cpp
index e734daf..4831f8d 100644
--- a/src/arachne/SkeletalTrapezoidation.cpp
+++ b/src/arachne/SkeletalTrapezoidation.cpp
@@ -2064,19 +2064,24 @@ void SkeletalTrapezoidation::addToolpathSegment(const ExtrusionJunction& from, c
 void SkeletalTrapezoidation::connectJunctions(ptr_vector_t<LineJunctions>& edge_junctions)
 {
     std::unordered_set<edge_t*> unprocessed_quad_starts(graph_.edges_.size() * 5 / 2);
+    std::vector<edge_t*> domain_start_candidates; // In the order of the graph, so that the result doesn't depend on memory addresses.
     for (edge_t& edge : graph_.edges_)
     {
         if (! edge.prev_)
         {
             unprocessed_quad_starts.insert(&edge);
+            domain_start_candidates.push_back(&edge);
         }
     }
 
     std::unordered_set<edge_t*> passed_odd_edges;
 
-    while (! unprocessed_quad_starts.empty())
+    for (edge_t* poly_domain_start : domain_start_candidates)
     {
-        edge_t* poly_domain_start = *unprocessed_quad_starts.begin();
+        if (! unprocessed_quad_starts.contains(poly_domain_start))
+        {
+            continue;
+        }
         edge_t* quad_start = poly_domain_start;
         bool new_domain_start = true;
         do
-- 
2.43.0


From 513357f3464d1abed613b2bf7a68ee876fd1eec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 12/51] fix: give the deepest level of the Sierpinski tree its
 list of nodes

getDepthOrdered made max_depth + 1 lists and then cut them back to max_depth, so
that nodes at max_depth and the loop in bubbleUpConstraintErrors went out of
bounds (cross infill and cross support).
---
 src/infill/SierpinskiFill.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/infill/SierpinskiFill.cpp b/src/infill/SierpinskiFill.cpp
index 6889497..f71e621 100644
--- a/src/infill/SierpinskiFill.cpp
+++ b/src/infill/SierpinskiFill.cpp
@@ -187,7 +187,6 @@ void SierpinskiFill::createLowerBoundSequence()
 std::vector<std::vector<std::list<SierpinskiFill::SierpinskiTriangle*>::iterator>> SierpinskiFill::getDepthOrdered()
 {
     std::vector<std::vector<std::list<SierpinskiTriangle*>::iterator>> depth_ordered(max_depth_ + 1);
-    depth_ordered.resize(max_depth_);
     for (std::list<SierpinskiTriangle*>::iterator it = sequence_.begin(); it != sequence_.end(); ++it)
     {
         SierpinskiTriangle* node = *it;
-- 
2.43.0


From c155f5b3f2237478c0389926881251825917e206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 13/51] fix: don't read before the buffer when writing the
 coordinate 0

For "0" the search for trailing zeros went on to buffer[-1].
---
 include/utils/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/string.h b/include/utils/string.h
index c26b55c..ec3ac63 100644
--- a/include/utils/string.h
+++ b/include/utils/string.h
@@ -82,7 +82,7 @@ static inline void writeInt2mm(const int32_t coord, std::ostream& ss)
 #endif // DEBUG
     int end_pos = char_count; // the first character not to write any more
     int trailing_zeros = 1;
-    while (trailing_zeros < 4 && buffer[char_count - trailing_zeros] == '0')
+    while (trailing_zeros < 4 && trailing_zeros <= char_count && buffer[char_count - trailing_zeros] == '0')
     {
         trailing_zeros++;
     }
-- 
2.43.0


From 206a3325bb3dc6de48dd1dc7164633110a4f0abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 14/51] fix: don't comb with a boundary offset of zero

The offset is the maximum over the used extruders. If none is used, or theirs is
zero while that of the mesh group is not, the grid of the combing boundary had
cells of size zero: a division by zero.
---
 src/LayerPlan.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LayerPlan.cpp b/src/LayerPlan.cpp
index a717a5f..592040a 100644
--- a/src/LayerPlan.cpp
+++ b/src/LayerPlan.cpp
@@ -128,7 +128,8 @@ LayerPlan::LayerPlan(
     was_inside_ = true; // not used, because the first travel move is bogus
     is_inside_ = false; // assumes the next move will not be to inside a layer part (overwritten just before going into a layer part)
     const auto& local_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
-    if (local_settings.get<CombingMode>("retraction_combing") != CombingMode::OFF && local_settings.get<coord_t>("retraction_combing_avoid_distance") > 0)
+    if (local_settings.get<CombingMode>("retraction_combing") != CombingMode::OFF && local_settings.get<coord_t>("retraction_combing_avoid_distance") > 0
+        && comb_boundary_offset > 0)
     {
         comb_ = new Comb(storage, layer_nr, comb_boundary_minimum_, comb_boundary_preferred_, comb_boundary_offset, travel_avoid_distance, comb_move_inside_distance);
     }
-- 
2.43.0


From 862c2349b963e5ba1687989f07f47b52e49a5a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:00 +0000
Subject: [PATCH 15/51] fix: an empty bounding box has no width or height

---
 src/utils/AABB.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/utils/AABB.cpp b/src/utils/AABB.cpp
index 9881a2a..d036233 100644
--- a/src/utils/AABB.cpp
+++ b/src/utils/AABB.cpp
@@ -207,11 +207,19 @@ Polygon AABB::toPolygon() const
 
 coord_t AABB::width() const
 {
+    if (max_.X < min_.X)
+    {
+        return 0; // Empty bounding box: its limits are so far apart that subtracting them would overflow.
+    }
     return max_.X - min_.X;
 }
 
 coord_t AABB::height() const
 {
+    if (max_.Y < min_.Y)
+    {
+        return 0; // Empty bounding box: its limits are so far apart that subtracting them would overflow.
+    }
     return max_.Y - min_.Y;
 }
 
-- 
2.43.0


From f74714adbd84b58c8b351e3f739b88be4c01dd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:05 +0000
Subject: [PATCH 16/51] fix: only use the seam of the spiral for the polygon
 that it was found for

---
 src/FffGcodeWriter.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/FffGcodeWriter.cpp b/src/FffGcodeWriter.cpp
index cbb065a..5b9500a 100644
--- a/src/FffGcodeWriter.cpp
+++ b/src/FffGcodeWriter.cpp
@@ -2559,10 +2559,17 @@ void FffGcodeWriter::processSpiralizedWall(
     }
     const bool is_bottom_layer = (layer_nr == mesh.settings.get<LayerIndex>("initial_bottom_layers"));
     const bool is_top_layer = ((size_t)layer_nr == (storage.spiralize_wall_outlines.size() - 1) || storage.spiralize_wall_outlines[layer_nr + 1] == nullptr);
-    const int seam_vertex_idx = storage.spiralize_seam_vertex_indices[layer_nr]; // use pre-computed seam vertex index for current layer
+    const Shape* seam_wall = storage.spiralize_wall_outlines[layer_nr];
     // output a wall slice that is interpolated between the last and current walls
     for (const Polygon& wall_outline : part.spiral_wall)
     {
+        // Use the pre-computed seam vertex index for the current layer, but only for the polygon that it was computed for.
+        int seam_vertex_idx = storage.spiralize_seam_vertex_indices[layer_nr];
+        if (seam_wall == nullptr || &wall_outline != &seam_wall->front())
+        {
+            const Point2LL near_to = (last_seam_vertex_idx >= 0) ? (*last_wall_outline)[last_seam_vertex_idx] : gcode_layer.getLastPlannedPositionOrStartingPosition();
+            seam_vertex_idx = PolygonUtils::findNearestVert(near_to, wall_outline);
+        }
         gcode_layer.spiralizeWallSlice(mesh_config.inset0_config, wall_outline, *last_wall_outline, seam_vertex_idx, last_seam_vertex_idx, is_top_layer, is_bottom_layer);
     }
 }
-- 
2.43.0


From dd692d50939a0bab612f67731da9448c00bf68b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 17/51] fix: don't look up the support of a print without
 layers

---
 src/sliceDataStorage.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sliceDataStorage.cpp b/src/sliceDataStorage.cpp
index e2f57a3..4a81753 100644
--- a/src/sliceDataStorage.cpp
+++ b/src/sliceDataStorage.cpp
@@ -382,7 +382,7 @@ Shape SliceDataStorage::getLayerOutlines(
                 }
             }
         }
-        if (include_support && (extruder_nr == -1 || extruder_nr == int(mesh_group_settings.get<ExtruderTrain&>("support_infill_extruder_nr").extruder_nr_)))
+        if (include_support && ! support.supportLayers.empty() && (extruder_nr == -1 || extruder_nr == int(mesh_group_settings.get<ExtruderTrain&>("support_infill_extruder_nr").extruder_nr_)))
         {
             const SupportLayer& support_layer = support.supportLayers[std::max(LayerIndex(0), layer_nr)];
             if (support.generated)
@@ -568,7 +568,7 @@ std::vector<bool> SliceDataStorage::getExtrudersUsed(const LayerIndex layer_nr)
     if (include_helper_parts)
     {
         // support
-        if (layer_nr < int(support.supportLayers.size()))
+        if (! support.supportLayers.empty() && layer_nr < int(support.supportLayers.size()))
         {
             const SupportLayer& support_layer
                 = support.supportLayers[std::max(LayerIndex(0), layer_nr)]; // Below layer 0, it's the same as layer 0 (even though it's not stored here).
-- 
2.43.0


From 06098cc81b3abf94be553fc7dd8fb9a968856e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:28 +0000
Subject: [PATCH 18/51] fix: SupportLayer::excludeAreasFromSupportInfillAreas
 used a part after moving it

---
 src/sliceDataStorage.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sliceDataStorage.cpp b/src/sliceDataStorage.cpp
index 4a81753..ed32c9c 100644
--- a/src/sliceDataStorage.cpp
+++ b/src/sliceDataStorage.cpp
@@ -797,11 +797,14 @@ void SupportLayer::excludeAreasFromSupportInfillAreas(const Shape& exclude_polyg
         // the rest we add to the support_infill_parts (but after part_count_to_check)
         support_infill_part.outline_ = smaller_support_islands[0];
 
+        // adding parts may move all parts to another place in memory, so get what we need of this one first
+        const auto support_line_width = support_infill_part.support_line_width_;
+        const auto use_fractional_config = support_infill_part.use_fractional_config_;
+        const auto inset_width_to_generate = support_infill_part.inset_width_to_generate_;
         for (size_t support_island_idx = 1; support_island_idx < smaller_support_islands.size(); ++support_island_idx)
         {
             const SingleShape& smaller_island = smaller_support_islands[support_island_idx];
-            support_infill_parts
-                .emplace_back(smaller_island, support_infill_part.support_line_width_, support_infill_part.use_fractional_config_, support_infill_part.inset_width_to_generate_);
+            support_infill_parts.emplace_back(smaller_island, support_line_width, use_fractional_config, inset_width_to_generate);
         }
     }
 
-- 
2.43.0


From e772134dbcc4c985e6420499c92a2467cf8c8e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:36 +0000
Subject: [PATCH 19/51] fix: forget the temperature command of an extruder plan
 that was removed

---
 src/LayerPlanBuffer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LayerPlanBuffer.cpp b/src/LayerPlanBuffer.cpp
index 5bf6bb5..f807ca9 100644
--- a/src/LayerPlanBuffer.cpp
+++ b/src/LayerPlanBuffer.cpp
@@ -527,6 +527,7 @@ void LayerPlanBuffer::insertFinalPrintTempCommand(std::vector<ExtruderPlan*>& ex
             if (precool_extruder_plan->extrusion_temperature_command_)
             { // the precool command ends up before the command to go to the print temperature of the next extruder plan, so remove that print temp command
                 precool_extruder_plan->inserts_.erase(*precool_extruder_plan->extrusion_temperature_command_);
+                precool_extruder_plan->extrusion_temperature_command_.reset();
             }
             double time_here = precool_extruder_plan->estimates_.getTotalTime();
             if (cool_down_time < time_here)
-- 
2.43.0


From b5b8e47a447e3ecef0fe91dc6d30ad2115ac6659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:39 +0000
Subject: [PATCH 20/51] fix: ordered consumer returned on a spurious wake-up
 while its workers were running

---
 include/utils/ThreadPool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utils/ThreadPool.h b/include/utils/ThreadPool.h
index ed8db06..1bd369c 100644
--- a/include/utils/ThreadPool.h
+++ b/include/utils/ThreadPool.h
@@ -295,8 +295,8 @@ public:
         }
         // Run a worker on the main thread
         worker(lock);
-        // Wait for completion of all workers
-        if (workers_count_ > 0)
+        // Wait for completion of all workers (waking up without a signal is allowed to happen)
+        while (workers_count_ > 0)
         {
             work_done_cond_.wait(lock);
         }
-- 
2.43.0


From d62adfd149d65f05418cbf9c1c1a065f8248ddc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:49 +0000
Subject: [PATCH 21/51] fix: ordered consumer wrote outside its ring buffer for
 items far below zero

---
 include/utils/ThreadPool.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/utils/ThreadPool.h b/include/utils/ThreadPool.h
index 1bd369c..89f29ea 100644
--- a/include/utils/ThreadPool.h
+++ b/include/utils/ThreadPool.h
@@ -303,6 +303,13 @@ public:
     }
 
 protected:
+    // Slot of the ring buffer for an item. The index may be negative: layers below the model (raft filler layers) are numbered so.
+    item_t& slotOf(const ptrdiff_t idx)
+    {
+        const ptrdiff_t slot = idx % max_pending_;
+        return queue_[slot < 0 ? slot + max_pending_ : slot];
+    }
+
     //! Waits for free space in the ring. Returns false when work is completed.
     bool wait(lock_t& lock)
     {
@@ -327,7 +334,7 @@ protected:
     ptrdiff_t produce(lock_t& lock)
     {
         ptrdiff_t produced_idx = write_idx_++;
-        item_t* slot = &queue_[(produced_idx + max_pending_) % max_pending_];
+        item_t* slot = &slotOf(produced_idx);
         assert(produced_idx < last_idx_);
 
         // Unlocks global mutex while producing an item
@@ -346,7 +353,7 @@ protected:
     void consume_many(lock_t& lock)
     {
         assert(read_idx_ < write_idx_);
-        for (item_t* slot = &queue_[(read_idx_ + max_pending_) % max_pending_]; *slot; slot = &queue_[(read_idx_ + max_pending_) % max_pending_])
+        for (item_t* slot = &slotOf(read_idx_); *slot; slot = &slotOf(read_idx_))
         {
             // Unlocks global mutex while consuming an item
             lock.unlock();
-- 
2.43.0


From e53e7daff887e5de891f130a2a33a5e5ff54a267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:29 +0000
Subject: [PATCH 22/51] fix: cool-down planned with the heating and cooling
 rates swapped

---
 src/Preheat.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Preheat.cpp b/src/Preheat.cpp
index d9f24b2..229b0c9 100644
--- a/src/Preheat.cpp
+++ b/src/Preheat.cpp
@@ -170,9 +170,9 @@ Preheat::CoolDownResult Preheat::getCoolDownPointAfterWarmUp(double time_window,
         result.highest_temperature = std::max(temp_start, temp_end);
         return result;
     }
-    double time_ratio_cooldown_heatup = time_to_cooldown_1_degree / time_to_heatup_1_degree;
+    double time_ratio_heatup_cooldown = time_to_heatup_1_degree / time_to_cooldown_1_degree;
     double cool_down_time = getTimeToGoFromTempToTemp(extruder, temp_mid, outer_temp, during_printing);
-    double time_needed_to_reach_temp1 = cool_down_time * (1.0 + time_ratio_cooldown_heatup);
+    double time_needed_to_reach_temp1 = cool_down_time * (1.0 + time_ratio_heatup_cooldown);
     if (time_needed_to_reach_temp1 < limited_time_window)
     {
         result.cooling_time += cool_down_time;
@@ -180,7 +180,7 @@ Preheat::CoolDownResult Preheat::getCoolDownPointAfterWarmUp(double time_window,
     }
     else
     {
-        result.cooling_time += limited_time_window * time_to_heatup_1_degree / (time_to_cooldown_1_degree + time_to_heatup_1_degree);
+        result.cooling_time += limited_time_window * time_to_cooldown_1_degree / (time_to_cooldown_1_degree + time_to_heatup_1_degree);
         result.highest_temperature = std::min(temp_mid, temp_end + result.cooling_time / time_to_cooldown_1_degree);
     }
 
-- 
2.43.0


From 771a8aeb18870ce176023099e8ac81898ff73678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 23/51] fix: endless recursion when asking for a setting
 limited to an extruder without a value of its own

---
 src/settings/Settings.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/settings/Settings.cpp b/src/settings/Settings.cpp
index 0ddf81b..6b6d9fa 100644
--- a/src/settings/Settings.cpp
+++ b/src/settings/Settings.cpp
@@ -880,7 +880,13 @@ bool Settings::has(const std::string& key, const bool parent_lookup) const
     const std::unordered_map<std::string, ExtruderTrain*>& limit_to_extruder = Application::getInstance().current_slice_->scene.limit_to_extruder;
     if (limit_to_extruder.find(key) != limit_to_extruder.end())
     {
-        return limit_to_extruder.at(key)->settings_.has(key, parent_lookup);
+        // Don't look up the limited extruder again from there, or this would recurse endlessly if the extruder has no value of its own.
+        const Settings* limited = &limit_to_extruder.at(key)->settings_;
+        while (limited != nullptr && ! limited->settings.contains(key))
+        {
+            limited = limited->parent;
+        }
+        return limited != nullptr;
     }
 
     if (parent)
-- 
2.43.0


From d642d805c92be974a4e8e2ad6da6a27e940fe0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:45 +0000
Subject: [PATCH 24/51] fix: flow of raft interface, raft surface and support
 bottom read from the wrong extruder

---
 src/settings/PathConfigStorage.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/settings/PathConfigStorage.cpp b/src/settings/PathConfigStorage.cpp
index e7f5a80..68cd895 100644
--- a/src/settings/PathConfigStorage.cpp
+++ b/src/settings/PathConfigStorage.cpp
@@ -53,14 +53,14 @@ PathConfigStorage::PathConfigStorage(const SliceDataStorage& storage, const Laye
     , raft_interface_config(GCodePathConfig{ .type = PrintFeatureType::Support,
                                              .line_width = raft_interface_train.settings_.get<coord_t>("raft_interface_line_width"),
                                              .layer_thickness = raft_interface_train.settings_.get<coord_t>("raft_interface_thickness"),
-                                             .flow = raft_base_train.settings_.get<Ratio>("raft_interface_flow"),
+                                             .flow = raft_interface_train.settings_.get<Ratio>("raft_interface_flow"),
                                              .speed_derivatives = SpeedDerivatives{ .speed = raft_interface_train.settings_.get<Velocity>("raft_interface_speed"),
                                                                                     .acceleration = raft_interface_train.settings_.get<Acceleration>("raft_interface_acceleration"),
                                                                                     .jerk = raft_interface_train.settings_.get<Velocity>("raft_interface_jerk") } })
     , raft_surface_config(GCodePathConfig{ .type = PrintFeatureType::SupportInterface,
                                            .line_width = raft_surface_train.settings_.get<coord_t>("raft_surface_line_width"),
                                            .layer_thickness = raft_surface_train.settings_.get<coord_t>("raft_surface_thickness"),
-                                           .flow = raft_base_train.settings_.get<Ratio>("raft_surface_flow"),
+                                           .flow = raft_surface_train.settings_.get<Ratio>("raft_surface_flow"),
                                            .speed_derivatives = SpeedDerivatives{ .speed = raft_surface_train.settings_.get<Velocity>("raft_surface_speed"),
                                                                                   .acceleration = raft_surface_train.settings_.get<Acceleration>("raft_surface_acceleration"),
                                                                                   .jerk = raft_surface_train.settings_.get<Velocity>("raft_surface_jerk") } })
@@ -77,8 +77,8 @@ PathConfigStorage::PathConfigStorage(const SliceDataStorage& storage, const Laye
           .type = PrintFeatureType::SupportInterface,
           .line_width = static_cast<coord_t>(support_bottom_train.settings_.get<coord_t>("support_bottom_line_width") * line_width_factor_per_extruder[support_bottom_extruder_nr]),
           .layer_thickness = layer_thickness,
-          .flow = support_roof_train.settings_.get<Ratio>("support_bottom_material_flow")
-                * ((layer_nr == 0) ? support_roof_train.settings_.get<Ratio>("material_flow_layer_0") : Ratio(1.0)),
+          .flow = support_bottom_train.settings_.get<Ratio>("support_bottom_material_flow")
+                * ((layer_nr == 0) ? support_bottom_train.settings_.get<Ratio>("material_flow_layer_0") : Ratio(1.0)),
           .speed_derivatives = SpeedDerivatives{ .speed = support_bottom_train.settings_.get<Velocity>("speed_support_bottom"),
                                                  .acceleration = support_bottom_train.settings_.get<Acceleration>("acceleration_support_bottom"),
                                                  .jerk = support_bottom_train.settings_.get<Velocity>("jerk_support_bottom") } })
-- 
2.43.0


From 11df7da21b1d06b93fbe1990fa145eacb056d9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:07 +0000
Subject: [PATCH 25/51] fix: walls and skin of roofs and floors ignored the
 slow first layers

---
 src/settings/PathConfigStorage.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/settings/PathConfigStorage.cpp b/src/settings/PathConfigStorage.cpp
index 68cd895..6026d57 100644
--- a/src/settings/PathConfigStorage.cpp
+++ b/src/settings/PathConfigStorage.cpp
@@ -169,6 +169,10 @@ void MeshPathConfigs::smoothAllSpeeds(const SpeedDerivatives& first_layer_config
 {
     inset0_config.speed_derivatives.smoothSpeed(first_layer_config, layer_nr, max_speed_layer);
     insetX_config.speed_derivatives.smoothSpeed(first_layer_config, layer_nr, max_speed_layer);
+    inset0_roofing_config.speed_derivatives.smoothSpeed(first_layer_config, layer_nr, max_speed_layer);
+    insetX_roofing_config.speed_derivatives.smoothSpeed(first_layer_config, layer_nr, max_speed_layer);
+    inset0_flooring_config.speed_derivatives.smoothSpeed(first_layer_config, layer_nr, max_speed_layer);
+    insetX_flooring_config.speed_derivatives.smoothSpeed(first_layer_config, layer_nr, max_speed_layer);
     skin_config.speed_derivatives.smoothSpeed(first_layer_config, layer_nr, max_speed_layer);
     ironing_config.speed_derivatives.smoothSpeed(first_layer_config, layer_nr, max_speed_layer);
     for (size_t idx = 0; idx < MAX_INFILL_COMBINE; idx++)
@@ -245,6 +249,7 @@ void PathConfigStorage::handleInitialLayerSpeedup(const SliceDataStorage& storag
 
             mesh_configs[mesh_idx].smoothAllSpeeds(initial_layer_speed_config, layer_nr, initial_speedup_layer_count);
             mesh_configs[mesh_idx].roofing_config.speed_derivatives.smoothSpeed(initial_layer_speed_config, layer_nr, initial_speedup_layer_count);
+            mesh_configs[mesh_idx].flooring_config.speed_derivatives.smoothSpeed(initial_layer_speed_config, layer_nr, initial_speedup_layer_count);
         }
     }
 }
-- 
2.43.0


From 174f3df492b2c6908fc3e2a2203d29578ab02a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:57 +0000
Subject: [PATCH 26/51] fix: ends of connected infill lines stayed altered when
 their crossing couldn't be resolved

---
 src/infill.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infill.cpp b/src/infill.cpp
index 8608112..efcf670 100644
--- a/src/infill.cpp
+++ b/src/infill.cpp
@@ -918,6 +918,8 @@ void Infill::resolveIntersection(const coord_t at_distance, const Point2LL& inte
         // Put everything that has now potentially become messed up, back.
         bend_a.reset();
         bend_b.reset();
+        end_a = connect_start; // also undo what was altered before it turned out that this can't be resolved
+        end_b = connect_end;
     }
 }
 
-- 
2.43.0


From 13a4f3860baa5b035819b8476987fb6a7aefd33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 27/51] fix: only the last mesh group of the command line was
 moved to its place and scaled

---
 src/communication/CommandLine.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/communication/CommandLine.cpp b/src/communication/CommandLine.cpp
index 3e5e69f..30c861b 100644
--- a/src/communication/CommandLine.cpp
+++ b/src/communication/CommandLine.cpp
@@ -480,7 +480,10 @@ void CommandLine::sliceNext()
     try
     {
 #endif // DEBUG
-        slice->scene.mesh_groups[mesh_group_index].finalize();
+        for (MeshGroup& mesh_group : slice->scene.mesh_groups)
+        {
+            mesh_group.finalize();
+        }
         spdlog::info("Loaded from disk in {:3}s\n", FffProcessor::getInstance()->time_keeper.restart());
 
         // Start slicing.
-- 
2.43.0


From 73861e8b04efe38e1330674a2d5c35a2fc985004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 28/51] fix: texture coordinates of two components in OBJ files
 were ignored

---
 src/MeshGroup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MeshGroup.cpp b/src/MeshGroup.cpp
index 00590a7..0c53978 100644
--- a/src/MeshGroup.cpp
+++ b/src/MeshGroup.cpp
@@ -318,7 +318,7 @@ bool loadMeshOBJ(Mesh* mesh, const fs::path& filename, const Matrix4x3D& matrix)
     std::regex main_regex(R"((v|vt|f)\s+(.*))");
     const std::string floating_number_pattern = R"(([-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?))";
     std::regex vertex_regex(floating_number_pattern + R"(\s+)" + floating_number_pattern + R"(\s+)" + floating_number_pattern);
-    std::regex uv_regex(floating_number_pattern + R"(\s+)" + floating_number_pattern + R"((?:\s+)" + floating_number_pattern + ")");
+    std::regex uv_regex(floating_number_pattern + R"(\s+)" + floating_number_pattern + R"((?:\s+)" + floating_number_pattern + ")?");
     std::regex face_indices_regex(R"((\d+)(?:\/(\d*))?(?:\/(?:\d*))?)");
 
     auto get_uv_coordinates = [&uv_coordinates](std::optional<size_t> uv_index) -> std::optional<Point2F>
-- 
2.43.0


From b29e6c6568cef08a32c97749e1a0cab3c323a490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:16 +0000
Subject: [PATCH 29/51] fix: lines of OBJ files ending in a carriage return,
 and vertices with a weight or colour, were ignored

---
 src/MeshGroup.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MeshGroup.cpp b/src/MeshGroup.cpp
index 0c53978..8523002 100644
--- a/src/MeshGroup.cpp
+++ b/src/MeshGroup.cpp
@@ -315,9 +315,9 @@ bool loadMeshOBJ(Mesh* mesh, const fs::path& filename, const Matrix4x3D& matrix)
     std::vector<Point3LL> vertices;
     std::vector<Point2F> uv_coordinates;
     std::string line;
-    std::regex main_regex(R"((v|vt|f)\s+(.*))");
+    std::regex main_regex(R"(\s*(v|vt|f)\s+(.*?)\s*)");
     const std::string floating_number_pattern = R"(([-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?))";
-    std::regex vertex_regex(floating_number_pattern + R"(\s+)" + floating_number_pattern + R"(\s+)" + floating_number_pattern);
+    std::regex vertex_regex(floating_number_pattern + R"(\s+)" + floating_number_pattern + R"(\s+)" + floating_number_pattern + R"((?:\s+.*)?)");
     std::regex uv_regex(floating_number_pattern + R"(\s+)" + floating_number_pattern + R"((?:\s+)" + floating_number_pattern + ")?");
     std::regex face_indices_regex(R"((\d+)(?:\/(\d*))?(?:\/(?:\d*))?)");
 
-- 
2.43.0


From 3f3d24c0d8f89992761145ddc9ba841b939a83fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:23 +0000
Subject: [PATCH 30/51] fix: texture coordinates of an STL file were looked for
 in the working directory instead of beside the file

---
 src/MeshGroup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MeshGroup.cpp b/src/MeshGroup.cpp
index 8523002..297ab4f 100644
--- a/src/MeshGroup.cpp
+++ b/src/MeshGroup.cpp
@@ -521,7 +521,7 @@ bool loadMeshIntoMeshGroup(MeshGroup* meshgroup, const fs::path& filename, const
     if (extension == "stl")
     {
         // Check for corresponding UV and PNG files
-        const fs::path uv_filename = fs::path(base_filename + ".uv");
+        const fs::path uv_filename = fs::path(filename).replace_extension("uv");
 
         std::vector<Point2F> uv_coordinates;
         has_uv = loadUVCoordinatesFromFile(uv_filename, uv_coordinates);
-- 
2.43.0


From dfc5257259db5c53729db7afe8528ac8f88f6cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:30 +0000
Subject: [PATCH 31/51] fix: flow rate compensation was extruded again on every
 line with relative extrusion

---
 include/gcode_export/gcodeExport.h | 1 +
 src/gcode_export/gcodeExport.cpp   | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/gcode_export/gcodeExport.h b/include/gcode_export/gcodeExport.h
index 6a5d660..f81d27b 100644
--- a/include/gcode_export/gcodeExport.h
+++ b/include/gcode_export/gcodeExport.h
@@ -150,6 +150,7 @@ private:
 
     // flow-rate compensation
     double current_e_offset_; //!< Offset to compensate for flow rate (mm or mm^3)
+    double applied_e_offset_{ 0.0 }; //!< The part of the E value of the last extrusion move that was due to flow rate compensation
     double max_extrusion_offset_; //!< 0 to turn it off, normally 4
     double extrusion_offset_factor_; //!< default 1
 
diff --git a/src/gcode_export/gcodeExport.cpp b/src/gcode_export/gcodeExport.cpp
index d82113d..1dbc31a 100644
--- a/src/gcode_export/gcodeExport.cpp
+++ b/src/gcode_export/gcodeExport.cpp
@@ -1165,7 +1165,8 @@ void GCodeExport::writeFXYZE(
     else if (e + current_e_offset_ != current_e_value_)
     {
         any_written = true;
-        const double output_e = (relative_extrusion_) ? e + current_e_offset_ - current_e_value_ : e + current_e_offset_;
+        const double output_e = (relative_extrusion_) ? (e + current_e_offset_) - (current_e_value_ + applied_e_offset_) : e + current_e_offset_;
+        applied_e_offset_ = current_e_offset_;
         *output_stream_ << " " << extruder_attr_[current_extruder_].extruder_character_ << PrecisionedDouble{ 5, output_e };
         current_e_value_ = e;
     }
-- 
2.43.0


From 75e3e51b1554bf6b864d84aefe0ae57229d36dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:35 +0000
Subject: [PATCH 32/51] fix: nozzle stayed raised after a z-hop that primes
 during travel

---
 src/gcode_export/gcodeExport.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/gcode_export/gcodeExport.cpp b/src/gcode_export/gcodeExport.cpp
index 1dbc31a..9da3869 100644
--- a/src/gcode_export/gcodeExport.cpp
+++ b/src/gcode_export/gcodeExport.cpp
@@ -1372,7 +1372,6 @@ void GCodeExport::writeZhopEnd(Velocity speed /*= 0*/, const coord_t height, con
         }
 
         writeZhop(speed, height, prime_distance);
-        current_position_.z_ = current_layer_z_;
     }
 }
 
-- 
2.43.0


From 63e953000ac1c40e314e8050ee539d98a98becba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:35 +0000
Subject: [PATCH 33/51] fix: support polygons at a fraction of the layer height
 started at the full height

---
 src/LayerPlan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LayerPlan.cpp b/src/LayerPlan.cpp
index 592040a..e14d146 100644
--- a/src/LayerPlan.cpp
+++ b/src/LayerPlan.cpp
@@ -1405,7 +1405,7 @@ std::tuple<size_t, Point2LL> LayerPlan::addSplitWall(
 
         if (first_line)
         {
-            addTravel(p0, force_retract);
+            addTravel(p0, force_retract, default_config.z_offset);
             first_line = false;
         }
 
-- 
2.43.0


From d758df00ae6796f49c646ebc5ad0d9ba22e92b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:32 +0000
Subject: [PATCH 34/51] fix: extruder was not switched properly at the start of
 the next mesh group

---
 include/FffGcodeWriter.h         | 3 ++-
 src/FffGcodeWriter.cpp           | 5 +++--
 src/gcode_export/gcodeExport.cpp | 7 +++++--
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/FffGcodeWriter.h b/include/FffGcodeWriter.h
index f40f0a8..43d2a02 100644
--- a/include/FffGcodeWriter.h
+++ b/include/FffGcodeWriter.h
@@ -177,8 +177,9 @@ private:
      * Move up and over the already printed meshgroups to print the next meshgroup.
      *
      * \param[in] storage where the slice data is stored.
+     * \param[in] start_extruder_nr The extruder to start printing the mesh group with.
      */
-    void processNextMeshGroupCode(const SliceDataStorage& storage);
+    void processNextMeshGroupCode(const SliceDataStorage& storage, const size_t start_extruder_nr);
 
     /*!
      * Add raft layer plans onto the FffGcodeWriter::layer_plan_buffer
diff --git a/src/FffGcodeWriter.cpp b/src/FffGcodeWriter.cpp
index 5b9500a..a6ec11d 100644
--- a/src/FffGcodeWriter.cpp
+++ b/src/FffGcodeWriter.cpp
@@ -87,7 +87,7 @@ void FffGcodeWriter::writeGCode(SliceDataStorage& storage, TimeKeeper& time_keep
     }
     else
     {
-        processNextMeshGroupCode(storage);
+        processNextMeshGroupCode(storage, start_extruder_nr);
     }
 
     size_t total_layers = 0;
@@ -548,13 +548,14 @@ void FffGcodeWriter::setSupportAngles(SliceDataStorage& storage)
         = getInterfaceAngles(bottom_extruder, "support_bottom_angles", bottom_extruder.settings_.get<EFillMethod>("support_bottom_pattern"), "support_bottom_height");
 }
 
-void FffGcodeWriter::processNextMeshGroupCode(const SliceDataStorage& storage)
+void FffGcodeWriter::processNextMeshGroupCode(const SliceDataStorage& storage, const size_t start_extruder_nr)
 {
     gcode.writeFanCommand(0);
     gcode.setZ(max_object_height + MM2INT(5));
 
     Application::getInstance().communication_->sendCurrentPosition(gcode.getPositionXY());
     gcode.writeTravel(gcode.getPositionXY(), Application::getInstance().current_slice_->scene.extruders[gcode.getExtruderNr()].settings_.get<Velocity>("speed_z_hop"));
+    gcode.switchExtruder(start_extruder_nr, storage.retraction_wipe_config_per_extruder[gcode.getExtruderNr()].extruder_switch_retraction_config);
     Point2LL start_pos(storage.model_min.x_, storage.model_min.y_);
     gcode.writeTravel(start_pos, Application::getInstance().current_slice_->scene.extruders[gcode.getExtruderNr()].settings_.get<Velocity>("speed_travel"));
 
diff --git a/src/gcode_export/gcodeExport.cpp b/src/gcode_export/gcodeExport.cpp
index 9da3869..2cadb1d 100644
--- a/src/gcode_export/gcodeExport.cpp
+++ b/src/gcode_export/gcodeExport.cpp
@@ -89,10 +89,13 @@ GCodeExport::~GCodeExport()
 
 void GCodeExport::preSetup(const size_t start_extruder)
 {
-    current_extruder_ = start_extruder;
-
     const Scene& scene = Application::getInstance().current_slice_->scene;
     std::vector<MeshGroup>::iterator mesh_group = scene.current_mesh_group;
+    if (mesh_group == scene.mesh_groups.begin())
+    {
+        // For the next mesh groups, a proper extruder switch has to be made
+        current_extruder_ = start_extruder;
+    }
     setFlavor(mesh_group->settings.get<EGCodeFlavor>("machine_gcode_flavor"));
     use_extruder_offset_to_offset_coords_ = mesh_group->settings.get<bool>("machine_use_extruder_offset_to_offset_coords");
     const size_t extruder_count = Application::getInstance().current_slice_->scene.extruders.size();
-- 
2.43.0


From 932a91d212ba1fc00092c3ca395dfca2c69176b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:50 +0000
Subject: [PATCH 35/51] fix: UltiGCode prints that start with another extruder
 than the first didn't select it

---
 src/gcode_export/gcodeExport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gcode_export/gcodeExport.cpp b/src/gcode_export/gcodeExport.cpp
index 2cadb1d..bf1d020 100644
--- a/src/gcode_export/gcodeExport.cpp
+++ b/src/gcode_export/gcodeExport.cpp
@@ -711,7 +711,7 @@ bool GCodeExport::initializeExtruderTrains(const SliceDataStorage& storage, cons
         writeResolvableGCode(machine_start_gcode, DynamicExtruderContext::Initial);
     }
 
-    if (getFlavor() == EGCodeFlavor::GRIFFIN || getFlavor() == EGCodeFlavor::CHEETAH)
+    if (getFlavor() == EGCodeFlavor::GRIFFIN || getFlavor() == EGCodeFlavor::CHEETAH || (getFlavor() == EGCodeFlavor::ULTIGCODE && start_extruder_nr != 0))
     {
         std::ostringstream tmp;
         tmp << "T" << start_extruder_nr;
-- 
2.43.0


From d2ab2fc757c5e9ec6dc78566777fb186f16ceeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:10 +0000
Subject: [PATCH 36/51] fix: priming during travel confused mm3 with mm in
 volumetric g-code

---
 include/gcode_export/gcodeExport.h | 22 +++++++++++-----------
 src/LayerPlan.cpp                  |  2 +-
 src/gcode_export/gcodeExport.cpp   |  4 ++--
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/gcode_export/gcodeExport.h b/include/gcode_export/gcodeExport.h
index f81d27b..b84ee50 100644
--- a/include/gcode_export/gcodeExport.h
+++ b/include/gcode_export/gcodeExport.h
@@ -201,17 +201,6 @@ private:
     std::shared_ptr<GcodeTemplateResolver> template_resolver_; //!< Object used to resolved the formulae of the dynamic GCode pieces
 
 protected:
-    /*!
-     * Convert an E value to a value in mm (if it wasn't already in mm) for the current extruder.
-     *
-     * E values are either in mm or in mm^3
-     * The current extruder is used to determine the filament area to make the conversion.
-     *
-     * \param e the value to convert
-     * \return the value converted to mm
-     */
-    double eToMm(double e);
-
     /*!
      * Convert a distance value to an E value (which might be linear/distance based as well) for the current extruder.
      *
@@ -440,6 +429,17 @@ public:
      */
     double mm3ToE(double mm3) const;
 
+    /*!
+     * Convert an E value to a value in mm (if it wasn't already in mm) for the current extruder.
+     *
+     * E values are either in mm or in mm^3
+     * The current extruder is used to determine the filament area to make the conversion.
+     *
+     * \param e the value to convert
+     * \return the value converted to mm
+     */
+    double eToMm(double e) const;
+
 private:
     /*!
      * Get the gcode file header (e.g. ";FLAVOR:UltiGCode\n")
diff --git a/src/LayerPlan.cpp b/src/LayerPlan.cpp
index e14d146..9ed83cc 100644
--- a/src/LayerPlan.cpp
+++ b/src/LayerPlan.cpp
@@ -2589,7 +2589,7 @@ void LayerPlan::computeAntiOozeAmounts(
     const AntiOozeSettings retract_settings{ retraction_config->retraction_config.distance,
                                              retraction_config->retraction_config.speed,
                                              retraction_config->retraction_config.retract_during_travel };
-    const AntiOozeSettings prime_settings{ retraction_config->retraction_config.distance + gcode.mm3ToE(retraction_config->retraction_config.prime_volume),
+    const AntiOozeSettings prime_settings{ retraction_config->retraction_config.distance + gcode.eToMm(gcode.mm3ToE(retraction_config->retraction_config.prime_volume)),
                                            retraction_config->retraction_config.primeSpeed,
                                            retraction_config->retraction_config.prime_during_travel };
 
diff --git a/src/gcode_export/gcodeExport.cpp b/src/gcode_export/gcodeExport.cpp
index bf1d020..fa4907a 100644
--- a/src/gcode_export/gcodeExport.cpp
+++ b/src/gcode_export/gcodeExport.cpp
@@ -471,7 +471,7 @@ double GCodeExport::getCurrentExtrudedVolume() const
     }
 }
 
-double GCodeExport::eToMm(double e)
+double GCodeExport::eToMm(double e) const
 {
     if (is_volumetric_)
     {
@@ -1369,7 +1369,7 @@ void GCodeExport::writeZhopEnd(Velocity speed /*= 0*/, const coord_t height, con
         if (prime_distance.has_value() && prime_ratio > 0.0 && prime_ratio < 1.0)
         {
             // We have to split the z-hop move in two sub-moves, one without prime and one with
-            writeZhopEnd(speed, is_z_hopped_ * prime_ratio, extruder_attr_[current_extruder_].retraction_e_amount_current_, 0.0);
+            writeZhopEnd(speed, is_z_hopped_ * prime_ratio, eToMm(extruder_attr_[current_extruder_].retraction_e_amount_current_), 0.0);
             writeZhopEnd(speed, 0, prime_distance, 0.0);
             return;
         }
-- 
2.43.0


From 0b07529c12718e6b17fef06b56d7d3f03c63652c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:58 +0000
Subject: [PATCH 37/51] fix: firmware retractions could be followed by a
 retraction or priming of the filament itself

---
 src/LayerPlan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LayerPlan.cpp b/src/LayerPlan.cpp
index 9ed83cc..f93ef0a 100644
--- a/src/LayerPlan.cpp
+++ b/src/LayerPlan.cpp
@@ -3623,7 +3623,7 @@ void LayerPlan::writeGCode(GCodeExport& gcode)
             {
                 retraction_config = get_retraction_config(path.mesh).value_or(retraction_config);
 
-                if (! path.retract_for_nozzle_switch)
+                if (! path.retract_for_nozzle_switch && ! gcode.machineHandlesRetraction())
                 {
                     // Compute how much of the retract/prime we will have to process during stationary/Zhop/travel
                     computeAntiOozeAmounts(gcode, extruder, path, z_hop_height, retraction_config, retraction_amounts, priming_amounts);
-- 
2.43.0


From dce35dc34402017132926cfcc39ec045492301e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:58 +0000
Subject: [PATCH 38/51] fix: priming left over from a travel without z-hop was
 applied to a later z-hop

---
 src/LayerPlan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LayerPlan.cpp b/src/LayerPlan.cpp
index f93ef0a..b95ad40 100644
--- a/src/LayerPlan.cpp
+++ b/src/LayerPlan.cpp
@@ -3748,7 +3748,7 @@ void LayerPlan::writeGCode(GCodeExport& gcode)
                     write_travel_segment(path.points.size() - 1);
                 }
 
-                if (priming_amounts.has_value() && priming_amounts->z_hop.amount > 0.0)
+                if (priming_amounts.has_value() && path.perform_z_hop && priming_amounts->z_hop.amount > 0.0)
                 {
                     // The given amount is the one we want at the end of the zhop, thus it is actually the one at the start of the still prime
                     gcode.setZHopPrimeLeftover(ZHopAntiOozing{ priming_amounts->amount_while_still, priming_amounts->z_hop.ratio });
-- 
2.43.0


From bfc48af383cb40d10d4e75bc80dedd75abff7807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:58 +0000
Subject: [PATCH 39/51] fix: filament was retracted again after the priming
 before the last move of a travel

---
 src/LayerPlan.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LayerPlan.cpp b/src/LayerPlan.cpp
index b95ad40..7a23d4f 100644
--- a/src/LayerPlan.cpp
+++ b/src/LayerPlan.cpp
@@ -3742,6 +3742,7 @@ void LayerPlan::writeGCode(GCodeExport& gcode)
                 {
                     // We need to unretract before the last travel move of the path if the next path is an outer wall.
                     gcode.writeUnretractionAndPrime();
+                    travel_retraction_state = TravelRetractionState::None; // The last travel move is made with the filament primed
                 }
                 if (! path.points.empty())
                 {
-- 
2.43.0


From 7509a7546c17afd390fbce111a8f813438b558d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:16 +0000
Subject: [PATCH 40/51] fix: travels crossing a boundary that combing couldn't
 avoid weren't retracted

---
 src/pathPlanning/LinePolygonsCrossings.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pathPlanning/LinePolygonsCrossings.cpp b/src/pathPlanning/LinePolygonsCrossings.cpp
index cc84c16..8c41c0a 100644
--- a/src/pathPlanning/LinePolygonsCrossings.cpp
+++ b/src/pathPlanning/LinePolygonsCrossings.cpp
@@ -219,7 +219,7 @@ bool LinePolygonsCrossings::optimizePath(CombPath& comb_path, CombPath& optimize
         {
             if (PolygonUtils::polygonCollidesWithLineSegment(current_point, comb_path[point_idx - 1], loc_to_line_grid_))
             {
-                comb_path.cross_boundary = true;
+                optimized_comb_path.cross_boundary = true;
             }
             // before we add this point, can we discard some of the previous points and still avoid clashing with the combing boundary?
             const int max_short_circuit_len = 1 << 3; // test distances of 8, 4, 2, 1
@@ -321,6 +321,10 @@ bool LinePolygonsCrossings::optimizePath(CombPath& comb_path, CombPath& optimize
         }
     }
 
+    if (PolygonUtils::polygonCollidesWithLineSegment(optimized_comb_path.back(), comb_path.back(), loc_to_line_grid_))
+    {
+        optimized_comb_path.cross_boundary = true;
+    }
     optimized_comb_path.push_back(comb_path.back());
     return true;
 }
-- 
2.43.0


From 2e745ce78a044f3870ac4029d24db897902772b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:04 +0000
Subject: [PATCH 41/51] fix: switching off the nozzles was left out of the
 g-code

---
 src/FffGcodeWriter.cpp           | 10 ----------
 src/gcode_export/gcodeExport.cpp | 10 ++++++++++
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/FffGcodeWriter.cpp b/src/FffGcodeWriter.cpp
index a6ec11d..1a1f4ce 100644
--- a/src/FffGcodeWriter.cpp
+++ b/src/FffGcodeWriter.cpp
@@ -4302,16 +4302,6 @@ void FffGcodeWriter::finalize()
     }
     gcode.finalize(machine_end_gcode, print_info_);
 
-    // set extrusion mode back to "normal"
-    gcode.resetExtrusionMode();
-
-    for (size_t e = 0; e < Application::getInstance().current_slice_->scene.extruders.size(); e++)
-    {
-        gcode.writeTemperatureCommand(e, 0, false);
-    }
-
-    gcode.writeComment("End of Gcode");
-    gcode.flushOutputStream();
     /*
     the profile string below can be executed since the M25 doesn't end the gcode on an UMO and when printing via USB.
     gcode.writeCode("M25 ;Stop reading from this point on.");
diff --git a/src/gcode_export/gcodeExport.cpp b/src/gcode_export/gcodeExport.cpp
index fa4907a..bac5db5 100644
--- a/src/gcode_export/gcodeExport.cpp
+++ b/src/gcode_export/gcodeExport.cpp
@@ -1957,6 +1957,16 @@ void GCodeExport::finalize(const std::string& end_code, PrintInformation& print_
     writeFanCommand(0);
     writeResolvableGCode(end_code, DynamicExtruderContext::Initial);
 
+    // set extrusion mode back to "normal"
+    resetExtrusionMode();
+
+    for (size_t e = 0; e < Application::getInstance().current_slice_->scene.extruders.size(); e++)
+    {
+        writeTemperatureCommand(e, 0, false);
+    }
+
+    writeComment("End of Gcode");
+
     std::unordered_map<std::string, CuraFormulaeEngine::eval::Value> extra_global_settings;
 
     std::chrono::seconds print_time(static_cast<int64_t>(getSumTotalPrintTimes()));
-- 
2.43.0


From e52ed1d18cccccf88ab26a433dd51b7beee17a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:06 +0000
Subject: [PATCH 42/51] fix: extruders stayed hot or cold when the next mesh
 group starts with another one

---
 src/FffGcodeWriter.cpp           | 10 +++++++++-
 src/gcode_export/gcodeExport.cpp |  9 +++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/FffGcodeWriter.cpp b/src/FffGcodeWriter.cpp
index 1a1f4ce..625c35f 100644
--- a/src/FffGcodeWriter.cpp
+++ b/src/FffGcodeWriter.cpp
@@ -555,10 +555,18 @@ void FffGcodeWriter::processNextMeshGroupCode(const SliceDataStorage& storage, c
 
     Application::getInstance().communication_->sendCurrentPosition(gcode.getPositionXY());
     gcode.writeTravel(gcode.getPositionXY(), Application::getInstance().current_slice_->scene.extruders[gcode.getExtruderNr()].settings_.get<Velocity>("speed_z_hop"));
-    gcode.switchExtruder(start_extruder_nr, storage.retraction_wipe_config_per_extruder[gcode.getExtruderNr()].extruder_switch_retraction_config);
+    const size_t prev_extruder_nr = gcode.getExtruderNr();
+    gcode.switchExtruder(start_extruder_nr, storage.retraction_wipe_config_per_extruder[prev_extruder_nr].extruder_switch_retraction_config);
     Point2LL start_pos(storage.model_min.x_, storage.model_min.y_);
     gcode.writeTravel(start_pos, Application::getInstance().current_slice_->scene.extruders[gcode.getExtruderNr()].settings_.get<Velocity>("speed_travel"));
 
+    if (start_extruder_nr != prev_extruder_nr)
+    {
+        constexpr bool wait = false;
+        const Settings& prev_extruder_settings = Application::getInstance().current_slice_->scene.extruders[prev_extruder_nr].settings_;
+        gcode.writeTemperatureCommand(prev_extruder_nr, prev_extruder_settings.get<Temperature>("material_standby_temperature"), wait);
+    }
+
     gcode.processInitialLayerTemperature(storage, gcode.getExtruderNr());
 }
 
diff --git a/src/gcode_export/gcodeExport.cpp b/src/gcode_export/gcodeExport.cpp
index bac5db5..b1a74b5 100644
--- a/src/gcode_export/gcodeExport.cpp
+++ b/src/gcode_export/gcodeExport.cpp
@@ -872,14 +872,19 @@ GCodeExport::RetractionAmounts GCodeExport::computeRetractionAmounts(const Extru
 void GCodeExport::processInitialLayerTemperature(const SliceDataStorage& storage, const size_t start_extruder_nr)
 {
     Scene& scene = Application::getInstance().current_slice_->scene;
-    bool wait_start_extruder = false;
+    const bool is_first_mesh_group = scene.current_mesh_group == scene.mesh_groups.begin();
+    bool wait_start_extruder = ! is_first_mesh_group; // No start g-code takes care of it between mesh groups
     std::vector<bool> extruders_used = storage.getExtrudersUsed();
     size_t used_extruders = std::count(extruders_used.begin(), extruders_used.end(), true);
 
     switch (getFlavor())
     {
     case EGCodeFlavor::ULTIGCODE:
-        return;
+        if (is_first_mesh_group)
+        {
+            return;
+        }
+        break;
     case EGCodeFlavor::GRIFFIN:
     case EGCodeFlavor::CHEETAH:
         wait_start_extruder = true;
-- 
2.43.0


From 9360c42180bb3a87dd7253d5b0a933e310b91a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:20 +0000
Subject: [PATCH 43/51] fix: layers without anything to print set nozzles to -1
 degrees

---
 src/LayerPlanBuffer.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/LayerPlanBuffer.cpp b/src/LayerPlanBuffer.cpp
index f807ca9..24c3cd8 100644
--- a/src/LayerPlanBuffer.cpp
+++ b/src/LayerPlanBuffer.cpp
@@ -562,11 +562,6 @@ void LayerPlanBuffer::insertFinalPrintTempCommand(std::vector<ExtruderPlan*>& ex
 
 void LayerPlanBuffer::insertTempCommands()
 {
-    if (buffer_.back()->empty())
-    { // disregard empty layer
-        return;
-    }
-
     std::vector<ExtruderPlan*> extruder_plans; // sorted in print order
     extruder_plans.reserve(buffer_.size() * 2);
     for (LayerPlan* layer_plan : buffer_)
-- 
2.43.0


From 6438afc6208e4ee948d03ab32e7a3cf498b71e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:21 +0000
Subject: [PATCH 44/51] fix: bed stayed at the temperature of the first layer
 when the second layer is left out

---
 src/LayerPlan.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LayerPlan.cpp b/src/LayerPlan.cpp
index 7a23d4f..74b228f 100644
--- a/src/LayerPlan.cpp
+++ b/src/LayerPlan.cpp
@@ -3383,8 +3383,8 @@ void LayerPlan::writeGCode(GCodeExport& gcode)
         mesh_group_settings.get<double>("flow_rate_max_extrusion_offset"),
         mesh_group_settings.get<Ratio>("flow_rate_extrusion_offset_factor")); // Offset is in mm.
 
-    static LayerIndex layer_1{ 1 - static_cast<LayerIndex>(Raft::getTotalExtraLayers()) };
-    if (layer_nr_ == layer_1 && mesh_group_settings.get<bool>("machine_heated_bed"))
+    const LayerIndex layer_1{ 1 - static_cast<LayerIndex>(Raft::getTotalExtraLayers()) };
+    if (layer_nr_ >= layer_1 && mesh_group_settings.get<bool>("machine_heated_bed"))
     {
         constexpr bool wait = false;
         gcode.writeBedTemperatureCommand(mesh_group_settings.get<Temperature>("material_bed_temperature"), wait);
-- 
2.43.0


From 764f6094ac7239c245f3609e4ce7e94d6e819ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:21 +0000
Subject: [PATCH 45/51] fix: layers after an empty layer were printed at the
 initial printing temperature

---
 src/LayerPlanBuffer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LayerPlanBuffer.cpp b/src/LayerPlanBuffer.cpp
index 24c3cd8..da09473 100644
--- a/src/LayerPlanBuffer.cpp
+++ b/src/LayerPlanBuffer.cpp
@@ -357,6 +357,10 @@ void LayerPlanBuffer::insertTempCommands(std::vector<ExtruderPlan*>& extruder_pl
     {
         insertPreheatCommand_singleExtrusion(*prev_extruder_plan, extruder, extruder_plan.required_start_temperature_);
         prev_extruder_plan->extrusion_temperature_command_ = --prev_extruder_plan->inserts_.end();
+        if (extruder_plan.extrusion_temperature_)
+        { // not at the printing temperature yet, because nothing was extruded before this plan
+            insertPrintTempCommand(extruder_plan);
+        }
     }
     else if (Application::getInstance().current_slice_->scene.extruders[extruder].settings_.get<bool>("machine_extruders_share_heater"))
     {
-- 
2.43.0


From aa2d7623b1f16031b062862e52ebb5215edeaa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:33 +0000
Subject: [PATCH 46/51] fix: start extruder that doesn't print anything stayed
 hot

---
 src/LayerPlanBuffer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LayerPlanBuffer.cpp b/src/LayerPlanBuffer.cpp
index da09473..741576f 100644
--- a/src/LayerPlanBuffer.cpp
+++ b/src/LayerPlanBuffer.cpp
@@ -619,6 +619,10 @@ void LayerPlanBuffer::insertTempCommands()
 
         if (buffer_.size() == 1 && extruder_plan_idx == 0)
         { // the very first extruder plan of the current meshgroup
+            if (gcode_.getExtruderNr() != extruder)
+            { // the start extruder doesn't print anything, turn it down when switching away from it
+                extruder_plan.prev_extruder_standby_temp_ = scene.extruders[gcode_.getExtruderNr()].settings_.get<Temperature>("material_standby_temperature");
+            }
             for (size_t extruder_idx = 0; extruder_idx < scene.extruders.size(); extruder_idx++)
             { // set temperature of the first nozzle, turn other nozzles down
                 const Settings& other_extruder_settings = Application::getInstance().current_slice_->scene.extruders[extruder_idx].settings_;
-- 
2.43.0


From e257f502c489c9cd232a287a46b05c1f62b81b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:06 +0000
Subject: [PATCH 47/51] fix: extruders needed again at once were set to their
 standby temperature

---
 src/LayerPlanBuffer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/LayerPlanBuffer.cpp b/src/LayerPlanBuffer.cpp
index 741576f..d75797d 100644
--- a/src/LayerPlanBuffer.cpp
+++ b/src/LayerPlanBuffer.cpp
@@ -314,6 +314,11 @@ void LayerPlanBuffer::insertPreheatCommand_multiExtrusion(std::vector<ExtruderPl
     { // only insert command to cool down to standby temperature if there is some time to cool before heating up again
         handleStandbyTemp(extruder_plans, extruder_plan_idx, heating_time_and_from_temp.lowest_temperature);
     }
+    else
+    { // no time to cool down at all
+        handleStandbyTemp(extruder_plans, extruder_plan_idx, initial_print_temp);
+        return;
+    }
 
     // handle preheat command
     double time_before_extruder_plan_to_insert = heating_time_and_from_temp.heating_time;
-- 
2.43.0


From 857ea83002eee6cbc7c36bbd62ca1b89f82d7d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:40 +0000
Subject: [PATCH 48/51] fix: extruders were switched off although the prime
 tower was still printed with them

---
 src/FffGcodeWriter.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/FffGcodeWriter.cpp b/src/FffGcodeWriter.cpp
index 625c35f..c6974bc 100644
--- a/src/FffGcodeWriter.cpp
+++ b/src/FffGcodeWriter.cpp
@@ -131,6 +131,17 @@ void FffGcodeWriter::writeGCode(SliceDataStorage& storage, TimeKeeper& time_keep
     }
 
     calculateExtruderOrderPerLayer(storage);
+    for (LayerIndex layer_nr = -LayerIndex(Raft::getTotalExtraLayers()); layer_nr < LayerIndex(storage.print_layer_count); layer_nr++)
+    { // The prime tower uses extruders on layers where nothing else is printed with them.
+        for (const ExtruderUse& extruder_use : extruder_order_per_layer.get(layer_nr))
+        {
+            if (extruder_use.extruder_nr < storage.max_print_height_per_extruder.size())
+            {
+                int& max_print_height = storage.max_print_height_per_extruder[extruder_use.extruder_nr];
+                max_print_height = std::max(max_print_height, static_cast<int>(layer_nr));
+            }
+        }
+    }
     calculatePrimeLayerPerExtruder(storage);
 
     if (scene.current_mesh_group->settings.get<bool>("magic_spiralize"))
-- 
2.43.0


From 04bd53b9a1f6a0a9756ec1fbdb6723634089c5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:37 +0000
Subject: [PATCH 49/51] fix: lines were printed with the jerk of the line after
 them

---
 src/LayerPlan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LayerPlan.cpp b/src/LayerPlan.cpp
index 74b228f..2f955bd 100644
--- a/src/LayerPlan.cpp
+++ b/src/LayerPlan.cpp
@@ -3595,7 +3595,7 @@ void LayerPlan::writeGCode(GCodeExport& gcode)
             }
             if (jerk_enabled)
             {
-                if (jerk_travel_enabled)
+                if (jerk_travel_enabled || ! path.config.isTravelPath())
                 {
                     gcode.writeJerk(path.config.getJerk());
                 }
-- 
2.43.0


From 319c58f1925a5501909ceabd89be6e9d2f9b9772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:16 +0000
Subject: [PATCH 50/51] fix: small features were printed faster than their
 speed if that is below the minimum speed

---
 src/LayerPlan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LayerPlan.cpp b/src/LayerPlan.cpp
index 2f955bd..5b7e95f 100644
--- a/src/LayerPlan.cpp
+++ b/src/LayerPlan.cpp
@@ -1815,7 +1815,7 @@ std::tuple<size_t, Point2LL> LayerPlan::addWallWithScarfSeam(
     const bool is_small_feature = (small_feature_max_length > 0) && (layer_nr_ == 0 || is_candidate_small_feature) && wall_length < small_feature_max_length;
     const Velocity min_speed = fan_speed_layer_time_settings_per_extruder_[getLastPlannedExtruderTrain()->extruder_nr_].cool_min_speed;
     Ratio small_feature_speed_factor = settings.get<Ratio>((layer_nr_ == 0) ? "small_feature_speed_factor_0" : "small_feature_speed_factor");
-    small_feature_speed_factor = std::max(static_cast<double>(small_feature_speed_factor), static_cast<double>(min_speed / default_config.getSpeed()));
+    small_feature_speed_factor = std::max(static_cast<double>(small_feature_speed_factor), std::min(1.0, static_cast<double>(min_speed / default_config.getSpeed())));
     const coord_t max_area_deviation = std::max(settings.get<int>("meshfix_maximum_extrusion_area_deviation"), 1); // Square micrometres!
     const auto max_resolution = std::max(settings.get<coord_t>("meshfix_maximum_resolution"), coord_t(1));
     const int direction = is_reversed ? -1 : 1;
-- 
2.43.0


From cd25a02699fafe59791c78f44f058cd1bd721538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:16 +0000
Subject: [PATCH 51/51] fix: layers with different speeds took less than the
 minimum layer time

---
 src/LayerPlan.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/LayerPlan.cpp b/src/LayerPlan.cpp
index 5b7e95f..f4c5e62 100644
--- a/src/LayerPlan.cpp
+++ b/src/LayerPlan.cpp
@@ -3147,8 +3147,23 @@ bool ExtruderPlan::forceMinimalLayerTime(double minTime, double time_other_extr_
         else
         {
             // Slowing down to the slowest_speed is sufficient to respect the minimum layer time.
-            // Linear interpolate between extrudeTime and total_extrude_time_at_slowest_speed
-            const double factor = (1 / total_extrude_time_at_slowest_speed - 1 / minExtrudeTime) / (1 / total_extrude_time_at_slowest_speed - 1 / extrudeTime);
+            // Find how much to interpolate between the slowest speed and the speed of each path to arrive at the minimum time.
+            double factor = 0.0;
+            double factor_too_fast = 1.0;
+            for (int iteration = 0; iteration < 30; ++iteration)
+            {
+                const double middle = (factor + factor_too_fast) / 2.0;
+                double time = 0.0;
+                for (const GCodePath& path : paths_)
+                {
+                    if (! path.isTravelPath())
+                    {
+                        const double length = path.estimates.extrude_time_at_slowest_path_speed * slowest_path_speed_;
+                        time += length / (slowest_path_speed_ * (1.0 - middle) + path.config.getSpeed() * path.speed_factor * middle);
+                    }
+                }
+                (time >= minExtrudeTime ? factor : factor_too_fast) = middle;
+            }
             slow_down_func = [&slowest_path_speed = slowest_path_speed_, factor](const GCodePath& path)
             {
                 const double actual_target_speed = slowest_path_speed * (1.0 - factor) + (path.config.getSpeed() * path.speed_factor) * factor;
-- 
2.43.0

