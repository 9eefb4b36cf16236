From df3fc00ddc9e0b394304f97d8375485354790d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 01/39] fix: return no neighbors when searching an empty KdTree

Searching a tree built from an empty point cloud read an uninitialized root index and accessed nodes out of bounds.
---
 include/small_gicp/ann/kdtree.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/small_gicp/ann/kdtree.hpp b/include/small_gicp/ann/kdtree.hpp
index b0d7b34..4cee0ae 100644
--- a/include/small_gicp/ann/kdtree.hpp
+++ b/include/small_gicp/ann/kdtree.hpp
@@ -171,6 +171,10 @@ public:
   /// @return             Number of found neighbors
   size_t knn_search(const Eigen::Vector4d& query, int k, size_t* k_indices, double* k_sq_dists, const KnnSetting& setting = KnnSetting()) const {
     KnnResult<-1> result(k_indices, k_sq_dists, k);
+    if (nodes.empty()) {
+      return 0;
+    }
+
     knn_search(query, root, result, setting);
     return result.num_found();
   }
@@ -184,6 +188,10 @@ public:
   template <int N>
   size_t knn_search(const Eigen::Vector4d& query, size_t* k_indices, double* k_sq_dists, const KnnSetting& setting = KnnSetting()) const {
     KnnResult<N> result(k_indices, k_sq_dists);
+    if (nodes.empty()) {
+      return 0;
+    }
+
     knn_search(query, root, result, setting);
     return result.num_found();
   }
-- 
2.43.0


From e173e813c79150612bcb13a37ae2cb5154b24717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 02/39] fix: allocate enough KdTree nodes for max_leaf_size
 smaller than 3

With one or two points per leaf, a tree has up to 2N-1 nodes while only N were allocated, resulting in heap buffer overflow.
---
 include/small_gicp/ann/kdtree.hpp     | 2 +-
 include/small_gicp/ann/kdtree_omp.hpp | 2 +-
 include/small_gicp/ann/kdtree_tbb.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/small_gicp/ann/kdtree.hpp b/include/small_gicp/ann/kdtree.hpp
index 4cee0ae..959c6fe 100644
--- a/include/small_gicp/ann/kdtree.hpp
+++ b/include/small_gicp/ann/kdtree.hpp
@@ -82,7 +82,7 @@ public:
     std::iota(kdtree.indices.begin(), kdtree.indices.end(), 0);
 
     size_t node_count = 0;
-    kdtree.nodes.resize(traits::size(points));
+    kdtree.nodes.resize(traits::size(points) * (max_leaf_size < 3 ? 2 : 1));  // Leaves with one or two points can result in up to 2N-1 nodes
     kdtree.root = create_node(kdtree, node_count, points, kdtree.indices.begin(), kdtree.indices.begin(), kdtree.indices.end());
     kdtree.nodes.resize(node_count);
   }
diff --git a/include/small_gicp/ann/kdtree_omp.hpp b/include/small_gicp/ann/kdtree_omp.hpp
index 2968a5e..e02fd2b 100644
--- a/include/small_gicp/ann/kdtree_omp.hpp
+++ b/include/small_gicp/ann/kdtree_omp.hpp
@@ -26,7 +26,7 @@ public:
     std::iota(kdtree.indices.begin(), kdtree.indices.end(), 0);
 
     std::atomic_uint64_t node_count = 0;
-    kdtree.nodes.resize(traits::size(points));
+    kdtree.nodes.resize(traits::size(points) * (max_leaf_size < 3 ? 2 : 1));  // Leaves with one or two points can result in up to 2N-1 nodes
 
 #ifndef _MSC_VER
 #pragma omp parallel num_threads(num_threads)
diff --git a/include/small_gicp/ann/kdtree_tbb.hpp b/include/small_gicp/ann/kdtree_tbb.hpp
index 890fbb8..296764e 100644
--- a/include/small_gicp/ann/kdtree_tbb.hpp
+++ b/include/small_gicp/ann/kdtree_tbb.hpp
@@ -18,7 +18,7 @@ public:
     std::iota(kdtree.indices.begin(), kdtree.indices.end(), 0);
 
     std::atomic_uint64_t node_count = 0;
-    kdtree.nodes.resize(traits::size(points));
+    kdtree.nodes.resize(traits::size(points) * (max_leaf_size < 3 ? 2 : 1));  // Leaves with one or two points can result in up to 2N-1 nodes
     kdtree.root = create_node(kdtree, node_count, points, kdtree.indices.begin(), kdtree.indices.begin(), kdtree.indices.end());
     kdtree.nodes.resize(node_count);
   }
-- 
2.43.0


From a4ecdef78c709ce84d65bb5c73073bc00e6103e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 03/39] fix: never output out-of-range points from voxelgrid
 sampling

When the first sorted entry of the cloud (or of a block) was an invalid
one, it was still emitted as a downsampled point.
---
 include/small_gicp/util/downsampling.hpp     | 4 ++++
 include/small_gicp/util/downsampling_omp.hpp | 4 ++++
 include/small_gicp/util/downsampling_tbb.hpp | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/include/small_gicp/util/downsampling.hpp b/include/small_gicp/util/downsampling.hpp
index 97aab23..023bffc 100644
--- a/include/small_gicp/util/downsampling.hpp
+++ b/include/small_gicp/util/downsampling.hpp
@@ -53,6 +53,10 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling(const InputPointCloud& poin
   const auto compare = [](const auto& lhs, const auto& rhs) { return lhs.first < rhs.first; };
   std::sort(coord_pt.begin(), coord_pt.end(), compare);
 
+  if (coord_pt.front().first == invalid_coord) {
+    return std::make_shared<OutputPointCloud>();  // No valid points
+  }
+
   auto downsampled = std::make_shared<OutputPointCloud>();
   traits::resize(*downsampled, traits::size(points));
 
diff --git a/include/small_gicp/util/downsampling_omp.hpp b/include/small_gicp/util/downsampling_omp.hpp
index b616fe7..cf90f70 100644
--- a/include/small_gicp/util/downsampling_omp.hpp
+++ b/include/small_gicp/util/downsampling_omp.hpp
@@ -64,6 +64,10 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling_omp(const InputPointCloud&
 
 #pragma omp parallel for num_threads(num_threads) schedule(guided, 4)
   for (std::int64_t block_begin = 0; block_begin < traits::size(points); block_begin += block_size) {
+    if (coord_pt[block_begin].first == invalid_coord) {
+      continue;  // No valid points in this block (invalid points are sorted to the end)
+    }
+
     std::vector<Eigen::Vector4d> sub_points;
     sub_points.reserve(block_size);
 
diff --git a/include/small_gicp/util/downsampling_tbb.hpp b/include/small_gicp/util/downsampling_tbb.hpp
index 8d5746e..cb46b1b 100644
--- a/include/small_gicp/util/downsampling_tbb.hpp
+++ b/include/small_gicp/util/downsampling_tbb.hpp
@@ -64,6 +64,10 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling_tbb(const InputPointCloud&
   const int block_size = 2048;
   std::atomic_uint64_t num_points = 0;
   tbb::parallel_for(tbb::blocked_range<size_t>(0, traits::size(points), block_size), [&](const tbb::blocked_range<size_t>& range) {
+    if (coord_pt[range.begin()].first == invalid_coord) {
+      return;  // No valid points in this block (invalid points are sorted to the end)
+    }
+
     std::vector<Eigen::Vector4d> sub_points;
     sub_points.reserve(block_size);
 
-- 
2.43.0


From 87019cbc25697069c89a4e8ed7ab7b3bce36295a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 04/39] fix: exclude the homogeneous coordinate from the voxel
 range check

With resolutions smaller than 1/2^20, w / resolution exceeded the valid
range and all points were dropped.
---
 include/small_gicp/util/downsampling.hpp     | 2 +-
 include/small_gicp/util/downsampling_omp.hpp | 2 +-
 include/small_gicp/util/downsampling_tbb.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/small_gicp/util/downsampling.hpp b/include/small_gicp/util/downsampling.hpp
index 023bffc..2523d4f 100644
--- a/include/small_gicp/util/downsampling.hpp
+++ b/include/small_gicp/util/downsampling.hpp
@@ -35,7 +35,7 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling(const InputPointCloud& poin
   std::vector<std::pair<std::uint64_t, size_t>> coord_pt(traits::size(points));
   for (size_t i = 0; i < traits::size(points); i++) {
     const Eigen::Array4i coord = fast_floor(traits::point(points, i) * inv_leaf_size) + coord_offset;
-    if ((coord < 0).any() || (coord > coord_bit_mask).any()) {
+    if ((coord.head<3>() < 0).any() || (coord.head<3>() > coord_bit_mask).any()) {
       std::cerr << "warning: voxel coord is out of range!!" << std::endl;
       coord_pt[i] = {invalid_coord, i};
       continue;
diff --git a/include/small_gicp/util/downsampling_omp.hpp b/include/small_gicp/util/downsampling_omp.hpp
index cf90f70..41e50f3 100644
--- a/include/small_gicp/util/downsampling_omp.hpp
+++ b/include/small_gicp/util/downsampling_omp.hpp
@@ -39,7 +39,7 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling_omp(const InputPointCloud&
 #pragma omp parallel for num_threads(num_threads) schedule(guided, 32)
   for (std::int64_t i = 0; i < traits::size(points); i++) {
     const Eigen::Array4i coord = fast_floor(traits::point(points, i) * inv_leaf_size) + coord_offset;
-    if ((coord < 0).any() || (coord > coord_bit_mask).any()) {
+    if ((coord.head<3>() < 0).any() || (coord.head<3>() > coord_bit_mask).any()) {
       std::cerr << "warning: voxel coord is out of range!!" << std::endl;
       coord_pt[i] = {invalid_coord, i};
       continue;
diff --git a/include/small_gicp/util/downsampling_tbb.hpp b/include/small_gicp/util/downsampling_tbb.hpp
index cb46b1b..705cc3f 100644
--- a/include/small_gicp/util/downsampling_tbb.hpp
+++ b/include/small_gicp/util/downsampling_tbb.hpp
@@ -39,7 +39,7 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling_tbb(const InputPointCloud&
   tbb::parallel_for(tbb::blocked_range<size_t>(0, traits::size(points), 64), [&](const tbb::blocked_range<size_t>& range) {
     for (size_t i = range.begin(); i != range.end(); i++) {
       const Eigen::Array4i coord = fast_floor(traits::point(points, i) * inv_leaf_size) + coord_offset;
-      if ((coord < 0).any() || (coord > coord_bit_mask).any()) {
+      if ((coord.head<3>() < 0).any() || (coord.head<3>() > coord_bit_mask).any()) {
         std::cerr << "warning: voxel coord is out of range!!" << std::endl;
         coord_pt[i] = {invalid_coord, i};
         continue;
-- 
2.43.0


From 9f88b7b981488c02f346f6875c670efe696eb91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 05/39] fix: avoid integer overflow in fast_floor for far-away
 points

---
 include/small_gicp/util/fast_floor.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/small_gicp/util/fast_floor.hpp b/include/small_gicp/util/fast_floor.hpp
index 937d58f..61bd11a 100644
--- a/include/small_gicp/util/fast_floor.hpp
+++ b/include/small_gicp/util/fast_floor.hpp
@@ -7,11 +7,14 @@
 namespace small_gicp {
 
 /// @brief Fast floor (https://stackoverflow.com/questions/824118/why-is-floor-so-slow).
+/// @note  Values are saturated to [-2^30, 2^30] so that neither this function nor adding an offset to the result overflows.
 /// @param pt  Double vector
 /// @return    Floored int vector
 inline Eigen::Array4i fast_floor(const Eigen::Array4d& pt) {
-  const Eigen::Array4i ncoord = pt.cast<int>();
-  return ncoord - (pt < ncoord.cast<double>()).cast<int>();
+  constexpr double limit = 1 << 30;
+  const Eigen::Array4d clamped = pt.max(-limit).min(limit);
+  const Eigen::Array4i ncoord = clamped.cast<int>();
+  return ncoord - (clamped < ncoord.cast<double>()).cast<int>();
 };
 
 }  // namespace small_gicp
-- 
2.43.0


From 224c13fd6934e46ea8d53831ef97aaaac4b29b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:10 +0000
Subject: [PATCH 06/39] fix: reset the search offsets when switching to the
 27-voxel pattern

The offsets were appended to the existing ones, so that the points of the
already registered voxels were returned twice.
---
 include/small_gicp/ann/incremental_voxelmap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/small_gicp/ann/incremental_voxelmap.hpp b/include/small_gicp/ann/incremental_voxelmap.hpp
index faa74f0..6ca65ef 100644
--- a/include/small_gicp/ann/incremental_voxelmap.hpp
+++ b/include/small_gicp/ann/incremental_voxelmap.hpp
@@ -173,6 +173,7 @@ public:
           Eigen::Vector3i(0, 0, -1)};
         break;
       case 27:
+        search_offsets.clear();
         for (int i = -1; i <= 1; i++) {
           for (int j = -1; j <= 1; j++) {
             for (int k = -1; k <= 1; k++) {
-- 
2.43.0


From d55c7d0cd668a0def6114c2f3f697625315d8757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:10 +0000
Subject: [PATCH 07/39] fix: avoid overflow in the LRU comparison for very
 large lru_horizon

---
 include/small_gicp/ann/incremental_voxelmap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/small_gicp/ann/incremental_voxelmap.hpp b/include/small_gicp/ann/incremental_voxelmap.hpp
index 6ca65ef..3777340 100644
--- a/include/small_gicp/ann/incremental_voxelmap.hpp
+++ b/include/small_gicp/ann/incremental_voxelmap.hpp
@@ -73,7 +73,7 @@ public:
     if ((++lru_counter) % lru_clear_cycle == 0) {
       // Remove least recently used voxels
       auto remove_counter = std::remove_if(flat_voxels.begin(), flat_voxels.end(), [&](const std::shared_ptr<std::pair<VoxelInfo, VoxelContents>>& voxel) {
-        return voxel->first.lru + lru_horizon < lru_counter;
+        return lru_counter - voxel->first.lru > lru_horizon;
       });
       flat_voxels.erase(remove_counter, flat_voxels.end());
 
-- 
2.43.0


From 01092f73e053f7a46d716a5c3f5b2249f5391690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 08/39] fix: add the general factor's error to the trial error
 in LM

The cost of the general factor at the trial pose was added to the error of
the current pose, so that steps increasing the total cost were accepted.
---
 include/small_gicp/registration/optimizer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/small_gicp/registration/optimizer.hpp b/include/small_gicp/registration/optimizer.hpp
index cfbf52f..430c5fa 100644
--- a/include/small_gicp/registration/optimizer.hpp
+++ b/include/small_gicp/registration/optimizer.hpp
@@ -111,7 +111,7 @@ struct LevenbergMarquardtOptimizer {
         // Validte new solution
         const Eigen::Isometry3d new_T = result.T_target_source * se3_exp(delta);
         double new_e = reduction.error(target, source, new_T, factors);
-        general_factor.update_error(target, source, new_T, &e);
+        general_factor.update_error(target, source, new_T, &new_e);
 
         if (verbose) {
           std::cout << "iter=" << i << " inner=" << j << " e=" << e << " new_e=" << new_e << " lambda=" << lambda << " dt=" << delta.tail<3>().norm()
-- 
2.43.0


From 4e5128cf550956765c743544f1e92cccf0dfbbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:01 +0000
Subject: [PATCH 09/39] fix: honour max_correspondence_distance in the VGICP
 helper

---
 src/small_gicp/registration/registration_helper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/small_gicp/registration/registration_helper.cpp b/src/small_gicp/registration/registration_helper.cpp
index 73b01bd..2168d9c 100644
--- a/src/small_gicp/registration/registration_helper.cpp
+++ b/src/small_gicp/registration/registration_helper.cpp
@@ -129,6 +129,7 @@ RegistrationResult align(const GaussianVoxelMap& target, const PointCloud& sourc
 
   Registration<GICPFactor, ParallelReductionOMP> registration;
   registration.reduction.num_threads = setting.num_threads;
+  registration.rejector.max_dist_sq = setting.max_correspondence_distance * setting.max_correspondence_distance;
   registration.criteria.rotation_eps = setting.rotation_eps;
   registration.criteria.translation_eps = setting.translation_eps;
   registration.optimizer.max_iterations = setting.max_iterations;
-- 
2.43.0


From 4d7ba946b0d292d711c01946b2a31a10e8284579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:01 +0000
Subject: [PATCH 10/39] fix: pass num_threads to the downsampling in
 preprocess_points

---
 src/small_gicp/registration/registration_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/small_gicp/registration/registration_helper.cpp b/src/small_gicp/registration/registration_helper.cpp
index 2168d9c..d1209ba 100644
--- a/src/small_gicp/registration/registration_helper.cpp
+++ b/src/small_gicp/registration/registration_helper.cpp
@@ -26,7 +26,7 @@ std::pair<PointCloud::Ptr, std::shared_ptr<KdTree<PointCloud>>> preprocess_point
     estimate_normals_covariances(*downsampled, *kdtree, num_neighbors);
     return {downsampled, kdtree};
   } else {
-    auto downsampled = voxelgrid_sampling_omp(points, downsampling_resolution);
+    auto downsampled = voxelgrid_sampling_omp(points, downsampling_resolution, num_threads);
     auto kdtree = std::make_shared<KdTree<PointCloud>>(downsampled);
     estimate_normals_covariances_omp(*downsampled, *kdtree, num_neighbors, num_threads);
     return {downsampled, kdtree};
-- 
2.43.0


From 5dcd9ab0b00cbfbd66a8b315c70489d9d1fc7b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:44 +0000
Subject: [PATCH 11/39] fix: visit each cell once when the projective search
 window is wider than the map

---
 include/small_gicp/ann/projective_search.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/small_gicp/ann/projective_search.hpp b/include/small_gicp/ann/projective_search.hpp
index 3a542ef..8b14361 100644
--- a/include/small_gicp/ann/projective_search.hpp
+++ b/include/small_gicp/ann/projective_search.hpp
@@ -115,12 +115,20 @@ private:
       if (v_clamped < 0 || v_clamped >= index_map.rows()) {
         continue;
       }
+      // The row has already been visited (the wrapped-around window is higher than the map)
+      if (dv - static_cast<int>(index_map.rows()) >= -search_window_v && border_v(v + dv - static_cast<int>(index_map.rows()), index_map.rows()) == v_clamped) {
+        continue;
+      }
 
       for (int du = -search_window_h; du <= search_window_h; du++) {
         const int u_clamped = border_h(u + du, index_map.cols());
         if (u_clamped < 0 || u_clamped >= index_map.cols()) {
           continue;
         }
+        // The column has already been visited (the wrapped-around window is wider than the map)
+        if (du - static_cast<int>(index_map.cols()) >= -search_window_h && border_h(u + du - static_cast<int>(index_map.cols()), index_map.cols()) == u_clamped) {
+          continue;
+        }
 
         const auto index = index_map(v_clamped, u_clamped);
         if (index == invalid_index) {
-- 
2.43.0


From ba182192d9b82c3ebae822b3282392069165cb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:09 +0000
Subject: [PATCH 12/39] fix: reject PLY files with fewer than three properties

---
 include/small_gicp/benchmark/read_points.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/small_gicp/benchmark/read_points.hpp b/include/small_gicp/benchmark/read_points.hpp
index 0a7296d..2b86325 100644
--- a/include/small_gicp/benchmark/read_points.hpp
+++ b/include/small_gicp/benchmark/read_points.hpp
@@ -88,8 +88,13 @@ static std::vector<Eigen::Vector4f> read_ply(const std::string& filename) {
     }
   }
 
+  if (properties.size() < 3) {
+    std::cerr << "error: at least three properties (x, y, z) are required!!" << std::endl;
+    return {};
+  }
+
   if (
-    line.size() < 3 || properties[0].size() != 1 || properties[1].size() != 1 || properties[2].size() != 1 || std::tolower(properties[0][0]) != 'x' ||
+    properties[0].size() != 1 || properties[1].size() != 1 || properties[2].size() != 1 || std::tolower(properties[0][0]) != 'x' ||
     std::tolower(properties[1][0]) != 'y' || std::tolower(properties[2][0]) != 'z') {
     std::cerr << "warning: invalid properties!!" << std::endl;
     for (const auto& prop : properties) {
-- 
2.43.0


From 55a201197b2336d6f1c07b1c7fea8a26505016f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:09 +0000
Subject: [PATCH 13/39] fix: read as many PLY vertices and properties as the
 file holds

---
 include/small_gicp/benchmark/read_points.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/small_gicp/benchmark/read_points.hpp b/include/small_gicp/benchmark/read_points.hpp
index 2b86325..8aef10a 100644
--- a/include/small_gicp/benchmark/read_points.hpp
+++ b/include/small_gicp/benchmark/read_points.hpp
@@ -58,6 +58,7 @@ static std::vector<Eigen::Vector4f> read_ply(const std::string& filename) {
 
   std::vector<std::string> properties;
   std::vector<Eigen::Vector4f> points;
+  long num_vertices = 0;
 
   std::string line;
   while (!ifs.eof() && std::getline(ifs, line) && !line.empty()) {
@@ -74,7 +75,7 @@ static std::vector<Eigen::Vector4f> read_ply(const std::string& filename) {
         return {};
       }
 
-      points.resize(std::stol(num_points));
+      num_vertices = std::stol(num_points);
     } else if (line.find("property") == 0) {
       std::stringstream sst(line);
       std::string token, type, name;
@@ -102,12 +103,10 @@ static std::vector<Eigen::Vector4f> read_ply(const std::string& filename) {
     }
   }
 
-  std::vector<float> buffer(properties.size() * points.size());
-  ifs.read(reinterpret_cast<char*>(buffer.data()), sizeof(Eigen::Vector4f) * points.size());
-
-  for (size_t i = 0; i < points.size(); i++) {
-    const int stride = properties.size();
-    points[i] = Eigen::Vector4f(buffer[i * stride + 0], buffer[i * stride + 1], buffer[i * stride + 2], 1.0);
+  // Read the vertices one by one (the file may hold fewer vertices than the header says)
+  std::vector<float> vertex(properties.size());
+  for (long i = 0; i < num_vertices && ifs.read(reinterpret_cast<char*>(vertex.data()), sizeof(float) * vertex.size()); i++) {
+    points.emplace_back(vertex[0], vertex[1], vertex[2], 1.0f);
   }
 
   return points;
-- 
2.43.0


From b1da4c29efff537684c03fceaebd9d655e3e991c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:06 +0000
Subject: [PATCH 14/39] fix: keep the current cloud and its data when PCL
 rejects an empty cloud

---
 include/small_gicp/pcl/pcl_registration_impl.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/small_gicp/pcl/pcl_registration_impl.hpp b/include/small_gicp/pcl/pcl_registration_impl.hpp
index 315ff67..f4518eb 100644
--- a/include/small_gicp/pcl/pcl_registration_impl.hpp
+++ b/include/small_gicp/pcl/pcl_registration_impl.hpp
@@ -44,6 +44,10 @@ void RegistrationPCL<PointSource, PointTarget>::setInputSource(const PointCloudS
   }
 
   pcl::Registration<PointSource, PointTarget, Scalar>::setInputSource(cloud);
+  if (input_ != cloud) {
+    return;  // The input cloud was rejected
+  }
+
   source_tree_ = std::make_shared<KdTree<pcl::PointCloud<PointSource>>>(input_, KdTreeBuilderOMP(num_threads_));
   source_covs_.clear();
   source_voxelmap_.reset();
@@ -56,6 +60,10 @@ void RegistrationPCL<PointSource, PointTarget>::setInputTarget(const PointCloudT
   }
 
   pcl::Registration<PointSource, PointTarget, Scalar>::setInputTarget(cloud);
+  if (target_ != cloud) {
+    return;  // The input cloud was rejected
+  }
+
   target_tree_ = std::make_shared<KdTree<pcl::PointCloud<PointTarget>>>(target_, KdTreeBuilderOMP(num_threads_));
   target_covs_.clear();
   target_voxelmap_.reset();
-- 
2.43.0


From 5f3e0c175277e5fe01b6ed31ade125697cf93303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:45 +0000
Subject: [PATCH 15/39] fix: rebuild the voxel map after new covariances are
 set

---
 include/small_gicp/pcl/pcl_registration_impl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/small_gicp/pcl/pcl_registration_impl.hpp b/include/small_gicp/pcl/pcl_registration_impl.hpp
index f4518eb..30050b6 100644
--- a/include/small_gicp/pcl/pcl_registration_impl.hpp
+++ b/include/small_gicp/pcl/pcl_registration_impl.hpp
@@ -82,6 +82,7 @@ void RegistrationPCL<PointSource, PointTarget>::setSourceCovariances(const std::
   }
 
   source_covs_ = covs;
+  source_voxelmap_.reset();
 }
 
 template <typename PointSource, typename PointTarget>
@@ -97,6 +98,7 @@ void RegistrationPCL<PointSource, PointTarget>::setTargetCovariances(const std::
   }
 
   target_covs_ = covs;
+  target_voxelmap_.reset();
 }
 
 template <typename PointSource, typename PointTarget>
-- 
2.43.0


From 83f8e315d3b408f7a9ad21915281a68c749d67d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:45 +0000
Subject: [PATCH 16/39] fix: validate the given voxel resolution instead of the
 current one

---
 include/small_gicp/pcl/pcl_registration_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/small_gicp/pcl/pcl_registration_impl.hpp b/include/small_gicp/pcl/pcl_registration_impl.hpp
index 30050b6..e0ec3c8 100644
--- a/include/small_gicp/pcl/pcl_registration_impl.hpp
+++ b/include/small_gicp/pcl/pcl_registration_impl.hpp
@@ -169,7 +169,7 @@ void RegistrationPCL<PointSource, PointTarget>::setNumNeighborsForCovariance(int
 
 template <typename PointSource, typename PointTarget>
 void RegistrationPCL<PointSource, PointTarget>::setVoxelResolution(double r) {
-  if (voxel_resolution_ <= 0) {
+  if (r <= 0) {
     PCL_ERROR("[RegistrationPCL::setVoxelResolution] Invalid voxel resolution: %f\n", r);
     r = 1.0;
   }
-- 
2.43.0


From 4499fe9c7b6aeaa24968d1007ca561f3d5e9ffa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:45 +0000
Subject: [PATCH 17/39] fix: rebuild the voxel maps after the voxel resolution
 is changed

---
 include/small_gicp/pcl/pcl_registration_impl.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/small_gicp/pcl/pcl_registration_impl.hpp b/include/small_gicp/pcl/pcl_registration_impl.hpp
index e0ec3c8..4e92c44 100644
--- a/include/small_gicp/pcl/pcl_registration_impl.hpp
+++ b/include/small_gicp/pcl/pcl_registration_impl.hpp
@@ -174,6 +174,10 @@ void RegistrationPCL<PointSource, PointTarget>::setVoxelResolution(double r) {
     r = 1.0;
   }
 
+  if (voxel_resolution_ != r) {
+    source_voxelmap_.reset();
+    target_voxelmap_.reset();
+  }
   voxel_resolution_ = r;
 }
 
-- 
2.43.0


From 1566aeee377eb85d65b9249f20565a41335e2b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:45 +0000
Subject: [PATCH 18/39] fix: update the target search tree of PCL after
 swapping source and target

---
 include/small_gicp/pcl/pcl_registration.hpp      | 2 ++
 include/small_gicp/pcl/pcl_registration_impl.hpp | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/include/small_gicp/pcl/pcl_registration.hpp b/include/small_gicp/pcl/pcl_registration.hpp
index 57c14ec..ff977eb 100644
--- a/include/small_gicp/pcl/pcl_registration.hpp
+++ b/include/small_gicp/pcl/pcl_registration.hpp
@@ -33,6 +33,8 @@ protected:
   using pcl::Registration<PointSource, PointTarget, Scalar>::input_;
   using pcl::Registration<PointSource, PointTarget, Scalar>::target_;
   using pcl::Registration<PointSource, PointTarget, Scalar>::corr_dist_threshold_;
+  using pcl::Registration<PointSource, PointTarget, Scalar>::source_cloud_updated_;
+  using pcl::Registration<PointSource, PointTarget, Scalar>::target_cloud_updated_;
 
   using pcl::Registration<PointSource, PointTarget, Scalar>::nr_iterations_;
   using pcl::Registration<PointSource, PointTarget, Scalar>::max_iterations_;
diff --git a/include/small_gicp/pcl/pcl_registration_impl.hpp b/include/small_gicp/pcl/pcl_registration_impl.hpp
index 4e92c44..2e560dd 100644
--- a/include/small_gicp/pcl/pcl_registration_impl.hpp
+++ b/include/small_gicp/pcl/pcl_registration_impl.hpp
@@ -125,6 +125,10 @@ void RegistrationPCL<PointSource, PointTarget>::swapSourceAndTarget() {
   source_tree_.swap(target_tree_);
   source_covs_.swap(target_covs_);
   source_voxelmap_.swap(target_voxelmap_);
+
+  // The search trees of pcl::Registration (used for the fitness score) need to be updated
+  source_cloud_updated_ = true;
+  target_cloud_updated_ = true;
 }
 
 template <typename PointSource, typename PointTarget>
-- 
2.43.0


From e9d688c778aee7f8c1324b69865f948a37957ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:44 +0000
Subject: [PATCH 19/39] fix: do not pair the first frame with the last frame of
 an earlier run in the flow odometry

---
 src/benchmark/odometry_benchmark_small_gicp_tbb_flow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/benchmark/odometry_benchmark_small_gicp_tbb_flow.cpp b/src/benchmark/odometry_benchmark_small_gicp_tbb_flow.cpp
index cd76021..8c50dea 100644
--- a/src/benchmark/odometry_benchmark_small_gicp_tbb_flow.cpp
+++ b/src/benchmark/odometry_benchmark_small_gicp_tbb_flow.cpp
@@ -70,8 +70,8 @@ public:
     tbb::flow::sequencer_node<InputFrame::Ptr> postpre_sequencer_node(graph, [](const InputFrame::Ptr& input) { return input->id; });
 
     // Make pairs of consecutive frames
+    InputFrame::Ptr last_frame;
     tbb::flow::function_node<InputFrame::Ptr, InputFramePair> pairing_node(graph, 1, [&](const InputFrame::Ptr& input) {
-      static InputFrame::Ptr last_frame;
       InputFramePair pair = {last_frame, input};
       last_frame = input;
       return pair;
-- 
2.43.0


From 9ff3f0ffaf39594c9b1cccecb8ecee559822a762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:22 +0000
Subject: [PATCH 20/39] fix: voxel coordinates of NaN points are defined (NaN
 was cast to int)

---
 include/small_gicp/util/fast_floor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/small_gicp/util/fast_floor.hpp b/include/small_gicp/util/fast_floor.hpp
index 61bd11a..7e71359 100644
--- a/include/small_gicp/util/fast_floor.hpp
+++ b/include/small_gicp/util/fast_floor.hpp
@@ -12,7 +12,7 @@ namespace small_gicp {
 /// @return    Floored int vector
 inline Eigen::Array4i fast_floor(const Eigen::Array4d& pt) {
   constexpr double limit = 1 << 30;
-  const Eigen::Array4d clamped = pt.max(-limit).min(limit);
+  const Eigen::Array4d clamped = (pt > -limit).select(pt.min(limit), -limit);  // NaN is clamped too
   const Eigen::Array4i ncoord = clamped.cast<int>();
   return ncoord - (clamped < ncoord.cast<double>()).cast<int>();
 };
-- 
2.43.0


From d3ec2f2ccb5fe88048d95dd5c97edc0a8641607f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:36 +0000
Subject: [PATCH 21/39] fix: a non-finite query of ProjectiveSearch finds
 nothing (NaN was cast to int)

---
 include/small_gicp/ann/projective_search.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/small_gicp/ann/projective_search.hpp b/include/small_gicp/ann/projective_search.hpp
index 8b14361..186fd48 100644
--- a/include/small_gicp/ann/projective_search.hpp
+++ b/include/small_gicp/ann/projective_search.hpp
@@ -53,6 +53,9 @@ public:
     for (size_t i = 0; i < traits::size(points); ++i) {
       const Eigen::Vector4d pt = traits::point(points, i);
       const Eigen::Vector2d uv = project(pt.head<3>());
+      if (!uv.allFinite()) {
+        continue;
+      }
       const int u = uv[0] * index_map.cols();
       const int v = uv[1] * index_map.rows();
 
@@ -107,6 +110,9 @@ private:
 
     Projection project;
     const Eigen::Vector2d uv = project(query.head<3>());
+    if (!uv.allFinite()) {
+      return;  // e.g., a query transformed by a degenerated pose
+    }
     const int u = uv[0] * index_map.cols();
     const int v = uv[1] * index_map.rows();
 
-- 
2.43.0


From 6c6850cb5b918c012ac84b74dd69b535105ab21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:18 +0000
Subject: [PATCH 22/39] Revert "fix: do not pair the first frame with the last
 frame of an earlier run in the flow odometry"

This reverts commit e9d688c778aee7f8c1324b69865f948a37957ec3.
---
 src/benchmark/odometry_benchmark_small_gicp_tbb_flow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/benchmark/odometry_benchmark_small_gicp_tbb_flow.cpp b/src/benchmark/odometry_benchmark_small_gicp_tbb_flow.cpp
index 8c50dea..cd76021 100644
--- a/src/benchmark/odometry_benchmark_small_gicp_tbb_flow.cpp
+++ b/src/benchmark/odometry_benchmark_small_gicp_tbb_flow.cpp
@@ -70,8 +70,8 @@ public:
     tbb::flow::sequencer_node<InputFrame::Ptr> postpre_sequencer_node(graph, [](const InputFrame::Ptr& input) { return input->id; });
 
     // Make pairs of consecutive frames
-    InputFrame::Ptr last_frame;
     tbb::flow::function_node<InputFrame::Ptr, InputFramePair> pairing_node(graph, 1, [&](const InputFrame::Ptr& input) {
+      static InputFrame::Ptr last_frame;
       InputFramePair pair = {last_frame, input};
       last_frame = input;
       return pair;
-- 
2.43.0


From 5207b1eb454b36a22fc1488f6b6ad4ceeeb59561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:18 +0000
Subject: [PATCH 23/39] Revert "fix: read as many PLY vertices and properties
 as the file holds"

This reverts commit 55a201197b2336d6f1c07b1c7fea8a26505016f0.
---
 include/small_gicp/benchmark/read_points.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/small_gicp/benchmark/read_points.hpp b/include/small_gicp/benchmark/read_points.hpp
index 8aef10a..2b86325 100644
--- a/include/small_gicp/benchmark/read_points.hpp
+++ b/include/small_gicp/benchmark/read_points.hpp
@@ -58,7 +58,6 @@ static std::vector<Eigen::Vector4f> read_ply(const std::string& filename) {
 
   std::vector<std::string> properties;
   std::vector<Eigen::Vector4f> points;
-  long num_vertices = 0;
 
   std::string line;
   while (!ifs.eof() && std::getline(ifs, line) && !line.empty()) {
@@ -75,7 +74,7 @@ static std::vector<Eigen::Vector4f> read_ply(const std::string& filename) {
         return {};
       }
 
-      num_vertices = std::stol(num_points);
+      points.resize(std::stol(num_points));
     } else if (line.find("property") == 0) {
       std::stringstream sst(line);
       std::string token, type, name;
@@ -103,10 +102,12 @@ static std::vector<Eigen::Vector4f> read_ply(const std::string& filename) {
     }
   }
 
-  // Read the vertices one by one (the file may hold fewer vertices than the header says)
-  std::vector<float> vertex(properties.size());
-  for (long i = 0; i < num_vertices && ifs.read(reinterpret_cast<char*>(vertex.data()), sizeof(float) * vertex.size()); i++) {
-    points.emplace_back(vertex[0], vertex[1], vertex[2], 1.0f);
+  std::vector<float> buffer(properties.size() * points.size());
+  ifs.read(reinterpret_cast<char*>(buffer.data()), sizeof(Eigen::Vector4f) * points.size());
+
+  for (size_t i = 0; i < points.size(); i++) {
+    const int stride = properties.size();
+    points[i] = Eigen::Vector4f(buffer[i * stride + 0], buffer[i * stride + 1], buffer[i * stride + 2], 1.0);
   }
 
   return points;
-- 
2.43.0


From a9b2abadd585cd87ba3ed3e3961ba7e8612f9c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:18 +0000
Subject: [PATCH 24/39] Revert "fix: reject PLY files with fewer than three
 properties"

This reverts commit ba182192d9b82c3ebae822b3282392069165cb6c.
---
 include/small_gicp/benchmark/read_points.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/small_gicp/benchmark/read_points.hpp b/include/small_gicp/benchmark/read_points.hpp
index 2b86325..0a7296d 100644
--- a/include/small_gicp/benchmark/read_points.hpp
+++ b/include/small_gicp/benchmark/read_points.hpp
@@ -88,13 +88,8 @@ static std::vector<Eigen::Vector4f> read_ply(const std::string& filename) {
     }
   }
 
-  if (properties.size() < 3) {
-    std::cerr << "error: at least three properties (x, y, z) are required!!" << std::endl;
-    return {};
-  }
-
   if (
-    properties[0].size() != 1 || properties[1].size() != 1 || properties[2].size() != 1 || std::tolower(properties[0][0]) != 'x' ||
+    line.size() < 3 || properties[0].size() != 1 || properties[1].size() != 1 || properties[2].size() != 1 || std::tolower(properties[0][0]) != 'x' ||
     std::tolower(properties[1][0]) != 'y' || std::tolower(properties[2][0]) != 'z') {
     std::cerr << "warning: invalid properties!!" << std::endl;
     for (const auto& prop : properties) {
-- 
2.43.0


From d84044500065cb38e75d87468294f78966ad7b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:15 +0000
Subject: [PATCH 25/39] fix: python: accessors of empty point clouds and voxel
 maps read the first element of an empty vector

---
 src/python/pointcloud.cpp | 14 ++++++++++++--
 src/python/voxelmap.cpp   |  9 +++++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/python/pointcloud.cpp b/src/python/pointcloud.cpp
index 39197f8..1777883 100644
--- a/src/python/pointcloud.cpp
+++ b/src/python/pointcloud.cpp
@@ -74,7 +74,12 @@ void define_pointcloud(py::module& m) {
         )pbdoc")
     .def(
       "points",
-      [](const PointCloud& points) -> Eigen::MatrixXd { return Eigen::Map<const Eigen::Matrix<double, -1, -1, Eigen::RowMajor>>(points.points[0].data(), points.size(), 4); },
+      [](const PointCloud& points) -> Eigen::MatrixXd {
+        if (points.empty()) {
+          return Eigen::MatrixXd(0, 4);
+        }
+        return Eigen::Map<const Eigen::Matrix<double, -1, -1, Eigen::RowMajor>>(points.points[0].data(), points.size(), 4);
+      },
       R"pbdoc(
         Get the points as a Nx4 matrix.
 
@@ -85,7 +90,12 @@ void define_pointcloud(py::module& m) {
         )pbdoc")
     .def(
       "normals",
-      [](const PointCloud& points) -> Eigen::MatrixXd { return Eigen::Map<const Eigen::Matrix<double, -1, -1, Eigen::RowMajor>>(points.normals[0].data(), points.size(), 4); },
+      [](const PointCloud& points) -> Eigen::MatrixXd {
+        if (points.empty()) {
+          return Eigen::MatrixXd(0, 4);
+        }
+        return Eigen::Map<const Eigen::Matrix<double, -1, -1, Eigen::RowMajor>>(points.normals[0].data(), points.size(), 4);
+      },
       R"pbdoc(
         Get the normals as a Nx4 matrix.
 
diff --git a/src/python/voxelmap.cpp b/src/python/voxelmap.cpp
index 380b0f9..a6f0f8d 100644
--- a/src/python/voxelmap.cpp
+++ b/src/python/voxelmap.cpp
@@ -97,6 +97,9 @@ auto define_class(py::module& m, const std::string& name) {
       "voxel_points",
       [](const VoxelMap& voxelmap) -> Eigen::MatrixXd {
         auto points = traits::voxel_points(voxelmap);
+        if (points.empty()) {
+          return Eigen::MatrixXd(0, 4);
+        }
         return Eigen::Map<const Eigen::Matrix<double, -1, -1, Eigen::RowMajor>>(points[0].data(), points.size(), 4);
       },
       R"pbdoc(
@@ -113,6 +116,9 @@ auto define_class(py::module& m, const std::string& name) {
       "voxel_normals",
       [](const VoxelMap& voxelmap) -> Eigen::MatrixXd {
         auto normals = traits::voxel_normals(voxelmap);
+        if (normals.empty()) {
+          return Eigen::MatrixXd(0, 4);
+        }
         return Eigen::Map<const Eigen::Matrix<double, -1, -1, Eigen::RowMajor>>(normals[0].data(), normals.size(), 4);
       },
       R"pbdoc(
@@ -130,6 +136,9 @@ auto define_class(py::module& m, const std::string& name) {
       "voxel_covs",
       [](const VoxelMap& voxelmap) -> Eigen::MatrixXd {
         auto covs = traits::voxel_covs(voxelmap);
+        if (covs.empty()) {
+          return Eigen::MatrixXd(0, 16);
+        }
         return Eigen::Map<const Eigen::Matrix<double, -1, -1, Eigen::RowMajor>>(covs[0].data(), covs.size(), 16);
       },
       R"pbdoc(
-- 
2.43.0


From 3d3ac206a360eddfefccd577628a3d7bf2a13582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:15 +0000
Subject: [PATCH 26/39] fix: python: PointCloud.point/normal/cov read out of
 bounds for an index beyond the cloud

---
 src/python/pointcloud.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/python/pointcloud.cpp b/src/python/pointcloud.cpp
index 1777883..085e76d 100644
--- a/src/python/pointcloud.cpp
+++ b/src/python/pointcloud.cpp
@@ -117,7 +117,12 @@ void define_pointcloud(py::module& m) {
         )pbdoc")
     .def(
       "point",
-      [](const PointCloud& points, size_t i) -> Eigen::Vector4d { return points.point(i); },
+      [](const PointCloud& points, size_t i) -> Eigen::Vector4d {
+        if (i >= points.size()) {
+          throw py::index_error("point index out of range");
+        }
+        return points.point(i);
+      },
       py::arg("i"),
       R"pbdoc(
         Get the i-th point.
@@ -134,7 +139,12 @@ void define_pointcloud(py::module& m) {
         )pbdoc")
     .def(
       "normal",
-      [](const PointCloud& points, size_t i) -> Eigen::Vector4d { return points.normal(i); },
+      [](const PointCloud& points, size_t i) -> Eigen::Vector4d {
+        if (i >= points.size()) {
+          throw py::index_error("point index out of range");
+        }
+        return points.normal(i);
+      },
       py::arg("i"),
       R"pbdoc(
         Get the i-th normal.
@@ -151,7 +161,12 @@ void define_pointcloud(py::module& m) {
         )pbdoc")
     .def(
       "cov",
-      [](const PointCloud& points, size_t i) -> Eigen::Matrix4d { return points.cov(i); },
+      [](const PointCloud& points, size_t i) -> Eigen::Matrix4d {
+        if (i >= points.size()) {
+          throw py::index_error("point index out of range");
+        }
+        return points.cov(i);
+      },
       py::arg("i"),
       R"pbdoc(
         Get the i-th covariance matrix.
-- 
2.43.0


From 718105f4d8d2783a32cf1cf3a4263d47eff56d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:15 +0000
Subject: [PATCH 27/39] fix: python: the fourth column of Nx4 arrays (e.g.
 intensity) was taken for the homogeneous coordinate

---
 src/python/pointcloud.cpp | 10 ++--------
 src/python/preprocess.cpp |  6 +-----
 2 files changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/python/pointcloud.cpp b/src/python/pointcloud.cpp
index 085e76d..784ba27 100644
--- a/src/python/pointcloud.cpp
+++ b/src/python/pointcloud.cpp
@@ -25,14 +25,8 @@ void define_pointcloud(py::module& m) {
 
         auto pc = std::make_shared<PointCloud>();
         pc->resize(points.rows());
-        if (points.cols() == 3) {
-          for (size_t i = 0; i < points.rows(); i++) {
-            pc->point(i) << points.row(i).transpose(), 1.0;
-          }
-        } else {
-          for (size_t i = 0; i < points.rows(); i++) {
-            pc->point(i) << points.row(i).transpose();
-          }
+        for (size_t i = 0; i < points.rows(); i++) {
+          pc->point(i) << points(i, 0), points(i, 1), points(i, 2), 1.0;
         }
 
         return pc;
diff --git a/src/python/preprocess.cpp b/src/python/preprocess.cpp
index a849c2a..ec1668c 100644
--- a/src/python/preprocess.cpp
+++ b/src/python/preprocess.cpp
@@ -218,11 +218,7 @@ void define_preprocess(py::module& m) {
       auto points = std::make_shared<PointCloud>();
       points->resize(points_numpy.rows());
       for (size_t i = 0; i < points_numpy.rows(); i++) {
-        if (points_numpy.cols() == 3) {
-          points->point(i) << points_numpy.row(i).transpose(), 1.0;
-        } else {
-          points->point(i) << points_numpy.row(i).transpose();
-        }
+        points->point(i) << points_numpy(i, 0), points_numpy(i, 1), points_numpy(i, 2), 1.0;
       }
 
       auto downsampled = voxelgrid_sampling_omp(*points, downsampling_resolution, num_threads);
-- 
2.43.0


From f0f1bdbfd6dbfb025f9426fa185f79339d247b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:15 +0000
Subject: [PATCH 28/39] fix: python: set_lru(clear_cycle=0) made the next
 insertion divide by zero

---
 src/python/voxelmap.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/voxelmap.cpp b/src/python/voxelmap.cpp
index a6f0f8d..4e52e43 100644
--- a/src/python/voxelmap.cpp
+++ b/src/python/voxelmap.cpp
@@ -78,6 +78,9 @@ auto define_class(py::module& m, const std::string& name) {
     .def(
       "set_lru",
       [](VoxelMap& voxelmap, size_t horizon, size_t clear_cycle) {
+        if (clear_cycle == 0) {
+          throw std::invalid_argument("clear_cycle must be positive");
+        }
         voxelmap.lru_horizon = horizon;
         voxelmap.lru_clear_cycle = clear_cycle;
       },
-- 
2.43.0


From c0744a0ffdf7142735b38fd9d741400829df32a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:50 +0000
Subject: [PATCH 29/39] fix: python: non-positive numbers of neighbors or
 threads aborted the process or corrupted memory

---
 src/python/align.cpp      |  8 ++++++++
 src/python/kdtree.cpp     | 12 +++++++++++-
 src/python/preprocess.cpp | 14 ++++++++++++++
 src/python/validation.hpp | 17 +++++++++++++++++
 4 files changed, 50 insertions(+), 1 deletion(-)
 create mode 100644 src/python/validation.hpp

diff --git a/src/python/align.cpp b/src/python/align.cpp
index 86d4884..ce49d26 100644
--- a/src/python/align.cpp
+++ b/src/python/align.cpp
@@ -16,6 +16,8 @@
 #include <small_gicp/registration/registration.hpp>
 #include <small_gicp/registration/registration_helper.hpp>
 
+#include "validation.hpp"
+
 namespace py = pybind11;
 using namespace small_gicp;
 
@@ -45,6 +47,8 @@ void define_align(py::module& m) {
         return RegistrationResult(Eigen::Isometry3d::Identity());
       }
 
+      check_positive(num_threads, "num_threads");
+
       RegistrationSetting setting;
       if (registration_type == "ICP") {
         setting.type = RegistrationSetting::ICP;
@@ -159,6 +163,8 @@ void define_align(py::module& m) {
       double rotation_epsilon,
       double translation_epsilon,
       bool verbose) {
+      check_positive(num_threads, "num_threads");
+
       RegistrationSetting setting;
       if (registration_type == "ICP") {
         setting.type = RegistrationSetting::ICP;
@@ -242,6 +248,8 @@ void define_align(py::module& m) {
       double rotation_epsilon,
       double translation_epsilon,
       bool verbose) {
+      check_positive(num_threads, "num_threads");
+
       Registration<GICPFactor, ParallelReductionOMP> registration;
       registration.rejector.max_dist_sq = max_correspondence_distance * max_correspondence_distance;
       registration.reduction.num_threads = num_threads;
diff --git a/src/python/kdtree.cpp b/src/python/kdtree.cpp
index 5003935..b7e0237 100644
--- a/src/python/kdtree.cpp
+++ b/src/python/kdtree.cpp
@@ -11,6 +11,8 @@
 #include <small_gicp/points/point_cloud.hpp>
 #include <small_gicp/ann/kdtree_omp.hpp>
 
+#include "validation.hpp"
+
 namespace py = pybind11;
 using namespace small_gicp;
 
@@ -22,6 +24,7 @@ void define_kdtree(py::module& m) {
         if (points_numpy.cols() != 3 && points_numpy.cols() != 4) {
           throw std::invalid_argument("points must have shape (n, 3) or (n, 4)");
         }
+        check_positive(num_threads, "num_threads");
 
         auto points = std::make_shared<PointCloud>();
         points->resize(points_numpy.rows());
@@ -48,7 +51,10 @@ void define_kdtree(py::module& m) {
        )""")
 
     .def(
-      py::init([](const PointCloud::ConstPtr& points, int num_threads) { return std::make_shared<KdTree<PointCloud>>(points, KdTreeBuilderOMP(num_threads)); }),
+      py::init([](const PointCloud::ConstPtr& points, int num_threads) {
+        check_positive(num_threads, "num_threads");
+        return std::make_shared<KdTree<PointCloud>>(points, KdTreeBuilderOMP(num_threads));
+      }),
       py::arg("points"),
       py::arg("num_threads") = 1,
       R"""(
@@ -94,6 +100,7 @@ void define_kdtree(py::module& m) {
     .def(
       "knn_search",
       [](const KdTree<PointCloud>& kdtree, const Eigen::Vector3d& pt, int k) {
+        check_positive(k, "k");
         std::vector<size_t> k_indices(k, -1);
         std::vector<double> k_sq_dists(k, std::numeric_limits<double>::max());
         const size_t found = traits::knn_search(kdtree, Eigen::Vector4d(pt.x(), pt.y(), pt.z(), 1.0), k, k_indices.data(), k_sq_dists.data());
@@ -126,6 +133,7 @@ void define_kdtree(py::module& m) {
           throw std::invalid_argument("pts must have shape (n, 3) or (n, 4)");
         }
 
+        check_positive(num_threads, "num_threads");
         std::vector<size_t> k_indices(pts.rows(), -1);
         std::vector<double> k_sq_dists(pts.rows(), std::numeric_limits<double>::max());
 
@@ -166,6 +174,8 @@ void define_kdtree(py::module& m) {
         if (pts.cols() != 3 && pts.cols() != 4) {
           throw std::invalid_argument("pts must have shape (n, 3) or (n, 4)");
         }
+        check_positive(k, "k");
+        check_positive(num_threads, "num_threads");
 
         Eigen::Matrix<size_t, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> k_indices(pts.rows(), k);
         Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> k_sq_dists(pts.rows(), k);
diff --git a/src/python/preprocess.cpp b/src/python/preprocess.cpp
index ec1668c..cc7a2e8 100644
--- a/src/python/preprocess.cpp
+++ b/src/python/preprocess.cpp
@@ -16,6 +16,8 @@
 #include <small_gicp/util/normal_estimation.hpp>
 #include <small_gicp/util/normal_estimation_omp.hpp>
 
+#include "validation.hpp"
+
 namespace py = pybind11;
 using namespace small_gicp;
 
@@ -24,6 +26,7 @@ void define_preprocess(py::module& m) {
   m.def(
     "voxelgrid_sampling",
     [](const PointCloud& points, double resolution, int num_threads) {
+      check_positive(num_threads, "num_threads");
       if (num_threads == 1) {
         return voxelgrid_sampling(points, resolution);
       }
@@ -67,6 +70,7 @@ void define_preprocess(py::module& m) {
         std::cerr << "points must be Nx3 or Nx4" << std::endl;
         return nullptr;
       }
+      check_positive(num_threads, "num_threads");
 
       if (num_threads == 1) {
         return voxelgrid_sampling<Eigen::MatrixXd, PointCloud>(points, resolution);
@@ -108,6 +112,8 @@ void define_preprocess(py::module& m) {
   m.def(
     "estimate_normals",
     [](PointCloud::Ptr points, std::shared_ptr<KdTree<PointCloud>> tree, int num_neighbors, int num_threads) {
+      check_positive(num_neighbors, "num_neighbors");
+      check_positive(num_threads, "num_threads");
       if (tree == nullptr) {
         tree = std::make_shared<KdTree<PointCloud>>(points, KdTreeBuilderOMP(num_threads));
       }
@@ -142,6 +148,8 @@ void define_preprocess(py::module& m) {
   m.def(
     "estimate_covariances",
     [](PointCloud::Ptr points, std::shared_ptr<KdTree<PointCloud>> tree, int num_neighbors, int num_threads) {
+      check_positive(num_neighbors, "num_neighbors");
+      check_positive(num_threads, "num_threads");
       if (tree == nullptr) {
         tree = std::make_shared<KdTree<PointCloud>>(points, KdTreeBuilderOMP(num_threads));
       }
@@ -176,6 +184,8 @@ void define_preprocess(py::module& m) {
   m.def(
     "estimate_normals_covariances",
     [](PointCloud::Ptr points, std::shared_ptr<KdTree<PointCloud>> tree, int num_neighbors, int num_threads) {
+      check_positive(num_neighbors, "num_neighbors");
+      check_positive(num_threads, "num_threads");
       if (tree == nullptr) {
         tree = std::make_shared<KdTree<PointCloud>>(points, KdTreeBuilderOMP(num_threads));
       }
@@ -214,6 +224,8 @@ void define_preprocess(py::module& m) {
         std::cerr << "points_numpy must be Nx3 or Nx4" << std::endl;
         return {nullptr, nullptr};
       }
+      check_positive(num_neighbors, "num_neighbors");
+      check_positive(num_threads, "num_threads");
 
       auto points = std::make_shared<PointCloud>();
       points->resize(points_numpy.rows());
@@ -261,6 +273,8 @@ void define_preprocess(py::module& m) {
         std::cerr << "warning: points is empty" << std::endl;
         return {nullptr, nullptr};
       }
+      check_positive(num_neighbors, "num_neighbors");
+      check_positive(num_threads, "num_threads");
 
       auto downsampled = voxelgrid_sampling_omp(points, downsampling_resolution, num_threads);
       auto kdtree = std::make_shared<KdTree<PointCloud>>(downsampled, KdTreeBuilderOMP(num_threads));
diff --git a/src/python/validation.hpp b/src/python/validation.hpp
new file mode 100644
index 0000000..e959e46
--- /dev/null
+++ b/src/python/validation.hpp
@@ -0,0 +1,17 @@
+// SPDX-FileCopyrightText: Copyright 2024 Kenji Koide
+// SPDX-License-Identifier: MIT
+#pragma once
+
+#include <string>
+#include <stdexcept>
+
+namespace small_gicp {
+
+/// @brief Throw std::invalid_argument (ValueError) if the value is not positive.
+inline void check_positive(int value, const std::string& name) {
+  if (value <= 0) {
+    throw std::invalid_argument(name + " must be positive");
+  }
+}
+
+}  // namespace small_gicp
-- 
2.43.0


From 601dc3fb9a44937e9f52323da1be8c8ee4fdbeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:50 +0000
Subject: [PATCH 30/39] fix: python: a kd-tree of a larger cloud or a source
 index out of range made factors read out of bounds

---
 src/python/align.cpp      |  1 +
 src/python/factors.cpp    | 17 +++++++++++++++++
 src/python/preprocess.cpp |  3 +++
 src/python/validation.hpp | 10 ++++++++++
 4 files changed, 31 insertions(+)

diff --git a/src/python/align.cpp b/src/python/align.cpp
index ce49d26..b03e4ff 100644
--- a/src/python/align.cpp
+++ b/src/python/align.cpp
@@ -186,6 +186,7 @@ void define_align(py::module& m) {
       if (target_tree == nullptr) {
         target_tree = std::make_shared<KdTree<PointCloud>>(target, KdTreeBuilderOMP(num_threads));
       }
+      check_tree(*target_tree, *target);
       return align(*target, *source, *target_tree, Eigen::Isometry3d(init_T_target_source), setting);
     },
     py::arg("target"),
diff --git a/src/python/factors.cpp b/src/python/factors.cpp
index 608d5c6..7727289 100644
--- a/src/python/factors.cpp
+++ b/src/python/factors.cpp
@@ -15,6 +15,8 @@
 #include <small_gicp/ann/kdtree_omp.hpp>
 #include <small_gicp/registration/rejector.hpp>
 
+#include "validation.hpp"
+
 namespace py = pybind11;
 using namespace small_gicp;
 
@@ -59,6 +61,11 @@ void define_factors(py::module& m) {
         const Eigen::Matrix4d& T,
         size_t source_index,
         const DistanceRejector& rejector) -> std::tuple<bool, Eigen::Matrix<double, 6, 6>, Eigen::Matrix<double, 6, 1>, double> {
+        check_tree(kdtree, target);
+        if (source_index >= source.size()) {
+          throw py::index_error("source_index out of range");
+        }
+
         Eigen::Matrix<double, 6, 6> H = Eigen::Matrix<double, 6, 6>::Zero();
         Eigen::Matrix<double, 6, 1> b = Eigen::Matrix<double, 6, 1>::Zero();
         double e = 0.0;
@@ -120,6 +127,11 @@ void define_factors(py::module& m) {
         const Eigen::Matrix4d& T,
         size_t source_index,
         const DistanceRejector& rejector) -> std::tuple<bool, Eigen::Matrix<double, 6, 6>, Eigen::Matrix<double, 6, 1>, double> {
+        check_tree(kdtree, target);
+        if (source_index >= source.size()) {
+          throw py::index_error("source_index out of range");
+        }
+
         Eigen::Matrix<double, 6, 6> H = Eigen::Matrix<double, 6, 6>::Zero();
         Eigen::Matrix<double, 6, 1> b = Eigen::Matrix<double, 6, 1>::Zero();
         double e = 0.0;
@@ -181,6 +193,11 @@ void define_factors(py::module& m) {
         const Eigen::Matrix4d& T,
         size_t source_index,
         const DistanceRejector& rejector) -> std::tuple<bool, Eigen::Matrix<double, 6, 6>, Eigen::Matrix<double, 6, 1>, double> {
+        check_tree(kdtree, target);
+        if (source_index >= source.size()) {
+          throw py::index_error("source_index out of range");
+        }
+
         Eigen::Matrix<double, 6, 6> H = Eigen::Matrix<double, 6, 6>::Zero();
         Eigen::Matrix<double, 6, 1> b = Eigen::Matrix<double, 6, 1>::Zero();
         double e = 0.0;
diff --git a/src/python/preprocess.cpp b/src/python/preprocess.cpp
index cc7a2e8..387c544 100644
--- a/src/python/preprocess.cpp
+++ b/src/python/preprocess.cpp
@@ -117,6 +117,7 @@ void define_preprocess(py::module& m) {
       if (tree == nullptr) {
         tree = std::make_shared<KdTree<PointCloud>>(points, KdTreeBuilderOMP(num_threads));
       }
+      check_tree(*tree, *points);
 
       if (num_threads == 1) {
         estimate_normals(*points, *tree, num_neighbors);
@@ -153,6 +154,7 @@ void define_preprocess(py::module& m) {
       if (tree == nullptr) {
         tree = std::make_shared<KdTree<PointCloud>>(points, KdTreeBuilderOMP(num_threads));
       }
+      check_tree(*tree, *points);
 
       if (num_threads == 1) {
         estimate_covariances(*points, *tree, num_neighbors);
@@ -189,6 +191,7 @@ void define_preprocess(py::module& m) {
       if (tree == nullptr) {
         tree = std::make_shared<KdTree<PointCloud>>(points, KdTreeBuilderOMP(num_threads));
       }
+      check_tree(*tree, *points);
 
       if (num_threads == 1) {
         estimate_normals_covariances(*points, *tree, num_neighbors);
diff --git a/src/python/validation.hpp b/src/python/validation.hpp
index e959e46..9831ff1 100644
--- a/src/python/validation.hpp
+++ b/src/python/validation.hpp
@@ -5,6 +5,9 @@
 #include <string>
 #include <stdexcept>
 
+#include <small_gicp/points/point_cloud.hpp>
+#include <small_gicp/ann/kdtree.hpp>
+
 namespace small_gicp {
 
 /// @brief Throw std::invalid_argument (ValueError) if the value is not positive.
@@ -14,4 +17,11 @@ inline void check_positive(int value, const std::string& name) {
   }
 }
 
+/// @brief Throw std::invalid_argument (ValueError) if the KdTree has points that the point cloud does not have.
+inline void check_tree(const KdTree<PointCloud>& tree, const PointCloud& points) {
+  if (tree.points->size() > points.size()) {
+    throw std::invalid_argument("the KdTree was not built from the given point cloud");
+  }
+}
+
 }  // namespace small_gicp
-- 
2.43.0


From b106997c51d23a98629515057708155239b0ec62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:50 +0000
Subject: [PATCH 31/39] fix: python: None in place of a point cloud
 dereferenced a null pointer

---
 src/python/align.cpp      | 4 ++--
 src/python/kdtree.cpp     | 2 +-
 src/python/preprocess.cpp | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/python/align.cpp b/src/python/align.cpp
index b03e4ff..f24c697 100644
--- a/src/python/align.cpp
+++ b/src/python/align.cpp
@@ -189,8 +189,8 @@ void define_align(py::module& m) {
       check_tree(*target_tree, *target);
       return align(*target, *source, *target_tree, Eigen::Isometry3d(init_T_target_source), setting);
     },
-    py::arg("target"),
-    py::arg("source"),
+    py::arg("target").none(false),
+    py::arg("source").none(false),
     py::arg("target_tree") = nullptr,
     py::arg("init_T_target_source") = Eigen::Matrix4d::Identity(),
     py::arg("registration_type") = "GICP",
diff --git a/src/python/kdtree.cpp b/src/python/kdtree.cpp
index b7e0237..601d39b 100644
--- a/src/python/kdtree.cpp
+++ b/src/python/kdtree.cpp
@@ -55,7 +55,7 @@ void define_kdtree(py::module& m) {
         check_positive(num_threads, "num_threads");
         return std::make_shared<KdTree<PointCloud>>(points, KdTreeBuilderOMP(num_threads));
       }),
-      py::arg("points"),
+      py::arg("points").none(false),
       py::arg("num_threads") = 1,
       R"""(
         KdTree(points: PointCloud, num_threads: int = 1)
diff --git a/src/python/preprocess.cpp b/src/python/preprocess.cpp
index 387c544..26a5eaf 100644
--- a/src/python/preprocess.cpp
+++ b/src/python/preprocess.cpp
@@ -125,7 +125,7 @@ void define_preprocess(py::module& m) {
         estimate_normals_omp(*points, *tree, num_neighbors, num_threads);
       }
     },
-    py::arg("points"),
+    py::arg("points").none(false),
     py::arg("tree") = nullptr,
     py::arg("num_neighbors") = 20,
     py::arg("num_threads") = 1,
@@ -162,7 +162,7 @@ void define_preprocess(py::module& m) {
         estimate_covariances_omp(*points, *tree, num_neighbors, num_threads);
       }
     },
-    py::arg("points"),
+    py::arg("points").none(false),
     py::arg("tree") = nullptr,
     py::arg("num_neighbors") = 20,
     py::arg("num_threads") = 1,
@@ -199,7 +199,7 @@ void define_preprocess(py::module& m) {
         estimate_normals_covariances_omp(*points, *tree, num_neighbors, num_threads);
       }
     },
-    py::arg("points"),
+    py::arg("points").none(false),
     py::arg("tree") = nullptr,
     py::arg("num_neighbors") = 20,
     py::arg("num_threads") = 1,
-- 
2.43.0


From 3d038949fc8d8b4e09c7b65dc981dc8481d53de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:58 +0000
Subject: [PATCH 32/39] fix: deep copy voxels when an incremental voxelmap is
 copied

The copy shared its voxels with the original by shared_ptr but had its own
index, so that inserting into one map silently changed, or raced with, the other.
---
 .../small_gicp/ann/incremental_voxelmap.hpp    | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/small_gicp/ann/incremental_voxelmap.hpp b/include/small_gicp/ann/incremental_voxelmap.hpp
index 3777340..4d6fa03 100644
--- a/include/small_gicp/ann/incremental_voxelmap.hpp
+++ b/include/small_gicp/ann/incremental_voxelmap.hpp
@@ -44,6 +44,24 @@ public:
   /// @param leaf_size  Voxel size
   explicit IncrementalVoxelMap(double leaf_size) : inv_leaf_size(1.0 / leaf_size), lru_horizon(100), lru_clear_cycle(10), lru_counter(0) { set_search_offsets(1); }
 
+  /// @brief Copy constructor. The voxels are copied so that the copy and the original do not affect each other.
+  IncrementalVoxelMap(const IncrementalVoxelMap& other)
+  : inv_leaf_size(other.inv_leaf_size),
+    lru_horizon(other.lru_horizon),
+    lru_clear_cycle(other.lru_clear_cycle),
+    lru_counter(other.lru_counter),
+    search_offsets(other.search_offsets),
+    voxel_setting(other.voxel_setting),
+    voxels(other.voxels) {
+    flat_voxels.reserve(other.flat_voxels.size());
+    for (const auto& voxel : other.flat_voxels) {
+      flat_voxels.emplace_back(std::make_shared<std::pair<VoxelInfo, VoxelContents>>(*voxel));
+    }
+  }
+
+  /// @brief Move constructor.
+  IncrementalVoxelMap(IncrementalVoxelMap&&) = default;
+
   /// @brief Number of points in the voxelmap.
   size_t size() const { return flat_voxels.size(); }
 
-- 
2.43.0


From 1b2d02748df277ee6bfb8fff61c1a7ced6e3e237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:43 +0000
Subject: [PATCH 33/39] fix: keep the buffers of PointCloud consistent when
 resize fails

PointCloud::resize left points, normals and covs with different sizes when
an allocation failed, so that normal(i) and cov(i) were out of range for
valid point indices afterwards.
---
 include/small_gicp/points/point_cloud.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/small_gicp/points/point_cloud.hpp b/include/small_gicp/points/point_cloud.hpp
index 5e9091f..9df35f3 100644
--- a/include/small_gicp/points/point_cloud.hpp
+++ b/include/small_gicp/points/point_cloud.hpp
@@ -42,9 +42,21 @@ public:
   /// @brief Resize point/normal/cov buffers.
   /// @param n  Number of points
   void resize(size_t n) {
-    points.resize(n);
-    normals.resize(n);
-    covs.resize(n);
+    const size_t num_points = points.size();
+    const size_t num_normals = normals.size();
+    const size_t num_covs = covs.size();
+
+    try {
+      points.resize(n);
+      normals.resize(n);
+      covs.resize(n);
+    } catch (...) {
+      // Restore the sizes so that the buffers remain consistent
+      points.resize(num_points);
+      normals.resize(num_normals);
+      covs.resize(num_covs);
+      throw;
+    }
   }
 
   /// @brief Get i-th point.
-- 
2.43.0


From 92128ba860aa79f01f99f80e876b1c3bcb272412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:43 +0000
Subject: [PATCH 34/39] fix: do not leave a point without its attributes in
 FlatContainer

When the allocation of the normal or covariance buffer failed, or the traits
of the input points threw, the point had already been added: its attributes
were out of range and those of all points added later were off by one.
---
 include/small_gicp/ann/flat_container.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/small_gicp/ann/flat_container.hpp b/include/small_gicp/ann/flat_container.hpp
index cf6f83d..c389cf0 100644
--- a/include/small_gicp/ann/flat_container.hpp
+++ b/include/small_gicp/ann/flat_container.hpp
@@ -48,13 +48,16 @@ public:
       return;
     }
 
-    this->points.emplace_back(transformed_pt);
+    // The point is added last so that every point has its attributes even if an exception is thrown in the middle
     if constexpr (HasNormals) {
-      this->normals.emplace_back(T.matrix() * traits::normal(points, i));
+      this->normals.resize(this->points.size() + 1);
+      this->normals.back() = T.matrix() * traits::normal(points, i);
     }
     if constexpr (HasCovs) {
-      this->covs.emplace_back(T.matrix() * traits::cov(points, i) * T.matrix().transpose());
+      this->covs.resize(this->points.size() + 1);
+      this->covs.back() = T.matrix() * traits::cov(points, i) * T.matrix().transpose();
     }
+    this->points.emplace_back(transformed_pt);
   }
 
   /// @brief Finalize the container (Nothing to do for FlatContainer).
-- 
2.43.0


From d8552baa07cb59b13cf2d454e01a01c784555c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:43 +0000
Subject: [PATCH 35/39] fix: do not leave a dangling voxel index when an
 insertion fails

When flat_voxels could not grow, the index of the new voxel had already been
registered: searches near that voxel read past the end of flat_voxels, and
the index was later taken over by an unrelated voxel.
---
 include/small_gicp/ann/incremental_voxelmap.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/small_gicp/ann/incremental_voxelmap.hpp b/include/small_gicp/ann/incremental_voxelmap.hpp
index 4d6fa03..c6d08aa 100644
--- a/include/small_gicp/ann/incremental_voxelmap.hpp
+++ b/include/small_gicp/ann/incremental_voxelmap.hpp
@@ -80,7 +80,12 @@ public:
         auto voxel = std::make_shared<std::pair<VoxelInfo, VoxelContents>>(VoxelInfo(coord, lru_counter), VoxelContents());
 
         found = voxels.emplace_hint(found, coord, flat_voxels.size());
-        flat_voxels.emplace_back(voxel);
+        try {
+          flat_voxels.emplace_back(voxel);
+        } catch (...) {
+          voxels.erase(found);  // Do not leave an index without a voxel
+          throw;
+        }
       }
 
       auto& [info, voxel] = *flat_voxels[found->second];
-- 
2.43.0


From da2cc54e65c52a7a49c068d3b334cf58096626ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:43 +0000
Subject: [PATCH 36/39] fix: do not lose voxels when the LRU removal runs out
 of memory

The voxel index map was cleared and filled again. When an allocation failed
in between, the remaining voxels became unreachable for searches and
insertions, and cells were duplicated by the insertions that followed.
---
 include/small_gicp/ann/incremental_voxelmap.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/small_gicp/ann/incremental_voxelmap.hpp b/include/small_gicp/ann/incremental_voxelmap.hpp
index c6d08aa..286c10a 100644
--- a/include/small_gicp/ann/incremental_voxelmap.hpp
+++ b/include/small_gicp/ann/incremental_voxelmap.hpp
@@ -96,12 +96,15 @@ public:
     if ((++lru_counter) % lru_clear_cycle == 0) {
       // Remove least recently used voxels
       auto remove_counter = std::remove_if(flat_voxels.begin(), flat_voxels.end(), [&](const std::shared_ptr<std::pair<VoxelInfo, VoxelContents>>& voxel) {
-        return lru_counter - voxel->first.lru > lru_horizon;
+        if (lru_counter - voxel->first.lru <= lru_horizon) {
+          return false;
+        }
+        voxels.erase(voxel->first.coord);
+        return true;
       });
       flat_voxels.erase(remove_counter, flat_voxels.end());
 
-      // Rehash
-      voxels.clear();
+      // Update the voxel indices (every remaining voxel is already registered, and thus nothing is allocated here)
       for (size_t i = 0; i < flat_voxels.size(); i++) {
         voxels[flat_voxels[i]->first.coord] = i;
       }
-- 
2.43.0


From eaac55a52051914c75eea22d2ecde9c8a39ca5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:43 +0000
Subject: [PATCH 37/39] fix: keep the search offsets when setting them fails

set_search_offsets(27) cleared the offsets before allocating memory for the
new ones. When that failed, the map was left with an incomplete pattern that
does not even contain the center voxel.
---
 include/small_gicp/ann/incremental_voxelmap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/small_gicp/ann/incremental_voxelmap.hpp b/include/small_gicp/ann/incremental_voxelmap.hpp
index 286c10a..3a63735 100644
--- a/include/small_gicp/ann/incremental_voxelmap.hpp
+++ b/include/small_gicp/ann/incremental_voxelmap.hpp
@@ -199,6 +199,7 @@ public:
           Eigen::Vector3i(0, 0, -1)};
         break;
       case 27:
+        search_offsets.reserve(27);
         search_offsets.clear();
         for (int i = -1; i <= 1; i++) {
           for (int j = -1; j <= 1; j++) {
-- 
2.43.0


From b5301051de39ca0e83c15623f4605ef3178b1af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:47 +0000
Subject: [PATCH 38/39] fix: do not use the tree of the previous cloud after a
 failed setInputSource/Target

When the construction of the tree failed, RegistrationPCL already held the
new cloud together with the tree, covariances and voxels of the previous one,
and setting the same cloud again was ignored: align then accessed points out
of range or returned a wrong pose.
---
 include/small_gicp/pcl/pcl_registration_impl.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/small_gicp/pcl/pcl_registration_impl.hpp b/include/small_gicp/pcl/pcl_registration_impl.hpp
index 2e560dd..f03107a 100644
--- a/include/small_gicp/pcl/pcl_registration_impl.hpp
+++ b/include/small_gicp/pcl/pcl_registration_impl.hpp
@@ -48,7 +48,12 @@ void RegistrationPCL<PointSource, PointTarget>::setInputSource(const PointCloudS
     return;  // The input cloud was rejected
   }
 
-  source_tree_ = std::make_shared<KdTree<pcl::PointCloud<PointSource>>>(input_, KdTreeBuilderOMP(num_threads_));
+  try {
+    source_tree_ = std::make_shared<KdTree<pcl::PointCloud<PointSource>>>(input_, KdTreeBuilderOMP(num_threads_));
+  } catch (...) {
+    clearSource();  // Do not use the tree of the previous cloud with the new one
+    throw;
+  }
   source_covs_.clear();
   source_voxelmap_.reset();
 }
@@ -64,7 +69,12 @@ void RegistrationPCL<PointSource, PointTarget>::setInputTarget(const PointCloudT
     return;  // The input cloud was rejected
   }
 
-  target_tree_ = std::make_shared<KdTree<pcl::PointCloud<PointTarget>>>(target_, KdTreeBuilderOMP(num_threads_));
+  try {
+    target_tree_ = std::make_shared<KdTree<pcl::PointCloud<PointTarget>>>(target_, KdTreeBuilderOMP(num_threads_));
+  } catch (...) {
+    clearTarget();  // Do not use the tree of the previous cloud with the new one
+    throw;
+  }
   target_covs_.clear();
   target_voxelmap_.reset();
 }
-- 
2.43.0


From f1ec1b1c239f78cadd1db53307796c1de2f70322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:24 +0000
Subject: [PATCH 39/39] fix: do not keep a partially filled voxel map in
 RegistrationPCL

When the insertion of the points into the voxel map of VGICP failed, the
incomplete map was kept and used by the following calls of align.
---
 include/small_gicp/pcl/pcl_registration_impl.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/small_gicp/pcl/pcl_registration_impl.hpp b/include/small_gicp/pcl/pcl_registration_impl.hpp
index f03107a..c94130d 100644
--- a/include/small_gicp/pcl/pcl_registration_impl.hpp
+++ b/include/small_gicp/pcl/pcl_registration_impl.hpp
@@ -254,12 +254,14 @@ void RegistrationPCL<PointSource, PointTarget>::computeTransformation(PointCloud
     result_ = registration.align(target_proxy, source_proxy, *target_tree_, Eigen::Isometry3d(guess.template cast<double>()));
   } else if (registration_type_ == "VGICP") {
     if (!target_voxelmap_) {
-      target_voxelmap_ = std::make_shared<GaussianVoxelMap>(voxel_resolution_);
-      target_voxelmap_->insert(target_proxy);
+      auto voxelmap = std::make_shared<GaussianVoxelMap>(voxel_resolution_);
+      voxelmap->insert(target_proxy);
+      target_voxelmap_ = voxelmap;
     }
     if (!source_voxelmap_) {
-      source_voxelmap_ = std::make_shared<GaussianVoxelMap>(voxel_resolution_);
-      source_voxelmap_->insert(source_proxy);
+      auto voxelmap = std::make_shared<GaussianVoxelMap>(voxel_resolution_);
+      voxelmap->insert(source_proxy);
+      source_voxelmap_ = voxelmap;
     }
 
     result_ = registration.align(*target_voxelmap_, source_proxy, *target_voxelmap_, Eigen::Isometry3d(guess.template cast<double>()));
-- 
2.43.0

