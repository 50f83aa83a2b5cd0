From c4ace7bb5ec4ee2179bcfe7306425bc93ba3f71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:36 +0000
Subject: [PATCH 01/27] fix: Lloyd moved a centroid without samples to the
 origin instead of leaving it in place

---
 include/ffcl/kmeans/Lloyd.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/ffcl/kmeans/Lloyd.hpp b/include/ffcl/kmeans/Lloyd.hpp
index d1ca740..f39a526 100644
--- a/include/ffcl/kmeans/Lloyd.hpp
+++ b/include/ffcl/kmeans/Lloyd.hpp
@@ -111,12 +111,8 @@ void Lloyd<SamplesIterator>::update_centroids() {
         const auto feature_index_start = centroid_index * n_features;
         const auto feature_index_end   = feature_index_start + n_features;
 
-        if (cluster_sizes[centroid_index] == 0) {
-            // For centroids with only 1 associated sample, the new position is the same as the previous one
-            std::copy(cluster_position_sums.begin() + feature_index_start,
-                      cluster_position_sums.begin() + feature_index_end,
-                      centroids_.begin() + feature_index_start);
-        } else {
+        // a centroid without any associated sample stays where it is
+        if (cluster_sizes[centroid_index]) {
             // Compute the new centroid position for the centroid that has more than 1 associated sample
             std::transform(cluster_position_sums.begin() + feature_index_start,
                            cluster_position_sums.begin() + feature_index_end,
-- 
2.43.0


From 504e8471c8c8f0fe1eb0a2c0335d7447d102e70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:36 +0000
Subject: [PATCH 02/27] fix: Hamerly reported a stale total deviation, so a
 multi-start fit kept the wrong candidate

---
 include/ffcl/kmeans/Hamerly.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/ffcl/kmeans/Hamerly.hpp b/include/ffcl/kmeans/Hamerly.hpp
index 244daf3..f0c4fd5 100644
--- a/include/ffcl/kmeans/Hamerly.hpp
+++ b/include/ffcl/kmeans/Hamerly.hpp
@@ -92,7 +92,17 @@ Hamerly<SamplesIterator>::Hamerly(const DatasetDescriptorType& dataset_descripto
 
 template <typename SamplesIterator>
 auto Hamerly<SamplesIterator>::total_deviation() const {
-    return loss_;
+    // the distances kept in the buffers are only bounds once the centroids moved, so recompute the actual distances
+    const auto samples_to_nearest_centroid_distances =
+        kmeans::utils::samples_to_nearest_centroid_distances(std::get<0>(dataset_descriptor_),
+                                                             std::get<1>(dataset_descriptor_),
+                                                             std::get<2>(dataset_descriptor_),
+                                                             centroids_);
+
+    return std::reduce(samples_to_nearest_centroid_distances.begin(),
+                       samples_to_nearest_centroid_distances.end(),
+                       static_cast<DataType>(0),
+                       std::plus<>());
 }
 
 template <typename SamplesIterator>
-- 
2.43.0


From 74ee59ca72a6c76b023d5e83d64588a8b0a4cf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:56 +0000
Subject: [PATCH 03/27] fix: second nearest centroid ignored centroids tied
 with the nearest, breaking Hamerly's lower bound

---
 include/ffcl/kmeans/KMeansUtils.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/ffcl/kmeans/KMeansUtils.hpp b/include/ffcl/kmeans/KMeansUtils.hpp
index ef5d56c..108dafa 100644
--- a/include/ffcl/kmeans/KMeansUtils.hpp
+++ b/include/ffcl/kmeans/KMeansUtils.hpp
@@ -104,8 +104,7 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = second_nearest_candidate;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
             }
         }
-- 
2.43.0


From 26c507903d198259e4e4884b52984df430b7380f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:16 +0000
Subject: [PATCH 04/27] fix: k-medoids skipped samples as swap candidates and
 could exchange a medoid for another medoid

---
 include/ffcl/kmedoids/FasterMSC.hpp | 4 +---
 include/ffcl/kmedoids/FasterPAM.hpp | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/ffcl/kmedoids/FasterMSC.hpp b/include/ffcl/kmedoids/FasterMSC.hpp
index 4af7854..585d7e7 100644
--- a/include/ffcl/kmedoids/FasterMSC.hpp
+++ b/include/ffcl/kmedoids/FasterMSC.hpp
@@ -146,11 +146,9 @@ auto FasterMSC<SamplesIterator>::total_deviation() const {
 
 template <typename SamplesIterator>
 auto FasterMSC<SamplesIterator>::step() {
-    const auto& samples_to_nearest_medoid_indices = buffers_ptr_->samples_to_nearest_medoid_indices_;
-
     for (std::size_t medoid_candidate_index = 0; medoid_candidate_index < n_samples_; ++medoid_candidate_index) {
         // execute only if the current candidate is not already selected as a medoid
-        if (medoid_candidate_index != samples_to_nearest_medoid_indices[medoid_candidate_index]) {
+        if (std::find(medoids_.begin(), medoids_.end(), medoid_candidate_index) == medoids_.end()) {
             // handle the case chen the number of medoids is 2
             if (medoids_.size() == 2) {
                 // the total deviation change for the best medoid index 0 or 1
diff --git a/include/ffcl/kmedoids/FasterPAM.hpp b/include/ffcl/kmedoids/FasterPAM.hpp
index 191bd33..880f824 100644
--- a/include/ffcl/kmedoids/FasterPAM.hpp
+++ b/include/ffcl/kmedoids/FasterPAM.hpp
@@ -136,11 +136,9 @@ auto FasterPAM<SamplesIterator>::total_deviation() const {
 
 template <typename SamplesIterator>
 auto FasterPAM<SamplesIterator>::step() {
-    const auto& samples_to_nearest_medoid_indices = buffers_ptr_->samples_to_nearest_medoid_indices_;
-
     for (std::size_t medoid_candidate_index = 0; medoid_candidate_index < n_samples_; ++medoid_candidate_index) {
         // execute only if the current candidate is not already selected as a medoid
-        if (medoid_candidate_index != samples_to_nearest_medoid_indices[medoid_candidate_index]) {
+        if (std::find(medoids_.begin(), medoids_.end(), medoid_candidate_index) == medoids_.end()) {
             // the total deviation change for the best swap candidate and its index in the dataset
             const auto [best_swap_delta_td, best_swap_index] = find_best_swap(medoid_candidate_index);
 
-- 
2.43.0


From 16131518582873fda42b5020ef2c6b860a71345c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:00 +0000
Subject: [PATCH 05/27] fix: second and third nearest medoids ignored medoids
 tied with the nearest

---
 include/ffcl/kmedoids/PAMUtils.hpp | 40 +++++++++---------------------
 1 file changed, 12 insertions(+), 28 deletions(-)

diff --git a/include/ffcl/kmedoids/PAMUtils.hpp b/include/ffcl/kmedoids/PAMUtils.hpp
index be5c117..2926ac7 100644
--- a/include/ffcl/kmedoids/PAMUtils.hpp
+++ b/include/ffcl/kmedoids/PAMUtils.hpp
@@ -127,8 +127,7 @@ std::vector<std::size_t> samples_to_second_nearest_medoid_indices(const SamplesI
                 first_min_distance  = second_nearest_candidate;
                 first_min_index     = idx;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
                 second_min_index    = idx;
             }
@@ -169,8 +168,7 @@ std::vector<std::size_t> samples_to_second_nearest_medoid_indices(
                 first_min_distance  = second_nearest_candidate;
                 first_min_index     = idx;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
                 second_min_index    = idx;
             }
@@ -222,16 +220,13 @@ std::vector<std::size_t> samples_to_third_nearest_medoid_indices(const SamplesIt
                 first_min_distance  = third_nearest_candidate;
                 first_min_index     = idx;
 
-            } else if (third_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance)) {
+            } else if (third_nearest_candidate < second_min_distance) {
                 third_min_distance  = second_min_distance;
                 third_min_index     = second_min_index;
                 second_min_distance = third_nearest_candidate;
                 second_min_index    = idx;
 
-            } else if (third_nearest_candidate < third_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance) &&
-                       ffcl::common::inequality(third_nearest_candidate, second_min_distance)) {
+            } else if (third_nearest_candidate < third_min_distance) {
                 third_min_distance = third_nearest_candidate;
                 third_min_index    = idx;
             }
@@ -276,16 +271,13 @@ std::vector<std::size_t> samples_to_third_nearest_medoid_indices(
                 first_min_distance  = third_nearest_candidate;
                 first_min_index     = idx;
 
-            } else if (third_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance)) {
+            } else if (third_nearest_candidate < second_min_distance) {
                 third_min_distance  = second_min_distance;
                 third_min_index     = second_min_index;
                 second_min_distance = third_nearest_candidate;
                 second_min_index    = idx;
 
-            } else if (third_nearest_candidate < third_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance) &&
-                       ffcl::common::inequality(third_nearest_candidate, second_min_distance)) {
+            } else if (third_nearest_candidate < third_min_distance) {
                 third_min_distance = third_nearest_candidate;
                 third_min_index    = idx;
             }
@@ -453,8 +445,7 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = second_nearest_candidate;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
             }
         }
@@ -490,8 +481,7 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = second_nearest_candidate;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
             }
         }
@@ -537,14 +527,11 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = third_nearest_candidate;
 
-            } else if (third_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance)) {
+            } else if (third_nearest_candidate < second_min_distance) {
                 third_min_distance  = second_min_distance;
                 second_min_distance = third_nearest_candidate;
 
-            } else if (third_nearest_candidate < third_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance) &&
-                       ffcl::common::inequality(third_nearest_candidate, second_min_distance)) {
+            } else if (third_nearest_candidate < third_min_distance) {
                 third_min_distance = third_nearest_candidate;
             }
         }
@@ -582,14 +569,11 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = third_nearest_candidate;
 
-            } else if (third_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance)) {
+            } else if (third_nearest_candidate < second_min_distance) {
                 third_min_distance  = second_min_distance;
                 second_min_distance = third_nearest_candidate;
 
-            } else if (third_nearest_candidate < third_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance) &&
-                       ffcl::common::inequality(third_nearest_candidate, second_min_distance)) {
+            } else if (third_nearest_candidate < third_min_distance) {
                 third_min_distance = third_nearest_candidate;
             }
         }
-- 
2.43.0


From bb76c9ae70a69be1c0e71963f08bcd421ec62800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:49 +0000
Subject: [PATCH 06/27] fix: select_n_random_samples_from_indices did not pass
 the number of samples and could not be used

---
 include/ffcl/common/math/random/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/random/Sampling.hpp b/include/ffcl/common/math/random/Sampling.hpp
index 08c13f9..8fd6a33 100644
--- a/include/ffcl/common/math/random/Sampling.hpp
+++ b/include/ffcl/common/math/random/Sampling.hpp
@@ -99,7 +99,7 @@ auto select_n_random_samples_from_indices(const IndicesIterator& index_first,
     // clip n_choices to prevent overflows
     n_choices = std::min(n_choices, n_samples);
     // return n_choices distinctive indices from the pool of indices defined by the desired indices range
-    const auto random_distinct_indices = select_n_elements(index_first, index_last);
+    const auto random_distinct_indices = select_n_elements(index_first, index_last, n_choices);
 
     auto random_samples = std::vector<DataType>(n_choices * n_features);
 
-- 
2.43.0


From 8378a3b3fabd24f7bcb39e22b770486ac3d6957e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:32 +0000
Subject: [PATCH 07/27] fix: init_spatial_uniform placed positions outside the
 data when all values of a feature are negative

---
 include/ffcl/common/math/random/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/random/Sampling.hpp b/include/ffcl/common/math/random/Sampling.hpp
index 8fd6a33..94cc986 100644
--- a/include/ffcl/common/math/random/Sampling.hpp
+++ b/include/ffcl/common/math/random/Sampling.hpp
@@ -125,7 +125,7 @@ auto init_spatial_uniform(const SamplesIterator& samples_range_first,
 
     // row vector buffers to keep track of min-max values
     auto min_buffer = std::vector<DataType>(n_features, std::numeric_limits<DataType>::max());
-    auto max_buffer = std::vector<DataType>(n_features, std::numeric_limits<DataType>::min());
+    auto max_buffer = std::vector<DataType>(n_features, std::numeric_limits<DataType>::lowest());
 
     for (std::size_t sample_index = 0; sample_index < n_samples; ++sample_index) {
         for (std::size_t feature_index = 0; feature_index < n_features; ++feature_index) {
-- 
2.43.0


From a5555f4acf6e6254e9ae34fe888be042c73be81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:24 +0000
Subject: [PATCH 08/27] fix: select_n_elements only ever selected the first n
 elements of the pool

---
 include/ffcl/common/math/random/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/random/Sampling.hpp b/include/ffcl/common/math/random/Sampling.hpp
index 94cc986..c386be4 100644
--- a/include/ffcl/common/math/random/Sampling.hpp
+++ b/include/ffcl/common/math/random/Sampling.hpp
@@ -17,7 +17,7 @@ auto select_n_elements(const Iterator& first, const Iterator& last, std::size_t
     // Perform a partial shuffle of the first n_elements elements
     for (std::size_t element_index = 0; element_index < n_elements; ++element_index) {
         std::swap(selected_elements[element_index],
-                  selected_elements[uniform_distribution{element_index, n_elements - 1}()]);
+                  selected_elements[uniform_distribution{element_index, selected_elements.size() - 1}()]);
     }
     // Resize the vector to keep only the first n_elements elements
     selected_elements.resize(n_elements);
-- 
2.43.0


From 901219ca22e0297975279242ce123633cf8a94c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:47 +0000
Subject: [PATCH 09/27] fix: k-d tree split samples on the wrong side when
 their values differ by less than the float epsilon

The partitioning compared values with an absolute epsilon, so data at a small scale
ended up on the wrong side of a cut and queries missed it.
---
 include/ffcl/common/algorithms/Sorting.hpp               | 6 ++----
 include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp | 2 +-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/ffcl/common/algorithms/Sorting.hpp b/include/ffcl/common/algorithms/Sorting.hpp
index e70a5fe..de81e3b 100644
--- a/include/ffcl/common/algorithms/Sorting.hpp
+++ b/include/ffcl/common/algorithms/Sorting.hpp
@@ -107,8 +107,7 @@ std::size_t partition_around_pivot_index(const IndicesIterator& indices_range_fi
         // left_index (!= || ==) pivot_index && pivot_index (!= || ==) right_index
 
         // pivot_value > right_value
-        if (inequality(pivot_value,
-                       samples_range_first[indices_range_first[right_index] * n_features + feature_index])) {
+        if (samples_range_first[indices_range_first[right_index] * n_features + feature_index] < pivot_value) {
             // swap left_value and right_value
             std::iter_swap(indices_range_first + left_index, indices_range_first + right_index);
             // if the pivot was swapped because left index was equal to pivot index, update it to the index it was
@@ -123,8 +122,7 @@ std::size_t partition_around_pivot_index(const IndicesIterator& indices_range_fi
         // else if pivot_value == right_value
         else {
             // if left_value == pivot_value
-            if (equality(samples_range_first[indices_range_first[left_index] * n_features + feature_index],
-                         pivot_value)) {
+            if (!(pivot_value < samples_range_first[indices_range_first[left_index] * n_features + feature_index])) {
                 // dont swap if the left_index == pivot_index
                 if (static_cast<std::size_t>(left_index) != pivot_index) {
                     // swap the ranges so that the range of the left index is put at the right of the pivot
diff --git a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
index 487673b..5841428 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
@@ -206,7 +206,7 @@ auto shift_median_to_leftmost_equal_value(std::size_t                    median_
         // Decrement the iterators while the left range isn't empty and the neighbor value at the left of the median is
         // still equal to the cut value at the corresponding feature index
         while (left_neighbor_it >= left_indices_range.first &&
-               common::equality(samples_range_first[left_neighbor_it[0] * n_features + feature_index], cut_value)) {
+               !(samples_range_first[left_neighbor_it[0] * n_features + feature_index] < cut_value)) {
             --left_neighbor_it;
         }
         // Update the ranges accordingly
-- 
2.43.0


From ace15d87db86ad581de2934e543eb13566a1a8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:28 +0000
Subject: [PATCH 10/27] fix: k-d tree built with default options never split
 because the default depth limit was zero

std::numeric_limits<std::size_t>::infinity() is zero.
---
 include/ffcl/datastruct/tree/kdtree/KDTree.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
index 23b2ad7..9b16f91 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
@@ -17,6 +17,7 @@
 #include <algorithm>
 #include <array>
 #include <cstddef>  // std::size_t
+#include <limits>
 #include <memory>
 #include <tuple>
 
@@ -60,7 +61,7 @@ class KDTree {
     struct Options {
         Options()
           : bucket_size_{40}
-          , max_depth_{common::infinity<std::size_t>()}
+          , max_depth_{std::numeric_limits<std::size_t>::max()}
           , axis_selection_policy_ptr_{std::make_shared<
                 kdtree::policy::HighestVarianceBuild<IndicesIteratorType, SamplesIteratorType, BoundType>>()}
           , splitting_rule_policy_ptr_{
@@ -113,7 +114,7 @@ class KDTree {
                 writer.Int64(bucket_size_);
 
                 writer.String("max_depth");
-                writer.Int64(max_depth_);
+                writer.Uint64(max_depth_);
             }
             writer.EndObject();
         }
-- 
2.43.0


From ff831424e470f72e6b48a35bc5d4e9b1f5803018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:28 +0000
Subject: [PATCH 11/27] fix: k-d tree cut along a masked out feature when the
 features of interest have no spread

---
 include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
index 5841428..fa69d87 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
@@ -30,7 +30,7 @@ std::size_t select_longest_axis(const Bound& bound, const std::vector<std::size_
     static_assert(std::is_trivial_v<DataType>, "DataType must be trivial.");
 
     // feature index of the greatest range dimension in the kd bounding box at the indices of the feature_mask
-    std::size_t current_max_range_feature_index = 0;
+    std::size_t current_max_range_feature_index = feature_mask.front();
     DataType    current_max_range               = 0;
 
     // "feature_index"s are only the ones specified in the feature_mask
-- 
2.43.0


From 52916e53b64a14b81bde988ebcadcc887fcd6940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:16 +0000
Subject: [PATCH 12/27] fix: variance over selected features looked at the
 first sample only

---
 include/ffcl/common/math/statistics/Statistics.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/ffcl/common/math/statistics/Statistics.hpp b/include/ffcl/common/math/statistics/Statistics.hpp
index c6cbf31..15199b1 100644
--- a/include/ffcl/common/math/statistics/Statistics.hpp
+++ b/include/ffcl/common/math/statistics/Statistics.hpp
@@ -315,8 +315,9 @@ auto compute_variance_per_feature(const IndicesIterator&          indices_range_
         auto features_accumulator = std::vector<DataType>(feature_mask.size());
 
         for (std::size_t mask_index = 0; mask_index < feature_mask.size(); ++mask_index) {
-            const auto temp = samples_range_first[*indices_range_first * n_features + feature_mask[mask_index]] -
-                              mean_per_feature[mask_index];
+            const auto temp =
+                samples_range_first[indices_range_first[sample_index] * n_features + feature_mask[mask_index]] -
+                mean_per_feature[mask_index];
             variance_per_feature[mask_index] += temp * temp;
         }
     }
@@ -417,8 +418,9 @@ std::size_t argmax_variance_per_feature(const IndicesIterator&          indices_
         auto features_accumulator = std::vector<DataType>(feature_mask.size());
 
         for (std::size_t mask_index = 0; mask_index < feature_mask.size(); ++mask_index) {
-            const auto temp = samples_range_first[*indices_range_first * n_features + feature_mask[mask_index]] -
-                              mean_per_feature[mask_index];
+            const auto temp =
+                samples_range_first[indices_range_first[sample_index] * n_features + feature_mask[mask_index]] -
+                mean_per_feature[mask_index];
             variance_per_feature[mask_index] += temp * temp;
         }
     }
-- 
2.43.0


From 9e8f427908a0f6a940474274de4d986f466f5968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:08 +0000
Subject: [PATCH 13/27] fix: radius and unlimited queries on integer data
 skipped subtrees while nothing had been found yet

---
 include/ffcl/search/buffer/StaticBuffer.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ffcl/search/buffer/StaticBuffer.hpp b/include/ffcl/search/buffer/StaticBuffer.hpp
index 205fd86..88d70d9 100644
--- a/include/ffcl/search/buffer/StaticBuffer.hpp
+++ b/include/ffcl/search/buffer/StaticBuffer.hpp
@@ -8,6 +8,7 @@
 #include "ffcl/datastruct/bounds/UnboundedBall.hpp"  // default bound
 
 #include <cstddef>
+#include <limits>
 #include <tuple>
 #include <vector>
 
@@ -91,7 +92,9 @@ class StaticBuffer {
     }
 
     std::size_t remaining_capacity() const {
-        return max_capacity() - size();
+        // the default capacity is unlimited and never gets exhausted, even by a buffer that is still empty
+        return max_capacity() == common::infinity<IndexType>() ? std::numeric_limits<std::size_t>::max() - size()
+                                                               : max_capacity() - size();
     }
 
     bool empty() const {
-- 
2.43.0


From 772cc9f785dcf26011aa85defaea88aa60422737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:08 +0000
Subject: [PATCH 14/27] fix: WithMemory lost the visited indices it owns when
 the searcher moved the buffer

---
 include/ffcl/search/buffer/WithMemory.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/ffcl/search/buffer/WithMemory.hpp b/include/ffcl/search/buffer/WithMemory.hpp
index 8f84c03..f639fee 100644
--- a/include/ffcl/search/buffer/WithMemory.hpp
+++ b/include/ffcl/search/buffer/WithMemory.hpp
@@ -34,21 +34,21 @@ class WithMemory : public StaticBuffer<WithMemory<DistancesIterator, Bound>> {
     explicit WithMemory(BoundType&& bound, const IndexType& max_capacity = common::infinity<IndexType>())
       : StaticBuffer<WithMemory<DistancesIteratorType, BoundType>>(std::forward<BoundType>(bound), max_capacity)
       , visited_indices_{}
-      , visited_indices_const_reference_{visited_indices_} {}
+      , visited_indices_const_ptr_{nullptr} {}
 
     WithMemory(BoundType&&           bound,
                const VisitedIndices& visited_indices_reference,
                const IndexType&      max_capacity = common::infinity<IndexType>())
       : StaticBuffer<WithMemory<DistancesIteratorType, BoundType>>(std::forward<BoundType>(bound), max_capacity)
       , visited_indices_{}
-      , visited_indices_const_reference_{visited_indices_reference} {}
+      , visited_indices_const_ptr_{&visited_indices_reference} {}
 
     WithMemory(BoundType&&      bound,
                VisitedIndices&& visited_indices,
                const IndexType& max_capacity = common::infinity<IndexType>())
       : StaticBuffer<WithMemory<DistancesIteratorType, BoundType>>(std::forward<BoundType>(bound), max_capacity)
       , visited_indices_{std::move(visited_indices)}
-      , visited_indices_const_reference_{visited_indices_} {}
+      , visited_indices_const_ptr_{nullptr} {}
 
     WithMemory(BoundType&&                       bound,
                const VisitedIndicesIteratorType& visited_indices_first,
@@ -89,8 +89,8 @@ class WithMemory : public StaticBuffer<WithMemory<DistancesIterator, Bound>> {
 
     void update_impl(const IndexType& index_candidate, const DistanceType& distance_candidate) {
         // consider an update only if the candidate hasnt been visited
-        const bool is_candidate_valid =
-            visited_indices_const_reference_.find(index_candidate) == visited_indices_const_reference_.end();
+        const auto& visited_indices    = visited_indices_const_ptr_ ? *visited_indices_const_ptr_ : visited_indices_;
+        const bool  is_candidate_valid = visited_indices.find(index_candidate) == visited_indices.end();
 
         if (is_candidate_valid) {
             this->update_static_buffers(index_candidate, distance_candidate);
@@ -120,8 +120,9 @@ class WithMemory : public StaticBuffer<WithMemory<DistancesIterator, Bound>> {
     }
 
   private:
-    VisitedIndices        visited_indices_;
-    const VisitedIndices& visited_indices_const_reference_;
+    VisitedIndices visited_indices_;
+    // null when the buffer owns its visited indices, so that they follow the buffer when it is copied or moved
+    const VisitedIndices* visited_indices_const_ptr_;
 };
 
 // Declare and define a static_base_traits specialization for WithMemory:
-- 
2.43.0


From 9c146bdc58fcf42097cc60b3ee00d9e825eb426c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:08 +0000
Subject: [PATCH 15/27] fix: UnionFind::find() const wrote to the parents and
 raced between concurrent readers

---
 include/ffcl/datastruct/UnionFind.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/ffcl/datastruct/UnionFind.hpp b/include/ffcl/datastruct/UnionFind.hpp
index b1db328..4c3dad8 100644
--- a/include/ffcl/datastruct/UnionFind.hpp
+++ b/include/ffcl/datastruct/UnionFind.hpp
@@ -17,6 +17,8 @@ class UnionFind {
 
     UnionFind(std::size_t n_samples, std::unique_ptr<Index[]> labels);
 
+    Index find(Index index);
+
     Index find(Index index) const;
 
     Index merge(const Index& index_1, const Index& index_2);
@@ -45,7 +47,7 @@ UnionFind<Index>::UnionFind(std::size_t n_samples, std::unique_ptr<Index[]> labe
   , ranks_{std::make_unique<Index[]>(n_samples)} {}
 
 template <typename Index>
-Index UnionFind<Index>::find(Index index) const {
+Index UnionFind<Index>::find(Index index) {
     while (index != parents_[index]) {
         // set the label of each examined node to the representative
         const auto temp = parents_[index];
@@ -55,6 +57,15 @@ Index UnionFind<Index>::find(Index index) const {
     return index;
 }
 
+template <typename Index>
+Index UnionFind<Index>::find(Index index) const {
+    // does not compress the path: a const union-find may be read by several threads at the same time
+    while (index != parents_[index]) {
+        index = parents_[index];
+    }
+    return index;
+}
+
 template <typename Index>
 Index UnionFind<Index>::merge(const Index& index_1, const Index& index_2) {
     const auto representative_1 = find(index_1);
-- 
2.43.0


From fd6cc9e87d4407335e9235fd9aa48726d22e880f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:09 +0000
Subject: [PATCH 16/27] fix: dual tree search dropped candidate edges while
 fewer than k edges were known

---
 include/ffcl/search/buffer/IndicesToBuffersMap.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/search/buffer/IndicesToBuffersMap.hpp b/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
index 93917d6..6e54f12 100644
--- a/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
+++ b/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
@@ -428,7 +428,8 @@ void IndicesToBuffersMap<Buffer, QueryIndexer, ReferenceIndexer>::update_priorit
     // be to find the nth_elemnts from the buffer and emplace only those to the priority queue. The first method's
     // drawback is that it requires management of the emplace/pop-ed elements. The second method's drawback is that
     // it would require a deep copy of the indices and distances of buffer.
-    if (buffer.closest_distance() < (kth_closest_edge_priority_queue_.empty()
+    if (kth_closest_edge_priority_queue_.size() < buffer.max_capacity() ||
+        buffer.closest_distance() < (kth_closest_edge_priority_queue_.empty()
                                          ? common::infinity<DistanceType>()
                                          : std::get<2>(kth_closest_edge_priority_queue_.top()))) {
         // Iterate over all the buffer indices as we dont know which elements could be valid candidates.
@@ -440,7 +441,9 @@ void IndicesToBuffersMap<Buffer, QueryIndexer, ReferenceIndexer>::update_priorit
                                                   ? common::infinity<DistanceType>()
                                                   : std::get<2>(kth_closest_edge_priority_queue_.top());
 
-            if (candidate_distance < pq_furthest_distance) {
+            // A candidate further than the furthest edge still counts as long as the queue is not full.
+            if (kth_closest_edge_priority_queue_.size() < buffer.max_capacity() ||
+                candidate_distance < pq_furthest_distance) {
                 // Insert the combination and check if it was newly inserted.
                 if (priority_queue_visited_combinations_set_.insert({query_index, candidate_index}).second) {
                     kth_closest_edge_priority_queue_.emplace(query_index, candidate_index, candidate_distance);
-- 
2.43.0


From 43edd5940acf9a8c5f8056897a7f39c60e968e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:22 +0000
Subject: [PATCH 17/27] fix: mutual reachability spanning tree was not minimal,
 only the nearest sample was considered per query

---
 .../graph/spanning_tree/BoruvkasAlgorithm.hpp | 107 +++++++++++-------
 1 file changed, 67 insertions(+), 40 deletions(-)

diff --git a/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp b/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp
index 007c037..584dfd0 100644
--- a/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp
+++ b/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp
@@ -6,6 +6,8 @@
 
 #include "ffcl/datastruct/UnionFind.hpp"
 
+#include "ffcl/datastruct/bounds/Ball.hpp"
+
 #include "ffcl/search/buffer/WithUnionFind.hpp"
 
 #include "ffcl/datastruct/graph/spanning_tree/CoreDistances.hpp"
@@ -203,6 +205,12 @@ class BoruvkasAlgorithm {
         UnionFindType union_find_;
     };
 
+    auto shortest_mutual_reachability_edge(const search::Searcher<Indexer>& searcher,
+                                           const CoreDistancesArrayType&    core_distances,
+                                           const Forest&                    forest,
+                                           const IndexType&                 component_representative,
+                                           const IndexType&                 query_index) const -> EdgeType;
+
     void step_sequential(const search::Searcher<Indexer>& searcher, Forest& forest) const;
 
     void step_sequential(const search::Searcher<Indexer>& searcher,
@@ -236,6 +244,54 @@ BoruvkasAlgorithm<Indexer>& BoruvkasAlgorithm<Indexer>::set_options(const Option
     return *this;
 }
 
+template <typename Indexer>
+auto BoruvkasAlgorithm<Indexer>::shortest_mutual_reachability_edge(const search::Searcher<Indexer>& searcher,
+                                                                   const CoreDistancesArrayType&    core_distances,
+                                                                   const Forest&                    forest,
+                                                                   const IndexType& component_representative,
+                                                                   const IndexType& query_index) const -> EdgeType {
+    // initialize a nearest neighbor buffer to compare the query_index with sample indices that don't belong to the same
+    // component using the UnionFind data structure
+    const auto nn_buffer_query = searcher(search::buffer::WithUnionFind(searcher.features_range_first(query_index),
+                                                                        searcher.features_range_last(query_index),
+                                                                        forest.get_union_find_const_reference(),
+                                                                        component_representative,
+                                                                        /*max_capacity=*/static_cast<IndexType>(1)));
+
+    // the furthest nearest neighbor is also the closest in this case since we query only 1 neighbor
+    const auto nearest_neighbor_index    = nn_buffer_query.furthest_index();
+    const auto nearest_neighbor_distance = nn_buffer_query.furthest_distance();
+
+    auto shortest_edge = EdgeType{
+        query_index,
+        nearest_neighbor_index,
+        std::max({core_distances[query_index], core_distances[nearest_neighbor_index], nearest_neighbor_distance})};
+
+    // The core distance of the nearest neighbor dominates: another sample that is further away than the nearest
+    // neighbor, but inside of the ball that has the current mutual reachability distance as a radius, could be better.
+    if (std::get<2>(shortest_edge) > std::max(core_distances[query_index], nearest_neighbor_distance)) {
+        const auto candidates_buffer = searcher(search::buffer::WithUnionFind(
+            datastruct::bounds::BallView(searcher.features_range_first(query_index),
+                                         searcher.features_range_last(query_index),
+                                         std::get<2>(shortest_edge)),
+            forest.get_union_find_const_reference(),
+            component_representative));
+
+        for (std::size_t buffer_index = 0; buffer_index < candidates_buffer.size(); ++buffer_index) {
+            const auto candidate_index    = candidates_buffer.indices_const_ref()[buffer_index];
+            const auto candidate_distance = candidates_buffer.distances_const_ref()[buffer_index];
+
+            const auto k_mutual_reachability_distance =
+                std::max({core_distances[query_index], core_distances[candidate_index], candidate_distance});
+
+            if (k_mutual_reachability_distance < std::get<2>(shortest_edge)) {
+                shortest_edge = EdgeType{query_index, candidate_index, k_mutual_reachability_distance};
+            }
+        }
+    }
+    return shortest_edge;
+}
+
 template <typename Indexer>
 void BoruvkasAlgorithm<Indexer>::step_sequential(const search::Searcher<Indexer>& searcher, Forest& forest) const {
     // keep track of the shortest edge from a component's sample index to a sample index thats not within the
@@ -290,28 +346,13 @@ void BoruvkasAlgorithm<Indexer>::step_sequential(const search::Searcher<Indexer>
         components_closest_edge[component_representative] = datastruct::mst::make_default_edge<IndexType, ValueType>();
 
         for (const auto& query_index : component) {
-            // initialize a nearest neighbor buffer to compare the query_index with sample indices that don't belong to
-            // the same component using the UnionFind data structure
-            auto nn_buffer_query = searcher(search::buffer::WithUnionFind(searcher.features_range_first(query_index),
-                                                                          searcher.features_range_last(query_index),
-                                                                          forest.get_union_find_const_reference(),
-                                                                          component_representative,
-                                                                          /*max_capacity=*/static_cast<IndexType>(1)));
-
-            // the furthest nearest neighbor is also the closest in this case since we query only 1 neighbor
-            const auto nearest_neighbor_index    = nn_buffer_query.furthest_index();
-            const auto nearest_neighbor_distance = nn_buffer_query.furthest_distance();
+            const auto mutual_reachability_edge = shortest_mutual_reachability_edge(
+                searcher, core_distances, forest, component_representative, query_index);
 
-            const auto current_closest_edge_distance = std::get<2>(components_closest_edge[component_representative]);
-
-            const auto k_mutual_reachability_distance = std::max(
-                {core_distances[query_index], core_distances[nearest_neighbor_index], nearest_neighbor_distance});
-
-            // update the current shortest edge if the k_mutual_reachability_distance is indeed shortest than the
-            // current shortest edge distance
-            if (k_mutual_reachability_distance < current_closest_edge_distance) {
-                components_closest_edge[component_representative] =
-                    EdgeType{query_index, nearest_neighbor_index, k_mutual_reachability_distance};
+            // update the current shortest edge if the mutual reachability distance is indeed shorter than the current
+            // shortest edge distance
+            if (std::get<2>(mutual_reachability_edge) < std::get<2>(components_closest_edge[component_representative])) {
+                components_closest_edge[component_representative] = mutual_reachability_edge;
             }
         }
     }
@@ -390,27 +431,13 @@ void BoruvkasAlgorithm<Indexer>::dual_component_step_sequential(const search::Se
     auto closest_edge = datastruct::mst::make_default_edge<IndexType, ValueType>();
 
     for (const auto& query_index : smallest_component) {
-        // initialize a nearest neighbor buffer to compare the query_index with sample indices that don't belong to
-        // the same component using the UnionFind data structure
-        auto nn_buffer_query = searcher(search::buffer::WithUnionFind(searcher.features_range_first(query_index),
-                                                                      searcher.features_range_last(query_index),
-                                                                      forest.get_union_find_const_reference(),
-                                                                      smallest_component_representative,
-                                                                      /*max_capacity=*/static_cast<IndexType>(1)));
-
-        // the furthest nearest neighbor is also the closest in this case since we query only 1 neighbor
-        const auto nearest_neighbor_index    = nn_buffer_query.furthest_index();
-        const auto nearest_neighbor_distance = nn_buffer_query.furthest_distance();
-
-        const auto current_closest_edge_distance = std::get<2>(closest_edge);
-
-        const auto k_mutual_reachability_distance =
-            std::max({core_distances[query_index], core_distances[nearest_neighbor_index], nearest_neighbor_distance});
+        const auto mutual_reachability_edge = shortest_mutual_reachability_edge(
+            searcher, core_distances, forest, smallest_component_representative, query_index);
 
-        // update the current shortest edge if the k_mutual_reachability_distance is indeed shortest than the current
+        // update the current shortest edge if the mutual reachability distance is indeed shorter than the current
         // shortest edge distance
-        if (k_mutual_reachability_distance < current_closest_edge_distance) {
-            closest_edge = EdgeType{query_index, nearest_neighbor_index, k_mutual_reachability_distance};
+        if (std::get<2>(mutual_reachability_edge) < std::get<2>(closest_edge)) {
+            closest_edge = mutual_reachability_edge;
         }
     }
     // merge components based on the best edge found
-- 
2.43.0


From b2a38e0310d3a52cd49e7eb2d33b5b11a4b22d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:40 +0000
Subject: [PATCH 18/27] fix: DBSCAN left border samples as noise when they were
 visited before their cluster

---
 include/ffcl/dbscan/DBSCAN.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/ffcl/dbscan/DBSCAN.hpp b/include/ffcl/dbscan/DBSCAN.hpp
index b8baa24..ea061dc 100644
--- a/include/ffcl/dbscan/DBSCAN.hpp
+++ b/include/ffcl/dbscan/DBSCAN.hpp
@@ -174,12 +174,14 @@ void DBSCAN<Indexer>::predict_inner(NeighborsIndices&                neighbors_i
                 auto inner_neighbors_indices = std::move(inner_neighbors_buffer).indices();
 
                 // iterate over each neighbor's neighbors and add them to the neighbors to visit only if
-                // they havent been visited already
+                // they dont belong to a cluster already. A sample that was visited but considered as noise can still
+                // be a border sample of the current cluster
                 std::copy_if(std::make_move_iterator(inner_neighbors_indices.begin()),
                              std::make_move_iterator(inner_neighbors_indices.end()),
                              std::back_inserter(neighbors_indices),
-                             [&visited_indices](const auto& inner_neighbor_index) {
-                                 return !visited_indices[inner_neighbor_index];
+                             [&predictions](const auto& inner_neighbor_index) {
+                                 return predictions[inner_neighbor_index] ==
+                                        static_cast<LabelType>(SampleStatus::noise);
                              });
             }
         }
-- 
2.43.0


From 6fc433e29a0660c46f029e652446d73a76eebc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:49 +0000
Subject: [PATCH 19/27] fix: flat clusters of the single linkage tree merged
 groups that are separate at the cut level and reported a group as noise

---
 .../SingleLinkageClusterTree.hpp                         | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
index de72049..914b8c8 100644
--- a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
+++ b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
@@ -153,14 +153,15 @@ void SingleLinkageClusterTree<IndexType, ValueType>::preorder_traversal_single_l
     ClusterIndexType                   cluster_label,
     const SingleLinkageClusterNodePtr& single_linkage_cluster_node,
     std::vector<ClusterIndexType>&     flat_cluster) const {
-    // consider updating the cluster label for the descendant nodes only if we are above or at the desired cut level
+    // update the cluster label if the node isn't merged below the cut level
     // else the same cluster label will be used for all the descendant nodes from the current node
-    if (single_linkage_cluster_node->level_ >= options_.cut_level_) {
+    if (!single_linkage_cluster_node->has_parent() ||
+        single_linkage_cluster_node->parent_->level_ >= options_.cut_level_) {
         // set the cluster label as noise if the current node is parent of less than 'min cluster size' nodes
-        // else set the cluster label as the one at the current level
+        // else set the cluster label as the one at the current level, shifted by one since zero denotes noise
         cluster_label = single_linkage_cluster_node->size() < options_.min_cluster_size_
                             ? 0
-                            : single_linkage_cluster_node->representative_;
+                            : single_linkage_cluster_node->representative_ + 1;
     }
     // continue to traverse the tree if the current node is not leaf
     // a single linkage cluster node is guaranteed to have a left and a right child if its not leaf
-- 
2.43.0


From 094b5633093351cc6d542db4f00af73dc8bc2858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:12 +0000
Subject: [PATCH 20/27] fix: single linkage and condensed cluster trees leaked
 every node because parents and children own each other

---
 .../tree/condensed_cluster_tree/CondensedClusterNode.hpp  | 8 +++++---
 .../SingleLinkageClusterNode.hpp                          | 8 +++++---
 .../SingleLinkageClusterTree.hpp                          | 2 +-
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp
index ee2593e..db05015 100644
--- a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp
+++ b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp
@@ -45,8 +45,10 @@ struct CondensedClusterNode {
     // whether this node is marked as selected. Used for flat cluster extraction algorithm and might not be the actual
     // selected cluster if marked as true if shallower cluster nodes are also marked as selected.
     bool is_selected_;
-    // parent pointer used to parse from the leaves to the root and the left/right ones for the opposite direction
-    NodePtr parent_, left_, right_;
+    // parent pointer used to parse from the leaves to the root. It doesn't own the parent, which owns its children
+    std::weak_ptr<NodeType> parent_;
+    // left/right pointers used for the opposite direction
+    NodePtr left_, right_;
 };
 
 template <typename IndexType, typename ValueType>
@@ -54,7 +56,7 @@ CondensedClusterNode<IndexType, ValueType>::CondensedClusterNode(
     SingleLinkageClusterNodePtr single_linkage_cluster_node)
   : single_linkage_cluster_node_root_{single_linkage_cluster_node}
   , lambda_min_{single_linkage_cluster_node_root_->has_parent()
-                    ? common::division(1, single_linkage_cluster_node_root_->parent_->level_)
+                    ? common::division(1, single_linkage_cluster_node_root_->parent_.lock()->level_)
                     : 0}
   , stability_{0}
   , is_selected_{false} {}
diff --git a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp
index fe44a12..5aa9327 100644
--- a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp
+++ b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp
@@ -37,8 +37,10 @@ struct SingleLinkageClusterNode {
     ValueType level_;
     // the number of nodes that this node is an ancestor of (counting itself)
     std::size_t cluster_size_;
-    // parent pointer used to parse from the leaves to the root and the left/right ones for the opposite direction
-    NodePtr parent_, left_, right_;
+    // parent pointer used to parse from the leaves to the root. It doesn't own the parent, which owns its children
+    std::weak_ptr<NodeType> parent_;
+    // left/right pointers used for the opposite direction
+    NodePtr left_, right_;
 };
 
 template <typename IndexType, typename ValueType>
@@ -62,7 +64,7 @@ std::size_t SingleLinkageClusterNode<IndexType, ValueType>::size() const {
 
 template <typename IndexType, typename ValueType>
 bool SingleLinkageClusterNode<IndexType, ValueType>::has_parent() const {
-    return parent_ != nullptr;
+    return !parent_.expired();
 }
 
 template <typename IndexType, typename ValueType>
diff --git a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
index 914b8c8..22b37b7 100644
--- a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
+++ b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
@@ -156,7 +156,7 @@ void SingleLinkageClusterTree<IndexType, ValueType>::preorder_traversal_single_l
     // update the cluster label if the node isn't merged below the cut level
     // else the same cluster label will be used for all the descendant nodes from the current node
     if (!single_linkage_cluster_node->has_parent() ||
-        single_linkage_cluster_node->parent_->level_ >= options_.cut_level_) {
+        single_linkage_cluster_node->parent_.lock()->level_ >= options_.cut_level_) {
         // set the cluster label as noise if the current node is parent of less than 'min cluster size' nodes
         // else set the cluster label as the one at the current level, shifted by one since zero denotes noise
         cluster_label = single_linkage_cluster_node->size() < options_.min_cluster_size_
-- 
2.43.0


From c830db249b4c15f899d9aec20661c58fb258d409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:34 +0000
Subject: [PATCH 21/27] fix: samples at zero distance had no persistence, so
 duplicated samples lowered the stability of their cluster

---
 .../condensed_cluster_tree/CondensedClusterNode.hpp | 13 ++++++++++++-
 .../condensed_cluster_tree/CondensedClusterTree.hpp |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp
index db05015..63e2de5 100644
--- a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp
+++ b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp
@@ -4,6 +4,8 @@
 
 #include "ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp"
 
+#include <algorithm>
+#include <limits>
 #include <memory>
 
 namespace ffcl::datastruct {
@@ -24,6 +26,9 @@ struct CondensedClusterNode {
 
     CondensedClusterNode(SingleLinkageClusterNodePtr single_linkage_cluster_node);
 
+    // the lambda value: 1 / distance. It is the greatest value if the samples are not separated by any distance.
+    static ValueType lambda_value(const ValueType& level);
+
     bool is_leaf() const;
 
     bool& is_selected();
@@ -56,11 +61,17 @@ CondensedClusterNode<IndexType, ValueType>::CondensedClusterNode(
     SingleLinkageClusterNodePtr single_linkage_cluster_node)
   : single_linkage_cluster_node_root_{single_linkage_cluster_node}
   , lambda_min_{single_linkage_cluster_node_root_->has_parent()
-                    ? common::division(1, single_linkage_cluster_node_root_->parent_.lock()->level_)
+                    ? lambda_value(single_linkage_cluster_node_root_->parent_.lock()->level_)
                     : 0}
   , stability_{0}
   , is_selected_{false} {}
 
+template <typename IndexType, typename ValueType>
+ValueType CondensedClusterNode<IndexType, ValueType>::lambda_value(const ValueType& level) {
+    constexpr auto max_lambda_value = std::numeric_limits<ValueType>::max();
+    return level > 0 ? std::min(static_cast<ValueType>(1 / level), max_lambda_value) : max_lambda_value;
+}
+
 template <typename IndexType, typename ValueType>
 bool CondensedClusterNode<IndexType, ValueType>::is_leaf() const {
     return left_ == nullptr && right_ == nullptr;
diff --git a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp
index fd6628a..5a632e9 100644
--- a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp
+++ b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp
@@ -152,7 +152,7 @@ void CondensedClusterTree<IndexType, ValueType>::preorder_traversal_build(
             single_linkage_cluster_node->right_->size() >= options_.min_cluster_size_;
 
         // the lambda value needs to be computed for any of the if/else branches
-        const auto lambda_value = common::division(1, single_linkage_cluster_node->level_);
+        const auto lambda_value = CondensedClusterNodeType::lambda_value(single_linkage_cluster_node->level_);
 
         // if both children are split candidates (they hold enough samples to be considered as their own cluster), we
         // consider the event as a true split and split the condensed cluster node in two new condensed cluster nodes
-- 
2.43.0


From 36713079e44d37a720afc961eb7f82711d7f31b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:32 +0000
Subject: [PATCH 22/27] fix: a k-d tree or hierarchy that could not be written
 completely to its file was reported as saved

---
 include/ffcl/datastruct/tree/kdtree/KDTree.hpp              | 6 ++++++
 .../SingleLinkageClusterTree.hpp                            | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
index 9b16f91..8cda6a6 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
@@ -19,6 +19,7 @@
 #include <cstddef>  // std::size_t
 #include <limits>
 #include <memory>
+#include <stdexcept>
 #include <tuple>
 
 #include "rapidjson/document.h"
@@ -462,6 +463,11 @@ void KDTree<IndicesIterator, SamplesIterator>::serialize(const fs::path& filepat
     document.Accept(filewriter);
 
     output_file.close();
+
+    // the file could not be opened, or not all of it could be written
+    if (output_file.fail()) {
+        throw std::runtime_error("Failed to write " + filepath.string());
+    }
 }
 
 }  // namespace ffcl::datastruct
\ No newline at end of file
diff --git a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
index 22b37b7..39cc6cb 100644
--- a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
+++ b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
@@ -6,6 +6,7 @@
 
 #include <memory>
 #include <numeric>
+#include <stdexcept>
 #include <unordered_map>
 #include <vector>
 
@@ -283,6 +284,11 @@ void SingleLinkageClusterTree<IndexType, ValueType>::serialize(const fs::path& f
     document.Accept(filewriter);
 
     output_file.close();
+
+    // the file could not be opened, or not all of it could be written
+    if (output_file.fail()) {
+        throw std::runtime_error("Failed to write " + filepath.string());
+    }
 }
 
 }  // namespace ffcl::datastruct
\ No newline at end of file
-- 
2.43.0


From 2699e91e9c8c716cd28dcefb8df5347752c1c4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:32 +0000
Subject: [PATCH 23/27] fix: a moved k-d tree saved an undefined number of
 samples

---
 include/ffcl/datastruct/tree/kdtree/KDTree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
index 8cda6a6..88c26ed 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
@@ -246,6 +246,7 @@ KDTree<IndicesIterator, SamplesIterator>::KDTree(KDTree&& other) noexcept
   : options_{std::move(other.options_)}
   , samples_range_first_{std::move(other.samples_range_first_)}
   , samples_range_last_{std::move(other.samples_range_last_)}
+  , n_samples_{std::move(other.n_samples_)}
   , n_features_{std::move(other.n_features_)}
   , bound_{std::move(other.bound_)}
   , root_{std::move(other.root_)} {}
-- 
2.43.0


From 2f98878e526378f6c0466732cbf55053d116f73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:32 +0000
Subject: [PATCH 24/27] fix: the timer measured elapsed time with the wall
 clock, which may be adjusted while it runs

---
 include/ffcl/common/Timer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/Timer.hpp b/include/ffcl/common/Timer.hpp
index 0ceab10..c940b5d 100644
--- a/include/ffcl/common/Timer.hpp
+++ b/include/ffcl/common/Timer.hpp
@@ -17,7 +17,7 @@ using Nanoseconds  = std::chrono::nanoseconds;
 
 template <typename DurationType = std::chrono::seconds>
 class Timer {
-    using ClockType = std::chrono::system_clock;
+    using ClockType = std::chrono::steady_clock;
 
   public:
     Timer();
-- 
2.43.0


From 50a2d0817b6e5b4172d97b6016e5412f81c8bed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:13 +0000
Subject: [PATCH 25/27] fix: running out of memory for the core distances
 terminated the process instead of throwing

---
 .../ffcl/datastruct/graph/spanning_tree/CoreDistances.hpp   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ffcl/datastruct/graph/spanning_tree/CoreDistances.hpp b/include/ffcl/datastruct/graph/spanning_tree/CoreDistances.hpp
index 736198c..80041be 100644
--- a/include/ffcl/datastruct/graph/spanning_tree/CoreDistances.hpp
+++ b/include/ffcl/datastruct/graph/spanning_tree/CoreDistances.hpp
@@ -10,7 +10,7 @@ namespace ffcl::datastruct::mst {
 template <typename Value>
 class CoreDistancesArray {
   public:
-    CoreDistancesArray(std::size_t size) noexcept;
+    CoreDistancesArray(std::size_t size);
 
     Value& operator[](std::size_t index);
 
@@ -22,9 +22,9 @@ class CoreDistancesArray {
 };
 
 template <typename Value>
-CoreDistancesArray<Value>::CoreDistancesArray(std::size_t size) noexcept
+CoreDistancesArray<Value>::CoreDistancesArray(std::size_t size)
   : data_{std::make_unique<Value[]>(size)}
-  , size_{size_} {}
+  , size_{size} {}
 
 template <typename Value>
 Value& CoreDistancesArray<Value>::operator[](std::size_t index) {
-- 
2.43.0


From 6bc0d970e1871f162ecf041346cc077f1127f970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:34 +0000
Subject: [PATCH 26/27] fix: report a save that failed by the return value,
 callers may save to folders that do not exist

---
 include/ffcl/datastruct/tree/kdtree/KDTree.hpp        | 11 ++++-------
 .../SingleLinkageClusterTree.hpp                      | 11 ++++-------
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
index 88c26ed..ad56132 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
@@ -19,7 +19,6 @@
 #include <cstddef>  // std::size_t
 #include <limits>
 #include <memory>
-#include <stdexcept>
 #include <tuple>
 
 #include "rapidjson/document.h"
@@ -167,7 +166,8 @@ class KDTree {
 
     void serialize(const NodePtr& kdnode, rapidjson::Writer<rapidjson::StringBuffer>& writer) const;
 
-    void serialize(const fs::path& filepath) const;
+    // returns false if the file could not be opened, or not all of it could be written
+    bool serialize(const fs::path& filepath) const;
 
   private:
     NodePtr build(const IndicesIterator& indices_range_first,
@@ -411,7 +411,7 @@ void KDTree<IndicesIterator, SamplesIterator>::serialize(const NodePtr&
 }
 
 template <typename IndicesIterator, typename SamplesIterator>
-void KDTree<IndicesIterator, SamplesIterator>::serialize(const fs::path& filepath) const {
+bool KDTree<IndicesIterator, SamplesIterator>::serialize(const fs::path& filepath) const {
     static_assert(std::is_floating_point_v<DataType> || std::is_integral_v<DataType>,
                   "Unsupported type during kdtree serialization");
 
@@ -465,10 +465,7 @@ void KDTree<IndicesIterator, SamplesIterator>::serialize(const fs::path& filepat
 
     output_file.close();
 
-    // the file could not be opened, or not all of it could be written
-    if (output_file.fail()) {
-        throw std::runtime_error("Failed to write " + filepath.string());
-    }
+    return !output_file.fail();
 }
 
 }  // namespace ffcl::datastruct
\ No newline at end of file
diff --git a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
index 39cc6cb..34aac01 100644
--- a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
+++ b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
@@ -6,7 +6,6 @@
 
 #include <memory>
 #include <numeric>
-#include <stdexcept>
 #include <unordered_map>
 #include <vector>
 
@@ -79,7 +78,8 @@ class SingleLinkageClusterTree {
 
     void print() const;
 
-    void serialize(const fs::path& filepath) const;
+    // returns false if the file could not be opened, or not all of it could be written
+    bool serialize(const fs::path& filepath) const;
 
   private:
     auto build() -> SingleLinkageClusterNodePtr;
@@ -259,7 +259,7 @@ void SingleLinkageClusterTree<IndexType, ValueType>::serialize(
 }
 
 template <typename IndexType, typename ValueType>
-void SingleLinkageClusterTree<IndexType, ValueType>::serialize(const fs::path& filepath) const {
+bool SingleLinkageClusterTree<IndexType, ValueType>::serialize(const fs::path& filepath) const {
     rapidjson::Document document;
 
     rapidjson::StringBuffer buffer;
@@ -285,10 +285,7 @@ void SingleLinkageClusterTree<IndexType, ValueType>::serialize(const fs::path& f
 
     output_file.close();
 
-    // the file could not be opened, or not all of it could be written
-    if (output_file.fail()) {
-        throw std::runtime_error("Failed to write " + filepath.string());
-    }
+    return !output_file.fail();
 }
 
 }  // namespace ffcl::datastruct
\ No newline at end of file
-- 
2.43.0


From 26d7ffc684c4384704187ecbc972c456676e1d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:35 +0000
Subject: [PATCH 27/27] fix: build the alias table in double precision

The rounding errors of the single-precision sum and of the running
subtractions add up with the number of weights: with some ten thousand
float weights, entries of zero weight were left over and drawn.
---
 .../common/math/random/VosesAliasMethod.hpp     | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/ffcl/common/math/random/VosesAliasMethod.hpp b/include/ffcl/common/math/random/VosesAliasMethod.hpp
index 6f9b931..254aefa 100644
--- a/include/ffcl/common/math/random/VosesAliasMethod.hpp
+++ b/include/ffcl/common/math/random/VosesAliasMethod.hpp
@@ -54,8 +54,12 @@ VosesAliasMethod<Weight>::VosesAliasMethod(const std::vector<Weight>& weights)
 
 template <typename Weight>
 void VosesAliasMethod<Weight>::init(const std::vector<Weight>& weights) {
+    // the rounding errors of the sum and of the running subtractions below add up with the number of weights and would
+    // otherwise leave zero weights unpaired
+    using AccumulatorType = std::common_type_t<FloatType, double>;
+
     // normalized probabilities that do not sum to one
-    auto fake_probabilities = std::make_unique<FloatType[]>(n_weights_);
+    auto fake_probabilities = std::make_unique<AccumulatorType[]>(n_weights_);
     auto large              = std::make_unique<std::size_t[]>(n_weights_);
     auto small              = std::make_unique<std::size_t[]>(n_weights_);
 
@@ -63,16 +67,17 @@ void VosesAliasMethod<Weight>::init(const std::vector<Weight>& weights) {
     std::size_t n_large = 0;
 
     // normalization factor: n_weights / sum(weights)
-    const FloatType norm_fact = n_weights_ / std::accumulate(weights.begin(), weights.end(), static_cast<FloatType>(0));
+    const AccumulatorType norm_fact =
+        n_weights_ / std::accumulate(weights.begin(), weights.end(), static_cast<AccumulatorType>(0));
     // renormalization of the weights (sum(fake_probabilities) != 1, it's normal)
     std::transform(weights.begin(),
                    weights.end(),
                    fake_probabilities.get(),
-                   std::bind(std::multiplies<FloatType>(), std::placeholders::_1, norm_fact));
+                   std::bind(std::multiplies<AccumulatorType>(), std::placeholders::_1, norm_fact));
 
     // Use k as a size then shift by one in the loop body to get the index so that an unsighed type can be used.
     for (std::size_t weight_index = n_weights_; weight_index > 0; --weight_index) {
-        if (fake_probabilities[weight_index - 1] < static_cast<FloatType>(1)) {
+        if (fake_probabilities[weight_index - 1] < static_cast<AccumulatorType>(1)) {
             small[n_small++] = weight_index - 1;
 
         } else {
@@ -83,11 +88,11 @@ void VosesAliasMethod<Weight>::init(const std::vector<Weight>& weights) {
         const std::size_t small_index = small[--n_small];
         const std::size_t large_index = large[--n_large];
 
-        probabilities_[small_index] = fake_probabilities[small_index];
+        probabilities_[small_index] = static_cast<FloatType>(fake_probabilities[small_index]);
         alias_[small_index]         = large_index;
         fake_probabilities[large_index] += fake_probabilities[small_index] - 1;
 
-        if (fake_probabilities[large_index] < static_cast<FloatType>(1)) {
+        if (fake_probabilities[large_index] < static_cast<AccumulatorType>(1)) {
             small[n_small++] = large_index;
 
         } else {
-- 
2.43.0

