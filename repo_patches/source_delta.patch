From 43e15b533843b4800ce8eae86c87cae850b6e010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:03 +0000
Subject: [PATCH 01/19] fix: report failed search when assigning points with
 the secondary method

---
 src/nng_core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nng_core.c b/src/nng_core.c
index 358ce44..e3fe204 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -630,7 +630,7 @@ scc_ErrorCode iscc_make_nng_clusters_from_seeds(scc_Clustering* const clustering
 		iscc_close_nn_search_object(&nn_seed_search_object);
 	}
 
-	return iscc_no_error();
+	return ec;
 }
 
 
-- 
2.43.0


From d3ef31ab1088735abaa231b9761a1f4552e07acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:03 +0000
Subject: [PATCH 02/19] fix: do not treat a memory error as a number of
 assigned points

---
 src/nng_core.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/nng_core.c b/src/nng_core.c
index e3fe204..fd597c7 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -482,7 +482,12 @@ scc_ErrorCode iscc_make_nng_clusters_from_seeds(scc_Clustering* const clustering
 	// (NNG already contains radius constraint.)
 	if ((unassigned_method == SCC_UM_ANY_NEIGHBOR) ||
 	        (nng_is_ordered && (unassigned_method == SCC_UM_CLOSEST_ASSIGNED))) {
-		total_assigned += iscc_assign_by_nng(clustering, nng);
+		const size_t num_assigned_by_nng = iscc_assign_by_nng(clustering, nng);
+		if (num_assigned_by_nng == SIZE_MAX) {
+			free(seed_or_neighbor);
+			return iscc_make_error(SCC_ER_NO_MEMORY);
+		}
+		total_assigned += num_assigned_by_nng;
 
 		// Ignore remaining points if SCC_UM_ANY_NEIGHBOR
 		if (unassigned_method == SCC_UM_ANY_NEIGHBOR) {
@@ -963,7 +968,7 @@ static size_t iscc_assign_by_nng(scc_Clustering* const clustering,
 	assert(!iscc_digraph_is_empty(nng));
 
 	bool* const scratch = malloc(sizeof(bool[clustering->num_data_points]));
-	if (scratch == NULL) return iscc_make_error(SCC_ER_NO_MEMORY);
+	if (scratch == NULL) return SIZE_MAX;
 	for (size_t i = 0; i < clustering->num_data_points; ++i) {
 		scratch[i] = (clustering->cluster_label[i] == SCC_CLABEL_NA);
 	}
-- 
2.43.0


From 0b525ca94628f433761db8d40523c42bab8e78c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:03 +0000
Subject: [PATCH 03/19] fix: check allocation before searching for clusters of
 unassigned points

---
 src/nng_core.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nng_core.c b/src/nng_core.c
index fd597c7..0ef5e38 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -1015,6 +1015,7 @@ static scc_ErrorCode iscc_assign_by_nn_search(scc_Clustering* const clustering,
 		out_ok_query = to_assign;
 	}
 	scc_PointIndex* const out_nn_indices = malloc(sizeof(scc_PointIndex[num_to_assign]));
+	if (out_nn_indices == NULL) return iscc_make_error(SCC_ER_NO_MEMORY);
 
 	if (!iscc_nearest_neighbor_search(nn_search_object,
 	                                  num_to_assign,
-- 
2.43.0


From bb66520a65207ae26f52cb00779e855ab819d7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:03 +0000
Subject: [PATCH 04/19] fix: handle failed allocations when finding seeds with
 the exclusion graph

---
 src/nng_findseeds.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nng_findseeds.c b/src/nng_findseeds.c
index 45acca3..10ff499 100644
--- a/src/nng_findseeds.c
+++ b/src/nng_findseeds.c
@@ -320,7 +320,7 @@ static scc_ErrorCode iscc_findseeds_exclusion(const iscc_Digraph* const nng,
 	scc_PointIndex* tmp_index_not_excluded = malloc(sizeof(scc_PointIndex[nng->vertices]));
 	if (tmp_index_not_excluded == NULL) {
 		free(not_excluded);
-		iscc_make_error(SCC_ER_NO_MEMORY);
+		return iscc_make_error(SCC_ER_NO_MEMORY);
 	}
 	assert(nng->vertices <= ISCC_POINTINDEX_MAX);
 	const scc_PointIndex vertices_pi = (scc_PointIndex) nng->vertices; // If `scc_PointIndex` is signed
@@ -344,6 +344,7 @@ static scc_ErrorCode iscc_findseeds_exclusion(const iscc_Digraph* const nng,
 	iscc_Digraph exclusion_graph;
 	if ((ec = iscc_fs_exclusion_graph(nng, tmp_num_not_excluded, tmp_index_not_excluded, &exclusion_graph)) != SCC_ER_OK) {
 		free(not_excluded);
+		free(tmp_index_not_excluded);
 		return ec;
 	}
 
-- 
2.43.0


From 13ab064b0348b4fb7e595d5d06e086745e3a472a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:03 +0000
Subject: [PATCH 05/19] fix: avoid overflow when sizing the neighbor buffer in
 batch clustering

---
 src/nng_batch_clustering.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nng_batch_clustering.c b/src/nng_batch_clustering.c
index d4644f6..153d0e1 100644
--- a/src/nng_batch_clustering.c
+++ b/src/nng_batch_clustering.c
@@ -115,7 +115,7 @@ scc_ErrorCode scc_nng_clustering_batches(scc_Clustering* const clustering,
 	}
 
 	scc_PointIndex* const batch_indices = malloc(sizeof(scc_PointIndex[batch_size]));
-	scc_PointIndex* const out_indices = malloc(sizeof(scc_PointIndex[size_constraint * batch_size]));
+	scc_PointIndex* const out_indices = malloc(sizeof(scc_PointIndex[((size_t) size_constraint) * batch_size]));
 	bool* const assigned = calloc(clustering->num_data_points, sizeof(bool));
 	if ((batch_indices == NULL) || (out_indices == NULL) || (assigned == NULL)) {
 		free(batch_indices);
-- 
2.43.0


From 9c1eee04df826040bbd469aaab9226a43190a9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:03 +0000
Subject: [PATCH 06/19] fix: check allocation of primary data point indicators
 in batch clustering

---
 src/nng_batch_clustering.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nng_batch_clustering.c b/src/nng_batch_clustering.c
index 153d0e1..901f658 100644
--- a/src/nng_batch_clustering.c
+++ b/src/nng_batch_clustering.c
@@ -141,6 +141,13 @@ scc_ErrorCode scc_nng_clustering_batches(scc_Clustering* const clustering,
 	bool* tmp_primary_data_points = NULL;
 	if (primary_data_points != NULL) {
 		tmp_primary_data_points = calloc(clustering->num_data_points, sizeof(bool));
+		if (tmp_primary_data_points == NULL) {
+			free(batch_indices);
+			free(out_indices);
+			free(assigned);
+			iscc_close_nn_search_object(&nn_search_object);
+			return iscc_make_error(SCC_ER_NO_MEMORY);
+		}
 		for (size_t i = 0; i < len_primary_data_points; ++i) {
 			tmp_primary_data_points[primary_data_points[i]] = true;
 		}
-- 
2.43.0


From 874f34adf454fa863c3d8d8e894ace3708e4d402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:03 +0000
Subject: [PATCH 07/19] fix: consider the first cluster when finding the
 largest existing cluster

---
 src/hierarchical_clustering.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hierarchical_clustering.c b/src/hierarchical_clustering.c
index 910ba91..34f5dd6 100644
--- a/src/hierarchical_clustering.c
+++ b/src/hierarchical_clustering.c
@@ -335,7 +335,7 @@ static scc_ErrorCode iscc_hi_init_cl_stack(const scc_Clustering* const in_cl,
 		}
 	}
 
-	size_t size_largest_cluster = 0;
+	size_t size_largest_cluster = clusters[0].size;
 	clusters[0].members = out_cl_stack->pointindex_store + clusters[0].size;
 	for (size_t c = 1; c < in_cl->num_clusters; ++c) {
 		clusters[c].members = clusters[c - 1].members + clusters[c].size;
-- 
2.43.0


From 249c84c0d735eca3134a693e82702585b0c887de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:22 +0000
Subject: [PATCH 08/19] fix: use two different centers when splitting a cluster
 of identical points

---
 src/hierarchical_clustering.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hierarchical_clustering.c b/src/hierarchical_clustering.c
index 34f5dd6..4de1c8a 100644
--- a/src/hierarchical_clustering.c
+++ b/src/hierarchical_clustering.c
@@ -796,6 +796,11 @@ static scc_ErrorCode iscc_hi_find_centers(iscc_hi_ClusterItem* const cl,
 		return iscc_make_error(SCC_ER_DIST_SEARCH_ERROR);
 	}
 
+	// If all points are at the same location, any two points can be centers
+	if (*out_center1 == *out_center2) {
+		*out_center2 = (cl->members[0] != *out_center1) ? cl->members[0] : cl->members[1];
+	}
+
 	return iscc_no_error();
 }
 
-- 
2.43.0


From b4eaf7eaea3f808fb8161e0f02688276c19e8693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:22 +0000
Subject: [PATCH 09/19] fix: handle type constraints that all are zero

---
 src/nng_core.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/nng_core.c b/src/nng_core.c
index 0ef5e38..6f88a5f 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -250,6 +250,23 @@ scc_ErrorCode iscc_get_nng_with_type_constraint(void* const data_set,
 		return ec;
 	}
 
+	if (tc.sum_type_constraints == 0) {
+		// No type is constrained, only the overall size constraint remains
+		free(seedable);
+		free(nng_by_type);
+		free(tc.type_group_size);
+		free(tc.point_store);
+		free(tc.type_groups);
+		return iscc_get_nng_with_size_constraint(data_set,
+		                                         num_data_points,
+		                                         size_constraint,
+		                                         len_primary_data_points,
+		                                         primary_data_points,
+		                                         radius_constraint,
+		                                         radius,
+		                                         out_nng);
+	}
+
 	uint_fast16_t num_non_zero_type_constraints = 0;
 	for (uint_fast16_t i = 0; i < num_types; ++i) {
 		if (type_constraints[i] > 0) {
-- 
2.43.0


From 6224e145f92482a9b64c9d23b7c802b83ec23f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:22 +0000
Subject: [PATCH 10/19] fix: reject missing options and radii that are not
 numbers

---
 src/utilities.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/utilities.c b/src/utilities.c
index b9d2028..4fe1e9c 100644
--- a/src/utilities.c
+++ b/src/utilities.c
@@ -330,6 +330,9 @@ scc_ErrorCode scc_get_clustering_stats(void* const data_set,
 scc_ErrorCode iscc_check_cluster_options(const scc_ClusterOptions* const options,
                                          const size_t num_data_points)
 {
+	if (options == NULL) {
+		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid options.");
+	}
 	if (options->options_version != ISCC_OPTIONS_STRUCT_VERSION) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Incompatible scc_ClusterOptions version.");
 	}
@@ -408,7 +411,7 @@ scc_ErrorCode iscc_check_cluster_options(const scc_ClusterOptions* const options
 			(options->seed_radius != SCC_RM_USE_SUPPLIED)) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid radius method.");
 	}
-	if ((options->seed_radius == SCC_RM_USE_SUPPLIED) && (options->seed_supplied_radius <= 0.0)) {
+	if ((options->seed_radius == SCC_RM_USE_SUPPLIED) && !(options->seed_supplied_radius > 0.0)) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid radius.");
 	}
 	if ((options->primary_radius != SCC_RM_NO_RADIUS) &&
@@ -417,7 +420,7 @@ scc_ErrorCode iscc_check_cluster_options(const scc_ClusterOptions* const options
 			(options->primary_radius != SCC_RM_USE_ESTIMATED)) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid radius method.");
 	}
-	if ((options->primary_radius == SCC_RM_USE_SUPPLIED) && (options->primary_supplied_radius <= 0.0)) {
+	if ((options->primary_radius == SCC_RM_USE_SUPPLIED) && !(options->primary_supplied_radius > 0.0)) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid radius.");
 	}
 	if ((options->secondary_radius != SCC_RM_NO_RADIUS) &&
@@ -426,7 +429,7 @@ scc_ErrorCode iscc_check_cluster_options(const scc_ClusterOptions* const options
 			(options->secondary_radius != SCC_RM_USE_ESTIMATED)) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid radius method.");
 	}
-	if ((options->secondary_radius == SCC_RM_USE_SUPPLIED) && (options->secondary_supplied_radius <= 0.0)) {
+	if ((options->secondary_radius == SCC_RM_USE_SUPPLIED) && !(options->secondary_supplied_radius > 0.0)) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid radius.");
 	}
 
-- 
2.43.0


From 52ed011ffd23e5f58919c71fcec65b2f51d734e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:22 +0000
Subject: [PATCH 11/19] fix: reject type labels and primary data points that
 are out of range

---
 src/utilities.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/utilities.c b/src/utilities.c
index 4fe1e9c..735e03e 100644
--- a/src/utilities.c
+++ b/src/utilities.c
@@ -369,6 +369,12 @@ scc_ErrorCode iscc_check_cluster_options(const scc_ClusterOptions* const options
 		if (options->type_labels == NULL) {
 			return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid type labels.");
 		}
+		for (size_t i = 0; i < num_data_points; ++i) {
+			// Negative labels wrap around if `scc_TypeLabel` is signed
+			if (((uintmax_t) options->type_labels[i]) >= options->num_types) {
+				return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid type labels.");
+			}
+		}
 	}
 
 	if ((options->seed_method != SCC_SM_LEXICAL) &&
@@ -388,6 +394,11 @@ scc_ErrorCode iscc_check_cluster_options(const scc_ClusterOptions* const options
 				return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "`primary_data_points` is not sorted.");
 			}
 		}
+		// Sorted, so enough to check the end points (negative indices wrap around if `scc_PointIndex` is signed)
+		if ((((uintmax_t) options->primary_data_points[0]) >= num_data_points) ||
+				(((uintmax_t) options->primary_data_points[options->len_primary_data_points - 1]) >= num_data_points)) {
+			return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid primary data points.");
+		}
 	}
 	if ((options->primary_data_points == NULL) && (options->len_primary_data_points > 0)) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid primary data points.");
-- 
2.43.0


From 80f619c7cc6705d8c7ce8af3be7be6d2bf143343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:22 +0000
Subject: [PATCH 12/19] fix: avoid overflow when checking the length of the
 data matrix

---
 src/data_set.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_set.c b/src/data_set.c
index 95d6191..53af849 100644
--- a/src/data_set.c
+++ b/src/data_set.c
@@ -63,7 +63,7 @@ scc_ErrorCode scc_init_data_set(const uint64_t num_data_points,
 	if (num_dimensions > UINT16_MAX) {
 		return iscc_make_error_msg(SCC_ER_TOO_LARGE_PROBLEM, "Too many data dimensions.");
 	}
-	if (len_data_matrix < num_data_points * num_dimensions) {
+	if (num_data_points > len_data_matrix / num_dimensions) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid data matrix.");
 	}
 	if (data_matrix == NULL) {
-- 
2.43.0


From 4b8d91eeeb1813c9ccc8cc52721f5bc4595c0475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:22 +0000
Subject: [PATCH 13/19] fix: leave the clustering empty when it could not be
 completed

---
 src/nng_clustering.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nng_clustering.c b/src/nng_clustering.c
index 0dcabbf..1bfe526 100644
--- a/src/nng_clustering.c
+++ b/src/nng_clustering.c
@@ -236,6 +236,11 @@ static scc_ErrorCode iscc_make_clustering_from_nng(scc_Clustering* const cluster
 	                                       (secondary_radius == SCC_RM_USE_SUPPLIED),
 	                                       secondary_supplied_radius);
 
+	if (ec != SCC_ER_OK) {
+		// Do not present a partial clustering as a result
+		clustering->num_clusters = 0;
+	}
+
 	free(seed_result.seeds);
 	return ec;
 }
-- 
2.43.0


From 143696c4316ff42bee956fac0604ac909adb077d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:30 +0000
Subject: [PATCH 14/19] fix: reject existing clusterings with labels that are
 out of range

---
 src/hierarchical_clustering.c | 8 ++++++++
 src/utilities.c               | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/hierarchical_clustering.c b/src/hierarchical_clustering.c
index 4de1c8a..abd7ed2 100644
--- a/src/hierarchical_clustering.c
+++ b/src/hierarchical_clustering.c
@@ -214,6 +214,14 @@ scc_ErrorCode scc_hierarchical_clustering(void* const data_set,
 			return ec;
 		}
 	} else {
+		for (size_t i = 0; i < out_clustering->num_data_points; ++i) {
+			// Negative labels wrap around if `scc_Clabel` is signed
+			if ((out_clustering->cluster_label[i] != SCC_CLABEL_NA) &&
+			        (((uintmax_t) out_clustering->cluster_label[i]) >= out_clustering->num_clusters)) {
+				return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid cluster labels.");
+			}
+		}
+
 		if ((ec = iscc_hi_init_cl_stack(out_clustering, &cl_stack, &size_largest_cluster)) != SCC_ER_OK) {
 			return ec;
 		}
diff --git a/src/utilities.c b/src/utilities.c
index 735e03e..e873e9c 100644
--- a/src/utilities.c
+++ b/src/utilities.c
@@ -192,6 +192,14 @@ scc_ErrorCode scc_get_clustering_stats(void* const data_set,
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Number of data points in data set does not match clustering object.");
 	}
 
+	for (size_t i = 0; i < clustering->num_data_points; ++i) {
+		// Negative labels wrap around if `scc_Clabel` is signed
+		if ((clustering->cluster_label[i] != SCC_CLABEL_NA) &&
+				(((uintmax_t) clustering->cluster_label[i]) >= clustering->num_clusters)) {
+			return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid cluster labels.");
+		}
+	}
+
 	size_t* const cluster_size = calloc(clustering->num_clusters, sizeof(size_t));
 	if (cluster_size == NULL) return iscc_make_error(SCC_ER_NO_MEMORY);
 
-- 
2.43.0


From 308b0d10922cb478a86350b1b82c53ca419b5bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:30 +0000
Subject: [PATCH 15/19] fix: keep the existing clustering when it could not be
 refined

---
 src/hierarchical_clustering.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/hierarchical_clustering.c b/src/hierarchical_clustering.c
index abd7ed2..212d523 100644
--- a/src/hierarchical_clustering.c
+++ b/src/hierarchical_clustering.c
@@ -26,6 +26,7 @@
 #include <stddef.h>
 #include <stdint.h>
 #include <stdlib.h>
+#include <string.h>
 #include "dist_search.h"
 #include "clustering_struct.h"
 #include "error.h"
@@ -248,6 +249,17 @@ scc_ErrorCode scc_hierarchical_clustering(void* const data_set,
 		ec = iscc_make_error(SCC_ER_NO_MEMORY);
 	}
 
+	// Existing labels are overwritten along the way, keep them so they can be restored on failure
+	scc_Clabel* existing_labels = NULL;
+	if ((ec == SCC_ER_OK) && (out_clustering->num_clusters > 0)) {
+		existing_labels = malloc(sizeof(scc_Clabel[out_clustering->num_data_points]));
+		if (existing_labels == NULL) {
+			ec = iscc_make_error(SCC_ER_NO_MEMORY);
+		} else {
+			memcpy(existing_labels, out_clustering->cluster_label, sizeof(scc_Clabel[out_clustering->num_data_points]));
+		}
+	}
+
 	if (ec == SCC_ER_OK) {
 		ec = iscc_hi_run_hierarchical_clustering(&cl_stack,
 		                                         out_clustering,
@@ -255,8 +267,12 @@ scc_ErrorCode scc_hierarchical_clustering(void* const data_set,
 		                                         &work_area,
 		                                         size_constraint,
 		                                         batch_assign);
+		if ((ec != SCC_ER_OK) && (existing_labels != NULL)) {
+			memcpy(out_clustering->cluster_label, existing_labels, sizeof(scc_Clabel[out_clustering->num_data_points]));
+		}
 	}
 
+	free(existing_labels);
 	free(work_area.pointindex_array1);
 	free(work_area.pointindex_array2);
 	free(work_area.dist_array);
-- 
2.43.0


From 84cd92a0f0980c7f94928c65fe7d9041eecb76e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:30 +0000
Subject: [PATCH 16/19] fix: leave the distance functions unchanged when the
 new set is incomplete

---
 src/scclust_spi.c | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/scclust_spi.c b/src/scclust_spi.c
index 5c84411..f43c33b 100644
--- a/src/scclust_spi.c
+++ b/src/scclust_spi.c
@@ -78,6 +78,17 @@ bool scc_set_dist_functions(scc_check_data_set check_data_set,
                             scc_nearest_neighbor_search nearest_neighbor_search,
                             scc_close_nn_search_object close_nn_search_object)
 {
+	// Functions for the search objects must be set together, check before changing anything
+	const int num_max_dist = (init_max_dist_object != NULL) +
+	                             (get_max_dist != NULL) +
+	                             (close_max_dist_object != NULL);
+	if ((num_max_dist != 0) && (num_max_dist != 3)) return false;
+
+	const int num_nn_search = (init_nn_search_object != NULL) +
+	                              (nearest_neighbor_search != NULL) +
+	                              (close_nn_search_object != NULL);
+	if ((num_nn_search != 0) && (num_nn_search != 3)) return false;
+
 	if (check_data_set != NULL) {
 		iscc_dist_functions.check_data_set = check_data_set;
 	}
@@ -94,28 +105,16 @@ bool scc_set_dist_functions(scc_check_data_set check_data_set,
 		iscc_dist_functions.get_dist_rows = get_dist_rows;
 	}
 
-	if (init_max_dist_object != NULL &&
-			get_max_dist != NULL &&
-			close_max_dist_object != NULL) {
+	if (num_max_dist == 3) {
 		iscc_dist_functions.init_max_dist_object = init_max_dist_object;
 		iscc_dist_functions.get_max_dist = get_max_dist;
 		iscc_dist_functions.close_max_dist_object = close_max_dist_object;
-	} else if (init_max_dist_object != NULL ||
-			get_max_dist != NULL ||
-			close_max_dist_object != NULL) {
-		return false;
 	}
 
-	if (init_nn_search_object != NULL &&
-			nearest_neighbor_search != NULL &&
-			close_nn_search_object != NULL) {
+	if (num_nn_search == 3) {
 		iscc_dist_functions.init_nn_search_object = init_nn_search_object;
 		iscc_dist_functions.nearest_neighbor_search = nearest_neighbor_search;
 		iscc_dist_functions.close_nn_search_object = close_nn_search_object;
-	} else if (init_nn_search_object != NULL ||
-			nearest_neighbor_search != NULL ||
-			close_nn_search_object != NULL) {
-		return false;
 	}
 
 	return true;
-- 
2.43.0


From 5c9fd48312198f64d2e04029c33ccce1c6128c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:51 +0000
Subject: [PATCH 17/19] fix: respect the primary radius when assigning points
 with the nearest neighbor graph

---
 src/nng_core.c | 73 ++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 71 insertions(+), 2 deletions(-)

diff --git a/src/nng_core.c b/src/nng_core.c
index 6f88a5f..aaea61b 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -99,6 +99,11 @@ static size_t iscc_assign_seeds_and_neighbors(scc_Clustering* clustering,
                                               iscc_Digraph* nng);
 
 
+static scc_ErrorCode iscc_apply_radius_to_nng(const scc_Clustering* clustering,
+                                              void* data_set,
+                                              iscc_Digraph* nng,
+                                              double radius);
+
 static size_t iscc_assign_by_nng(scc_Clustering* clustering,
                                  iscc_Digraph* nng);
 
@@ -496,9 +501,17 @@ scc_ErrorCode iscc_make_nng_clusters_from_seeds(scc_Clustering* const clustering
 	}
 
 	// Run assignment by nng. When nng is ordered, we can use it for `SCC_UM_CLOSEST_ASSIGNED` as well.
-	// (NNG already contains radius constraint.)
+	// (NNG only contains the radius constraint used for the seeds.)
 	if ((unassigned_method == SCC_UM_ANY_NEIGHBOR) ||
 	        (nng_is_ordered && (unassigned_method == SCC_UM_CLOSEST_ASSIGNED))) {
+		if (radius_constraint) {
+			const scc_ErrorCode ec_radius = iscc_apply_radius_to_nng(clustering, data_set, nng, radius);
+			if (ec_radius != SCC_ER_OK) {
+				free(seed_or_neighbor);
+				return ec_radius;
+			}
+		}
+
 		const size_t num_assigned_by_nng = iscc_assign_by_nng(clustering, nng);
 		if (num_assigned_by_nng == SIZE_MAX) {
 			free(seed_or_neighbor);
@@ -977,12 +990,68 @@ static size_t iscc_assign_seeds_and_neighbors(scc_Clustering* const clustering,
 }
 
 
+// Removes arcs longer than `radius` that have unassigned points as tails. Arcs with
+// assigned points as tails are not needed for the assignment and are removed as well.
+static scc_ErrorCode iscc_apply_radius_to_nng(const scc_Clustering* const clustering,
+                                              void* const data_set,
+                                              iscc_Digraph* const nng,
+                                              const double radius)
+{
+	assert(iscc_check_input_clustering(clustering));
+	assert(iscc_check_data_set(data_set));
+	assert(iscc_digraph_is_valid(nng));
+	assert(!iscc_digraph_is_empty(nng));
+	assert(radius > 0.0);
+
+	size_t max_neighbors = 1;
+	for (size_t i = 0; i < nng->vertices; ++i) {
+		const size_t num_neighbors = (nng->tail_ptr[i + 1] - nng->tail_ptr[i]);
+		if (max_neighbors < num_neighbors) max_neighbors = num_neighbors;
+	}
+
+	double* const dist_scratch = malloc(sizeof(double[max_neighbors]));
+	if (dist_scratch == NULL) return iscc_make_error(SCC_ER_NO_MEMORY);
+
+	iscc_ArcIndex head_write = 0;
+	assert(nng->vertices <= ISCC_POINTINDEX_MAX);
+	const scc_PointIndex vertices = (scc_PointIndex) nng->vertices; // If `scc_PointIndex` is signed
+	for (scc_PointIndex v = 0; v < vertices; ++v) {
+		const size_t num_neighbors = (nng->tail_ptr[v + 1] - nng->tail_ptr[v]);
+		const scc_PointIndex* const neighbors = nng->head + nng->tail_ptr[v];
+		nng->tail_ptr[v] = head_write;
+
+		if ((num_neighbors == 0) || (clustering->cluster_label[v] != SCC_CLABEL_NA)) continue;
+
+		if (!iscc_get_dist_rows(data_set,
+		                        1,
+		                        &v,
+		                        num_neighbors,
+		                        neighbors,
+		                        dist_scratch)) {
+			free(dist_scratch);
+			return iscc_make_error(SCC_ER_DIST_SEARCH_ERROR);
+		}
+
+		for (size_t i = 0; i < num_neighbors; ++i) {
+			if (dist_scratch[i] <= radius) {
+				nng->head[head_write] = neighbors[i];
+				++head_write;
+			}
+		}
+	}
+	nng->tail_ptr[vertices] = head_write;
+
+	free(dist_scratch);
+
+	return iscc_no_error();
+}
+
+
 static size_t iscc_assign_by_nng(scc_Clustering* const clustering,
                                  iscc_Digraph* const nng)
 {
 	assert(iscc_check_input_clustering(clustering));
 	assert(iscc_digraph_is_valid(nng));
-	assert(!iscc_digraph_is_empty(nng));
 
 	bool* const scratch = malloc(sizeof(bool[clustering->num_data_points]));
 	if (scratch == NULL) return SIZE_MAX;
-- 
2.43.0


From bb5ee9464a898aee3c836867f2faf9e2cfe8f6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:54 +0000
Subject: [PATCH 18/19] fix: avoid overflow when sizing the type counts of
 checked clusterings

---
 src/utilities.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utilities.c b/src/utilities.c
index e873e9c..42f67c2 100644
--- a/src/utilities.c
+++ b/src/utilities.c
@@ -138,7 +138,7 @@ scc_ErrorCode scc_check_clustering(const scc_Clustering* const clustering,
 
 	} else { // num_types >= 2
 
-		size_t* const cluster_type_sizes = calloc(num_types * clustering->num_clusters, sizeof(size_t));
+		size_t* const cluster_type_sizes = calloc(clustering->num_clusters, num_types * sizeof(size_t));
 		if (cluster_type_sizes == NULL) return iscc_make_error(SCC_ER_NO_MEMORY);
 
 		for (size_t i = 0; i < clustering->num_data_points; ++i) {
-- 
2.43.0


From 21a9656e528631824dd8aaa3f693f6b90555b49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:16 +0000
Subject: [PATCH 19/19] fix: avoid overflow when sizing the stack for existing
 clusters

---
 src/hierarchical_clustering.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hierarchical_clustering.c b/src/hierarchical_clustering.c
index 212d523..2e8dd08 100644
--- a/src/hierarchical_clustering.c
+++ b/src/hierarchical_clustering.c
@@ -215,6 +215,9 @@ scc_ErrorCode scc_hierarchical_clustering(void* const data_set,
 			return ec;
 		}
 	} else {
+		if (out_clustering->num_clusters > SIZE_MAX / sizeof(iscc_hi_ClusterItem)) {
+			return iscc_make_error_msg(SCC_ER_TOO_LARGE_PROBLEM, "Too many clusters.");
+		}
 		for (size_t i = 0; i < out_clustering->num_data_points; ++i) {
 			// Negative labels wrap around if `scc_Clabel` is signed
 			if ((out_clustering->cluster_label[i] != SCC_CLABEL_NA) &&
-- 
2.43.0

