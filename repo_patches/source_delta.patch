From 8082bad2ec2098ef0fd91c499633c6da4008f14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:18 +0000
Subject: [PATCH 01/15] fix: hierarchical clustering of identical data points
 used one point as both centers

With a cluster of identical points the max distance search may return the
query point itself, the point was then moved into both new clusters and the
resulting clusters could be smaller than the size constraint.
---
 src/hierarchical_clustering.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hierarchical_clustering.c b/src/hierarchical_clustering.c
index 910ba91..9279516 100644
--- a/src/hierarchical_clustering.c
+++ b/src/hierarchical_clustering.c
@@ -796,6 +796,12 @@ static scc_ErrorCode iscc_hi_find_centers(iscc_hi_ClusterItem* const cl,
 		return iscc_make_error(SCC_ER_DIST_SEARCH_ERROR);
 	}
 
+	// When all data points in the cluster are identical, the search may return
+	// the query itself. Any other member does as the second center.
+	if (*out_center1 == *out_center2) {
+		*out_center2 = (cl->members[0] == *out_center1) ? cl->members[1] : cl->members[0];
+	}
+
 	return iscc_no_error();
 }
 
-- 
2.43.0


From f6d20b225c858496d21d241a0c91c6a1ac897990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:18 +0000
Subject: [PATCH 02/15] fix: size of largest cluster ignored the first cluster

The work area was too small when the first existing cluster is the largest,
so hierarchical clustering wrote outside it.
---
 src/hierarchical_clustering.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hierarchical_clustering.c b/src/hierarchical_clustering.c
index 9279516..e333e8e 100644
--- a/src/hierarchical_clustering.c
+++ b/src/hierarchical_clustering.c
@@ -335,7 +335,7 @@ static scc_ErrorCode iscc_hi_init_cl_stack(const scc_Clustering* const in_cl,
 		}
 	}
 
-	size_t size_largest_cluster = 0;
+	size_t size_largest_cluster = clusters[0].size;
 	clusters[0].members = out_cl_stack->pointindex_store + clusters[0].size;
 	for (size_t c = 1; c < in_cl->num_clusters; ++c) {
 		clusters[c].members = clusters[c - 1].members + clusters[c].size;
-- 
2.43.0


From fae2feaf0d28c63a32dcbcb584c492895d39a27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:18 +0000
Subject: [PATCH 03/15] fix: twice the size constraint overflowed 32 bits in
 hierarchical clustering

---
 src/hierarchical_clustering.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hierarchical_clustering.c b/src/hierarchical_clustering.c
index e333e8e..e099436 100644
--- a/src/hierarchical_clustering.c
+++ b/src/hierarchical_clustering.c
@@ -384,7 +384,7 @@ static scc_ErrorCode iscc_hi_run_hierarchical_clustering(iscc_hi_ClusterStack* c
 
 		iscc_hi_ClusterItem* current_cluster = &cl_stack->clusters[cl_stack->items - 1];
 
-		if (current_cluster->size < (2 * size_constraint)) {
+		if (current_cluster->size < (2 * ((size_t) size_constraint))) {
 			if (current_cluster->size > 0) {
 				if (current_label == SCC_CLABEL_MAX) {
 					return iscc_make_error_msg(SCC_ER_TOO_LARGE_PROBLEM, "Too many clusters (adjust the `scc_Clabel` type).");
@@ -459,7 +459,7 @@ static scc_ErrorCode iscc_hi_break_cluster_into_two(iscc_hi_ClusterItem* const c
                                                     iscc_hi_ClusterItem* const out_new_cluster)
 {
 	assert(cluster_to_break != NULL);
-	assert(cluster_to_break->size >= 2 * size_constraint);
+	assert(cluster_to_break->size >= 2 * ((size_t) size_constraint));
 	assert(cluster_to_break->members != NULL);
 	assert(iscc_check_data_set(data_set));
 	assert(work_area != NULL);
@@ -537,7 +537,7 @@ static scc_ErrorCode iscc_hi_break_cluster_into_two(iscc_hi_ClusterItem* const c
 
 	assert((cluster1->size == size_constraint) && (cluster2->size == size_constraint));
 
-	num_unassigned -= 2 * size_constraint;
+	num_unassigned -= 2 * ((size_t) size_constraint);
 
 	if (batch_assign) {
 		uint32_t num_assign_in_batch = size_constraint;
-- 
2.43.0


From 38b5f9eacabaa9d30c61ff7c899f622da8710e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:18 +0000
Subject: [PATCH 04/15] fix: all-zero type constraints made a union of no
 digraphs

The union read uninitialized digraphs. Fall back on the size constraint.
---
 src/nng_core.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/nng_core.c b/src/nng_core.c
index 358ce44..ba96031 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -250,6 +250,23 @@ scc_ErrorCode iscc_get_nng_with_type_constraint(void* const data_set,
 		return ec;
 	}
 
+	if (tc.sum_type_constraints == 0) {
+		// No type is constrained, so only the general size constraint applies
+		free(tc.type_group_size);
+		free(tc.point_store);
+		free(tc.type_groups);
+		free(nng_by_type);
+		free(seedable);
+		return iscc_get_nng_with_size_constraint(data_set,
+		                                         num_data_points,
+		                                         size_constraint,
+		                                         len_primary_data_points,
+		                                         primary_data_points,
+		                                         radius_constraint,
+		                                         radius,
+		                                         out_nng);
+	}
+
 	uint_fast16_t num_non_zero_type_constraints = 0;
 	for (uint_fast16_t i = 0; i < num_types; ++i) {
 		if (type_constraints[i] > 0) {
-- 
2.43.0


From 8d25097d8b60eede6510eecbf799daa11d1495d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:18 +0000
Subject: [PATCH 05/15] fix: batch neighbor buffer size overflowed 32 bits

---
 src/nng_batch_clustering.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nng_batch_clustering.c b/src/nng_batch_clustering.c
index d4644f6..153d0e1 100644
--- a/src/nng_batch_clustering.c
+++ b/src/nng_batch_clustering.c
@@ -115,7 +115,7 @@ scc_ErrorCode scc_nng_clustering_batches(scc_Clustering* const clustering,
 	}
 
 	scc_PointIndex* const batch_indices = malloc(sizeof(scc_PointIndex[batch_size]));
-	scc_PointIndex* const out_indices = malloc(sizeof(scc_PointIndex[size_constraint * batch_size]));
+	scc_PointIndex* const out_indices = malloc(sizeof(scc_PointIndex[((size_t) size_constraint) * batch_size]));
 	bool* const assigned = calloc(clustering->num_data_points, sizeof(bool));
 	if ((batch_indices == NULL) || (out_indices == NULL) || (assigned == NULL)) {
 		free(batch_indices);
-- 
2.43.0


From 2ac35be3bc8d5492fbb7b1a65c46d5f3e39449b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:18 +0000
Subject: [PATCH 06/15] fix: check allocation of primary data point indicators
 in batch clustering

---
 src/nng_batch_clustering.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nng_batch_clustering.c b/src/nng_batch_clustering.c
index 153d0e1..901f658 100644
--- a/src/nng_batch_clustering.c
+++ b/src/nng_batch_clustering.c
@@ -141,6 +141,13 @@ scc_ErrorCode scc_nng_clustering_batches(scc_Clustering* const clustering,
 	bool* tmp_primary_data_points = NULL;
 	if (primary_data_points != NULL) {
 		tmp_primary_data_points = calloc(clustering->num_data_points, sizeof(bool));
+		if (tmp_primary_data_points == NULL) {
+			free(batch_indices);
+			free(out_indices);
+			free(assigned);
+			iscc_close_nn_search_object(&nn_search_object);
+			return iscc_make_error(SCC_ER_NO_MEMORY);
+		}
 		for (size_t i = 0; i < len_primary_data_points; ++i) {
 			tmp_primary_data_points[primary_data_points[i]] = true;
 		}
-- 
2.43.0


From 0fa09bb554ee94e70eb533814f58d322d8dd9903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:18 +0000
Subject: [PATCH 07/15] fix: out of memory handling when finding seeds by
 exclusion graph

A failed allocation was not returned (null pointer access), and the index
array leaked when the exclusion graph could not be made.
---
 src/nng_findseeds.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nng_findseeds.c b/src/nng_findseeds.c
index 45acca3..10ff499 100644
--- a/src/nng_findseeds.c
+++ b/src/nng_findseeds.c
@@ -320,7 +320,7 @@ static scc_ErrorCode iscc_findseeds_exclusion(const iscc_Digraph* const nng,
 	scc_PointIndex* tmp_index_not_excluded = malloc(sizeof(scc_PointIndex[nng->vertices]));
 	if (tmp_index_not_excluded == NULL) {
 		free(not_excluded);
-		iscc_make_error(SCC_ER_NO_MEMORY);
+		return iscc_make_error(SCC_ER_NO_MEMORY);
 	}
 	assert(nng->vertices <= ISCC_POINTINDEX_MAX);
 	const scc_PointIndex vertices_pi = (scc_PointIndex) nng->vertices; // If `scc_PointIndex` is signed
@@ -344,6 +344,7 @@ static scc_ErrorCode iscc_findseeds_exclusion(const iscc_Digraph* const nng,
 	iscc_Digraph exclusion_graph;
 	if ((ec = iscc_fs_exclusion_graph(nng, tmp_num_not_excluded, tmp_index_not_excluded, &exclusion_graph)) != SCC_ER_OK) {
 		free(not_excluded);
+		free(tmp_index_not_excluded);
 		return ec;
 	}
 
-- 
2.43.0


From 1d7a3478b2155d29e2efa7494a488d556b9d7ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:18 +0000
Subject: [PATCH 08/15] fix: check allocation of neighbor indices when
 assigning by search

---
 src/nng_core.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nng_core.c b/src/nng_core.c
index ba96031..9e6475a 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -1027,6 +1027,7 @@ static scc_ErrorCode iscc_assign_by_nn_search(scc_Clustering* const clustering,
 		out_ok_query = to_assign;
 	}
 	scc_PointIndex* const out_nn_indices = malloc(sizeof(scc_PointIndex[num_to_assign]));
+	if (out_nn_indices == NULL) return iscc_make_error(SCC_ER_NO_MEMORY);
 
 	if (!iscc_nearest_neighbor_search(nn_search_object,
 	                                  num_to_assign,
-- 
2.43.0


From 128c8ebf25287c2a51c5c3643a5b6d76f277399c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:41 +0000
Subject: [PATCH 09/15] fix: error code was taken as the number of points
 assigned by NNG

When out of memory, the code was added to the count and not reported.
---
 src/nng_core.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/nng_core.c b/src/nng_core.c
index 9e6475a..f9f618c 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -499,7 +499,12 @@ scc_ErrorCode iscc_make_nng_clusters_from_seeds(scc_Clustering* const clustering
 	// (NNG already contains radius constraint.)
 	if ((unassigned_method == SCC_UM_ANY_NEIGHBOR) ||
 	        (nng_is_ordered && (unassigned_method == SCC_UM_CLOSEST_ASSIGNED))) {
-		total_assigned += iscc_assign_by_nng(clustering, nng);
+		const size_t num_assigned_by_nng = iscc_assign_by_nng(clustering, nng);
+		if (num_assigned_by_nng == SIZE_MAX) {
+			free(seed_or_neighbor);
+			return iscc_make_error(SCC_ER_NO_MEMORY);
+		}
+		total_assigned += num_assigned_by_nng;
 
 		// Ignore remaining points if SCC_UM_ANY_NEIGHBOR
 		if (unassigned_method == SCC_UM_ANY_NEIGHBOR) {
@@ -980,7 +985,7 @@ static size_t iscc_assign_by_nng(scc_Clustering* const clustering,
 	assert(!iscc_digraph_is_empty(nng));
 
 	bool* const scratch = malloc(sizeof(bool[clustering->num_data_points]));
-	if (scratch == NULL) return iscc_make_error(SCC_ER_NO_MEMORY);
+	if (scratch == NULL) return SIZE_MAX; // Signals failed allocation, never a valid count
 	for (size_t i = 0; i < clustering->num_data_points; ++i) {
 		scratch[i] = (clustering->cluster_label[i] == SCC_CLABEL_NA);
 	}
-- 
2.43.0


From a86a27c5433286a0d28519f93a5436df849916bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:41 +0000
Subject: [PATCH 10/15] fix: report errors when assigning points with the
 secondary unassigned method

---
 src/nng_core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nng_core.c b/src/nng_core.c
index f9f618c..ff7da1b 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -652,7 +652,7 @@ scc_ErrorCode iscc_make_nng_clusters_from_seeds(scc_Clustering* const clustering
 		iscc_close_nn_search_object(&nn_seed_search_object);
 	}
 
-	return iscc_no_error();
+	return ec;
 }
 
 
-- 
2.43.0


From 2f36d5247a0b92fd0cc8d2387d90718179cb9166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:11 +0000
Subject: [PATCH 11/15] fix: primary radius was ignored for points assigned to
 closest by NNG

With SCC_UM_CLOSEST_ASSIGNED and a size constrained (ordered) NNG, points were
assigned to the closest assigned neighbor in the NNG also when it is farther
away than the primary radius.
---
 src/nng_clustering.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/nng_clustering.c b/src/nng_clustering.c
index 0dcabbf..ab1b79e 100644
--- a/src/nng_clustering.c
+++ b/src/nng_clustering.c
@@ -222,11 +222,17 @@ static scc_ErrorCode iscc_make_clustering_from_nng(scc_Clustering* const cluster
 		}
 	}
 
+	// The NNG contains arcs up to the seed radius, so it cannot be used to find
+	// the closest assigned points when these must be within a smaller radius.
+	const bool closest_assigned_by_nng = (primary_radius == SCC_RM_NO_RADIUS) ||
+	                                     ((options->seed_radius == SCC_RM_USE_SUPPLIED) &&
+	                                      (options->seed_supplied_radius <= primary_supplied_radius));
+
 	ec = iscc_make_nng_clusters_from_seeds(clustering,
 	                                       data_set,
 	                                       &seed_result,
 	                                       nng,
-	                                       (options->num_types < 2),
+	                                       (options->num_types < 2) && closest_assigned_by_nng,
 	                                       options->primary_unassigned_method,
 	                                       (primary_radius == SCC_RM_USE_SUPPLIED),
 	                                       primary_supplied_radius,
-- 
2.43.0


From 7618a9faa7792e17734c53dadf6498af508d1ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:37 +0000
Subject: [PATCH 12/15] fix: failed hierarchical clustering left labels beyond
 the number of clusters

When splitting an existing clustering failed midway (e.g., out of memory), some
labels were already overwritten while the number of clusters was not updated,
so that later calls with the same object accessed memory out of bounds.
---
 src/hierarchical_clustering.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/hierarchical_clustering.c b/src/hierarchical_clustering.c
index e099436..b682000 100644
--- a/src/hierarchical_clustering.c
+++ b/src/hierarchical_clustering.c
@@ -374,11 +374,19 @@ static scc_ErrorCode iscc_hi_run_hierarchical_clustering(iscc_hi_ClusterStack* c
 	assert(work_area != NULL);
 	assert(size_constraint >= 2);
 
+	// Collect labels separately so that `cl` is left as is if there is an error
+	scc_Clabel* const new_labels = malloc(sizeof(scc_Clabel[cl->num_data_points]));
+	if (new_labels == NULL) return iscc_make_error(SCC_ER_NO_MEMORY);
+	for (size_t i = 0; i < cl->num_data_points; ++i) {
+		new_labels[i] = SCC_CLABEL_NA;
+	}
+
 	scc_ErrorCode ec;
 	scc_Clabel current_label = 0;
 	while (cl_stack->items > 0) {
 
 		if ((ec = iscc_hi_check_capacity(cl_stack)) != SCC_ER_OK) {
+			free(new_labels);
 			return ec;
 		}
 
@@ -387,10 +395,11 @@ static scc_ErrorCode iscc_hi_run_hierarchical_clustering(iscc_hi_ClusterStack* c
 		if (current_cluster->size < (2 * ((size_t) size_constraint))) {
 			if (current_cluster->size > 0) {
 				if (current_label == SCC_CLABEL_MAX) {
+					free(new_labels);
 					return iscc_make_error_msg(SCC_ER_TOO_LARGE_PROBLEM, "Too many clusters (adjust the `scc_Clabel` type).");
 				}
 				for (size_t v = 0; v < current_cluster->size; ++v) {
-					cl->cluster_label[current_cluster->members[v]] = current_label;
+					new_labels[current_cluster->members[v]] = current_label;
 				}
 				++current_label;
 			}
@@ -404,11 +413,16 @@ static scc_ErrorCode iscc_hi_run_hierarchical_clustering(iscc_hi_ClusterStack* c
 			                                         size_constraint,
 			                                         batch_assign,
 			                                         new_cluster)) != SCC_ER_OK) {
+				free(new_labels);
 				return ec;
 			}
 		}
 	}
 
+	for (size_t i = 0; i < cl->num_data_points; ++i) {
+		cl->cluster_label[i] = new_labels[i];
+	}
+	free(new_labels);
 	cl->num_clusters = (size_t) current_label;
 
 	assert(cl_stack->items == 0);
-- 
2.43.0


From 4a2c509294a1399d8e4095fc822d60c1f677d86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:07 +0000
Subject: [PATCH 13/15] fix: failed assignment left a partial clustering that
 could not be reused

When assigning unassigned points failed, the number of clusters was already set
so that the clustering object was refused in subsequent calls.
---
 src/nng_clustering.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nng_clustering.c b/src/nng_clustering.c
index ab1b79e..56f2ee3 100644
--- a/src/nng_clustering.c
+++ b/src/nng_clustering.c
@@ -243,5 +243,9 @@ static scc_ErrorCode iscc_make_clustering_from_nng(scc_Clustering* const cluster
 	                                       secondary_supplied_radius);
 
 	free(seed_result.seeds);
+
+	// Do not leave partially derived clusterings behind
+	if (ec != SCC_ER_OK) clustering->num_clusters = 0;
+
 	return ec;
 }
-- 
2.43.0


From 617e5335680a4a6b98c7e1f1fb9be85f2c007cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:52 +0000
Subject: [PATCH 14/15] fix: size of the batch neighbor buffer could wrap
 around

---
 src/nng_batch_clustering.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nng_batch_clustering.c b/src/nng_batch_clustering.c
index 901f658..2fafbf6 100644
--- a/src/nng_batch_clustering.c
+++ b/src/nng_batch_clustering.c
@@ -115,7 +115,7 @@ scc_ErrorCode scc_nng_clustering_batches(scc_Clustering* const clustering,
 	}
 
 	scc_PointIndex* const batch_indices = malloc(sizeof(scc_PointIndex[batch_size]));
-	scc_PointIndex* const out_indices = malloc(sizeof(scc_PointIndex[((size_t) size_constraint) * batch_size]));
+	scc_PointIndex* const out_indices = calloc(((size_t) size_constraint) * batch_size, sizeof(scc_PointIndex)); // checks that the size fits
 	bool* const assigned = calloc(clustering->num_data_points, sizeof(bool));
 	if ((batch_indices == NULL) || (out_indices == NULL) || (assigned == NULL)) {
 		free(batch_indices);
-- 
2.43.0


From e351612c00beb50123f399aeccd085ece140b86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:20 +0000
Subject: [PATCH 15/15] fix: size of the distance scratch of the statistics
 could wrap around

---
 src/utilities.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utilities.c b/src/utilities.c
index b9d2028..987d964 100644
--- a/src/utilities.c
+++ b/src/utilities.c
@@ -239,7 +239,7 @@ scc_ErrorCode scc_get_clustering_stats(void* const data_set,
 	const size_t largest_dist_matrix = (tmp_stats.max_cluster_size * (tmp_stats.max_cluster_size - 1)) / 2;
 	scc_PointIndex* const id_store = malloc(sizeof(scc_PointIndex[tmp_stats.num_assigned]));
 	scc_PointIndex** const cl_members = malloc(sizeof(scc_PointIndex*[clustering->num_clusters]));
-	double* const dist_scratch = malloc(sizeof(double[largest_dist_matrix]));
+	double* const dist_scratch = calloc(largest_dist_matrix, sizeof(double)); // checks that the size fits
 	if ((id_store == NULL) || (cl_members == NULL) || (dist_scratch == NULL)) {
 		free(cluster_size);
 		free(id_store);
-- 
2.43.0

