#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code only so the long strings stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state, mechanism=mech, observe_at=observe, hook_needed=hook)))
def m(name, where): return dict(name=name, where=where)
def s(name, meaning, where): return dict(name=name, meaning=meaning, where=where)

p("C01", "Size-constrained clustering meets the size constraint",
  "Whenever scc_sc_clustering reports success, the clustering has at least one cluster, every data point is either unassigned or carries a label in [0, number of clusters), and every cluster contains at least `size_constraint` data points. This holds for every seed method (including batches), every radius, primary-point, type and unassigned-point option.",
  ["inputs", "configurations"], "all data sets, all option structs accepted by the library, all seed methods, all batch sizes",
  "The tests run a fixed list of 15- and 100-point data sets and compare with stored label vectors; the guarantee is over every data set, every option combination and every tie pattern.",
  ["src/nng_clustering.c", "src/nng_core.c", "src/nng_findseeds.c", "src/nng_batch_clustering.c", "src/digraph_operations.c"],
  [s("cluster_label", "label per data point", "src/clustering_struct.h"), s("nng", "nearest neighbour graph whose rows become clusters", "src/nng_core.c")],
  [m("each NNG row has size_constraint distinct points", "src/nng_core.c iscc_make_nng_from_search_object / iscc_ensure_self_match"), m("seeds have disjoint closed neighbourhoods", "src/nng_findseeds.c"), m("labels written once per seed", "src/nng_core.c iscc_assign_seeds_and_neighbors"), m("in-batch seed test", "src/nng_batch_clustering.c iscc_run_nng_batches")],
  ["labels and cluster count after scc_sc_clustering returned SCC_ER_OK"])
p("C02", "Type composition constraints are met by every cluster",
  "Whenever scc_sc_clustering succeeds with two or more data point types, every cluster contains, for every type t, at least `type_constraints[t]` data points of type t, in addition to at least `size_constraint` points in total. All-zero and partly-zero type constraint vectors are legitimate and are honoured as well. When leftover points are ignored, every cluster of a graph-based seed method is one (primary) seed with its `type_constraints[t]` nearest points of every type t, filled up with its nearest other points to at least `size_constraint` points, all of them within the seed radius if one is used.",
  ["inputs"], "all data sets, type label vectors, type constraint vectors, radii and primary sets",
  "Only a few fixed type vectors are tested, none with all-zero constraints and none that enumerate how rows of several type graphs combine.",
  ["src/nng_core.c", "src/digraph_operations.c", "src/nng_clustering.c"],
  [s("type_groups", "points partitioned by type", "src/nng_core.c iscc_TypeCount")],
  [m("per-type neighbour graphs united with tails that stay feasible", "src/nng_core.c iscc_get_nng_with_type_constraint"), m("counting sort of points by type", "src/nng_core.c iscc_type_count")],
  ["labels and type labels after success"])
p("C03", "Hierarchical clustering splits into valid clusters and only refines",
  "Whenever scc_hierarchical_clustering succeeds on an empty clustering, every data point is assigned and every cluster holds at least `size_constraint` and fewer than twice `size_constraint` points. On an existing clustering, points of one resulting cluster were all in one input cluster, unassigned points stay unassigned, every input cluster with at least `size_constraint` points is split only into clusters of at least `size_constraint` points, and no resulting cluster has twice `size_constraint` points or more; this includes data with ties and identical points.",
  ["inputs"], "all data sets (including duplicated points), size constraints, batch modes and existing clusterings",
  "Tests use two fixed data sets without duplicated points and existing clusterings whose first cluster is never the largest.",
  ["src/hierarchical_clustering.c", "src/dist_search_imp.c"],
  [s("cl_stack", "clusters still to be split, members stored contiguously", "src/hierarchical_clustering.c")],
  [m("split of a cluster around two centers", "src/hierarchical_clustering.c iscc_hi_break_cluster_into_two"), m("work area sized by the largest cluster", "src/hierarchical_clustering.c scc_hierarchical_clustering")],
  ["labels and cluster count after success"])
p("C04", "scc_check_clustering accepts exactly the valid clusterings",
  "For every initialized non-empty clustering and every accepted option struct, scc_check_clustering reports OK exactly when each label is unassigned or in range, every listed primary point is assigned, every cluster has at least `size_constraint` points and, with two or more types, at least `type_constraints[t]` points of each type t. It never modifies the clustering or the options.",
  ["inputs"], "all label vectors, cluster counts, size and type constraints, primary sets",
  "Tests check a handful of label vectors; both directions must hold for all of them, including empty clusters and labels just out of range.",
  ["src/utilities.c"],
  [s("out_is_OK", "verdict", "src/utilities.c scc_check_clustering")],
  [m("label range scan, primary scan, counting pass", "src/utilities.c scc_check_clustering")],
  ["verdict and error code of scc_check_clustering"])
p("C05", "Nearest neighbour search returns exactly the k nearest in radius",
  "For every query, the built-in nearest neighbour search returns k distinct search points ordered by distance such that no search point left out is strictly closer than any returned one. With a radius, all returned points are within it, and a query is reported exactly when at least k search points lie within the radius; without a radius every query is reported; reported queries keep their input order.",
  ["inputs"], "all data sets, query lists, search lists, k and radii",
  "Tests compare with stored answers for a few queries; ordering, ties, radius boundaries and query/search index lists combine in unboundedly many ways.",
  ["src/dist_search_imp.c"],
  [s("sort_scratch", "distances of the current best k", "src/dist_search_imp.c")],
  [m("bounded insertion into a sorted list", "src/dist_search_imp.c iscc_add_dist_to_list"), m("two-phase scan", "src/dist_search_imp.c iscc_imp_nearest_neighbor_search")],
  ["out_nn_indices, out_query_indices, out_num_ok_queries"])
p("C06", "Seeds are independent and maximal for every seed method",
  "For every nearest neighbour graph, each seed-finding method returns at least one seed whenever the graph has an arc, only vertices that have arcs, no vertex twice, and no two seeds whose closed out-neighbourhoods intersect. The set is maximal: every vertex with arcs that is not a seed has a closed out-neighbourhood that intersects that of some seed.",
  ["inputs"], "all digraphs and all five graph-based seed methods",
  "Tests compare seeds for a few stored graphs; independence and maximality are statements over all graphs, including those with isolated rows, loops and equal in-degrees.",
  ["src/nng_findseeds.c", "src/digraph_operations.c"],
  [s("marks", "vertices already covered by a seed", "src/nng_findseeds.c"), s("not_excluded", "vertices that may still be seeds", "src/nng_findseeds.c")],
  [m("mark scan", "src/nng_findseeds.c iscc_findseeds_lexical, iscc_findseeds_inwards"), m("exclusion graph", "src/nng_findseeds.c iscc_fs_exclusion_graph, iscc_findseeds_exclusion"), m("bucket queue with decrease", "src/nng_findseeds.c iscc_fs_sort_by_inwards, iscc_fs_decrease_v_in_sort")],
  ["seed result of iscc_find_seeds; core clusters of scc_sc_clustering"])
p("C07", "Digraph operations compute exactly the documented arc sets",
  "For all valid digraphs: deleting loops removes exactly the self-arcs; union keeps exactly the arcs present in some input (from kept tails, without self-arcs unless asked) once each; difference keeps, per vertex, the first arcs not in the subtrahend up to the limit; transpose reverses exactly every arc; the adjacency product has an arc exactly where a two-step path exists (or a one-step arc of the second graph when loops are forced), without self-arcs. Results are valid digraphs whose storage fits exactly the arcs, and the read-only inputs are unchanged.",
  ["inputs"], "all valid digraphs, keep lists and degree limits",
  "Tests compare with stored results for about a dozen graphs; exactness has to hold for all graphs, with empty rows, repeated arcs and self-loops, and on the slow path used when the first allocation does not fit.",
  ["src/digraph_operations.c", "src/digraph_core.c"],
  [s("tail_ptr/head", "row pointers and arc heads", "src/digraph_core.h"), s("row_markers", "last row in which a head was seen", "src/digraph_operations.c")],
  [m("in-place compaction", "src/digraph_operations.c iscc_delete_loops, iscc_digraph_difference"), m("row markers", "src/digraph_operations.c iscc_do_union_and_delete, iscc_do_adjacency_product"), m("counting transpose", "src/digraph_operations.c iscc_digraph_transpose")],
  ["tail_ptr, head and max_arcs of the produced digraph"])
p("C08", "Cluster cores are nearest neighbours within the seed radius",
  "Without type constraints and with leftover points ignored, every cluster produced by a graph-based seed method consists of one seed and its `size_constraint` - 1 nearest other points; the seed is a primary point if primary points were given; and with a seed radius every member is within that radius of the seed. No point becomes unassignable merely by tie-breaking: success is reported exactly when some (primary) point has `size_constraint` points within the radius, otherwise SCC_ER_NO_SOLUTION.",
  ["inputs"], "all data sets, size constraints, radii, primary sets, graph-based seed methods",
  "The tests use fixed data with few radii; feasibility at the boundary, duplicated points and primary sets are not covered in combination.",
  ["src/nng_core.c", "src/nng_clustering.c"],
  [s("nng", "rows only for queries with enough neighbours", "src/nng_core.c")],
  [m("row pointers built from accepted queries", "src/nng_core.c iscc_make_nng_from_search_object"), m("self match repair", "src/nng_core.c iscc_ensure_self_match")],
  ["labels, cluster count and error code"])
p("C09", "Leftover points are assigned as the chosen unassigned methods say",
  "After seeds and their neighbours are clustered, no later step changes their labels; a leftover point is left unassigned under IGNORE, and under ANY_NEIGHBOR receives the label of a graph neighbour that is a seed or a seed's neighbour whenever such a neighbour exists. Under CLOSEST_SEED and CLOSEST_ASSIGNED it receives the label of a closest seed or closest core point exactly when one lies within the applicable (primary or secondary, supplied, seed or estimated) radius; the primary method applies to primary points, the secondary method to all points still unassigned afterwards; a failing distance search is reported as an error.",
  ["inputs", "fault_sequences"], "all data sets, radii, primary sets and method combinations, and any failing distance search",
  "There are hundreds of method/radius/primary combinations and unboundedly many data sets; tests store results for a sample on one data set.",
  ["src/nng_core.c", "src/nng_clustering.c"],
  [s("scratch", "points unassigned before the graph pass", "src/nng_core.c iscc_assign_by_nng"), s("to_assign", "points to be searched for", "src/nng_core.c")],
  [m("graph pass", "src/nng_core.c iscc_assign_by_nng"), m("search pass", "src/nng_core.c iscc_assign_by_nn_search"), m("radius resolution", "src/nng_clustering.c iscc_make_clustering_from_nng")],
  ["labels and error code after scc_sc_clustering"])
p("C10", "Invalid inputs are rejected with the right code, valid ones accepted",
  "Option structs, data set and clustering arguments that violate a documented rule (version, size constraint, type arrays, primary list present/sorted, methods, radii, batch restrictions, point-count mismatch, existing clusters) are rejected by the public functions with the error code for that rule and leave the clustering object untouched; every option struct that violates no rule passes validation.",
  ["inputs"], "all option structs and argument combinations",
  "Validation is a decision over the product of about twenty fields; tests flip one field at a time.",
  ["src/utilities.c", "src/nng_clustering.c", "src/nng_batch_clustering.c", "src/hierarchical_clustering.c", "src/scclust.c", "src/data_set.c"],
  [s("scc_ClusterOptions", "all option fields", "templates/scclust.h")],
  [m("option validation", "src/utilities.c iscc_check_cluster_options"), m("argument checks at the top of each public function", "src/nng_clustering.c scc_sc_clustering")],
  ["error codes and untouched clustering"])
p("C11", "Running out of memory is reported cleanly, without leaks or crashes",
  "If any allocation made during a library call fails, the call returns an error code (never success with a wrong or incomplete result), no invalid memory access happens, everything the call had allocated is released, and the caller's objects can still be freed and reused.",
  ["fault_sequences", "inputs"], "every subset of failing allocations in every public call on every input",
  "The tests never make an allocation fail.",
  ["src/nng_core.c", "src/nng_findseeds.c", "src/nng_batch_clustering.c", "src/digraph_core.c", "src/digraph_operations.c", "src/hierarchical_clustering.c", "src/utilities.c", "src/scclust.c", "src/data_set.c", "src/dist_search_imp.c"],
  [s("allocation state", "blocks owned by the call", "all of src")],
  [m("NULL checks with cleanup", "all allocating functions")],
  ["return code, heap after the call"])
p("C12", "No call reads or writes outside its buffers, leaks, or alters inputs",
  "On every valid input each library call accesses only live memory within the bounds of the arrays involved, triggers no arithmetic overflow that undersizes a buffer, frees each of its own blocks exactly once and leaves no block behind, and never modifies the data set, the options, or arrays passed as read-only.",
  ["inputs", "configurations"], "all valid inputs, including size products that exceed 32 bits, and all type-width configurations",
  "Address errors depend on sizes and index patterns; tests reach small sizes and benign patterns only.",
  ["src/hierarchical_clustering.c", "src/nng_batch_clustering.c", "src/nng_core.c", "src/nng_findseeds.c", "src/digraph_operations.c", "src/dist_search_imp.c", "src/utilities.c"],
  [s("heap blocks", "length and liveness of every block", "all of src")],
  [m("buffer sizes computed from counts", "malloc/calloc/realloc sites in src")],
  ["address/undefined-behaviour errors, heap after the call, inputs compared before and after"])
p("C13", "Clustering and data set objects keep what they were given",
  "Constructors produce an object describing exactly the arguments (labels shared or deep-copied as requested), copying yields an independent equal clustering, info and label queries report exactly the stored state and pad longer buffers with the unassigned label, and freeing releases exactly the object and its own labels, nulls the handle and never frees user-supplied labels. On any rejected argument the output handle is null.",
  ["inputs", "histories"], "all argument values and all sequences of init/copy/query/free",
  "Tests run each function on a few values; ownership and padding rules must hold for all lengths and histories.",
  ["src/scclust.c", "src/data_set.c"],
  [s("external_labels", "whether labels belong to the user", "src/clustering_struct.h")],
  [m("object functions", "src/scclust.c"), m("data set functions", "src/data_set.c")],
  ["object fields through the public getters, heap"])
p("C14", "Clustering statistics equal their definitions",
  "For every valid clustering of a data set, scc_get_clustering_stats reports exactly the number of points, assigned points, clusters, populated clusters and the smallest and largest populated cluster size, and the sum, minimum, maximum and averages of within-cluster distances as defined over all unordered pairs of points sharing a cluster.",
  ["inputs"], "all data sets and label vectors",
  "Tests compare with stored statistics for a few clusterings; empty clusters, singletons and unassigned points combine freely.",
  ["src/utilities.c"],
  [s("cluster_size / cl_members", "points grouped by label", "src/utilities.c scc_get_clustering_stats")],
  [m("counting sort by label and one pass per cluster", "src/utilities.c scc_get_clustering_stats")],
  ["fields of scc_ClusteringStats"])
p("C15", "Replaced distance functions are the ones used, as consistent groups",
  "After scc_set_dist_functions, every data access of the library goes through the installed functions with unchanged arguments; functions passed as null stay as they were; the max-distance and the nearest-neighbour functions are replaced only as complete groups of three, and a partial group is refused with false without mixing groups; scc_reset_dist_functions restores all built-in functions.",
  ["histories", "inputs"], "all sequences of set/reset calls with all null/non-null patterns",
  "There are 2^10 null patterns and arbitrary histories; tests try a few.",
  ["src/scclust_spi.c", "src/dist_search.h"],
  [s("iscc_dist_functions", "dispatch table", "src/scclust_spi.c")],
  [m("group-wise update", "src/scclust_spi.c scc_set_dist_functions"), m("forwarding wrappers", "src/dist_search.h")],
  ["which functions get called, return value of scc_set_dist_functions"])
p("C16", "Every reported failure leaves its own retrievable error message",
  "After any library call that returned an error code, scc_get_latest_error describes that error (its own message or the text for its code) and, when no error has occurred, says so; it writes a terminated string within the given buffer for every positive length and refuses a null buffer or zero length.",
  ["histories", "inputs"], "all error codes, all call histories, all buffer lengths",
  "The agreement between returned code and recorded error must hold on every error path of every function; tests look at a few direct calls.",
  ["src/error.c", "src/error.h"],
  [s("iscc_error_code etc.", "latest error", "src/error.c")],
  [m("all error returns go through one recorder", "src/error.c iscc_make_error__")],
  ["scc_get_latest_error after a failing call"])
p("C17", "Distance functions return Euclidean distances at the right places",
  "The built-in distance matrix, distance rows and maximum-distance search return, for all index lists including null ones, the Euclidean distance of exactly the requested pairs in the documented order, and for each query a search point at maximum distance together with that distance.",
  ["inputs"], "all data sets, dimensions, index lists",
  "Tests use one small data set; order and index handling must hold for all lists.",
  ["src/dist_search_imp.c"],
  [s("output_dists", "flattened upper triangle or rows", "src/dist_search_imp.c")],
  [m("nested scans over the index lists", "src/dist_search_imp.c iscc_imp_get_dist_matrix, iscc_imp_get_dist_rows, iscc_imp_get_max_dist")],
  ["outputs of the three functions"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
