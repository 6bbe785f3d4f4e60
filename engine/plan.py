"""Per property: level, how native cases are made, what the obligations say, and what is left to the bounded stand-in."""
COST = {'iscc_get_nng_with_type_constraint: storage and errors': 20, **dict(iscc_type_count=3, iscc_findseeds_exclusion=45, iscc_fs_exclusion_graph=5, iscc_do_union_and_delete=25, iscc_digraph_union_and_delete=5, iscc_do_adjacency_product=25, iscc_adjacency_product=10, iscc_hi_run_hierarchical_clustering=22, scc_hierarchical_clustering=20, iscc_findseeds_inwards=40, iscc_make_clustering_from_nng=35, iscc_make_nng_clusters_from_seeds=30, scc_sc_clustering=28, iscc_run_nng_batches=25, iscc_findseeds_lexical=20, iscc_get_nng_with_size_constraint=18, iscc_imp_nearest_neighbor_search=15, scc_nng_clustering_batches=14, iscc_make_nng_from_search_object=12, scc_check_clustering=6)}
TRUSTED = [
    'the verification-condition generator in /verif/engine (C semantics of the subset used, memory model of separate typed objects) and the SMT solvers z3 and cvc5',
    'pycparser and the gcc preprocessor; configuration: the default ./configure types (uint32 point/arc/label indices), NDEBUG, SCC_STABLE_* off',
    'libc: malloc/calloc/realloc/free/memcpy/memset/qsort/snprintf/sqrt/log2 by their C standard contracts (malloc may return null at any call)',
    'double arithmetic is uninterpreted (monotone fadd on non-negatives, monotone sqrt, squares non-negative); no NaN or infinity; integer arithmetic is exact with wrap-around',
    'log2 of a positive number below 2^64 is below 64',
    'two pointer arguments of one call do not alias unless the contract says so; an object is smaller than 2^63 bytes',
]
R_SC = 'Seeded random data sets of 2-12 points (sometimes up to 60, rarely 300-900; integer grids, ties, duplicates, lines, outliers, 1-4 dimensions), random valid options, run through scc_sc_clustering built from /repo with ASan/UBSan in two type configurations.'
PROPS = {
    'C01': dict(level='other', rule=R_SC + ' The result is checked for label range, at least one cluster and cluster sizes.',
        explain="Proved over contracts: scc_sc_clustering's success postcondition (labels in range or unassigned, at least one cluster, every cluster holds at least size_constraint points) from the contracts of graph construction, self-match repair, seed search (all five methods), batches, cluster formation and all unassigned-point rules; all inputs, all loop iterations. Not proved: the type-constraint graph enters through an assumed contract, which the bounded native search exercises.",
        bounded_for=['iscc_get_nng_with_type_constraint'],
        assume=['rows of the type-constraint graph have the documented shape (assumed contract)']),
    'C02': dict(level='other', rule=R_SC + ' Always 2-5 types, including zero constraints; per-cluster type counts are recomputed, in 40% of the cases (leftover points ignored) every cluster is matched against a seed with its nearest points of every type and nearest other points.',
        explain="Proved: cluster formation keeps every row of the graph inside one cluster (so a cluster has what its seed's row has), one-type graphs have the required number of distinct points of the type, the counting sort by type lists every search point once in the group of its type with the exact sizes, the union and the limited difference are exact. Of their combination in iscc_get_nng_with_type_constraint, storage, validity and errors are proved, not which points a row holds (assumed contract, bounded native stand-in recomputing type counts).",
        bounded_for=['iscc_get_nng_with_type_constraint'],
        assume=['row composition of the type-constraint graph (assumed contract)']),
    'C03': dict(level='other', rule='Random data sets of 2-16 points (sometimes to 80, rarely 120-450), size constraints, both batch modes, empty or random existing clusterings; sizes and refinement recomputed.',
        explain='Proved for all inputs, relative to the assumed contract of the two-way split (its steps -- two centers, the two lists sorted by distance, the next points of a list, the moves, the markers -- are under contract themselves, but that the split composes them to its contract is searched, not proved): the stack of clusters (empty and existing start, counting sort by label), the main loop, the growth of the stack and the entry point: every resulting cluster has fewer than twice size_constraint points and at least size_constraint unless it is an untouched input cluster, nobody is left out, unassigned points stay unassigned, no cluster mixes two input clusters, errors leave the labels as they were. The split itself (iscc_hi_break_cluster_into_two: both parts hold at least size_constraint points and together the same points) is assumed and covered by the bounded native search.',
        bounded_for=['iscc_hi_break_cluster_into_two (the functions it calls are under contract)'],
        assume=['both parts of a split satisfy the size constraint and hold the same points (assumed contract)']),
    'C04': dict(level='proof', rule='Random labels (balanced, random, with unassigned and out-of-range ones), random valid options; the verdict is recomputed from the definition.',
        explain='scc_check_clustering is under contract: for all inputs the verdict is equivalent to the definition (labels in range, primary points assigned, cluster sizes, type counts per cluster) and every error code to its condition; ghost counts per cluster and type are defined over the label vector. The native search recomputes the verdict, as the source of replays.',
        bounded_for=[],
        assume=[]),
    'C05': dict(level='proof', rule='Random data, search and query lists (null or subsets), k, radius (often exactly a distance); the result is compared with the definition.',
        explain='iscc_imp_nearest_neighbor_search, the insertion into the ordered list, the squared distance and the object constructor are under contract: the result is exactly the k nearest search points within the radius, in order, for exactly the accepted queries. One distance is an uninterpreted function of the two coordinate rows.',
        bounded_for=[],
        assume=['squared distances and their square roots order points alike (monotone sqrt); the radius test uses the same function']),
    'C06': dict(level='proof', rule='Random graphs of 2-90 vertices (and of 1200-2600), all five methods; independence and maximality recomputed.',
        explain="All five seed searches (lexical, inwards and exclusion, fixed order or updating, with the sort, the exclusion graph and the digraph operations below it), the batch search and the callers are under contract: no two seeds' closed neighbourhoods meet and no further seed fits.",
        bounded_for=[],
        assume=[]),
    'C07': dict(level='proof', rule='Random digraphs (with loops, repeated arcs, empty rows), all five operations, 30% with an injected allocation failure; result compared with the definition.',
        explain='Under contract: init, empty, change of storage, delete loops, difference with limit, transpose, adjacency product and union (both passes, wrappers, error paths). The result graph is exactly the documented arc set: every result arc has a source, every source arc its result arc, none twice.',
        bounded_for=[],
        assume=['ghost streams of the product and the union (a position in the stream determines its row, its graph and its arc; first occurrences) are functions introduced by definition; argued in DESIGN.md','union: the kept rows are given in increasing order (what its callers do); at most 2^24 graphs']),
    'C08': dict(level='proof', rule=R_SC + ' No types, leftover points ignored; each cluster is matched against a seed with its nearest neighbours, solvability recomputed.',
        explain="Proved for all seed methods over the contracts of graph construction and cluster formation: every cluster is a seed's row, rows are the nearest points within the radius with the point itself in its row, seeds are primary, NO_SOLUTION exactly when no row is complete.",
        bounded_for=[],
        assume=['distances are non-negative and a point has distance zero to itself']),
    'C09': dict(level='other', rule=R_SC + " Seeds and graph are recomputed through the internal functions; every leftover point's label is compared with the rule; 15% with a failing distance function.",
        explain="Proved: every leftover point's label is that of the rule chosen (a graph neighbour, closest seed or core point within the radius, ignored), the radius rules including the estimated radius, and that core labels are kept; batches included. The type-constraint graph enters through an assumed contract.",
        bounded_for=['iscc_get_nng_with_type_constraint'],
        assume=['the radius thresholds of an option struct are ordered as the option check established']),
    'C10': dict(level='other', rule='Random valid options with 0-2 random corruptions, corrupted data set or clustering arguments, all public entry points; expected code set recomputed from the rules.',
        explain='Proved for every public function with arguments to reject: each error code is equivalent to the documented condition and valid inputs are not rejected.',
        bounded_for=['iscc_get_nng_with_type_constraint'],
        assume=[]),
    'C11': dict(level='other', rule='For each random call every allocation (up to 60) is made to fail, alone and with all later ones; leak count, crash, result and reuse are checked.',
        explain='Proved for every function under contract: on each path on which an allocation fails (every allocation may fail at every point), the function returns NO_MEMORY or the documented fallback, frees what it allocated and leaves its outputs in the documented state. Functions without a contract: native fault enumeration (every allocation of the call made to fail, alone and with all later ones).',
        bounded_for=['iscc_hi_break_cluster_into_two (the functions it calls are under contract)'],
        assume=['quick runs solve only the obligations on paths with a failed allocation and those tagged C11; the remaining obligations of the same functions are solved by the checks of their own properties and by the thorough run']),
    'C12': dict(level='other', rule='All operations under ASan/UBSan with exactly sized heap buffers and differently filled fresh memory; inputs compared with snapshots.',
        explain='Proved for every function under contract: bounds and liveness of each access, sizes of allocations without wrap, no double free, no block left, read-only inputs not written (frame), no signed overflow, no division by zero, no uninitialised read of locals. Functions without a contract: native search under ASan/UBSan with exactly sized buffers.',
        bounded_for=['iscc_hi_break_cluster_into_two (the functions it calls are under contract)'],
        assume=['default type widths; the wide and the int configurations only natively']),
    'C13': dict(level='proof', rule='Random constructor/copy/query/free sequences with live-block accounting.',
        explain="All constructors, copies, queries and destructors are under contract: stored labels and counts equal the arguments, a copy equals its source and is independent, queries return the stored values with the documented padding, destroying frees exactly the object's own blocks.",
        bounded_for=[],
        assume=[]),
    'C14': dict(level='proof', rule='Random data and labels (empty clusters, singletons, unassigned points); all statistics recomputed.',
        explain='scc_get_clustering_stats is under contract: counts and sizes are exact; minima, maxima, sums and averages of distances equal the definitions, in the order of the code over uninterpreted floating-point addition, with the distance matrix by the contract proved for the built-in function.',
        bounded_for=[],
        assume=['floating-point addition and division are uninterpreted: a sum is the fold of the addition over the pairs in the order of the definition']),
    'C15': dict(level='proof', rule='All 1024 null/non-null combinations of the ten functions, in sequences; behaviourally observed through spies.',
        explain='scc_set_dist_functions and scc_reset_dist_functions are under contract (group rule, all or nothing), and every dispatch function is proved to forward its arguments unchanged to the installed function and to return its result unchanged.',
        bounded_for=[],
        assume=[]),
    'C16': dict(level='other', rule='Random sequences of failing calls of 23 kinds followed by scc_get_latest_error with random buffer lengths.',
        explain='Every function under contract: a return that is not OK is accompanied by a recorded error of the same code made by the call (swallowed errors are reset), a success leaves no error of the call; iscc_make_error__ and scc_get_latest_error store and report code, message, file and line, truncated to the buffer and terminated. Functions without a contract: native search.',
        bounded_for=['iscc_hi_break_cluster_into_two (the functions it calls are under contract)'],
        assume=[]),
    'C17': dict(level='proof', rule='Random data and index lists (null, repeated); matrix, rows and maximum distances recomputed.',
        explain='iscc_imp_get_dist_matrix, iscc_imp_get_dist_rows, iscc_imp_get_max_dist and the squared distance are under contract: each entry is the distance of the documented pair in the documented place; a reported maximum is attained and not exceeded.',
        bounded_for=[],
        assume=['a single distance is an uninterpreted function defined by the code of iscc_get_sq_dist (sum over coordinates in order); sqrt uninterpreted, monotone']),
}
