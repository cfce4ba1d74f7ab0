#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below and the specs in props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS

def P(id, title, statement, over, text, tests, files, mech, observe, state=()):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": tests,
            "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                        "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": observe, "hook_needed": None}}

SC = "src/scclust.c"
L = [
P("C01", "Every cluster satisfies the size constraint and labels are well formed",
  "Whenever size-constrained clustering succeeds, there is at least one cluster, every label is either 'not assigned' or one of the numbers 0 to the reported number of clusters minus one, and every one of those clusters has at least as many points as the size constraint. This holds for every data set, seed method, method for unassigned points, radius setting, set of primary points and set of type constraints.",
  ["inputs", "configurations"], "all distance structures (including ties and identical points), all options",
  "The tests cluster a handful of fixed data sets with fixed options; the guarantee is over every distance structure and every combination of options.",
  [SC, "src/nng_core.c", "src/nng_clustering.c", "src/nng_batch_clustering.c", "src/nng_findseeds.c"],
  [("seeds' neighborhoods are disjoint and have size_constraint points", "src/nng_core.c iscc_get_nng_with_size_constraint, src/nng_findseeds.c"), ("batch labelling", "src/nng_batch_clustering.c"), ("assignment only adds points", "src/nng_clustering.c")],
  ["scc_sc_clustering", "scc_get_clustering_info", "scc_get_cluster_labels"]),
P("C02", "Every cluster satisfies the type constraints",
  "Whenever clustering with type constraints succeeds, every cluster contains at least the required number of points of every type, in addition to the overall size constraint. Before unassigned points are assigned, each cluster is a point together with its nearest neighbors: the required number of nearest points of each type, filled up with nearest points of any type.",
  ["inputs"], "all distance structures, all type labelings, all constraint vectors",
  "Tests use a few fixed type vectors; which points are picked depends on every relation between types and distances.",
  [SC, "src/nng_core.c", "src/digraph_operations.c"],
  [("one graph per type, joined, then filled up", "src/nng_core.c iscc_get_nng_with_type_constraint"), ("union of graphs", "src/digraph_operations.c iscc_digraph_union_and_delete")],
  ["scc_sc_clustering"]),
P("C03", "Points that are to be assigned are assigned",
  "When clustering succeeds and unassigned primary points are to be assigned to the closest assigned point or closest seed without a radius, every primary point is assigned, and with 'any neighbor' every primary point that has the required neighbors within the seed radius is; when a secondary method without radius is given, every point is assigned. Points that neither method covers stay unassigned, and the points of the seeds' neighborhoods are always assigned to their seed's cluster.",
  ["inputs"], "all distance structures, primary sets, seed methods, pairs of assignment methods",
  "Completeness is a statement about all inputs; the tests compare a few label vectors.",
  ["src/nng_clustering.c", SC, "src/nng_batch_clustering.c"],
  [("assignment stages", "src/nng_clustering.c iscc_make_nng_clusters_from_seeds, assign_by_nng, assign_by_nn_search"), ("assign_by_nng fallbacks", "src/nng_clustering.c")],
  ["scc_sc_clustering"]),
P("C04", "Radius constraints are respected",
  "No cluster of a successful clustering is grown around a seed whose required neighbors are farther away than the seed radius, and no unassigned point is assigned to a cluster by being matched with a point (or seed, according to the method) farther away than the radius for that assignment: the supplied one, the seed radius or the estimated one (the average over seeds of the average distance to their neighbors; a regular sample of the seeds if they are more than 1000). Points beyond the radius stay unassigned.",
  ["inputs"], "all distance structures, all radii including equal to a distance, all seed/primary/secondary radius settings",
  "Boundary cases (distance equal to the radius, estimated radius, different primary and secondary radii) need every relation between radii and distances.",
  ["src/nng_core.c", "src/nng_clustering.c", "src/nng_batch_clustering.c", "src/dist_search_imp.c"],
  [("radius passed to the searches", "src/nng_core.c, src/nng_clustering.c"), ("estimate", "src/nng_clustering.c iscc_estimate_avg_seed_dist")],
  ["scc_sc_clustering"]),
P("C05", "Seeds are independent, maximal and follow the documented order",
  "For every neighbor graph, the chosen seeds have neighbors, their neighborhoods (the seed included) do not overlap, and no further point could be added as a seed. The lexical method takes points in order of index; the inwards and exclusion methods take points in ascending order of inwards pointing arcs or of edges in the exclusion graph, counted once or updated as points are excluded, with ties broken in any way.",
  ["inputs"], "all neighbor graphs up to 5 vertices, sparser ones up to 8, all methods",
  "Tests run the methods on a few fixed graphs; ordering and maximality are statements over all graphs.",
  ["src/nng_findseeds.c"],
  [("sorted buckets by count, updated as seeds are found", "src/nng_findseeds.c iscc_fs_*"), ("exclusion graph", "src/nng_findseeds.c iscc_exclusion_graph"), ("growth of the seed array", "src/nng_findseeds.c iscc_fs_add_seed")],
  ["seed selection", "scc_sc_clustering before assignment"]),
P("C06", "Unassigned points go where the chosen method says",
  "Each point assigned after the seeds' neighborhoods ends up in the cluster its method designates: with 'any neighbor' that of one of its nearest neighbors, with 'closest assigned' that of the closest point of the seeds' neighborhoods, with 'closest seed' that of the closest seed; ties may be broken in any way. Primary points are handled before secondary points, and both may only be matched as the documentation of the method says.",
  ["inputs"], "all distance structures, all pairs of methods, radii",
  "The right cluster depends on all relations between distances; tests check few fixed outcomes.",
  ["src/nng_clustering.c", "src/nng_batch_clustering.c"],
  [("assign_by_nng / assign_by_nn_search", "src/nng_clustering.c"), ("order of stages", "src/nng_clustering.c iscc_make_nng_clusters_from_seeds")],
  ["scc_sc_clustering"]),
P("C07", "Within-cluster distances obey the approximation guarantees",
  "Without radii and types, let d be the largest distance from any point to its (size-1)th nearest other point. Two points of one cluster are never farther apart than 2d before unassigned points are assigned and 4d after (2d with the inwards-updating method and size two), and the largest within-cluster distance is at most four times that of the best clustering with the same size constraint.",
  ["inputs"], "all metric spaces up to a size, all seed and assignment methods",
  "An approximation bound is a worst-case statement over all metric spaces, which no sample settles.",
  ["src/nng_core.c", "src/nng_findseeds.c", "src/nng_clustering.c"],
  [("maximal set of seeds in the nearest neighbor graph", "src/nng_findseeds.c"), ("assignment along the graph", "src/nng_clustering.c")],
  ["scc_sc_clustering"]),
P("C08", "Hierarchical clustering splits to the right sizes and only refines",
  "Hierarchical clustering succeeds whenever the arguments are valid, and afterwards labels are consecutive, no cluster is empty, each new cluster lies within one existing cluster, unassigned points stay unassigned and nothing else becomes unassigned. An existing cluster (or the whole data set) with fewer points than twice the size constraint is kept, a larger one is divided into clusters with at least the size constraint and fewer than twice as many points; a caller's label array holds the result if it is shared and is unchanged if it was copied.",
  ["inputs", "histories"], "all spaces, sizes, existing clusterings, both assignment modes",
  "Tests run a few fixed inputs; sizes and refinement must hold for every tree of splits.",
  ["src/hierarchical_clustering.c"],
  [("stack of clusters to split", "src/hierarchical_clustering.c iscc_hi_run_hierarchical_clustering"), ("initial stack from existing clusters", "src/hierarchical_clustering.c iscc_hi_init_cl_stack"), ("vertex markers", "src/hierarchical_clustering.c")],
  ["scc_hierarchical_clustering", "scc_get_cluster_labels"],
  [("clusters", "number of clusters and labels", "src/clustering_struct.h")]),
P("C09", "Clustering fails exactly when there is no solution",
  "Valid input is answered with success if some primary point has all the neighbors it requires within the seed radius and the data set has enough points (of every type), and with 'no solution' if not; never with a clustering that does not exist or an error about one that does. The only other 'no solution' is that an estimated radius was asked for and is zero.",
  ["inputs"], "all distance structures, sizes beyond the number of points, types, primary sets, radii",
  "Tests hit the error path with a few inputs; the equivalence quantifies over all inputs.",
  [SC, "src/nng_core.c", "src/utilities.c", "src/nng_batch_clustering.c"],
  [("feasibility is decided by the empty neighbor graph", "src/nng_core.c"), ("too few points", "src/scclust.c, src/utilities.c")],
  ["scc_sc_clustering"]),
P("C10", "Failed memory allocations are survived without damage",
  "If any allocation (or any two, or all from some point on) fails during any call, the call reports an error of the right class, or succeeds with the result it gives without the failure; it never crashes, leaks memory or leaves search objects open. After an error the objects involved hold what they held before the call (an object to be created is null) and the same call gives the same result once memory is available; for a caller's label array shared with a clustering to be refined this includes the labels.",
  ["fault_sequences"], "every allocation of every operation: singly, in pairs, and all from each point on",
  "The tests never make an allocation fail.",
  ["src/scclust.c", "src/nng_core.c", "src/nng_clustering.c", "src/nng_batch_clustering.c", "src/nng_findseeds.c", "src/digraph_core.c", "src/digraph_operations.c", "src/hierarchical_clustering.c", "src/dist_search_imp.c", "src/utilities.c", "src/data_set.c"],
  [("error returns with clean-up", "all functions returning scc_ErrorCode"), ("working label array", "src/hierarchical_clustering.c, src/scclust.c")],
  ["every function of the public API"]),
P("C11", "Failing distance functions are reported and survived",
  "If any call to a (user supplied) distance function reports failure, singly or in pairs, also while a search object is being opened, or together with a failed allocation, the library call fails with the error for distance searches (or for memory, if that failed) and never succeeds; failing to close a search object never leads to a wrong result. Every search object that was opened is closed exactly once, no function is used on a closed object, queries stay within what the interface allows, and after the failure the objects are as before, nothing leaks and the same call works again.",
  ["fault_sequences"], "every distance call of every operation: singly, in pairs, with closing failures, with allocation failures",
  "The tests use distance functions that never fail.",
  ["src/scclust_spi.c", "src/scclust_spi.h", "src/nng_core.c", "src/nng_clustering.c", "src/nng_batch_clustering.c", "src/hierarchical_clustering.c", "src/utilities.c"],
  [("iscc_make_dist_search_error and clean-up after each search", "src/nng_core.c, src/nng_clustering.c, src/nng_batch_clustering.c, src/hierarchical_clustering.c")],
  ["scc_set_dist_functions", "every function taking a data set"]),
P("C12", "Distance functions can be replaced without any other effect",
  "Replacing distance functions takes effect for all functions of a group (data set, distances, maximum distance search, nearest neighbor search) or, if a group is incomplete, for none at all; functions not named keep their earlier setting and resetting brings back the built-in ones. Clustering, statistics and refinement with replacements that compute the same answers as the built-in functions give the same results.",
  ["histories", "inputs"], "all histories of set/reset calls up to a depth; all small data sets",
  "Tests replace the functions once in one order.",
  ["src/scclust_spi.c", "src/scclust_spi.h"], [("table of functions", "src/scclust_spi.c iscc_dist_functions")],
  ["scc_set_dist_functions", "scc_reset_dist_functions"], [("iscc_dist_functions", "functions in use", "src/scclust_spi.c")]),
P("C13", "Checking a clustering agrees with a direct count",
  "Checking a clustering answers 'correct' exactly when every label is 'not assigned' or a number below the number of clusters, every cluster is non-empty and satisfies the size and type constraints, and every point named as primary is assigned (if none are named, points may be unassigned). This holds for every labelling, including labels out of range.",
  ["inputs"], "all labelings, type labels, constraints and primary sets of small data sets",
  "Tests check a few fixed clusterings.",
  ["src/utilities.c"], [("recount", "src/utilities.c scc_check_clustering")], ["scc_check_clustering"]),
P("C14", "Clustering statistics equal their definitions",
  "The statistics of a clustering (counts, smallest, largest and average cluster size, sum, minimum and maximum of within-cluster distances, and the averages over clusters) equal their definitions computed directly from the labels and distances, for every labelling, with unassigned points and empty clusters left out. A labelling with numbers out of range is rejected.",
  ["inputs"], "all labelings of small data sets, with zero distances and empty clusters",
  "Tests check a few fixed clusterings.",
  ["src/utilities.c"], [("single pass over sorted clusters", "src/utilities.c scc_get_clustering_stats")], ["scc_get_clustering_stats"]),
P("C15", "Clustering objects keep their contents through any history of calls",
  "After any sequence of creating (empty, in the caller's array, from copied or shared labels), copying, clustering, refining, failing and freeing, every clustering object reports the number of clusters and labels of a simple model of it: copies are independent, shared arrays hold the current labels, copied arrays are never written and nothing is written beyond the end of the caller's array. Each operation behaves as on a fresh object with the same contents, and freeing everything returns all memory but never the caller's arrays.",
  ["histories"], "all sequences of operations on two objects and two arrays up to depth 4 to 7",
  "Tests run short fixed sequences.",
  [SC, "src/clustering_struct.h", "src/hierarchical_clustering.c"],
  [("external_labels flag, deep copies", "src/scclust.c scc_init_*_clustering, scc_copy_clustering, scc_free_clustering")],
  ["scc_init_empty_clustering", "scc_init_existing_clustering", "scc_copy_clustering", "scc_free_clustering", "scc_get_cluster_labels"],
  [("scc_Clustering", "number of points, clusters, labels, who owns them", "src/clustering_struct.h")]),
P("C16", "Built-in distance functions agree with brute force",
  "For every data set, the built-in distance matrix, distance rows, maximum distance search and nearest neighbor search return what a direct computation of the Euclidean distances gives, for every list of query and search points. A nearest neighbor search returns, for each query, its k nearest search points in some order consistent with ties, reports exactly the queries for which k points exist within the radius (points at exactly the radius included), and leaves nothing unwritten or written out of bounds.",
  ["inputs"], "all small data sets, query lists, search lists, k, radii",
  "Tests use one random data set; ties, boundary radii and partial index lists need enumeration.",
  ["src/dist_search_imp.c", "src/data_set.c", "src/dist_search_imp.h"], [("iscc_imp_*", "src/dist_search_imp.c")], ["distance interface"]),
P("C17", "Neighbor graph operations implement their set definitions",
  "For every graph, deleting loops, transposing, taking unions, differences (with a bound on the number of heads) and adjacency products (with and without loops) give exactly the arcs of the corresponding operation on sets, each arc once; malformed graphs are recognized, storage always covers the arcs, inputs not meant to change are unchanged. When the number of arcs exceeds what can be counted, the operations say so instead of giving a wrong graph.",
  ["inputs", "configurations"], "all graphs up to 3 (unary: 4) vertices, with ordered arcs where order matters; arc limit 5",
  "Tests use a few fixed graphs and never reach the limit of the arc counter.",
  ["src/digraph_core.c", "src/digraph_operations.c"],
  [("count first, then write", "src/digraph_operations.c"), ("row markers", "src/digraph_operations.c")], ["graph operations"]),
P("C18", "Invalid or oversized input is rejected without any effect",
  "Every argument outside its documented domain (null pointers, zero or too small sizes, unknown methods and versions, radii that are negative, zero or not numbers, type labels, constraints or primary points that are out of range or inconsistent, arrays too short, more points, dimensions or clusters than can be counted), alone or combined with others, makes the call fail with an invalid-input, too-large, no-solution or not-implemented error that applies. Nothing is read beyond the arrays, the objects and output arguments are left as documented, nothing leaks, and valid calls with every combination of valid settings are accepted.",
  ["inputs", "configurations"], "all combinations of up to three deviations from valid calls; three type configurations",
  "Tests check some single deviations in one configuration.",
  ["src/utilities.c", SC, "src/data_set.c", "src/hierarchical_clustering.c"], [("iscc_check_cluster_options and argument checks", "src/utilities.c, src/scclust.c, src/hierarchical_clustering.c")], ["every function of the public API"]),
P("C19", "The latest error is reported correctly after any history",
  "After any history of calls, asking for the latest error gives the description of the most recent call that failed, whatever happened before it, and a description of there being no error before any failure; errors of different classes are told apart. Writing into a buffer never goes beyond its length, always terminates the text, and refuses missing or empty buffers.",
  ["histories"], "all histories of 17+ kinds of calls up to a depth, all buffer lengths",
  "Tests read the message after single calls.",
  ["src/error.c", "src/error.h"], [("static record of the latest error", "src/error.c")], ["scc_get_latest_error"], [("latest error", "code, text, file and line", "src/error.c")]),
P("C20", "Clustering in batches does not depend on the batch size",
  "The batch method gives the same clustering whatever the batch size, including one point at a time, everything at once and sizes larger than the data set. Its clusters are those of the lexical method on the same problem: the same seeds, and with 'any neighbor' assignment every point joins the cluster of one of its neighbors.",
  ["inputs", "configurations"], "all small spaces, sizes, radii, primary sets, every batch size",
  "Tests compare a few batch sizes on one data set.",
  ["src/nng_batch_clustering.c"], [("batches of queries, labelling as they are answered", "src/nng_batch_clustering.c")], ["scc_sc_clustering with the batch method"]),
P("C21", "Results depend on the arguments only, and input is only read",
  "The same call with the same arguments gives the same clustering, statistics, check and refinement whatever calls came before, whatever fresh memory contains and whoever owns the label array. Data, options, type labels and primary points are never written to.",
  ["histories", "inputs"], "all small spaces and options, four environments each",
  "Uninitialized reads and state kept between calls do not show in single calls.",
  [SC, "src/nng_clustering.c", "src/nng_batch_clustering.c", "src/hierarchical_clustering.c", "src/scclust_spi.c", "src/error.c"],
  [("no state besides the function table and the latest error", "src/scclust_spi.c, src/error.c"), ("arrays initialized before use", "all sources")], ["every function of the public API"]),
P("C22", "The configured integer types do not change results",
  "Whatever integer types (and 'not assigned' value) the library is configured with, and with its internal assertions on, all cases give the same results. If the number of clusters exceeds what the label type can count, the problem is reported as too large exactly then and nothing is changed; if the number of neighbor relations exceeds what can be counted, the result is unchanged or the problem is reported as too large, and never otherwise.",
  ["configurations", "inputs"], "five configurations and small counters; every cluster limit and arc limit up to what is needed",
  "The tests run in one configuration and never reach a limit.",
  ["templates", "src/nng_clustering.c", "src/nng_batch_clustering.c", "src/hierarchical_clustering.c", "src/digraph_core.c", "src/digraph_operations.c", "configure"],
  [("limits checked before counting", "src/nng_findseeds.c, src/digraph_core.c, src/hierarchical_clustering.c"), ("marker reset", "src/hierarchical_clustering.c")], ["scc_sc_clustering", "scc_hierarchical_clustering"]),
P("C23", "Concurrent and nested calls on different objects do not disturb each other",
  "Calls on different clustering objects, made from different threads at the same time or from within a distance function of another call, each give the same error code and result as when made alone, also when they read the same data set. Only the text of the latest error and the choice of distance functions are shared between calls.",
  ["schedules"], "all schedules of 2-3 threads up to 2-4 preemptions at shared accesses; a nested call at every distance call",
  "Tests are single threaded.",
  ["src/scclust_spi.c", "src/error.c", "src/nng_findseeds.c", "src/nng_clustering.c", "src/hierarchical_clustering.c", "src/dist_search_imp.c"],
  [("all working memory belongs to the call", "all sources"), ("error record and function table are the only shared state", "src/error.c, src/scclust_spi.c")], ["every function of the public API"]),
P("C24", "Hierarchical splits are the greedy divisions around two distant centers",
  "Every division made by hierarchical clustering is around two different points that are farthest from each other, in the sense that neither has a point farther away than the other center; first each center gets the size constraint minus one closest points, the center whose last such point is farther away choosing first. Then the center with the closest remaining points takes one point (with batch assignment: the size constraint, or all that remain if fewer) until none is left; ties may be broken in any way.",
  ["inputs"], "all small spaces, sizes, existing clusterings, both assignment modes",
  "Tests compare few fixed outcomes.",
  ["src/hierarchical_clustering.c"], [("iscc_hi_find_centers, iscc_hi_break_cluster_into_two", "src/hierarchical_clustering.c"), ("iscc_hi_get_next_k_nn", "src/hierarchical_clustering.c")], ["scc_hierarchical_clustering"]),
P("C25", "The tree searches of the ANN example give what exact search gives",
  "With the distance functions of examples/ann in place, every nearest neighbor search reports exactly the queries that have enough neighbors (within the radius, if there is one), in order, and for each of them nearest points of those searched, closest first; clusterings are among those the documentation allows with exact searches. Search objects and scratch memory are released, also when one of the wrapper's own allocations fails, which is reported.",
  ["inputs", "configurations", "fault_sequences"], "all small placements, query lists, search lists, k and radii; unsigned and signed point types; each allocation the wrapper makes",
  "No test uses the example.",
  ["examples/ann/ann_wrapper.cpp", "src/scclust_spi.c"], [("translation of indices and results between the tree and the library", "examples/ann/ann_wrapper.cpp iscc_ann_nearest_neighbor_search"), ("counting of open searches", "examples/ann/ann_wrapper.cpp")], ["scc_set_ann_dist_search", "scc_sc_clustering"]),
]

NOTES = {}
def technique(p, spec):
    t = {"C10": "exhaustive fault enumeration on the real code (every failed allocation, pair, suffix)", "C11": "exhaustive fault enumeration on the real code (every failed distance call, pair, with closes and allocations) with a protocol monitor",
         "C12": "explicit exploration of set/reset histories against a state-machine model, and differential exploration of all small inputs", "C15": "explicit exploration of operation histories against an ownership model",
         "C19": "explicit exploration of call histories against a model", "C23": "stateless exploration of all thread schedules up to a preemption bound on the real code",
         "C05": "exhaustive exploration of neighbor graphs on the real code against nondeterministic selection models", "C24": "exhaustive exploration with trace inclusion in a nondeterministic splitting model"}
    return t.get(p, "bounded exhaustive state exploration of the real code against a reference model")

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in L:
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in L:
        s = PROPS[p["id"]]
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": technique(p["id"], s), "level": s["level"],
                       "level_note": "Complete within these bounds: " + s["bounds"] + " Trusts gcc and its sanitizers, the harness and its reference model."})
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": [],
         "notes": "No hooks in /repo: the checks compile /repo's sources from the working tree through the repository's own configure, redirecting the allocator by a forced include. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for p in L:
        assert len(p["title"]) <= 80, p["id"]

main()
