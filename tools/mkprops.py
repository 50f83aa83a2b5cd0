#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
I = "include/ffcl/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": [I + f for f in files], "mechanism": [{"name": n, "where": I + w} for n, w in mech],
         "observe_at": observe or [], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": I + w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("P01", "Pairwise distance matrix is exact and symmetric under any thread schedule",
 "A pairwise distance matrix built over a dataset answers, for every pair of samples, the distance between those two samples: zero on the diagonal, the same value in both orders, bit for bit the same as the on-demand matrix. This holds for every dataset size (empty and single-sample included), every element type (euclidean for floating point, manhattan for integers), every number of worker threads and every interleaving of them, without data races and without touching the dataset. Callers that build their own matrices or read a shared one at the same time do not disturb each other.",
 ["schedules", "inputs", "configurations"], "every team size, every interleaving of the workers that fill the matrix, every number of samples and features, float/double/int",
 "The test build switches the parallel code path off, so no test ever runs the worker threads; a race needs one particular interleaving of two row owners.",
 ["datastruct/matrix/PairwiseDistanceMatrix.hpp", "datastruct/matrix/PairwiseDistanceMatrixDynamic.hpp"],
 [("disjoint row ownership in the dynamically scheduled loop", "datastruct/matrix/PairwiseDistanceMatrix.hpp"),
  ("lower-triangle index arithmetic in the accessor", "datastruct/matrix/PairwiseDistanceMatrix.hpp")], ["matrix element accessor", "row/column counts"])

prop("P02", "Transposition is exact for any shape, thread count and schedule",
 "Transposing a row-major matrix returns its transpose, element for element, together with the swapped shape, and transposing twice returns the original. This holds for every shape (smaller, equal to, larger than and not a multiple of the blocking factor, one row or one column, no rows), every element type, every number of worker threads and every interleaving of them, and the input is left untouched.",
 ["schedules", "inputs", "configurations"], "every shape, every team size, every interleaving of the block owners",
 "Tests run the sequential path on a few shapes; block edges, tails and the interleaving of block owners are never exercised.",
 ["common/math/linear_algebra/Transpose.hpp"], [("blocked collapse(2) loop with disjoint blocks", "common/math/linear_algebra/Transpose.hpp")], ["returned values and shape"])

prop("P03", "Multi-start k-means returns its best restart, whatever the schedule",
 "When k-means is fitted with several restarts, the centroids returned, and the ones the model uses afterwards, are those of the restart whose final clustering has the lowest total distance from the samples to their nearest centroid, each restart being refined from its own starting positions exactly as if it ran alone. The result is the same for every number of worker threads and every interleaving, there are no data races, and each restart's stopping rule (iteration limit, tolerance, patience) is applied independently of the others.",
 ["schedules", "inputs", "configurations"], "every team size and interleaving of the restarts, every number of restarts, every stopping configuration, both refinement algorithms",
 "The test build runs restarts one after another in a single thread and only looks at the outcome's plausibility; cross-restart interference needs a specific interleaving.",
 ["kmeans/KMeans.hpp", "kmeans/Lloyd.hpp", "kmeans/Hamerly.hpp"],
 [("one slot per restart in candidates, previous candidates and losses", "kmeans/KMeans.hpp"), ("argmin over the losses", "kmeans/KMeans.hpp")], ["fit return value", "predict/forward after fit"])

prop("P04", "k-means refinement never worsens the clustering and settles on cluster means",
 "For every dataset, starting centroids (given or randomly seeded) and refinement algorithm, fitting returns as many finite centroids as requested whose sum of squared distances to the samples is not larger than that of the starting centroids, an unused centroid stays where it was, and when refinement stops because nothing changed any more every used centroid is the mean of the samples nearest to it. Both refinement algorithms reach the same clustering from the same start. Assigning samples with a fitted model, also from several threads at once, gives each sample its nearest centroid and the distance to it.",
 ["inputs", "schedules", "histories", "configurations"], "every dataset, start, random stream, iteration limit, refit history and number of concurrent callers of one fitted model",
 "Tests fit a few datasets once and compare coarse quality; empty clusters, ties, repeated fits, and concurrent assignment are not covered.",
 ["kmeans/Lloyd.hpp", "kmeans/Hamerly.hpp", "kmeans/KMeansUtils.hpp", "kmeans/KMeans.hpp"],
 [("centroid update from cluster sums and sizes", "kmeans/Lloyd.hpp"), ("bound maintenance of the accelerated refinement", "kmeans/Hamerly.hpp"), ("nearest centroid assignment", "kmeans/KMeansUtils.hpp")], ["fit", "predict", "forward"])

prop("P05", "k-medoids returns distinct optimal-by-swap medoids under any schedule",
 "For every dataset or precomputed distance matrix, at least two medoids, every random stream, number of worker threads and interleaving, fitting k-medoids returns exactly the requested number of distinct sample indices that are inside the dataset. With the loss-based refinement (FasterPAM) their total distance from samples to nearest medoid is no larger than that of the starting medoids, when refinement stops by itself no single exchange of a medoid with a non-medoid lowers that total (up to rounding), and several restarts return the best of them, the same one for every schedule. Assigning samples with a fitted model gives each sample its nearest medoid and the distance to it.",
 ["schedules", "inputs", "configurations", "histories"], "every team size and interleaving of restarts, every start, both refinement algorithms, dataset and matrix input, every stopping configuration",
 "The test build never runs restarts concurrently, and checks no optimality condition; duplicates, ties and small k need particular inputs.",
 ["kmedoids/KMedoids.hpp", "kmedoids/FasterPAM.hpp", "kmedoids/FasterMSC.hpp", "kmedoids/PAMUtils.hpp"],
 [("swap evaluation and incremental buffers", "kmedoids/FasterPAM.hpp"), ("nearest/second nearest medoid scans", "kmedoids/PAMUtils.hpp"), ("one slot per restart and argmin", "kmedoids/KMedoids.hpp")], ["fit", "predict", "forward"])

prop("P06", "Random draws stay in range and each thread has its own stream",
 "A uniform draw always lies in the requested range, both ends reachable for integers, and a normal draw is finite, for every seed the entropy source may return and for every bit of generator state. Threads that draw at the same time neither race nor consume each other's numbers: the sequence a thread sees depends only on its own entropy and its own draws, not on the other threads or the schedule.",
 ["schedules", "inputs", "fault_sequences"], "every interleaving of drawing threads, every entropy value including a constant or low-entropy device",
 "Tests draw in one thread from a healthy entropy source; stream sharing needs two threads and a particular interleaving to show.",
 ["common/math/random/Distributions.hpp"], [("thread-local engine seeded once per thread", "common/math/random/Distributions.hpp")], ["drawn values"])

prop("P07", "Sampling without replacement is distinct, complete and in range",
 "Selecting n elements from a pool returns n elements that each come from a different position of the pool, and every position can be selected whatever n is; asking for more samples than exist returns all of them once. This holds for every random stream and for callers that sample at the same time from different threads, for index intervals, index lists and sample rows alike, and the pool is left unchanged. Spatially uniform starting positions lie inside the bounding box of the data, for data of any sign.",
 ["inputs", "schedules", "fault_sequences"], "every random stream, pool and selection size, concurrent samplers",
 "Tests check a few draws in one thread; that a position is never selectable, or that two selections coincide, is a statement over the whole stream space.",
 ["common/math/random/Sampling.hpp"], [("partial Fisher-Yates shuffle", "common/math/random/Sampling.hpp"), ("per-feature minimum and maximum", "common/math/random/Sampling.hpp")], ["returned elements"])

prop("P08", "Weighted draws and k-means++ seeding follow the weights",
 "A weighted draw returns an index inside the weight list, never one whose weight is zero while another weight is positive, and over many draws each index appears in proportion to its weight. k-means++ seeding returns the requested number of centroids, each one a sample of the dataset, and does not repeat a position while samples at other positions remain (with the variant that looks at the previous centroid only: does not repeat the previous position). This holds for every random stream, including degenerate entropy, and with other threads drawing at the same time.",
 ["inputs", "schedules", "fault_sequences"], "every weight vector, dataset and random stream, concurrent seeding threads",
 "Existing tests check no distribution; wrong probabilities need many draws over many weight vectors, and thread interference needs schedules.",
 ["common/math/random/VosesAliasMethod.hpp", "kmeans/KMeansPlusPlus.hpp"], [("alias table construction", "common/math/random/VosesAliasMethod.hpp"), ("distance-weighted seeding", "kmeans/KMeansPlusPlus.hpp")], ["drawn indices", "seeded centroids"])

prop("P09", "A k-d tree partitions every dataset correctly for any random stream",
 "For every dataset, leaf size, depth limit, axis choice (cycling, widest spread, highest variance, with sub-sampling driven by any random stream) and feature mask, an index built over the data holds every sample exactly once: each split keeps samples not above the cut on one side and not below it on the other, every node's bounding box contains the samples below it and lies inside its parent's (the whole box is tight), cuts follow the chosen policy and never use a feature outside the mask, and leaves respect the leaf size unless the depth limit or missing spread stops them. Building only permutes the caller's index list, copies nothing and changes no sample. Building independent indexes from several threads at once gives each what it would get alone.",
 ["inputs", "configurations", "schedules"], "every dataset shape incl. duplicates and ties, every option, every random stream, concurrent builders",
 "Tests build on a few random datasets with one policy and look at sizes; a mis-sorted or lost sample depends on ties, duplicates, and the random stream.",
 ["datastruct/tree/kdtree/KDTree.hpp", "datastruct/tree/kdtree/KDTreeAlgorithms.hpp", "datastruct/tree/kdtree/KDNodeView.hpp", "datastruct/tree/kdtree/policy/AxisSelectionPolicy.hpp", "datastruct/tree/kdtree/policy/SplittingRulePolicy.hpp", "common/algorithms/Sorting.hpp"],
 [("recursive build", "datastruct/tree/kdtree/KDTree.hpp"), ("quickselect partition around the median", "common/algorithms/Sorting.hpp"), ("bounding box shrink/restore around the cut", "datastruct/tree/kdtree/KDTree.hpp")], ["root node traversal", "index list after building"])

prop("P10", "Nearest-neighbour and radius queries are exact, also with concurrent callers",
 "A k-nearest-neighbour query returns exactly the k smallest distances in the dataset (fewer only when fewer samples exist), each with the right sample, a query that is itself a sample included at distance zero; a ball query returns exactly the samples closer than the radius and a box query exactly the samples inside the box, borders included. This holds for every dataset, index option and random stream used to build the index, for single and batched queries, for queries that exclude a given set of samples or all samples of a given connected component, for moved and copied buffers, and for a buffer handed on from one index to another, which then holds the answer for both together. Any number of threads may query one shared index at the same time and each gets the answer it would get alone.",
 ["inputs", "schedules", "configurations", "histories"], "every dataset, index shape, k, radius, exclusion history, and interleaving of concurrent callers",
 "Tests compare a few random datasets single-threaded with default options; a wrong pruning decision needs a particular geometry, an unsafe cache needs two callers.",
 ["search/Search.hpp", "search/TreeTraverser.hpp", "search/buffer/Unsorted.hpp", "search/buffer/StaticBuffer.hpp", "search/buffer/WithMemory.hpp", "search/buffer/WithUnionFind.hpp", "datastruct/bounds/Ball.hpp", "datastruct/bounds/UnboundedBall.hpp", "datastruct/bounds/AABB.hpp"],
 [("descend to leaf then backtrack with pruning", "search/TreeTraverser.hpp"), ("bounded candidate buffers", "search/buffer/Unsorted.hpp"), ("exclusion of visited and of same-component samples", "search/buffer/WithMemory.hpp")], ["indices and distances of the result buffer"])

prop("P11", "Dual-tree closest edge between two indexed sets is the true closest",
 "For two indexed sets of floating-point samples, whatever their sizes, overlap, shapes, index options and the random streams used to build them, the edge reported between them is the k-th shortest of all cross pairs (the closest pair for k = 1, the longest one when there are fewer pairs), names two samples at exactly that distance, first from the query set, second from the reference set. Restricted to the samples outside a connected component, when there are any, it is the k-th shortest among those. It does not depend on other threads querying the same indexes at the same time.",
 ["inputs", "schedules", "configurations"], "every pair of datasets and index shapes, concurrent callers",
 "Tests compare a few random draws in one thread.",
 ["search/TreeTraverser.hpp", "search/DualTreeTraverser.hpp", "search/ClosestPairOfSamples.hpp", "search/buffer/IndicesToBuffersMap.hpp"],
 [("pairwise node pruning", "search/TreeTraverser.hpp"), ("brute force at the leaves", "search/ClosestPairOfSamples.hpp")], ["reported edge"])

prop("P12", "DBSCAN labels match the density definition for any index and schedule",
 "For every dataset, radius and density threshold, with an index over the whole dataset, two dense samples (more samples than the threshold, themselves included, closer than the radius) share a label exactly when a chain of dense samples each closer than the radius to the next joins them, a non-dense sample closer than the radius to some dense sample gets the label of one such cluster, every other sample is noise (label 0), and labels are consecutive starting at one. The partition does not depend on how the index was built (options, random stream), on repeating the prediction, or on other threads clustering at the same time.",
 ["inputs", "configurations", "schedules", "histories"], "every dataset, radius, threshold, index option, random stream, concurrent clusterings",
 "Tests run a handful of datasets and compare with recorded labels at best; chain structure and border samples need particular geometries.",
 ["dbscan/DBSCAN.hpp", "search/Search.hpp"], [("seed expansion with visited flags", "dbscan/DBSCAN.hpp"), ("radius query", "search/buffer/Unsorted.hpp")], ["predicted labels"])

prop("P13", "The spanning tree connects every sample with minimal total length",
 "For every dataset with at least two samples, index option and random stream, the minimum spanning tree has exactly one edge fewer than there are samples, connects all of them without a cycle, labels every edge with the distance between its two ends (the mutual reachability distance for more than one neighbour, where a sample's core distance is that to its k-th nearest sample, itself included), and no spanning tree has a smaller total length. Its length does not depend on ties, on how the index was built, or on other threads building trees at the same time. Merging and finding groups keeps group membership exact at every step.",
 ["inputs", "configurations", "schedules"], "every dataset incl. ties and duplicates, every index option and random stream, concurrent builders",
 "Tests check edge counts on a few datasets; ties that could form a cycle and components that merge in one round need particular inputs.",
 ["datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp", "datastruct/UnionFind.hpp", "datastruct/graph/spanning_tree/MinimumSpanningTree.hpp"],
 [("component forest with closest outgoing edge per component", "datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp"), ("union by rank with path halving", "datastruct/UnionFind.hpp")], ["edge list"])

prop("P14", "Single-linkage hierarchy merges exactly the threshold components",
 "The single-linkage hierarchy built from a spanning tree contains every sample once as a leaf, merges two groups at each level with non-decreasing height, and for every height the groups below it are exactly the connected components of the graph that keeps tree edges not longer than that height. Cutting it at a height labels two samples alike exactly when tree edges shorter than the cut join them, and groups smaller than the minimum size are noise (label 0). This holds for every tree, in any edge order, with ties, and for several hierarchies built at the same time in different threads.",
 ["inputs", "schedules"], "every spanning tree and edge order, concurrent builders",
 "Tests only print a dendrogram.",
 ["datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp", "datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp", "datastruct/UnionFind.hpp"],
 [("edges merged in sorted order through the union-find", "datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp")], ["hierarchy traversal"])

prop("P15", "HDBSCAN selects the most stable clusters, independent of index and schedule",
 "HDBSCAN labels every sample as noise (0) or as a member of one cluster, numbered consecutively from one; every cluster other than the whole dataset has at least the configured minimum size and is one of the groups that the single-linkage hierarchy forms, no selected cluster contains another, and their total stability (persistence being the reciprocal of the height) is the maximum obtainable from the condensed hierarchy, the whole dataset counting only when a single cluster is allowed; on request the leaves are selected instead. Equal inputs and options give the same partition however often it is computed, in whatever thread, and with other threads clustering at the same time.",
 ["inputs", "configurations", "schedules", "histories"], "every dataset, minimum cluster size, index option and random stream, concurrent clusterings",
 "Tests run it on a few datasets and check nothing about the partition.",
 ["hdbscan/HDBSCAN.hpp", "datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp", "datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp"],
 [("condensation by minimum cluster size and stability propagation", "datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp")], ["predicted labels"])

prop("P16", "A failed allocation surfaces as an error and leaves nothing broken",
 "When memory runs out at any allocation (operator new) inside any operation of the single-threaded configuration, the operation fails with the standard out-of-memory error (a save may report a failed save) instead of ending the process, hanging or returning a wrong result. Everything it had allocated is released, the caller's data and any object built before are unchanged and still usable (an object that was being fitted again stays usable, in its old or its new state), and repeating the operation once memory is available gives the right result.",
 ["fault_sequences", "crash_points", "inputs"], "every allocation of every public operation as the failing one, single or persistent failure",
 "No test injects allocation failures.",
 ["datastruct/tree/kdtree/KDTree.hpp", "search/Search.hpp", "dbscan/DBSCAN.hpp", "hdbscan/HDBSCAN.hpp", "kmeans/KMeans.hpp", "kmedoids/KMedoids.hpp", "datastruct/graph/spanning_tree/CoreDistances.hpp", "common/math/random/Sampling.hpp"],
 [("RAII containers and no exception barrier on allocating paths", "datastruct/graph/spanning_tree/CoreDistances.hpp")], ["exception type", "heap balance", "result of the retry"])

prop("P17", "A saved index or hierarchy is complete on disk or the save reports an error",
 "Saving an index or a hierarchy of finite data to a file either leaves a complete document at that path that describes exactly the saved structure (every sample, option, box and merge), or reports the failure to the caller by its return value or an exception; a full disk, a write error, a short or interrupted write, a failed open or a failed close never passes silently. Saving does not change what is saved, a disk that works again can be saved to, and several threads saving to different files do not disturb each other. Without a fault the save succeeds, also for copied and moved objects.",
 ["fault_sequences", "crash_points", "schedules", "inputs"], "every byte offset as the point of the fault, every fault kind, every structure",
 "Tests never make a write fail and never read a saved file back.",
 ["datastruct/tree/kdtree/KDTree.hpp", "datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp"],
 [("serialisation to a file stream", "datastruct/tree/kdtree/KDTree.hpp")], ["file contents", "reported error"])

prop("P18", "Elapsed time is never negative or distorted by wall-clock changes",
 "A timer reports the time that actually passed since it was started or last reset, in the requested unit and accurate to one unit, never negative and never decreasing between resets, whatever happens to the wall clock meanwhile (steps forwards or backwards, skew), and prints the same amount in seconds. Sleeping lasts as long as requested even when it is interrupted. Timers used from several threads are independent.",
 ["fault_sequences", "schedules", "histories"], "every history of clock steps, skew, interruptions, resets and readings",
 "No test moves the clock.",
 ["common/Timer.hpp"], [("clock choice and unit conversion", "common/Timer.hpp")], ["elapsed reading"])

prop("P19", "Independent clustering jobs in different threads do not interfere",
 "Any mix of library operations running at the same time in different threads on separate objects, or only reading shared data, shared indexes and shared fitted models, is free of data races and deadlocks and gives each thread bit for bit the result it gets when it runs alone with the same random stream, for every interleaving and number of worker threads.",
 ["schedules", "histories", "inputs"], "every interleaving of every mix of operations",
 "Tests are single threaded.",
 ["kmeans/KMeans.hpp", "kmedoids/KMedoids.hpp", "dbscan/DBSCAN.hpp", "hdbscan/HDBSCAN.hpp", "datastruct/tree/kdtree/KDTree.hpp", "search/Search.hpp", "common/math/random/Distributions.hpp"],
 [("no mutable shared state besides thread-local generators", "common/math/random/Distributions.hpp")], ["results per thread", "memory accesses"])

prop("P20", "Operations stay inside their memory, release it, and ignore stale contents",
 "No operation, on any valid input and option, reads or writes outside memory it owns or was given or after releasing it, every object releases all its memory when destroyed, copied or moved-from, and no result depends on what freshly allocated memory happens to contain.",
 ["inputs", "histories", "fault_sequences", "configurations"], "every operation on every valid input, every stale memory content, every construction/copy/move/destruction history",
 "Tests run without memory checking and on memory that is usually zero.",
 ["datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp", "datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp", "datastruct/UnionFind.hpp", "datastruct/graph/spanning_tree/CoreDistances.hpp", "datastruct/tree/kdtree/KDTree.hpp", "search/buffer/StaticBuffer.hpp"],
 [("ownership through unique and shared pointers", "datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp")], ["heap balance", "addressability of every access", "results under different stale contents"])

prop("P21", "Distance functions satisfy their mathematical definitions",
 "Each distance function returns the value of its definition (euclidean, squared euclidean, manhattan, cosine similarity, edit distance) for every pair of equally long feature ranges.",
 ["inputs"], "every pair of feature ranges", "Tests sample a few vectors.",
 ["common/math/heuristics/Distances.hpp"], [("straight-line reductions", "common/math/heuristics/Distances.hpp")])
prop("P22", "Silhouette scores and summary statistics follow their definitions",
 "Silhouette values and the summary statistics (mean, variance, extrema, arg-extrema) equal their definitions for every input.",
 ["inputs"], "every input", "Tests sample a few inputs.",
 ["common/math/heuristics/SilhouetteMethod.hpp", "common/math/statistics/Statistics.hpp"], [("direct evaluation", "common/math/statistics/Statistics.hpp")])
prop("P23", "Partitioning, selection and sorting order the indices correctly",
 "Partitioning, order-statistic selection and sorting permute an index list so that the documented order holds for every input.",
 ["inputs"], "every input", "Tests sample random inputs.",
 ["common/algorithms/Sorting.hpp"], [("Hoare partition with pivot tracking", "common/algorithms/Sorting.hpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)
print(len(P), "properties")
