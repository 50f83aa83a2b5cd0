#!/usr/bin/env python3
"""Writes /verif/known_findings.json: the defects found in FFCL.  Only "known" entries are ever matched by check.py."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
 ("P04", "c4ace7b", "Lloyd moved a centroid that no sample chose to the origin (mean of nothing) instead of leaving it"),
 ("P03", "504e847", "Hamerly reported the total deviation of an earlier iteration, so a multi-start fit kept the wrong restart"),
 ("P04", "74ee59c", "the second nearest centroid ignored centroids tied with the nearest; Hamerly's lower bound was too large and samples stayed with a centroid that is not their nearest"),
 ("P05", "26c5079", "k-medoids skipped samples as exchange candidates and could exchange a medoid for another medoid (duplicated medoid)"),
 ("P05", "1613151", "second and third nearest medoids ignored medoids tied with the nearest, so exchanges were valued wrongly"),
 ("P07", "bb76c9a", "select_n_random_samples_from_indices did not pass the number of samples on and did not compile"),
 ("P07", "8378a3b", "init_spatial_uniform used the smallest positive number as the initial maximum, so all-negative features gave positions outside the data"),
 ("P07", "a5555f4", "select_n_elements only ever returned the first n elements of the pool, in random order"),
 ("P09", "901219c", "samples closer to the cut value than the float epsilon were put on the wrong side of the split"),
 ("P09", "ace15d8", "the default depth limit was zero: an index with default options never split"),
 ("P09", "ff83142", "without spread in the selected features the cut used a feature outside the mask"),
 ("P09", "52916e5", "the variance over selected features only looked at the first sample"),
 ("P10", "9e8f427", "radius and unlimited queries on integer data pruned subtrees while nothing had been found (infinity of an integer type is zero)"),
 ("P10", "772cc9f", "WithMemory lost the exclusion set it owns when it was moved, excluded samples came back"),
 ("P10", "9c146bd", "UnionFind::find() const compressed paths in place: a data race between concurrent readers (also P13, P19)"),
 ("P11", "fd6cc9e", "the dual tree search dropped candidate edges while it knew fewer than k"),
 ("P13", "43edd59", "with more than one neighbour the spanning tree over mutual reachability distances was not minimal"),
 ("P12", "b2a38e0", "DBSCAN left border samples as noise when they were visited before the cluster that reaches them"),
 ("P14", "6fc433e", "flat clusters joined groups that are separate at the cut and reported one group as noise"),
 ("P20", "094b563", "hierarchies leaked every node: parents and children owned each other"),
 ("P15", "c830db2", "samples merged at height zero contributed no persistence, duplicated samples lowered the stability of their cluster"),
 ("P17", "3671307", "an index or hierarchy that could not be written completely was reported as saved (with 6bc0d97: by the return value)"),
 ("P17", "2699e91", "a moved index saved an indeterminate number of samples (also P20)"),
 ("P18", "2f98878", "elapsed time was measured with the wall clock: negative or distorted when it is adjusted"),
 ("P16", "50a2d08", "running out of memory while the core distances are allocated ended the process (throw inside noexcept)"),
]
json.dump([{"status": "fixed", "property": p, "commit": c, "what": w, "entry": "fixed: property=%s %s %s" % (p, c, w)} for p, c, w in F],
          open(os.path.join(H, "known_findings.json"), "w"), indent=1)
