"""Budgets and texts per property."""
DEFAULT = {
    "quick_runs": {"par": 40000, "seq": 15000},
    "share": {"par": 0.75, "seq": 0.25},
    "quick_seconds": 60,
    "thorough_seconds": 600,
    "verify_every": 50,
    "rule": "",
    "assumptions": [],
}
CONF = {
    "P01": {"rule": "Builds matrices over generated datasets with a random team and schedule and compares every element with a naive evaluation."},
    "P02": {"rule": "Transposes generated shapes with a random team and schedule and compares every element."},
    "P03": {"rule": "Fits k-means with several restarts under a random team, schedule and stopping rule; refits every observed start alone and compares the returned model with the best of them."},
    "P04": {"rule": "Refines given or random starts with both algorithms and checks monotone loss, fixpoint, idle centroids, agreement of the algorithms and exact assignment, also from several callers and after refits."},
    "P05": {"rule": "Fits k-medoids (given start, random restarts, dataset or matrix) under a random team and schedule; checks distinctness, range, loss, all single exchanges by brute force, the best restart and exact assignment."},
    "P06": {"rule": "Threads and team members draw from the distributions under normal and degenerate entropy; checks range, finiteness, reachability and equality with the same thread alone."},
    "P07": {"rule": "Runs every sampling function on generated pools under normal and degenerate entropy, alone and in concurrent threads; checks distinct positions, counts, unchanged pool, completeness over many streams and the bounding box."},
    "P08": {"rule": "Draws from generated weights and seeds k-means++ under normal and degenerate entropy and concurrent callers; checks support, frequencies against the exact law and distinct positions."},
    "P09": {"rule": "Builds indexes with generated data, policies, masks, sampling rates and limits, alone and concurrently, and walks the result against the definition."},
    "P10": {"rule": "Runs generated queries of every kind, single, batched, moved, repeated and from concurrent callers of one index, against brute force."},
    "P11": {"rule": "Asks for shortest edges between generated pairs of sets through every entry point, with and without component restriction and with concurrent callers, against brute force."},
    "P12": {"rule": "Clusters generated datasets (radii on existing distances included) with different indexes, repeatedly and concurrently, against DBSCAN by definition."},
    "P13": {"rule": "Builds spanning trees of generated datasets, alone and concurrently, against brute-force Kruskal over (mutual reachability) distances; drives union-find histories against a set model."},
    "P14": {"rule": "Builds hierarchies from generated trees in any edge order and compares heights, components at every height and cut labels with a naive model; copies, moves and concurrent use."},
    "P15": {"rule": "Condenses generated hierarchies and clusters generated datasets; recomputes stability and the optimal selection naively; repetition, copies and concurrent use."},
    "P16": {"rule": "Fails one allocation (or all from one on) at a random point of a random operation and checks error, leaks, untouched objects, the repeated operation and a following one.", "quick_runs": {"par": 0, "seq": 55000}},
    "P17": {"rule": "Saves generated structures under a random disk fault at a random byte, re-reads the file with an independent reader and compares; heals and repeats; concurrent saves."},
    "P18": {"rule": "Drives timers and sleeps through random histories of virtual time, wall-clock jumps, skew and interruptions, alone and in threads."},
    "P19": {"rule": "Runs random operation sequences in 2-4 threads on shared read-only and own objects and compares bit for bit with each thread alone under the same entropy; every access is checked for races."},
    "P20": {"rule": "Runs random operation histories from nothing to nothing under two contents of fresh memory; checks every access, leaks after each operation and at the end, and equal results."},
}
