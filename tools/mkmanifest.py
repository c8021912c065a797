"""Writes MANIFEST.json."""
import json, os
TRACE = "TLA+ specification checked with TLC; runs of the real code validated as traces of it"
ASSUME = ("TLC explores the specification exhaustively within the stated constants; the code is judged on the recorded runs "
          "(generated and TLC-enumerated instances), each compared with the specification in exact arithmetic. ")
C = {
 "C01": "Pass-by-pass chains of the threaded and OpenMP engines; Euclidean distance; coordinates are integers over a scale.",
 "C02": "The pruning rules are model-checked as a refinement of Lloyd (1-D, up to 4 rows, 3 centres; wrong variants are refuted); chains of both pruned engines are validated against Lloyd.",
 "C03": "Each chain is compared with other thread counts, placements (memory, file, NUMA) and engines unless the specification finds a tie.",
 "C04": "A model of processes, all-reduce and gathering refines the k-means specification (2-3 processes; wrong variants are refuted); the engines run under Open MPI with 1 to 6 processes of 1 to 4 threads, randomly delayed, and every pass of the root's result is validated and compared with other layouts and with one process.",
 "C05": "Labels, counts and centres of every recorded result of the four exact engines.",
 "C06": "Chains with pass limits 0, 1, 2, ... until after convergence, tolerances including exact equality.",
 "C09": "Results with pass limit 0 (initial centres, labels) and 1 of all four engines and all initialisations; kmeans++ draws judged by frequency over thousands of starts and by a common random number per draw over many data sets.",
 "C10": "Repeated kmeans++ in memory and from file, three metrics: every start is recorded on its own, the results for several numbers of starts must be the best of them; drawing frequencies within six standard deviations.",
 "C11": "Results of hierarchical k-means, x-means and g-means (random small data sets, up to 40 rows, 17 clusters): labels, counts, true means, number of clusters; the divisive model is checked exhaustively for 4 rows (5 in the thorough tier).",
 "C12": "The state after every initialisation, pass, decision and split of the same engines is validated against the divisive specification; if the observing subclasses do not compile against a tree, only results are judged.",
 "C13": "Chains of k-medoids results for the pass limits 0, 1, 2, ..., four metrics, sampling rates 0.2 to 1; Euclidean totals within a hundredth per row. The step relation is model-checked for all small 1-D instances.",
 "C14": "Chains of scaled k-means results on integer data whose feature ranges divide a common factor, so that the scaled rows are exact; 1 to 8 threads; the parallel min/max reduction is model-checked.",
 "C15": "Chains of fuzzy c-means results; every pass is recomputed from the previous result in interval arithmetic (fuzziness 2, 3, 4; metrics sqeucl, eucl, taxi); the membership model is checked on all small instances. Cosine is not covered.",
 "C16": "Chains of mini-batch results for the batch limits 0, 1, 2, ...; samples and batch labels are hidden, the trace specification keeps the set of label vectors that some sample makes consistent (up to 6 rows; any number of rows when all are sampled); metrics eucl, sqeucl, taxi.",
 "C17": "Random operation sequences on the three readers, the writer, the cluster writer and the thread-local loading of the engines, judged against a file model; every program except gmm is given data files of right and wrong size. Short text buffers and files over 4 GB are not covered.",
 "C18": "Files written from arbitrary result objects, and by every program except gmm for generated arguments, compared token by token with the format applied to the result of the library for the same parameters; jobs are chosen so that each option matters in several of them. knord is compared with the single-process engine on exactly summable data.",
 "C21": "Chains of the engines that accept the metric; cosine with non-zero rows of mixed signs.",
 "C07": "Hand-over model for 2-3 workers (refines an abstract phase machine; wrong variants are refuted); randomised schedules of the real threads under a controlling scheduler are validated against the abstract machine.",
 "C08": "Ranges, tasks, queue resets and row look-ups of the coordinators recorded and validated against the work-division specification; model-checked for all small sizes.",
 "C19": "Operation sequences generated by TLC and at random are replayed on the accumulator classes; every observation is validated.",
 "C20": "Operation sequences on the id generator, flag vectors, vmap and compactor validated as traces; the id model is checked exhaustively.",
 "C22": "Repeated runs, in process, in new processes and under randomised schedules, for every engine; validated against the repetition specification.",
 "C23": "Sequences of centre sets given to the distance table; every accessor validated in exact arithmetic.",
 "C24": "The cofactor scheme is model-checked against the permutation definition for all small matrices up to 3x3; operation sequences on up to 5x5 matrices of small integers (and dyadic fractions for standard scores) are replayed, every result validated.",
 "C25": "A model of the argument checks is explored for all argument combinations; every program is called with usable arguments and with one unusable argument of each kind (all listed wrong metric and initialisation names), exit status and files are judged by the specification. Numbers are parsed by the vendored cxxopts, which is not judged.",
 "C26": "Both criteria are specified in fixed-point interval arithmetic (square roots, logarithms, the normal distribution) inside TLA+ and model-checked on all small instances for independence of unit, origin and child order; every decision of recorded x-means and g-means runs is judged by the intervals. Decisions the intervals leave open (a few per cent) are counted in the evidence and not judged.",
}
CHECKS, NA = {}, {}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash bin/setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in C:
        m["checks"].append({"property": i, "quick_cmd": f"bin/check {i}", "thorough_cmd": f"bin/check {i} --tier thorough",
                            "technique": TRACE, "level": "model_checking", "level_note": ASSUME + C[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
