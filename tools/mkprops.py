"""Single source of the property list: writes properties.jsonl."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state="", observe="", hook=None):
    where = ", ".join(files)
    a = {"files": files, "mechanism": [{"name": mech, "where": where}]}
    if state: a["state"] = [{"name": s.strip(), "meaning": s.strip(), "where": where} for s in state.split(", ")]
    if observe: a["observe_at"] = [observe]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


p("C01", "Exact k-means is Lloyd's algorithm, step by step",
  "After every pass of the unpruned exact k-means (threaded and OpenMP engines), each row is assigned to a centre "
  "at minimal distance from it among the centres the pass started from, and each centre that has rows becomes the "
  "arithmetic mean of exactly those rows while a centre without rows becomes the zero vector. Consequently the sum of "
  "squared distances to the own centre never increases from pass to pass as long as no centre loses all its rows.",
  ["inputs", "configurations"],
  "all data sets, initial centres, k, pass limits and thread counts, Euclidean distance",
  "Tests run two fixed data sets and only compare engines with each other or check that the program exits; a pass that "
  "mis-assigns some rows on other data, or on particular thread counts, is not visible to them.",
  ["libman/kmeans_coordinator.cpp", "libman/kmeans_thread.cpp", "libauto/kmeans.cpp", "libkcommon/clusters.cpp"],
  "E-step per thread over its rows, per-thread sums merged by the coordinator, centres finalised by count",
  "assignments, centres, counts after each pass", "returned clustering for every pass limit")
p("C02", "Triangle-inequality pruning never changes the result",
  "With Euclidean distance, the pruned k-means engines (threaded and OpenMP) produce after every pass exactly what an "
  "unpruned Lloyd pass from the same centres would produce: every row ends at a centre of minimal distance (ties may be "
  "broken either way), with the same counts and the same means. Skipping a distance computation is never observable.",
  ["inputs", "histories", "configurations"],
  "all data sets, initial centres, k, number of passes, thread counts; rows that stay, move, return, and centres that become empty",
  "The tests compare pruned and unpruned results on one or two well separated data sets, where unsound bounds rarely bite.",
  ["libman/kmeans_task_coordinator.cpp", "libman/kmeans_task_thread.cpp", "libauto/min-tri-kmeans.cpp",
   "libkcommon/dist_matrix.cpp", "libkcommon/clusters.hpp"],
  "per-row upper bound plus centre drift against half the distance between centres; incremental sums of moved rows",
  "upper bounds, drifts, half-distances, incremental sums", "returned clustering for every pass limit")
p("C03", "The clustering does not depend on threads, engine or data placement",
  "For the same data, parameters and initialisation (given centres, Forgy, random partition or kmeans++), exact k-means returns the same assignments, counts, number "
  "of iterations and (up to rounding) centres whatever the number of threads, whether data is passed in memory, read "
  "from a file or placed per NUMA node. Thread counts that do not divide the number of rows, and more threads than rows, are included.",
  ["schedules", "configurations", "inputs"],
  "all thread counts and NUMA node counts, all placements, all data sets without exact distance ties",
  "Tests use one or two thread counts on 50 and 150 rows; uneven partitions, tiny inputs and many threads are not sampled.",
  ["libman/coordinator.cpp", "libman/thread.cpp", "libman/kmeans_thread.cpp", "libman/task_thread.cpp", "binding/numa_reorg.hpp"],
  "contiguous row ranges per thread, last thread takes the remainder; data pointer per thread",
  "row ranges and per-thread data pointers", "returned clustering")
p("C04", "Distributed k-means equals single-process k-means",
  "For any number of processes and threads per process, the distributed k-means engines (pruned and unpruned) produce on the "
  "root after every pass limit the Lloyd result of the whole data set from the same initial centres, with every global row's "
  "assignment in its place, the global counts and the global means. Row counts that the number of processes does not divide are included. "
  "The starting centres an initialisation chooses do not depend on the number of processes and threads, and nobody waits for ever.",
  ["inputs", "configurations", "schedules"],
  "all data sets, process counts, thread counts, initialisations and pass limits",
  "One test compares outputs on a 50 by 5 matrix for one process layout (and with the installed MPI launcher every process of it runs alone).",
  ["libdist/dist_coordinator.cpp", "libdist/dist_task_coordinator.cpp", "libdist/mpi.hpp"],
  "each rank owns a contiguous block, all-reduce of sums, counts and changes, root gathers assignments",
  "per-rank row block, reduced deltas", "clustering written by the root")
p("C05", "The returned clustering is internally consistent",
  "Every returned clustering of the exact engines has one label in 0..k-1 per row, counts that are exactly the histogram of the labels and sum "
  "to the number of rows, k times dim centre coordinates where each non-empty cluster's centre is the mean of its rows, "
  "and reports the given numbers of rows, columns and clusters. This holds at any pass limit and for any initialisation, also with "
  "duplicate rows, k equal to the number of rows and clusters that become empty.",
  ["inputs", "configurations", "histories"],
  "all exact k-means engines, data sets, k from 2 to the number of rows, initialisations, pass limits of at least one",
  "Tests do not relate counts, labels and centres to each other.",
  ["libkcommon/types.cpp", "libman/kmeans_coordinator.cpp", "libman/kmeans_task_coordinator.cpp", "libauto/kmeans.cpp",
   "libauto/min-tri-kmeans.cpp", "libkcommon/clusters.cpp"],
  "counts are copied from the merged accumulators, labels are written by the threads, centres are finalised sums",
  "labels, counts, centres", "returned clustering")
p("C06", "Iteration stops exactly when converged or at the limit",
  "Exact k-means performs passes until one changes no row's assignment or the changed fraction of rows is at most the "
  "tolerance, or until the pass limit is reached, whichever comes first; it performs no further pass and no fewer. The reported "
  "number of iterations is the number of passes performed and never exceeds the limit.",
  ["inputs", "histories", "configurations"],
  "all data sets, tolerances in [0,1) or negative, pass limits of at least 1, all exact engines",
  "No test looks at the reported iterations or at limits smaller than the convergence time.",
  ["libman/kmeans_coordinator.cpp", "libman/kmeans_task_coordinator.cpp", "libauto/kmeans.cpp", "libauto/min-tri-kmeans.cpp",
   "libdist/dist_coordinator.cpp", "libdist/dist_task_coordinator.cpp"],
  "changed-row counters summed over threads and compared to zero or the tolerance", "number of changed rows, pass number",
  "reported iterations and the clustering at each limit")
p("C07", "Coordinator and workers hand over phases without loss or hang",
  "In every interleaving, each phase the coordinator starts is executed exactly once by every worker, the coordinator "
  "continues only after all workers finished that phase, no worker starts a phase that was not started for it, and the hand-over "
  "never blocks forever; an exit request ends every worker.",
  ["schedules"],
  "all interleavings of any number of workers over any sequence of phases",
  "The tests run on one CPU under a real-time scheduler that hides interleavings; a lost wake-up shows only in rare schedules.",
  ["libman/coordinator.cpp", "libman/thread.cpp", "libman/task_thread.cpp", "libman/thread.hpp"],
  "pending counter, per-worker state under its mutex, condition variables in both directions",
  "pending count, worker states, waiting sets", "order of lock, wait, signal and phase execution in the real threads")
p("C08", "Every row is processed exactly once per pass",
  "For any number of rows, threads and processes, the work given out in one pass covers each row exactly once: thread ranges and the "
  "tasks inside a thread are disjoint, non-empty where handed out, in bounds and jointly cover all rows, and resetting the queue "
  "for a new pass gives out the same work again. Looking up any row's data through the coordinator yields that row.",
  ["inputs", "configurations", "histories"],
  "all row counts (including more than one task per thread and one row more or less than a task), thread counts, process counts",
  "Tests never have more than one task per thread in a clustering run and use few row counts.",
  ["libman/task_queue.hpp", "libman/coordinator.cpp", "libman/task_thread.cpp", "libman/kmeans_task_thread.cpp", "libdist/dist_task_coordinator.cpp"],
  "contiguous ranges, tasks of at most 8192 rows taken from a per-thread queue", "next row of each queue, task bounds",
  "tasks returned by the queue and per-row outcomes of large runs")
p("C09", "Initialisation yields the centres it promises",
  "Forgy initialisation makes every centre a row of the data; random-partition initialisation makes the centres the means of one "
  "partition of all rows; kmeans++ picks rows as centres, never a row coinciding with an earlier centre while another row does not, and gives every row its nearest chosen centre; given centres "
  "are used unchanged. In kmeans++ each further row is drawn with probability proportional to its distance to the nearest centre chosen so far.",
  ["inputs", "configurations"],
  "all data sets, k, thread counts, process counts and engines",
  "Tests never look at the initial centres.",
  ["libman/kmeans_coordinator.cpp", "libman/kmeans_task_coordinator.cpp", "libauto/kmeans.cpp", "libauto/min-tri-kmeans.cpp",
   "libdist/dist_coordinator.cpp", "libdist/dist_task_coordinator.cpp"],
  "uniform row draws, cumulative distance draw, add_member over a random partition", "initial centres, nearest distances",
  "clustering returned with a pass limit of zero or one")
p("C10", "Repeated kmeans++ returns its best start",
  "Running kmeans++ with several starts returns the centres, labels and counts of one start whose total distance of rows "
  "to their nearest centre is the smallest among all starts, reports exactly that total and that start's number, and the labels "
  "are nearest centres with counts matching them. More starts never give a larger total.",
  ["inputs", "configurations", "histories"],
  "all data sets, k, numbers of starts and thread counts",
  "One test only checks the exit status.",
  ["binding/kmeanspp.hpp", "exec/kmeanspp.cpp", "libman/kmeans_task_coordinator.cpp"],
  "state of one coordinator is reset and re-initialised for every start, best snapshot kept", "distances, labels and counts across starts",
  "returned snapshot, total and start number")
p("C11", "Hierarchical clusterings are proper partitions with true means",
  "Hierarchical k-means, x-means and g-means return a clustering in which every row has one label in 0..m-1 for m returned clusters, "
  "no cluster is empty, counts are the histogram of the labels, each centre is the mean of its rows, and m is at least 1 and at "
  "most the requested k. They terminate without failure for every data set, also with duplicate rows and clusters that fall below the minimum size.",
  ["inputs", "histories", "configurations"],
  "all data sets, k at least 2, minimum cluster sizes, pass limits of at least 1, thread counts, Forgy or given initial centres",
  "Tests only check that the programs exit with zero on the iris data.",
  ["libman/hclust_coordinator.cpp", "libman/xmeans_coordinator.cpp", "libman/gmeans_coordinator.cpp", "libkcommon/hclust_compactor.hpp", "libkcommon/types.cpp"],
  "binary splits with recycled ids, final centres recorded on retirement, compaction of ids", "active ids, counts, final centres",
  "returned clustering")
p("C12", "Hierarchical splitting only refines, by two-means inside each parent",
  "In hierarchical k-means, x-means and g-means a pass moves rows only between the two children of the partition they belong to, assigns each processed row to the "
  "nearer child centre and makes the child centres the means of their rows; ids of live clusters are never shared, and a retired "
  "cluster's rows never move again. x-means and g-means may only undo a split as a whole, giving back exactly the parent's rows, count and mean.",
  ["inputs", "histories", "schedules"],
  "all data sets, split sequences, thread counts, minimum cluster sizes and pass limits",
  "Intermediate states are never inspected by tests.",
  ["libman/hclust_coordinator.cpp", "libman/hclust.cpp", "libman/xmeans.cpp", "libman/xmeans_coordinator.cpp",
   "libman/gmeans_coordinator.cpp", "libman/hclust_id_generator.hpp"],
  "partition ids, child ids from an id generator with reclaiming, activity flags", "partition map, labels, counts, live ids per pass",
  "state after every pass and after every splitting round", "none: a subclass in the harness observes the protected state")
p("C13", "k-medoids returns rows as centres and never worsens",
  "k-medoids returns centres that are rows of the data, each the medoid of a non-empty cluster containing it, assigns every row to a medoid at minimal "
  "distance under the metric in use, has counts equal to the label histogram, and the total distance to the own medoid never "
  "increases with a larger pass limit.",
  ["inputs", "configurations", "histories"],
  "all data sets, k, sampling rates, pass limits and thread counts",
  "One test only checks the exit status.",
  ["libman/medoid_coordinator.cpp", "libman/medoid.cpp"],
  "candidate medoids per thread, coordinator keeps the best, reassignment after a change", "medoids, labels, energy", "returned clustering at each pass limit")
p("C14", "Scaled k-means clusters the min-max scaled data",
  "Scaled k-means (feature-scaled) first maps each feature linearly so that its minimum becomes 0 and its maximum 1 over all rows and then behaves as exact k-means "
  "on the scaled rows: nearest centres, means, counts, stopping rule, independent of the number of threads. This holds for features of any sign and magnitude.",
  ["inputs", "configurations"],
  "all data sets (a constant feature maps to 0), k, initialisations, pass limits and thread counts",
  "One test only checks the exit status on all-positive data.",
  ["libman/skmeans_coordinator.cpp", "libman/skmeans.cpp"],
  "per-thread feature minima and maxima merged by the coordinator, in-place scaling, Lloyd passes", "feature ranges, scaled rows", "returned clustering at each pass limit")
p("C15", "Fuzzy c-means labels follow its memberships and centres",
  "Fuzzy c-means labels every row with the cluster of its largest membership, i.e. a centre nearest to it among the centres the last "
  "pass used, returns counts equal to the label histogram, and centres that are the membership-weighted means of the rows; the result is "
  "the same for every number of threads.",
  ["inputs", "configurations"],
  "all data sets, k, fuzziness 2 and above, pass limits and thread counts",
  "One test only checks the exit status.",
  ["libman/fcm_coordinator.cpp", "libman/fcm.cpp", "libkcommon/dense_matrix.hpp"],
  "membership matrix from distance ratios, weighted sums per thread, arg-max at the end", "membership matrix, centres", "returned clustering at each pass limit")
p("C16", "Mini-batch k-means ends with a full nearest assignment",
  "Mini-batch k-means assigns at the end every row, sampled or not, to a centre at minimal distance among the returned centres; the counts are the "
  "histogram of the labels and sum to the number of rows. A batch moves only centres of clusters that got a sampled row: for each sampled row in row order, the nearest centre moves towards "
  "the row by one over the number of rows labelled with that cluster so far, hence inside the convex hull of its old position and the rows. The reported iterations are the batches performed, at most the limit.",
  ["inputs", "configurations", "histories"],
  "all data sets, batch sizes, k, pass limits, thread counts",
  "One test only checks the exit status.",
  ["libman/kmeans_task_coordinator.cpp", "libman/kmeans_task_thread.cpp"],
  "sampled rows update centres with a per-cluster rate, a final full assignment pass runs over all rows", "sample, centres, labels", "returned clustering")
p("C17", "Reading data yields the data that was written",
  "A matrix stored in the binary row-major format is read back value for value by every reader (whole file, row range, per thread; also far into files of many gigabytes), text data is read "
  "with the same values and shape, and storing one cluster writes exactly the rows labelled with it, in order. A read that would pass the end of a binary file "
  "is refused, and a program given a data file whose size is not rows times columns doubles refuses it and writes no result.",
  ["inputs", "configurations"],
  "all matrices, shapes, offsets, ranges and delimiters the readers accept",
  "Unit tests read one small file per reader.",
  ["libkcommon/io.cpp", "libkcommon/io.hpp", "libman/thread.cpp"],
  "binary readers seek by row, text reader splits lines", "file position, buffer", "values returned by the readers")
p("C18", "The saved result file states the computed clustering",
  "The result file written by the programs and by the library lists the number of clusters, iterations, rows and columns, the size of every cluster, the label of every "
  "row in row order and the coordinates of every centre (to six significant digits) of the clustering that was computed, for any shape, and it is written in the output directory asked for. A program run from the "
  "command line computes the same clustering as the library call with the same parameters.",
  ["inputs", "configurations"],
  "all result shapes, all command-line programs and options with an output directory",
  "Tests only diff two outputs of the same writer with each other.",
  ["libkcommon/types.cpp", "exec/knori.cpp", "exec/knord.cpp", "exec/hmeans.cpp", "exec/skmeans.cpp", "exec/medoids.cpp"],
  "sequential formatting of the result object; option parsing into engine parameters", "result object", "file content")
p("C19", "Cluster accumulators equal the multiset of their members",
  "Whatever sequence of adding, removing and moving members, merging accumulators, clearing, finalising and un-finalising, an accumulator's count is the "
  "number of its members and its centre times count (or its sum when not finalised) is the exact sum of its members; finalising twice or un-finalising twice "
  "changes nothing, and the drift and saved previous centres of the pruning variant match the history.",
  ["histories", "inputs"],
  "all operation sequences on plain, pruning, hierarchical and growing accumulators",
  "Unit tests run one fixed sequence.",
  ["libkcommon/clusters.cpp", "libkcommon/clusters.hpp"],
  "sums with counts, completion flag per cluster, scaling by the count", "sums, counts, completion flags", "public accessors after every operation")
p("C20", "Id, flag and map bookkeeping never aliases or loses entries",
  "Split ids handed out are never zero and never equal to an id that is still in use, for any order of requests and reclaims. Flag vectors and index maps return what was last "
  "stored at that index, growing keeps existing entries and makes new ones unset, iteration visits each stored key once in ascending order, and compaction maps the "
  "non-empty clusters one-to-one, in order, onto 0..m-1 with their counts.",
  ["histories", "inputs"],
  "all operation sequences including growth, erasure, re-use and empty containers",
  "Unit tests run one fixed sequence per container.",
  ["libman/hclust_id_generator.hpp", "libkcommon/thd_safe_bool_vector.hpp", "libkcommon/thd_safe_bool_vector.cpp", "libkcommon/types.hpp", "libkcommon/hclust_compactor.hpp"],
  "recycler stack with maximum id, byte vectors, vectors with an empty value", "live ids, stored entries", "return values after every operation")
p("C21", "Lloyd with other metrics assigns by that metric",
  "Unpruned exact k-means with taxicab, squared-Euclidean or cosine distance assigns in every pass each row to a centre of minimal distance under the "
  "selected metric (cosine for rows and centres that are not zero), and otherwise keeps Lloyd's means, counts and stopping rule; every engine that accepts the metric agrees.",
  ["inputs", "configurations"],
  "all data sets, k, metrics, pass limits and thread counts",
  "Tests run with the default metric or only check the exit status.",
  ["libkcommon/util.hpp", "libkcommon/util.cpp", "libman/kmeans_thread.cpp", "libauto/kmeans.cpp"],
  "distance dispatch by metric", "assignments and centres", "returned clustering at each pass limit")
p("C22", "Re-running the same configuration gives the identical result",
  "Running any clustering program or engine twice with the same data, parameters and thread count gives the identical labels, counts, iterations and centres, in the same process or a new one, "
  "and under any thread scheduling; a run leaves the caller's input data unchanged unless the engine is documented to scale it in place.",
  ["schedules", "histories", "configurations"],
  "all engines and configurations, any schedule, any number of earlier runs in the process",
  "Tests never compare two runs of the same engine.",
  ["libman/coordinator.cpp", "libman/kmeans_task_coordinator.cpp", "libauto/kmeans.cpp", "libauto/min-tri-kmeans.cpp", "libman/medoid_coordinator.cpp"],
  "fixed seeds, fixed work division, merge in thread order", "generator state, file-scope state of the OpenMP engines", "returned clusterings of repeated runs")
p("C23", "Centre distance table and pruning thresholds are exact",
  "After computing the centre distances, the table gives for any two different clusters, in either order of indices, half the Euclidean distance of their current centres, and the "
  "threshold of each cluster is the smallest of its entries; recomputing after the centres moved leaves no value from before.",
  ["histories", "inputs"],
  "all numbers of clusters, dimensions, centre positions (also coinciding centres) and sequences of recomputation",
  "The unit test checks one small table.",
  ["libkcommon/dist_matrix.cpp", "libkcommon/dist_matrix.hpp", "libkcommon/clusters.hpp"],
  "upper triangular storage with index translation, minimum tracking per cluster", "table entries, thresholds", "accessors after each computation")
p("C24", "Matrix and vector operations compute exact linear algebra",
  "For matrices and vectors of every shape, the dense-matrix class and the linear-algebra helpers give the mathematical result and change nothing else: element, row and whole-matrix assignment and copying, "
  "sum, difference and product of matrices, product of a vector with a matrix, dot products, norms, sums and means along either axis, division by a number or along either axis (also with a power), position of the "
  "(first) largest element along either axis, determinant, adjoint (transposed cofactors with alternating signs), inverse (refused for singular matrices; otherwise the matrix times it is the identity), and "
  "standard scores (mean subtracted, divided by the standard deviation; constant values give zeros). A sum, largest position or division whose axis or length does not fit is refused.",
  ["inputs", "histories"],
  "all matrix shapes, values of either sign (also non-integers and singular matrices) and sequences of operations",
  "The unit tests print an inverse without checking it and check products and means of one matrix.",
  ["libkcommon/dense_matrix.hpp", "libkcommon/linalg.hpp"],
  "row-major storage, cofactor expansion in a work area with the full row length", "matrix contents, results", "accessors and results after each operation")
p("C25", "Programs refuse unusable arguments instead of answering",
  "A program called with an option it does not have, a data file or file of centres that is missing or too short, zero clusters, an unknown distance metric or initialisation (for OpenMP only eucl and cos exist), "
  "the initialisation none without a file of centres, or (except knord) a tolerance that is not a number ends with an error and writes no result file; a call for help or with too few arguments writes none either. "
  "The same call with usable arguments succeeds and writes its result.",
  ["inputs", "configurations"],
  "all programs except gmm, all combinations of options with one unusable argument",
  "The tests call each program once with good arguments.",
  ["exec/knori.cpp", "exec/xmeans.cpp", "libkcommon/util.cpp", "libauto/kmeans.cpp", "libauto/min-tri-kmeans.cpp"],
  "argument checks in the programs, name checks when the engine is created", "parsed options", "exit status and files of each program")
p("C26", "x-means and g-means keep exactly the splits their criterion favours",
  "After the passes of a round, x-means undoes the split of a partition if and only if the Bayesian information criterion of the partition as one cluster exceeds that of its two children, "
  "each child scored with the likelihood of its own rows, with the variances from the squared distances of the partition's rows to the partition's mean and to the children's centres in the last pass; a partition of up to two rows is not split. "
  "g-means keeps a split if and only if the partition's rows, projected on the line through the two child means, differ from a normal distribution by the Anderson-Darling test, "
  "with the critical value of the chosen strictness for the partition's number of rows; fewer than four rows are not split. Neither keeps a split that leaves a child without rows. "
  "So no decision depends on the unit of the data, on other partitions, or on earlier rounds.",
  ["inputs", "histories", "configurations"],
  "all data sets, split sequences, metrics, thread counts, strictness values and pass limits, except where both sides of the comparison agree up to rounding",
  "The tests check the statistic on four numbers and that the programs exit with zero; no test looks at a decision.",
  ["libman/xmeans_coordinator.cpp", "libman/xmeans.cpp", "libman/gmeans_coordinator.cpp", "libman/gmeans.cpp", "libkcommon/AndersonDarling.hpp", "libkcommon/linalg.hpp"],
  "scores from per-row distances filled in by the threads; test statistic of per-row projections", "per-row distances and projections, partition and child ids",
  "state after each pass and after each round's decision", "none: a subclass in the harness observes the protected state")

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
