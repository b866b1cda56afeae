"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = state
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
CL = "fog/clustering/"

p("C01", "Parallel pairwise clustering gives exactly the sequential clusters",
  "For any data, metric, radius, key function and size bounds, pairwise clustering run on several worker processes yields the same set of clusters as with one process, in both the 'fuzzy_clusters' and 'connected_components' modes, and both are what their documentation defines: connected components of the similarity graph, or closed neighbourhoods of mutually non-similar seed items covering every clusterable item. The number of processes, the chunk size and the order, delay or distribution in which workers pick up and finish chunks never change the result.",
  ["schedules", "inputs", "configurations"],
  "every data set, metric/radius/key, min/max size, processes >= 2, chunk_size >= 1, and every assignment, duration and completion order of the worker tasks",
  "The existing tests run one small fixture with processes=2 under whatever completion order the OS gives; the property quantifies over all completion orders, chunk sizes (chunk edges) and worker counts.",
  [CL+"pairwise.py", CL+"utils.py"],
  [("pairwise_worker with chunk offsets", CL+"pairwise.py"), ("upper_triangular_matrix_chunk_iter covering each unordered pair once", CL+"utils.py"), ("similarity shipped with dill to the worker", CL+"pairwise.py")],
  ["clusters yielded by pairwise(), pairwise_fuzzy_clusters(), pairwise_connected_components()"])

p("C02", "Parallel blocking gives exactly the sequential clusters",
  "For any data, blocking function (one block or several blocks per item), metric, radius and size bounds, blocking on several worker processes yields the same set of clusters as with one process, in both modes. The result is determined by the pairs that share at least one block and are similar, and never depends on how many workers there are or in which order blocks are picked up and finished.",
  ["schedules", "inputs", "configurations"],
  "every data set, block/blocks function, metric/radius, mode, size bounds, processes >= 2 and every completion order of block tasks",
  "Tests only run the sequential path plus one parallel run; completion orders, duplicated pairs coming from several blocks and block-emission order are not explored.",
  [CL+"blocking.py", CL+"utils.py"],
  [("block_worker on each bucket", CL+"blocking.py"), ("clusters_from_pairs deduplicating pairs found in several blocks", CL+"utils.py")],
  ["clusters yielded by blocking()"])

p("C03", "QuickJoin finds exactly the pairwise result for every pivot choice and schedule",
  "For any true metric given as a distance (or a similarity whose complement to 1 is one), QuickJoin terminates and its connected-component clusters are exactly those of brute-force pairwise comparison, and its fuzzy clusters are closed neighbourhoods of the same similarity graph covering every clusterable item. This holds for every sequence of random pivots (hence every seed), block size, balancing factor, vantage-point option, number of processes and completion order, including data with many ties (distinct items at distance zero); for a given seed the clusters do not depend on the number of processes or their scheduling.",
  ["schedules", "inputs", "configurations", "histories"],
  "every metric data set, every outcome of the pivot draws, block_size >= 1, beta, vp_tree on/off, processes, completion order",
  "The quickjoin test module cannot even be collected here (missing data file) and upstream it samples one seed and one large block size on one data set.",
  [CL+"quickjoin.py", CL+"utils.py"],
  [("recursive partition around random pivots plus window partitions", CL+"quickjoin.py"), ("clusters_from_pairs(fuzzy=True) merging repeated pairs", CL+"utils.py")],
  ["clusters yielded by quickjoin()", "number of distance computations before the first cluster (progress)"])

p("C04", "Failures in callbacks, inputs or workers surface and never corrupt results",
  "If a user callback (metric, key, block, tokenizer), the input iterable or a worker fails at any point of any clustering or join routine, sequential or parallel, the caller receives that failure instead of a normally ending, truncated result (a worker killed outright may block the call but never yields a truncated result). Every cluster or pair delivered before the failure belongs to the fault-free result, and neither the input data nor later calls are affected: running the same call again without the fault gives the fault-free result.",
  ["fault_sequences", "schedules", "inputs"],
  "every routine, every call index at which the callback or iterable raises (any exception class, including StopIteration), every worker schedule, lost worker tasks, and a retry afterwards",
  "No test injects a failing callback, a failing iterator or a failing worker anywhere.",
  [CL+x for x in ("pairwise.py","blocking.py","quickjoin.py","utils.py","key_collision.py","sorted_neighborhood.py","nn_descent.py","minhash.py","vp_tree.py","passjoin.py","ppjoin.py","intersection_index.py")]+["fog/join/hashjoin.py"],
  [("generators propagate exceptions; worker exceptions are re-raised by the pool iterator", CL+"pairwise.py"), ("routines work on private structures", CL+"utils.py")],
  ["exception reaching the consumer", "clusters/pairs delivered before it", "contents of the input", "result of the retry"])

p("C05", "Worker pools never outlive the clustering iterator",
  "When a parallel clustering iterator ends - normally, by an error in a callback, input or worker, by an interrupt while waiting for workers, or because the consumer closes or drops it - every worker pool it started has been shut down, at any point of the schedule. No more workers than requested are started, no pool is started for a single process, and failing to start a pool surfaces as an error and leaves none behind.",
  ["fault_sequences", "schedules", "crash_points"],
  "every parallel routine, every point at which it is interrupted, fails or is abandoned, and every schedule",
  "Tests always exhaust the iterator on the success path and never look at the pools.",
  [CL+"pairwise.py", CL+"blocking.py", CL+"quickjoin.py"],
  [("with Pool(...) as pool around the consuming loop", CL+"pairwise.py, blocking.py, quickjoin.py")],
  ["pools started / shut down as seen at the multiprocessing seam"])

p("C06", "Results do not depend on how the input is delivered",
  "Every clustering and join routine gives the same clusters or pairs whether its input is a list, a tuple or a one-shot lazy stream that delivers items at arbitrary moments, including empty and single-item inputs, and each exact routine's result is the one its documentation defines on that data. Every item of the stream is consumed exactly once and caller-owned containers are never modified. A list its owner modifies between two calls gives, at each call, the result of its content at that time.",
  ["inputs", "histories", "configurations"],
  "every routine and option (multi-pass keys included), every data set including size 0 and 1, every input container kind",
  "Tests feed lists (rarely generators) of a fixed fixture of ordinary size.",
  [CL+x for x in ("pairwise.py","blocking.py","key_collision.py","sorted_neighborhood.py","intersection_index.py","passjoin.py","ppjoin.py","vp_tree.py","nn_descent.py","minhash.py","quickjoin.py")]+["fog/join/hashjoin.py"],
  [("materialise the iterable before random access", CL+"pairwise.py etc.")],
  ["yielded clusters/pairs for list vs stream vs reference model", "number of next() calls on the stream"])

p("C07", "Seeded results are isolated from ambient randomness and clocks",
  "With an explicit seed (zero included) the results of QuickJoin, NN-Descent, MinHash clustering and the MinHash signature generators are a function of their arguments only: the state of the process-wide Python and numpy generators, the clock and OS entropy never influence them. Conversely a seeded call leaves the process-wide generators exactly as it found them, no fog routine ever re-seeds them, and unseeded signature generators draw fresh randomness.",
  ["histories", "inputs", "configurations"],
  "every seed, every prior state of the ambient generators and clock, every interleaving of ambient draws with the seeded routine",
  "Tests run each seeded routine once in a fresh process with one seed, so ambient influence cannot show.",
  [CL+"quickjoin.py", CL+"nn_descent.py", CL+"minhash.py", "fog/lsh/minhash.py"],
  [("private random.Random(seed) instances", "fog/lsh/minhash.py, fog/clustering/quickjoin.py, nn_descent.py")],
  ["clusters/signatures under perturbed ambient state", "state of random and numpy.random before/after"])

p("C08", "Randomised clusterers are sound and terminate for every random outcome",
  "Whatever the random draws are, NN-Descent (both variants), MinHash clustering, vantage-point clustering and every randomised signature generator terminate within a bounded number of metric evaluations and draws and only ever report clusters whose members are linked by pairs that really satisfy the radius. Where randomness is documented not to matter the result is exact: vantage-point clustering equals its definition, NN-Descent with k covering all other items finds every similar pair, and items with identical token sets always share a MinHash cluster.",
  ["inputs", "histories", "configurations"],
  "every sequence of random outcomes (not only those of typical seeds), every data set including tiny ones and ties, every k, h, bands, radius",
  "Those test modules need a data file that is missing, and they fix one seed; a random draw sequence that loops or loses pairs is never sampled.",
  [CL+"nn_descent.py", CL+"minhash.py", CL+"vp_tree.py", "fog/lsh/minhash.py"],
  [("k-nn heaps refined until no update", CL+"nn_descent.py"), ("double check of candidate pairs", CL+"minhash.py")],
  ["yielded clusters", "draw and metric-call counters"])

p("C09", "Results survive a process restart and hash randomisation",
  "Keys, tokens, phonetic codes, LSH signatures, clusters, joins, projections and evaluation scores computed for the same input and seed are identical (clusters being compared as sets) in every process, whatever that process's string-hash seed and history, so they can be stored and compared across restarts or machines.",
  ["histories", "inputs", "configurations"],
  "every input and routine, every pair of processes with different hash seeds and set/dict iteration orders",
  "The test suite always runs under PYTHONHASHSEED=0 in one process.",
  ["fog/key/", "fog/tokenizers/", "fog/phonetics/", "fog/lsh/minhash.py", "fog/lsh/simhash.py", CL, "fog/join/hashjoin.py", "fog/graph/projection.py", "fog/evaluation/best_matching.py"],
  [("crc32/md5 based hashing instead of hash()", "fog/lsh/utils.py, fog/lsh/simhash.py"), ("sorting of token sets", "fog/tokenizers/fingerprint.py"), ("insertion-ordered structures", CL)],
  ["returned values compared across simulated restarts"])

p("C10", "Shared tokenizers, keyers, hashers and routines are safe across threads",
  "Objects fog provides or documents as reusable (fingerprint and word tokenizers, keyers, MinHash-family signature generators) and all module-level functions can be used by several threads at once: each call returns exactly what it returns when run alone, for every interleaving. One thread's call never alters the result of another's.",
  ["schedules", "inputs"],
  "every interleaving (down to single bytecode instructions in fog's code) of two or three threads calling a shared object",
  "Tests are single-threaded.",
  ["fog/tokenizers/fingerprint.py", "fog/tokenizers/words.py", "fog/key/", "fog/lsh/minhash.py", "fog/phonetics/", CL],
  [("per-call local state, configuration read-only after construction", "fog/tokenizers, fog/lsh/minhash.py")],
  ["per-thread return values"])

p("C11", "CLI split and transform conserve rows under any stream behaviour",
  "For every well-formed CSV input, the split and transform commands write the header followed by exactly the rows the operation defines, in input order, with all other cells preserved and every row as wide as the header, however reads and writes are chunked and whether data comes from a file or standard input. If reading, decoding or a cell operation fails midway the command exits non-zero and what was written is a prefix of the correct output.",
  ["inputs", "fault_sequences", "schedules"],
  "every CSV content and option combination, every short-read/short-write pattern, every position of a read error, undecodable byte or interrupt",
  "The command line has no tests at all.",
  ["fog/cli/__main__.py", "fog/cli/split.py", "fog/cli/transform.py", "fog/cli/utils.py"],
  [("csv reader/writer streaming row by row", "fog/cli/split.py, transform.py")],
  ["bytes that reached the output descriptor", "exit status"])

p("C12", "The CLI reports success only if the whole output reached the system",
  "If any write, flush or close of the output of a fog command fails (disk full, broken pipe, I/O error), at whatever byte it happens and whether output goes to a file or to standard output, the process exits with a non-zero status. Exit status 0 implies that the output accepted by the operating system is complete.",
  ["fault_sequences", "inputs", "crash_points"],
  "every command and output target, every byte position and kind of output failure",
  "The command line has no tests; errors at close time only show with a failing device.",
  ["fog/cli/__main__.py", "fog/cli/split.py", "fog/cli/transform.py", "fog/cli/cluster.py", "fog/cli/reporting/"],
  [("explicit flush of the output before exiting", "fog/cli/__main__.py")],
  ["exit status versus bytes accepted by the simulated descriptor"])

p("C13", "The CLI cluster report conserves counts and parses back",
  "The cluster command's TOML and HTML reports state the true number of lines, distinct values and clusters, and list every cluster of values sharing a fingerprint with its true value and row counts, the values of a cluster being ordered by decreasing row count. Whatever text the cells contain the report parses back to exactly those values, and only its date and duration fields depend on the clock (the duration being the time the clustering took), even if the clock stalls or jumps.",
  ["inputs", "fault_sequences", "configurations"],
  "every CSV content (quotes, backslashes, control characters, markup), report type, read chunking and clock behaviour",
  "The command line and reports have no tests.",
  ["fog/cli/cluster.py", "fog/cli/reporting/toml.py", "fog/cli/reporting/html.py", CL+"key_collision.py"],
  [("escape_string and html escaping", "fog/cli/reporting/"), ("Counter of values", "fog/cli/cluster.py")],
  ["report bytes parsed with tomllib / an HTML parser"])

p("C14", "Native edit distances are exact and leak-free under allocation failure",
  "Each compiled edit-distance function either returns the exact (or documented capped or boolean) answer of the textbook definition, or raises MemoryError when memory runs out: it never crashes, never returns a wrong number, never touches memory it does not own and never retains memory after returning. This holds for every pair of unicode strings and every allocation that fails.",
  ["fault_sequences", "inputs"],
  "every pair of unicode strings, every cap, every subset of failing allocations",
  "Tests never fail an allocation, never look at memory and sample a handful of ASCII pairs.",
  ["cfog/metrics/levenshtein.pyx"],
  [("malloc/free of the work vectors", "cfog/metrics/levenshtein.pyx")],
  ["return value / exception", "outstanding allocations and guard bytes at the allocator seam"])

p("C15", "Result iterators are independent however their consumption is interleaved",
  "Several clustering or join iterators alive at once, over the same or different data and with the same callbacks, each deliver exactly what they deliver when consumed alone, for every interleaving of their steps and whichever of them are abandoned, closed or restarted midway.",
  ["schedules", "histories"],
  "every interleaving of next()/close()/restart steps over two to four live iterators of any routines",
  "Tests always exhaust one iterator at a time.",
  [CL, "fog/join/hashjoin.py"],
  [("generator-local state only", CL)],
  ["items delivered by each iterator"])

p("C16", "Every delivered cluster is well-formed and within the requested size bounds",
  "Every cluster delivered by any routine, in any mode, with any number of processes and any random outcome, contains only input items, never the same item twice, and has at least min_size and at most max_size members. In the partitioning modes (connected components, leader, key collision by a single key) no item is delivered in two clusters, and an item is never dropped from a cluster merely to satisfy the bounds.",
  ["inputs", "schedules", "configurations"],
  "every routine, mode, data set, min_size/max_size, processes, random outcome and schedule",
  "Tests use default size bounds almost everywhere and never combine them with modes or parallelism.",
  [CL+x for x in ("utils.py","pairwise.py","key_collision.py","vp_tree.py","passjoin.py","quickjoin.py","nn_descent.py","blocking.py","sorted_neighborhood.py","intersection_index.py")],
  [("size filters in clusters_from_pairs and in each routine", CL+"utils.py")],
  ["yielded clusters"])


p("C17", "MinHash signatures estimate Jaccard similarity for every draw of hash functions",
  "For every draw of hash functions (any seed, or fresh entropy), the signatures of the MinHash family (MinHash with and without numpy, LSBMinHash, SuperMinHash) depend only on the set of tokens of the document, whatever its size and the length of its tokens; every position is drawn from its own hash function and is a minimum over the tokens, so the signature of a union of two documents is the position-wise minimum of theirs (for LSBMinHash each bit is the bit of one of them). Over draws, any position of the signatures of two documents agrees with a probability equal to their Jaccard similarity, so that the similarity functions, which return exactly the fraction of agreeing positions (rescaled for LSBMinHash), estimate it without bias, and MinHash clustering finds a pair of documents at or above the radius at least as often as 1 - (1 - s^rows)^bands promises.",
  ["configurations", "inputs", "histories"], "every sequence of random draws, document size and token shape", "Tests check eight short strings under one seed, with a tolerance of 0.1.",
  ["fog/lsh/minhash.py", "fog/lsh/utils.py", "fog/clustering/minhash.py"], [("universal hashing with drawn coefficients", "fog/lsh/minhash.py"), ("banding of signatures", "fog/clustering/minhash.py")], ["signatures", "estimated similarities over many simulated generators", "frequency of a pair being clustered"])
p("C18", "NN-Descent converges to nearly every similar pair, whatever the random draws",
  "For every seed or fresh entropy, NN-Descent (plain and full) refines its initial random neighbours until they are the nearest ones: on data made of similar groups with a meaningful distance (points of a line, of a plane, a lattice), with k of at least 3 (plain) or 5 (full) or the default log2(n), the clusters hold on average nearly all (more than 93%) of the pairs within the radius, with a distance or a similarity function, and never two items of different groups. When k reaches n - 1, the clusters are exactly the connected components of the similar pairs, for every draw.",
  ["configurations", "inputs", "histories"], "every sequence of random draws, variant, k, rho, delta and size", "The tests of NN-Descent need a data file which is missing; they would compare one seed.",
  ["fog/clustering/nn_descent.py"], [("refinement loop until no neighbour changes", "fog/clustering/nn_descent.py"), ("reverse neighbours and samples", "fog/clustering/nn_descent.py")], ["share of similar pairs found over many simulated executions", "delivered clusters"])
p("C21", "Set and vector similarity metrics are symmetric, bounded and exact",
  "Jaccard, dice, overlap and cosine similarities are symmetric, lie in [0, 1], equal 1 on identical inputs and equal their textbook definition.",
  ["inputs"], "every pair of inputs", "Tests sample a few pairs.", ["fog/metrics/"], [("direct formulae", "fog/metrics/")], ["returned value"])
p("C22", "Levenshtein key and block schemes have no false negatives",
  "Two strings within the advertised edit distance always share at least one key or block.",
  ["inputs"], "every pair of strings", "Tests sample a few pairs.", ["fog/key/levenshtein.py"], [("deletion neighbourhoods / blocks", "fog/key/levenshtein.py")], ["returned keys"])
p("C23", "Tokenizers conserve text; keyers and phonetic codes match their definition",
  "Word tokens cover the text without inventing characters, n-grams slide by one, fingerprints are idempotent and order-insensitive.",
  ["inputs"], "every string", "Tests sample fixtures.", ["fog/tokenizers/", "fog/key/", "fog/phonetics/"], [("parsing rules", "fog/tokenizers/words.py")], ["returned tokens/keys"])
p("C24", "Topology-based and quadratic graph projections agree",
  "The monopartite projection is the same with and without the topology optimisation, for every metric and threshold.",
  ["inputs"], "every bipartite graph", "Tests use one graph.", ["fog/graph/projection.py"], [("neighbour traversal", "fog/graph/projection.py")], ["edges and weights"])
p("C25", "Graph sparsification terminates with a valid threshold",
  "Sparsification returns for every weighted graph, and removing edges below the threshold leaves no large drifting component before it.",
  ["inputs"], "every weighted graph", "Tests do not run it.", ["fog/graph/sparsification.py"], [("threshold increments", "fog/graph/sparsification.py")], ["returned threshold"])
p("C26", "Best-matching evaluation equals its definition",
  "Precision, recall and F1 equal the exhaustive best matching, are in [0, 1] and are 1 on identical clusterings.",
  ["inputs"], "every pair of clusterings", "Tests use fixtures.", ["fog/evaluation/best_matching.py", "fog/evaluation/utils.py"], [("index of predicted clusters", "fog/evaluation/best_matching.py")], ["returned scores"])
p("C27", "SimHash estimates converge to the similarity they approximate",
  "SimHash similarity estimates have the documented expectation and error.",
  ["inputs", "configurations"], "every pair of token sets", "No test.", ["fog/lsh/simhash.py"], [("md5/sha bit histogram", "fog/lsh/simhash.py")], ["estimated similarity"])
p("C28", "LAESA clustering finds the pairwise result",
  "LAESA nearest-neighbour clustering agrees with pairwise clustering.",
  ["inputs"], "every metric data set", "The routine is documented as not working.", [CL+"laesa.py"], [("base prototypes", CL+"laesa.py")], ["yielded clusters"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
