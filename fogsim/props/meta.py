"""Static description of each check (counts of runs, what is real, what is stubbed)."""
POOL_REAL = ['fog (unmodified, imported from /repo)', 'phylactery', 'dill', 'pickle (ForkingPickler) round trip of tasks and results', 'worker functions (in-process or in really forked workers)']
POOL_STUB = ['multiprocessing.Pool (scheduling, feeder, result delivery simulated)', 'random.Random() entropy', 'clocks', 'user callbacks (generated metrics/keys with injectable faults)']
ASSUME = ['the simulated pool has CPython 3.12 multiprocessing.Pool semantics', 'sampling: a clean batch is evidence, not proof']

META = {}


def _m(prop, quick, thorough, rule, real=POOL_REAL, stub=POOL_STUB, level='exploration', assumptions=ASSUME, **kw):
    META[prop] = dict(quick=quick, thorough=thorough, rule=rule, real=real, stub=stub, level=level, assumptions=assumptions, **kw)


_m('C01', 15000, 300000,
   'each run draws data (5 domains), metric form, radius, key, size bounds, chunk size, workers and 1-3 pool schedules; non-trivial when the sequential result has a cluster and a pool executed >= 2 tasks; distinct by (case, schedule)')
_m('C02', 15000, 300000,
   'each run draws data, block/blocks function, metric, mode, bounds, workers and 1-3 pool schedules; non-trivial when there is a cluster and >= 2 block tasks ran; distinct by (case, schedule)')
_m('C03', 15000, 300000,
   'each run draws a metric data set (ties included), block size, beta, vp_tree, adversarial pivot outcomes, seeds and 1-3 pool schedules; non-trivial when there is a cluster and the data exceeds the block size; distinct by (case, schedule, draws)')
_m('C04', 70000, 500000,
   'each run draws one of 14 routines, its data and options, then one fault: a callback raising (18 exception classes, at a chosen call or on chosen arguments), the input iterable raising after n items, a worker lost with its task, or a callback that cannot be pickled, under a drawn schedule, then a fault-free retry; non-trivial when the fault fired; distinct by (case, fault, schedule)',
   level='fault_enumeration')
_m('C05', 40000, 200000,
   'each run draws a parallel routine, a pool schedule with start failure / killed worker / interrupt while waiting, a callback, pickling or input failure, and a consumer that exhausts, closes, throws into or drops the iterator after n clusters; non-trivial when a pool was started or refused; distinct by (case, faults, schedule)',
   level='fault_enumeration')
_m('C06', 70000, 500000,
   'each run draws one of 14 routines with its data (sizes 0 and 1 included) and options, compares the list result with the reference model and 1-3 other deliveries (lazy stream, generator, tuple, deque, ...); non-trivial when there is a cluster/pair or the input is tiny; distinct by (case, deliveries)')
_m('C07', 20000, 300000,
   'each run draws a seeded clusterer or signature generator and re-runs it under 1-3 other ambient states (generators, clock, entropy, ambient draws from callbacks), or imports fog anew under two entropies; non-trivial when the result is not empty; distinct by (call, ambient decisions)')
_m('C08', 70000, 500000,
   'each run draws a randomised routine, its data and an adversarial sequence of random outcomes (extremes, repeats, arbitrary), followed by a fair PRNG; non-trivial when there is a cluster or a signature; distinct by (case, outcomes)')
_m('C15', 70000, 500000,
   'each run keeps 2-4 iterators alive (possibly the same call on the same objects) and draws every next/close/restart step; non-trivial when >= 2 switches and >= 2 items delivered; distinct by (cases, step sequence)')
_m('C16', 70000, 500000,
   'each run draws a clustering routine with min/max size, mode, processes, adversarial draws and a schedule; non-trivial when a cluster is delivered; distinct by (case, schedule)')

CLI_REAL = ['fog.cli (unmodified, re-imported for every simulated process)', 'argparse', 'csv', 'io.TextIOWrapper / BufferedReader / BufferedWriter', 'key collision clustering and reporting']
CLI_STUB = ['raw descriptors and files below the buffers (SimRaw)', 'process exit (status, flush of standard output, closing of leftover files)', 'clocks']
CLI_ASSUME = ['the process boundary behaves as CPython 3.12 on Linux in a UTF-8 locale', 'sampling: a clean batch is evidence, not proof']
_m('C11', 25000, 400000,
   'each run draws a CSV table (quoting, line endings, unicode, control characters), a split or transform command line, 1-2 deliveries (file/stdin, short reads and writes, buffer sizes) and one failure (one of eight read errors or an interrupt at a byte, undecodable byte, cut character, failing cell, failing open, missing column, empty input); non-trivial when the table has rows; distinct by (command, data, decisions)',
   real=CLI_REAL, stub=CLI_STUB, assumptions=CLI_ASSUME, level='fault_enumeration', measure='not applicable: one process, one thread')
_m('C12', 25000, 400000,
   'each run draws a table, a split, transform or cluster command, an output target and 1-2 output failures (ENOSPC, EIO, EPIPE, EAGAIN, EDQUOT, EFBIG, ESTALE, ETIMEDOUT, ECONNRESET, EPERM or EINVAL, once or for good, at a byte, at close, at open) under drawn transfer and buffer sizes; non-trivial when the failure fired; distinct by (command, data, decisions)',
   real=CLI_REAL, stub=CLI_STUB, assumptions=CLI_ASSUME, level='fault_enumeration', measure='not applicable: one process, one thread')
_m('C13', 25000, 400000,
   'each run draws a table rich in colliding and hostile values, a report type and two executions differing in transfer sizes, speed, clock stalls and wall-clock jumps; non-trivial when there is a cluster; distinct by (command, data)',
   real=CLI_REAL, stub=CLI_STUB, assumptions=CLI_ASSUME, measure='not applicable: one process, one thread')
_m('C10', 12000, 250000,
   'each run draws a shared object or routine of fog, 2-3 threads with 1-2 calls each, and a schedule that may preempt before any bytecode instruction of fog, before or after the same calls are made alone; non-trivial when there were >= 2 preemptions; distinct by (calls, schedule)',
   real=['fog and phylactery (unmodified)', 'CPython threads, thread-locals'], stub=['thread scheduler (one thread runs at a time, switches drawn)', 'locks created by fog'],
   assumptions=['threads switch only between bytecode instructions of fog or phylactery code (C code such as re or sorted is atomic except when it calls back into fog)', 'sampling: a clean batch is evidence, not proof'],
   measure='distinct sequences of (instruction count, thread) switches')
_m('C09', 20000, 400000,
   'each run draws a key, tokenizer, phonetic code, signature, metric, clustering, join, projection or evaluation call and evaluates it in the lane (long history, its own hash seed) and in 1-2 processes just started under other string-hash seeds, calls reversed; non-trivial when the result is not empty; distinct by (call, arguments)',
   real=['fog and phylactery (unmodified)', 'CPython processes with distinct PYTHONHASHSEED (24 per check: 8 lanes x 3)'], stub=['random entropy', 'clocks', 'user callbacks'],
   assumptions=['a process restart is modelled by a forked copy of a process that imported fog and did nothing else', 'sampling: a clean batch is evidence, not proof'],
   measure='not applicable: one thread; the varied dimension is the hash seed (24 per check)')
_m('C14', 50000, 1000000,
   'each run draws 1-4 calls of the compiled functions (string lengths 0 to ~300, latin-1/BMP/astral/surrogate alphabets, caps 0 to 2^32-2) and per call an allocation plan: which request fails, once or from then on, or above which size, or which Python-object allocation fails, block placement against guard pages and garbage contents; non-trivial when native memory was requested or a request failed; distinct by (calls, plans)',
   real=['cfog/metrics/*.pyx, compiled from /repo by Cython and gcc', 'CPython object allocator'], stub=['malloc family and PyMem_* as called by the native code (simulated allocator with guard pages, quarantine and failure plan)'],
   assumptions=['gcc -O2 build of the same C file as the shipped extension', 'over-reads of Python strings themselves are not trapped, only their effect on the result', 'sampling: a clean batch is evidence, not proof'],
   level='fault_enumeration', measure='not applicable: one thread', build='native')
_m('C17', 8000, 250000,
   'each run draws a signature generator (4 kinds, sizes, seed or adversarial entropy) and either checks the exact laws of a min-wise signature on two documents and their union, or estimates the mean agreement (overall and per position) over 60 to 4000 simulated generators, or the frequency with which MinHash clustering finds a pair over 150-300 simulated generators, against Hoeffding bounds at 1e-13; non-trivial when laws were checked or the similarity is strictly between 0 and 1; distinct by (generator, documents, draws)',
   real=['fog.lsh, fog.clustering.minhash (unmodified)', 'numpy'], stub=['entropy of unseeded generators (adversarial script, then a PRNG)'], measure='not applicable: one thread; the varied dimension is the sequence of random draws')

_m('C18', 6000, 250000,
   'each run draws a variant (plain, full), a family of data sets with similar pairs (groups and scattered twins on a line, lattice, plane, characters), a size, k or the default, rho, delta, distance or similarity form, and compares the mean share of similar pairs found over 6-8 simulated executions with a floor (0.93 to 0.97, two to eight times further from 1 than the worst mean of 2400 measured runs), or, with k >= n - 1 and adversarial draws, demands the exact clusters; non-trivial when there are similar pairs; distinct by (variant, parameters, data, draws)',
   real=['fog.clustering.nn_descent, fog.clustering.utils (unmodified)'], stub=['entropy of unseeded generators (adversarial script, then a PRNG)'], measure='not applicable: one thread; the varied dimension is the sequence of random draws')
