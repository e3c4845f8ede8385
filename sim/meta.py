"""What bin/check needs to know about each property without loading the library."""
SEAMS = "scheduler, CPUID, RDRAND, /dev/urandom, clocks, process id, allocators"
LIB = "all of randomgen (Cython and C) compiled from /repo with link-time seams; numpy; CPython"
META = {
    "C01": {
        "runs": {"quick": 50000, "thorough": 1000000},
        "rule": "a run is one schedule of 2-4 threads (thorough: up to 6) drawing from one or two shared generators; every run is non-trivial; two runs are distinct if configuration, the calls of the threads or the sequence of hand-overs differ",
        "real": [LIB, "numpy Generator and its fills", "operating-system threads, one running at a time"],
        "stub": ["the thread scheduler", "threading.Lock and RLock", "operating-system entropy of numpy"],
        "must": ["preemption", "wait for the lock interrupted", "preempted while holding the interpreter lock", "call hold", "call raw", "call ext cn0", "call in several blocks interleaved"],
        "technique": "seeded schedules of threads preempted at every draw and lock operation; every word is entered in a ledger, and the history is checked for serializability by re-execution in ledger order",
        "note": "sampled schedules over all configurations and 37 kinds of calls",
    },
    "C02": {
        "runs": {"quick": 60000, "thorough": 1000000},
        "rule": "a run is one schedule of 2-4 threads sharing a generator while some of their calls are made to fail; it is non-trivial if a call failed; two runs are distinct if configuration, calls, or the sequence of hand-overs differ",
        "real": [LIB, "numpy Generator and its fills", "operating-system threads, one running at a time"],
        "stub": ["the thread scheduler", "threading.Lock and RLock", "the allocators of randomgen and of numpy's data", "the RDRAND instruction", "operating-system entropy of numpy"],
        "must": ["preemption", "rejected arguments", "failed allocation", "wait for the lock interrupted", "hardware failure reported", "user callback raised"],
        "technique": "seeded schedules with injected refusals, allocation failures, interrupted waits, hardware outages and raising callbacks; the lock is inspected after every call and the survivors' words are checked for serializability without the failed calls",
        "note": "sampled schedules and fault points over all configurations, RDRAND and user generators",
    },
    "C03": {
        "runs": {"quick": 9000, "thorough": 250000},
        "rule": "a run is one schedule of 2-4 workers, each with up to three objects of its own that descend from common ancestors; every run is non-trivial; two runs are distinct if configuration, derivations, operations or the sequence of hand-overs differ",
        "real": [LIB, "pickle and copy", "numpy Generator", "operating-system threads, one running at a time", "a second process"],
        "stub": ["the thread scheduler", "threading.Lock and RLock", "operating-system entropy of numpy"],
        "must": ["preemption", "worker repeated in another process", "op derive", "op drop", "op cross", "op load", "worker from jumped", "worker from copy", "worker from pickle", "worker from spawn"],
        "technique": "seeded schedules of workers preempted at every draw while they make, derive, move, reseed, restore and destroy related generators, each refined against the worker running alone here or in another process",
        "note": "sampled schedules over all configurations and their relatives",
    },
    "C04": {
        "runs": {"quick": 18000, "thorough": 400000},
        "rule": "a run is one script of draws/advances/jumps on one generator configuration with checkpoints and crashes; it is non-trivial if at least one crash was recovered from a checkpoint; two runs are distinct if configuration, operation kinds, or the placement, method and target of the faults differ",
        "real": [LIB, "pickle and copy", "a second process as the restart target"],
        "stub": ["durable storage (an in-memory list of checkpoints that survives the simulated crash)", "operating-system entropy of numpy"],
        "must": ["crash", "restore cut short", "stale checkpoint", "restart in another process", "crash right after restore", "restore into another configuration"],
        "technique": "seeded scripts of one generator's life with crashes, stale and torn checkpoints and restarts in another process, refined against the uninterrupted run",
        "note": "sampled scripts over all configurations, all checkpoint methods, used and fresh targets",
    },
    "C05": {
        "runs": {"quick": 28000, "thorough": 500000},
        "rule": "a run is one worker's script with an observer acting between its operations; it is non-trivial if the observer acted; two runs are distinct if configuration or the sequence of operations and observations differ",
        "real": [LIB, "pickle, copy, ctypes and cffi interfaces, numpy Generator and RandomState"],
        "stub": ["operating-system entropy of numpy"],
        "must": ["observation state-edit", "observation ext-state-edit", "observation state-set-edit", "observation jumped", "observation drop", "observation use-copy", "observation attrs"],
        "technique": "seeded scripts of a worker interrupted by an observer that reads, copies, edits, uses and destroys checkpoints, refined against an unobserved twin; saved states are watched for change",
        "note": "sampled scripts over all 59 configurations and 31 observations",
    },
    "C06": {
        "runs": {"quick": 150000, "thorough": 2500000},
        "rule": "a run is one worker's script of draws, advances, copies and restarts; it is non-trivial if at least one advance or restart happened; two runs are distinct if configuration or the sequence of operation kinds, widths drawn and sizes of the steps differ",
        "real": [LIB],
        "stub": ["durable storage (one number: the steps used)", "operating-system entropy of numpy"],
        "must": ["crash, restart from the seed", "negative advance", "wrapped advance", "advance across the end of the period", "advance with half a word buffered", "carry into the next counter word", "restart compared with plain drawing"],
        "technique": "seeded scripts of a worker that draws, skips in all directions, crashes and restarts with only its step count, refined against exact integer positions",
        "note": "sampled scripts over the 29 configurations that can advance, with counters near their carries; positions are exact for any step size",
    },
    "C07": {
        "runs": {"quick": 12000, "thorough": 350000},
        "rule": "a run is one coordinator's life, one jump and the interleaved draws of coordinator and worker; every run is non-trivial; two runs are distinct if configuration, number of jumps, route or the events before the jump differ",
        "real": [LIB],
        "stub": ["operating-system entropy of numpy"],
        "must": ["crash of the worker before its first draw", "by chain", "by inplace", "by checkpoint", "jump with half a word buffered", "jumped generator reseeded"],
        "technique": "seeded scripts of a coordinator handing out jumped workers directly, in chains and through crashes, refined against positions computed by polynomial or integer arithmetic",
        "note": "sampled lives over all 40 configurations that can jump; distances are checked exactly",
    },
    "C08": {
        "runs": {"quick": 14000, "thorough": 300000},
        "rule": "a run is one generator's life divided among nodes with different CPUs; it is non-trivial if it switches acceleration, migrates or runs on another node than the reference; two runs are distinct if configuration, nodes, checkpoint methods or the sequence of operations and switches differ",
        "real": [LIB, "a second build of the vectorised modules without SIMD, and of pcg64 and philox with emulated 128-bit arithmetic", "other processes as nodes"],
        "stub": ["CPUID (masked per process)", "operating-system entropy of numpy"],
        "must": ["migration", "acceleration refused", "acceleration switched off", "segment on node portable", "segment on node no features"],
        "technique": "seeded scripts that migrate one generator between nodes with masked CPUID and a build without SIMD and 128-bit integers while acceleration is toggled, refined against the unmigrated portable run",
        "note": "sampled scripts over AESCounter, ChaCha, SPECK128, DSFMT, SFMT, the PCG64 family and Philox",
    },
    "C09": {
        "runs": {"quick": 40000, "thorough": 900000},
        "rule": "a run is one life of a generator followed by one or two reseeds; it is non-trivial if the life before the seed is not empty; two runs are distinct if configuration, the events of the life or the kind of seeding differ",
        "real": [LIB],
        "stub": ["operating-system entropy of numpy and of the constructors (seeded)"],
        "must": ["seed refused", "state of another generator restored", "seeded by key", "seeded by none"],
        "technique": "seeded random lives (draws, moves, restored states, refused seeds, copies) ended by a reseed and refined against a new generator",
        "note": "sampled lives over all configurations; entropy from the operating system is simulated",
    },
    "C10": {
        "runs": {"quick": 45000, "thorough": 900000},
        "rule": "a run is a sequence of phases in which 1-3 threads draw from RDRAND objects while the hardware follows a script of outages; it is non-trivial if the hardware was asked at least once or an outage struck; two runs are distinct if the script of outages, the calls or the sequence of hand-overs differ",
        "real": [LIB, "numpy Generator and its fills", "operating-system threads, one running at a time"],
        "stub": ["the RDRAND instruction", "CPUID (another process without RDRAND)", "the thread scheduler", "threading.Lock and RLock"],
        "must": ["hardware step failed", "call hit by an outage", "outage survived by retrying", "outage of exactly the allowed length", "call between failure and reset", "reset after a failure", "node without RDRAND", "preemption"],
        "technique": "seeded schedules of threads drawing from simulated hardware with scripted outages; a model of the retry rule fed by the hardware log decides every call",
        "note": "sampled outages and schedules; outages of every length around the retry limit, at every position of a refill",
    },
    "C11": {
        "runs": {"quick": 80000, "thorough": 2000000},
        "rule": "a run is a history of random_entropy calls against a script of system-call outcomes, clock movements and failed allocations; it is non-trivial if a fault struck or two fallbacks were compared; two runs are distinct if the calls or the script differ",
        "real": [LIB],
        "stub": ["open, read and close of the entropy device and its descriptors", "getrandom, gettimeofday, time, clock and getpid", "malloc of the library"],
        "must": ["short read", "end of file", "open fails with EMFILE", "read fails with EIO", "read fails with EINTR", "close fails with EIO", "failed allocation", "clock moved back", "process id changed",
                 "auto: fell back with a warning", "system: failure reported", "fallback compared: time", "fallback compared: pid", "fallback compared: clock"],
        "technique": "seeded histories of calls over a simulated entropy device with scripted errors, short reads, clock jumps and failing allocations; every result is checked against the log of delivered bytes and descriptors",
        "note": "sampled scripts over all sources and sizes to 20000 words",
    },
    "C12": {
        "runs": {"quick": 20000, "thorough": 500000},
        "rule": "a run is one generator's life in which each step meets up to three failing allocations before it succeeds; it is non-trivial if an allocation failed; two runs are distinct if the steps, the failing allocation or the outcome differ",
        "real": [LIB, "pickle and copy", "numpy arrays and Generator"],
        "stub": ["the allocators used by randomgen's modules and by numpy's array data", "the RDRAND instruction", "operating-system entropy of numpy"],
        "must": ["failed allocation of the library", "failed allocation of array data", "MemoryError from make", "MemoryError from derive", "MemoryError from reseed", "MemoryError from state", "MemoryError from restore", "MemoryError from raw", "MemoryError from ext", "MemoryError from extra"],
        "technique": "seeded lives with the k-th allocation of a call failing, refined against a twin that never runs out of memory; live allocations are counted before and after",
        "note": "sampled steps and allocation points over all configurations; failures inside the interpreter's own object allocator are not injected (their number depends on its caches, so runs would not repeat)",
    },
    "C13": {
        "runs": {"quick": 70000, "thorough": 900000},
        "rule": "a run is one interleaving of consumers of one bit generator; it is non-trivial if at least two widths were drawn; two runs are distinct if configuration, starting point or the sequence of operations differ",
        "real": [LIB, "numpy Generator, ctypes and cffi consumers"],
        "stub": ["operating-system entropy of numpy"],
        "must": ["run ends with half a word buffered"],
        "technique": "seeded interleaving of consumers over a recorded bitgen_t interface, every word checked against a width model fed by a raw-only twin",
        "note": "sampled interleavings; stateful only in the half-word buffer and the block position, which the runs reach for all 59 configurations",
    },
    "C14": {
        "runs": {"quick": 35000, "thorough": 700000},
        "rule": "a run is one worker's script with faulty requests between its operations; it is non-trivial if at least one request was refused; two runs are distinct if configuration or the sequence of operations and requests differ",
        "real": [LIB],
        "stub": ["operating-system entropy of numpy and of the constructors (seeded)"],
        "must": ["refused: state torn", "refused: state foreign", "refused: state class", "refused: seed", "refused: key", "refused: draw", "refused: advance"],
        "technique": "seeded scripts of a worker attacked with torn, foreign and mistyped checkpoints, bad seeds, steps, arguments and arrays, refined against a twin that never saw them",
        "note": "sampled scripts over all configurations; what is refused is left to the library, only the effect of a refusal is judged",
    },
    "C15": {
        "runs": {"quick": 60000, "thorough": 700000},
        "rule": "a run is one interleaving of threads over one or more user-written generators; it is non-trivial if a user function ran; two runs are distinct if the schedule, the operations or what the user functions did differ",
        "real": [LIB, "ctypes callbacks", "numpy Generator"],
        "stub": ["the operating system's thread scheduler (seeded, one thread at a time)", "the user's functions (scripted)", "numba cfunc objects (an object with an address)"],
        "must": ["preemption", "user function raised", "user function stalled", "wait for the lock interrupted", "state read", "state set", "missing state function reported",
                 "call python 32 bits", "call python 64 bits", "call ctypes 64 bits", "call cfunc 64 bits", "call with a raising function"],
        "technique": "seeded schedules of threads that are preempted, stalled and interrupted at every call of a user function; each draw is refined against a reference generator replaying the log of what the user's functions returned",
        "note": "sampled schedules of 1-3 threads; the value of a call whose user function raised is unspecified and not compared",
    },
    "C16": {
        "runs": {"quick": 60000, "thorough": 700000},
        "rule": "a run is one schedule of threads making keys, Weyl increments or generators from scripted entropy; every run is non-trivial; two runs are distinct if the script of the entropy, the operations or the sequence of hand-overs differ",
        "real": [LIB, "numpy Generator.integers below weyl_increments"],
        "stub": ["seed sequences (scripted words, failures, hand-overs)", "the operating system's thread scheduler (seeded, one thread at a time)", "threading.Lock and RLock"],
        "must": ["preemption", "entropy source failed", "failure of the entropy source reported", "wait for the lock interrupted", "made keys", "made Squares", "made LXM", "made Romu", "made SFMT", "made DSFMT", "made from odd entropy",
                 "increments made by concurrent threads", "chosen words ones", "given key"],
        "technique": "seeded schedules of threads that make keys, increments and states from simulated entropy with scripted words and failures; documented constraints and a bound on the words used are invariants, and an undisturbed repetition with other memory around the words is the reference",
        "note": "sampled scripts of up to 120 odd words before the entropy becomes random, 1-3 threads",
    },
    "C17": {
        "runs": {"quick": 40000, "thorough": 250000},
        "rule": "a run is one schedule of threads calling the methods of ExtendedGenerators on one bit generator (with its own or with scripted words); every run is non-trivial; two runs are distinct if the source of words, the calls with their parameters or the sequence of hand-overs differ",
        "real": [LIB, "numpy Generator below multivariate_normal, LAPACK"],
        "stub": ["in 40 % of the runs the source of words (scripted, then pseudo-random)", "the operating system's thread scheduler (seeded, one thread at a time)", "threading.Lock and RLock"],
        "must": ["preemption", "scripted words", "made of scripted words", "wait for the lock interrupted", "refused", "reduced rank", "wishart of one df and scale", "wishart", "standard_wishart", "complex_normal",
                 "multivariate_normal", "multivariate_complex_normal", "uintegers(32)", "uintegers(64)", "random(float64)", "random(float32)", "random(longdouble)"],
        "technique": "seeded schedules of threads on one shared stream whose words are scripted or real; the words each call drew are recorded at the seam and fed to an independent reference model (documented algebra, NumPy's normals and chi-squares) that says what the call had to return; ranges, shapes, refusals and unchanged parameters are invariants",
        "note": "sampled parameters of dimension 1-4 and leading shapes of up to three axes; svd and eigh factors are judged up to an orthogonal transformation (inner products of all pairs), Cholesky and given factors exactly",
    },
    "C18": {
        "runs": {"quick": 40000, "thorough": 700000},
        "rule": "a run is the life of one generator from an origin (seed, scripted seed words, key and counter, crafted state) through draws, threads, crashes, moves and reseeding; every run is non-trivial; two runs are distinct if the configuration, the kinds of origin and parameters, the operations or the sequence of hand-overs differ",
        "real": [LIB, "pickle and copy", "numpy Generator, ctypes and cffi consumers", "numpy SeedSequence (part of the reference)"],
        "stub": ["in part of the runs the seed sequence (scripted words)", "the operating system's thread scheduler (seeded, one thread at a time)", "threading.Lock and RLock"],
        "must": ["origin seed", "origin script", "origin key", "moved: craft", "moved: adv", "moved: jump", "reseed seed", "reseed script", "own parameters", "preemption", "state read between draws", "crash: restored by pickle5", "crash: restored by state", "crash: restored by ext-pickle", "words compared"],
        "technique": "seeded lives of generators under scripted entropy, preempted and interrupted threads, and crashes with recovery; every word recorded at the bitgen_t seam is refined against an independent executable reference of the published algorithm that was given only the origin",
        "note": "all 59 configurations with parameters of all documented sizes, some hundred words per run; keys that Squares derives from a seed are C16's and taken from the exported state",
    },
    "C19": {
        "runs": {"quick": 55000, "thorough": 1000000},
        "rule": "a run is the life of a forest of seed sequences (made, asked for words, spawning, checkpointed, recovered after crashes) with faults and concurrent readers; every run is non-trivial; two runs are distinct if the operations, forms of entropy, faults or the sequence of hand-overs differ",
        "real": ["randomgen's seed sequences and seed_by_array (built from /repo)", "pickle and copy", "numpy arrays"],
        "stub": ["operating-system entropy (scripted, failing)", "the allocators used by randomgen's modules and by numpy's array data", "the moment of KeyboardInterrupt", "the operating system's thread scheduler (seeded, one thread at a time)", "threading.Lock"],
        "must": ["crash", "recovered from an older checkpoint", "recovered by pickle4", "recovered by state", "failed allocation", "interrupted half-way", "the entropy source failed", "preemption", "refused", "seed_by_array",
                 "entropy from the system", "entropy as int", "entropy as HEX", "entropy as np", "entropy as strided", "failed and repeated: spawn", "failed and repeated: gen", "failed and repeated: new", "failed and repeated: array"],
        "technique": "seeded histories of a forest of seed sequences with crashes and recovery from checkpoints, failing allocations and entropy source, interruptions and preempted threads; every word, attribute and child is refined against an independent executable model of the published algorithm, and no child may be handed out twice",
        "note": "sampled entropies of up to 20 integers of up to 300 bits in 30 forms, pools of 4-31 words; spawning from one sequence in several threads at once is locked by the caller, as the library documents no locking there",
    },
}

NA = {}
