#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

ALLPYX = ["randomgen/aes.pyx","randomgen/chacha.pyx","randomgen/dsfmt.pyx","randomgen/efiix64.pyx","randomgen/hc128.pyx",
 "randomgen/jsf.pyx","randomgen/lxm.pyx","randomgen/mt19937.pyx","randomgen/mt64.pyx","randomgen/pcg32.pyx","randomgen/pcg64.pyx",
 "randomgen/philox.pyx","randomgen/romu.pyx","randomgen/sfc.pyx","randomgen/sfmt.pyx","randomgen/speck128.pyx","randomgen/squares.pyx",
 "randomgen/threefry.pyx","randomgen/tyche.pyx","randomgen/xoroshiro128.pyx","randomgen/xorshift1024.pyx","randomgen/xoshiro256.pyx","randomgen/xoshiro512.pyx"]

p("C01","Concurrent draws on one shared bit generator are serializable",
  "When any number of threads draw from one bit generator at the same time - through random_raw, one or several ExtendedGenerators, or NumPy Generators built on it - every single-block draw call (random_raw, uintegers, random, complex_normal, standard_wishart, and NumPy's fills) receives one unbroken run of the stream. Each word of the stream is delivered to exactly one call, and the results of all calls, and the final state, are those of executing the calls one after another in some order. A thread that holds the bit generator's lock therefore sees a state nobody else is advancing.",
  ["schedules","histories"],"every interleaving of 2-4 threads at every draw and lock operation, for every bit generator and mix of draw calls",
  "The tests start threads on real schedulers (test_smoke/test_direct have a handful of thread tests over separate generators), never preempt inside a fill, and cannot force another thread to draw in the middle of one; the quantifier is over schedules.",
  ["randomgen/common.pyx","randomgen/generator.pyx","randomgen/broadcasting.pyx","randomgen/rdrand.pyx"],
  [("every draw loop runs under the bit generator's lock","randomgen/common.pyx:random_raw; randomgen/generator.pyx; randomgen/broadcasting.pyx:double_fill"),("generators share the bit generator's own lock object","randomgen/generator.pyx:ExtendedGenerator.__init__")],
  [("lock","guards the bit generator state","BitGenerator.lock")],["returned arrays","bit_generator.state after all threads end"])

p("C02","A failed call never leaves the shared bit generator locked or half used",
  "Whatever ends a call on a bit generator or ExtendedGenerator - normal return, rejected arguments, an interrupted wait for the lock, a failed memory allocation, a failing or raising user callback, or a hardware generator failure - the lock is free once the call is over and every other thread's call completes. A call that fails before it starts drawing, or a random_raw, uintegers, random or complex_normal call whose result array cannot be allocated, consumes nothing: the next call of any thread gets the words it would have had.",
  ["schedules","fault_sequences"],"every point of every call at which a wait can be interrupted, an allocation can fail, a callback can raise or hardware can fail, under every interleaving of 2-4 threads",
  "The tests check that individual bad arguments raise, one thread at a time, and never look at the lock or at what the next caller receives; no test interrupts or starves anything.",
  ["randomgen/common.pyx","randomgen/generator.pyx","randomgen/broadcasting.pyx","randomgen/rdrand.pyx","randomgen/wrapper.pyx"],
  [("lock taken with a with-statement around the draw loop only, after validation and allocation","randomgen/generator.pyx, randomgen/common.pyx"),("RaisingLock releases before it reports","randomgen/rdrand.pyx:RaisingLock")],
  [("lock","must be free between calls","BitGenerator.lock")],["lock.acquire(False) after the call","values of the next call"])

p("C03","Generators in different threads never influence one another",
  "Each bit generator object has a stream fixed by how it was made (seed, configuration, jumps, restored state); operations on any other object - drawing, seeding, jumping, copying, restoring or destroying it, or spawning from its seed sequence, in this thread or another - never change it or what it can spawn (a shallow copy shares its original's seed sequence). So parallel workers that each own a generator (spawned, jumped, copied or keyed) produce the same output under every interleaving, every number of threads, and in every process.",
  ["schedules","histories","configurations"],"every interleaving of the operations of several workers over all bit generator kinds, including relatives made by jumped, copy, pickle and spawned seed sequences",
  "Tests build one generator, use it and drop it; they do not interleave the life of several related generators or preempt one inside a fill while another runs.",
  ALLPYX+["randomgen/common.pyx","randomgen/generator.pyx"],
  [("all mutable state lives in the instance","randomgen/*.pyx: rng_state"),("jumped copies seed sequence and state","randomgen/common.pyx:_copy_seed")],
  [("rng_state","per-instance state","randomgen/*.pxd")],["draws of each worker"])

p("C04","A restored checkpoint continues exactly the stream that was saved",
  "A checkpoint of a bit generator or ExtendedGenerator - its state dictionary (as it is, or through JSON, and MT19937's legacy tuples), a pickle, a copy or a deep copy - taken at any point of its life continues, after a crash, with exactly the words, in every width and kind of draw, that the original would have produced next. This holds for every configuration, for classes a user derives from randomgen's, and for an ExtendedGenerator over NumPy's own bit generators, whether it is restored into the same object, a used, differently seeded or differently configured object of its class, or a new process, and however often a restore was cut short before a complete one succeeded.",
  ["crash_points","histories","configurations"],"every sequence of mixed-width draws, reseeds, jumps and advances followed by a crash at any operation boundary, for every generator configuration and restore path",
  "The tests pickle freshly seeded or lightly used default generators and compare a few 64-bit draws; they do not cross configurations with restore paths (for example non-default variants through ExtendedGenerator) nor positions such as half-used words, block and counter boundaries.",
  ALLPYX+["randomgen/_pickle.py","randomgen/generator.pyx"],
  [("state property getter/setter","randomgen/*.pyx"),("ExtendedGenerator __reduce__/__setstate__","randomgen/generator.pyx; randomgen/_pickle.py")],
  [("has_uint32/uinteger/buffer/position","partially consumed words","state dictionaries")],["draws after restore"])

p("C05","Checkpoints and other observations are inert",
  "Reading the state, taking a copy or pickle, calling jumped, printing the object, reading its seed sequence or its low-level interfaces never changes what the generator produces next. A saved state never changes afterwards by itself: draws, reseeds or advances of the generator it came from, or of one it was restored into, do not alter it, and editing the saved dictionary does not alter a generator.",
  ["histories"],"every interleaving of observations with draws, reseeds, advances and restores, with any number of outstanding checkpoints",
  "Tests compare states right after taking them and never hold several checkpoints while the generator moves on.",
  ALLPYX+["randomgen/common.pyx"],
  [("state getters build fresh arrays","randomgen/*.pyx state"),("state setters copy element by element","randomgen/*.pyx state.setter")],
  [],["outstanding checkpoints","draws after observation"])

p("C06","Skip-ahead reaches exactly the position that drawing would have reached",
  "For every generator that supports advance, a worker that restarts from its seed and advances by the number of steps already used continues exactly where the crashed worker stopped, from any starting position, with any mix of drawing, advancing forward or by a wrapped or negative amount, and across word, block and counter boundaries and the full period. Advancing by a then b equals advancing by a+b, and a buffered half word never survives a non-zero advance.",
  ["histories","crash_points","inputs"],"every split of a position into draws and advances (steps up to the full period, including block, 32-, 64- and 128-bit carry boundaries) and every crash point, for every generator configuration that can advance",
  "Tests advance by a few fixed steps from a fresh state and compare with a few draws; carries between counter words happen only at states that tests do not construct.",
  ["randomgen/aes.pyx","randomgen/pcg32.pyx","randomgen/pcg64.pyx","randomgen/philox.pyx","randomgen/speck128.pyx","randomgen/squares.pyx","randomgen/threefry.pyx","randomgen/src/philox/philox.h","randomgen/src/threefry/threefry.h","randomgen/src/aesctr/aesctr.h","randomgen/src/speck-128/speck-128.h","randomgen/src/pcg64","randomgen/src/pcg32"],
  [("multi-word counter addition with carry and block regeneration","randomgen/src/*: *_advance"),("LCG jump-ahead by repeated squaring","randomgen/src/pcg64: pcg_advance_lcg_128")],
  [("counter and buffer","position in the stream","state dictionaries")],["draws after advance","state after advance"])

p("C07","Jumped streams start exactly one documented jump apart",
  "jumped(k) returns a generator at the same place as k successive single jumps, and as the in-place jump of a copy, whatever the generator drew before and whatever draws are interleaved; the distance is the documented one (for DSFMT and SFMT counted from the end of the block computed in advance), so segments handed to workers never overlap. The original is left untouched, and the jumped generator keeps the original's configuration.",
  ["histories","configurations"],"every history of draws of all widths before and between jumps, every number of jumps and every order in which workers obtain their segment, for every generator with jump or jumped",
  "Tests compare jumped(1) from a seeded start with stored values; they do not vary the position, the number of jumps, buffered words or configuration.",
  ["randomgen/aes.pyx","randomgen/dsfmt.pyx","randomgen/lxm.pyx","randomgen/mt19937.pyx","randomgen/pcg32.pyx","randomgen/pcg64.pyx","randomgen/philox.pyx","randomgen/sfmt.pyx","randomgen/speck128.pyx","randomgen/squares.pyx","randomgen/threefry.pyx","randomgen/xoroshiro128.pyx","randomgen/xorshift1024.pyx","randomgen/xoshiro256.pyx","randomgen/xoshiro512.pyx"],
  [("jump polynomials and counter offsets","randomgen/src/*: *_jump*")],[],["draws and state of jumped generators"])

p("C08","The stream does not depend on which CPU path computes it",
  "AESCounter, ChaCha and SPECK128 (and the vectorised DSFMT and SFMT) produce the same stream whether or not the CPU offers AES-NI, SSSE3 or SSE4.1 and however often acceleration is switched on or off during the stream; the PCG64 family (and Philox) produces the same stream where 128-bit arithmetic is emulated, as it is on platforms whose compiler has no 128-bit integer. A checkpoint taken on one kind of node continues identically on another, and enabling an instruction set the CPU does not report is refused with an error and changes nothing.",
  ["configurations","fault_sequences","histories"],"every sequence of draws, toggles, CPU-feature changes, reseeds, jumps, advances and migrations between nodes with different CPU features",
  "Tests toggle once at a block boundary on the machine at hand and skip when the feature is missing; they never migrate mid-block or see a CPU without the feature.",
  ["randomgen/aes.pyx","randomgen/chacha.pyx","randomgen/speck128.pyx","randomgen/src/aesctr/aesctr.h","randomgen/src/chacha/chacha.h","randomgen/src/speck-128/speck-128.h","randomgen/src/common/cpu_features.c","randomgen/src/pcg64/pcg64-common.h","randomgen/src/pcg64/pcg64-common.c"],
  [("run-time dispatch between vector and portable cores","randomgen/src/aesctr, chacha, speck-128"),("feature_flags","randomgen/src/common/cpu_features.c")],
  [("use_aesni/use_simd/use_sse41","process-wide dispatch flag","C globals")],["draws","use_* properties"],"CPUID is redirected at compile time of the verification build")

p("C09","Reseeding erases every trace of the past",
  "After seed(s) at any point of a generator's life, the generator is indistinguishable, in every kind of draw and in everything of its state that can influence later output, from a new one of the same configuration made with s. Nothing buffered, no position, counter, half-used word or earlier restored or jumped state survives, and repeating seed(s) always restarts the same stream.",
  ["histories","configurations"],"every history of mixed-width draws, advances, jumps, restores and earlier reseeds before the reseed, and every seed form (int, array, SeedSequence, key and counter where supported)",
  "Tests reseed right after construction or after a couple of 64-bit draws; positions inside buffers, and leftovers in 32-bit halves or block indices, are not crossed with every generator.",
  ALLPYX+["randomgen/common.pyx"],
  [("_reset_state_variables and *_seed / *_set_state","randomgen/*.pyx; randomgen/src/*")],[("p, idx, pos, has_uint32","positions that must be reset","rng_state")],["draws and state after seed"])

p("C10","RDRAND never passes off a hardware failure as random data",
  "While the hardware delivers, RDRAND hands out exactly the delivered words and nothing else: buffered draws get the words of each refill once and in order, random_raw reads the hardware directly. A call during which the hardware stays unavailable for more than the configured number of retries raises RuntimeError after exactly that many retries, the success flag then stays false, and random_raw keeps raising, until it is reset; a shorter outage is invisible. What RDRAND does not take (a seed, a negative number of retries, a foreign state) is refused without touching hardware or state. No failure hangs a call, kills the process or makes a draw read outside the buffered words.",
  ["fault_sequences","schedules"],"every sequence of hardware successes and failures, of any burst length and at any word of any refill, under any mix of raw, buffered, 32-bit, double, array and scalar draws from several threads",
  "Real hardware practically never fails; the tests can only fake a permanent failure with retries=-1 and do not continue after it.",
  ["randomgen/rdrand.pyx","randomgen/src/rdrand/rdrand.h"],
  [("retry loop and sticky status","randomgen/src/rdrand/rdrand.h"),("error flag set under the GIL and surfaced by RaisingLock","randomgen/rdrand.pyx")],
  [("status","0 after any failure","state['status']"),("buffer_loc","next buffered word","state['buffer_loc']")],["exceptions","success","returned words"],"the rdrand intrinsic is redirected at compile time of the verification build")

p("C11","random_entropy returns only entropy it really obtained",
  "With source 'system', random_entropy either returns exactly the bytes the operating system delivered, in the requested shape, or raises RuntimeError; with 'auto' it returns the system bytes or, after a failure, warns and returns fallback data that depends on clock and process; with 'fallback' it never touches the system source. Whatever the source does - missing, permission denied, no descriptors left, read error, interruption, short or empty reads - no partly filled result is returned and no file descriptor is left open.",
  ["fault_sequences"],"every sequence of open/read/close outcomes (success, errno, EINTR, short counts, EOF), clock values and process ids over repeated calls of all sources and sizes",
  "The tests can only force the outcome with a sentinel after a successful read; the error paths of the device I/O, and what they leave behind, are never executed.",
  ["randomgen/entropy.pyx","randomgen/src/entropy/entropy.c"],
  [("entropy_getbytes checks every system call","randomgen/src/entropy/entropy.c"),("success flag and fallback with warning","randomgen/entropy.pyx:random_entropy")],
  [],["returned array","exceptions and warnings","open descriptors"],"open/read/close/clock calls are redirected at compile time of the verification build")

p("C12","Running out of memory is reported, never fatal",
  "If any memory allocation made while a bit generator or ExtendedGenerator is constructed, seeded, jumped, copied, checkpointed, restored or drawn from fails, the call raises MemoryError (or succeeds without that memory); the process survives, a request other than a draw leaves the generator, and the children it would spawn, where they were, nothing stays allocated once the objects are gone, and the same call succeeds with its normal result once memory is available again.",
  ["fault_sequences"],"every allocation point of every such call, for every bit generator",
  "No test makes an allocation fail.",
  ["randomgen/aes.pyx","randomgen/chacha.pyx","randomgen/dsfmt.pyx","randomgen/sfmt.pyx","randomgen/speck128.pyx","randomgen/pcg64.pyx","randomgen/generator.pyx","randomgen/src/aligned_malloc/aligned_malloc.h","randomgen/src/entropy/entropy.c"],
  [("allocation results are checked","randomgen/*.pyx __init__/__cinit__")],[],["exceptions","process exit status"],"allocator calls of the extension modules are redirected at compile time of the verification build")

p("C13","Draws of different widths share one stream without loss or repetition",
  "Consumers of one bit generator may interleave 32-bit, 64-bit, double and raw draws in any order. Wider draws behave as if no 32-bit draw had been buffered, the two halves of a split word are delivered exactly once each and in a fixed order, and every kind of draw is a fixed function of the words it consumes, so the whole history is determined by the raw stream alone.",
  ["histories","schedules"],"every interleaving of draws of all widths by several consumers (Python, NumPy Generator, ExtendedGenerator, ctypes and cffi interfaces) from any starting state, for every generator configuration",
  "Tests draw one width at a time; only a few generators have one 32-then-64 test.",
  ALLPYX+["randomgen/src"],
  [("has_uint32/uinteger buffering and per-generator next32/next64/next_double","randomgen/src/*: *_next32, *_next64, *_next_double")],
  [("has_uint32","a half word is pending","state dictionaries")],["values of all draws","raw stream of an identical generator"])

p("C14","A rejected operation leaves the stream as it was",
  "If setting a state, seeding, advancing, jumping or a draw call is refused because of the caller's arguments - a state dictionary of another generator, a missing, mis-sized or mistyped element, an out-of-range seed, key, counter or step, a bad output array - the generator keeps producing exactly the stream, and spawning exactly the children, it would have produced without the attempt. States of another generator, with a missing, mis-sized or null element or with a position outside its buffer, and negative or out-of-range seeds, keys and counters are refused, and so is the construction of a generator with parameters outside their documented range; a state that is accepted replaces the old one entirely. A torn or foreign checkpoint can therefore never leave a live generator in a mixture of two states.",
  ["fault_sequences","histories"],"every truncation, key loss and type damage of a checkpoint and every refused argument, at every point of every history, for every generator",
  "Tests assert that bad input raises, and throw the generator away.",
  ALLPYX+["randomgen/common.pyx","randomgen/generator.pyx"],
  [("validation before the first write","randomgen/*.pyx state.setter, seed, advance; randomgen/common.pyx:check_state_array, object_to_int")],[],["state and draws before and after"])

p("C15","User-written generators are called exactly once per word, in order",
  "A UserBitGenerator calls the user's functions exactly as often and in the order the draws require, always while the generator's lock is held, and delivers exactly what they return; functions that are not supplied are derived from the raw function in the documented way for 32- and 64-bit sources. State get and set reach the user's functions unchanged, missing ones are reported, and a callback that raises (what its own call returns is then unspecified), is slow or draws in another thread neither deadlocks, crashes nor corrupts the calls of others.",
  ["schedules","fault_sequences","configurations"],"every interleaving of threads at callback boundaries and every callback raising or stalling, for 32- and 64-bit sources and every subset of supplied functions, created from Python, ctypes or cfunc callables",
  "Tests use well-behaved callbacks in one thread.",
  ["randomgen/wrapper.pyx","randomgen/common.pyx","randomgen/generator.pyx"],
  [("ctypes callbacks kept alive by the instance; derived functions","randomgen/wrapper.pyx")],[],["callback log","returned values"])

p("C16","Keys, increments and starting states always meet their documented constraints",
  "Whatever words the entropy source delivers, however often it fails first, and whatever other threads do at the same time: generate_keys returns the requested number of keys, each with an odd word 0, words 0 to 7 all different, words 8 to 15 nonzero and different from their predecessor (and all keys distinct if asked); SFC64.weyl_increments returns n distinct odd values with min_bits to max_bits bits set, or refuses at once if there are not that many; increments of SFC64, LXM and the PCG family are odd; the xorshift part of LXM and the state of Romu are never all zero; SFMT and DSFMT start with a certified period and MT19937 and MT64 with a nonzero key. Keys, counters, increments and constants that are given are used exactly as given, in whatever documented form (int, list, tuple, array) they come and whatever the generator did before. Making them ends after a bounded number of words, uses only words that were delivered, and is a function of those words alone; a failure of the source is reported and leaves no trace.",
  ["inputs","schedules","fault_sequences"],"every stream of entropy words (including ones that rejection sampling refuses for long), every failure of the source, every position of an SFC64, every given key, counter and constant, and every interleaving of threads making keys, increments and generators",
  "Tests use a few seeds; words that exhaust the precomputed entropy, select the last alternative of a draw or collapse a state practically never come out of a seed.",
  ["randomgen/squares.pyx","randomgen/common.pyx","randomgen/sfc.pyx","randomgen/lxm.pyx","randomgen/romu.pyx","randomgen/pcg64.pyx","randomgen/pcg32.pyx","randomgen/src/sfmt/sfmt.c","randomgen/src/dsfmt/dsfmt.c","randomgen/src/mt19937/mt19937.c","randomgen/src/mt64/mt64.c"],
  [("generate_key and _SequenceSampler","randomgen/squares.pyx"),("object_to_int, int_to_array","randomgen/common.pyx"),("weyl_increments and generate_bits","randomgen/sfc.pyx"),("period_certification","randomgen/src/sfmt/sfmt.c; randomgen/src/dsfmt/dsfmt.c"),("_seed_from_seq","randomgen/lxm.pyx; randomgen/romu.pyx; randomgen/sfc.pyx")],
  [("random_well, index","words not used yet","_SequenceSampler")],["returned keys and increments","state after seeding","requests to the seed sequence"])

p("C17","ExtendedGenerator results are the documented function of the words drawn and the parameters",
  "Whatever words the bit generator delivers, whatever other threads do and in whatever form the parameters come (lists, any float, complex or integer type, byte order, strides, read-only or broadcast arrays, any broadcastable leading shapes, any compatible size), each call of uintegers, random, complex_normal, multivariate_normal, standard_wishart, wishart and multivariate_complex_normal returns an array of the documented shape and type that is the documented function of exactly the words this call drew: integers are the words, uniforms of every precision lie in [0, 1), Gaussian vectors are mean + A z with A A^T the given (or implied) covariance and z the standard normals of those words, Wishart matrices are A W A^T with W the standard Wishart matrix of those words, one sample's normals are never shared with or taken from another. Parameters are never modified, results never change afterwards, and parameters that are not valid (sizes, shapes, variances, definiteness) are refused without drawing.",
  ["inputs","schedules","histories"],"every stream of words (including the ones that reach the ends of the uniforms and the tails of the samplers), every valid set of parameters, form of passing them and size, and every interleaving of the calls",
  "Tests compare shapes for a few parameters, moments for identity-like scales, or stored values for one seed; they never pass words of their choosing and cannot cover the combinations of shapes, types, methods and sizes.",
  ["randomgen/generator.pyx","randomgen/common.pxd","randomgen/broadcasting.pyx","randomgen/src/distributions/rg-distributions.c","randomgen/src/distributions/rg-distributions.h"],
  [("_factorize; products with the factors","randomgen/generator.pyx"),("compute_complex","randomgen/common.pxd"),("random_wishart_large_df, random_long_double_fill, rg_next_float","randomgen/src/distributions"),("check_output, double_fill, float_fill","randomgen/broadcasting.pyx")],
  [],["returned arrays","words drawn through the bitgen functions","parameters after the call"])

p("C18","Every stream is that of its published algorithm",
  "From whatever a generator starts - any seed or words of a seed sequence, an explicit key and counter, any documented parameters (rounds, multipliers, increments, rotations, seed sizes, variants, LCG128Mix's user-written output functions, each called exactly once per word), or any valid restored state - the words it produces, in every width and through every consumer, are those of the published algorithm of its variant, seeded the way the algorithm prescribes. This stays so for the whole stream: across block, table and counter boundaries, under threads that share the generator, after a crash and recovery from any checkpoint, after moves and reseeding, and whichever accelerated code path is in use.",
  ["inputs","configurations","histories","schedules"],"every start (seed, key, counter, parameters, state) and every history of draws, moves, checkpoints and thread schedules, for every bit generator and variant",
  "The repository compares 1000 words for two seeds per generator, mostly with default parameters, with stored files. States that random streams never contain, counters next to carries, other parameters and other histories are not in them.",
  ALLPYX+["randomgen/src"],
  [("the step and output functions","randomgen/src/*"),("seeding from the words of a seed sequence","randomgen/*.pyx:_seed_from_seq; randomgen/src"),("explicit keys and counters","randomgen/*.pyx:seed")],
  [],["words delivered through the bitgen functions","bit_generator.state"])

p("C19","Seed material is expanded by the published algorithm and no child is handed out twice",
  "The words of a seed sequence - any number, 32 or 64 bits wide - are those of the published seed_seq algorithm of its entropy, spawn key and pool size, in whatever form the integers are given (any integer type, decimal or hexadecimal strings, nested sequences, arrays of any byte order, strides or type), and do not depend on what was asked before or by other threads. Children extend the spawn key with consecutive numbers, keep entropy, pool size and type, and none is ever handed out twice, also when requests fail half-way (no memory, interruption) and when the sequence is recovered from a pickle, copy or its state. Without entropy the sequence takes exactly what the operating system delivers and can be rebuilt from it. seed_by_array is SplitMix64 over all bits of the seed. Negative, fractional and other non-integer seeds, negative numbers of children and word types other than 32 and 64 bits are refused without effect.",
  ["inputs","histories","fault_sequences","schedules"],"every entropy, form, pool size and spawn tree, every history of requests, failures, checkpoints and crashes",
  "Tests compare ten stored expansions with the default pool and two children with NumPy's; they never fail, recover, or use other pools, types or forms with a spawn key.",
  ["randomgen/_seed_sequence.pyx","randomgen/entropy.pyx"],[("hash mixing, assembling entropy, generate_state, spawn","randomgen/_seed_sequence.pyx"),("seed_by_array","randomgen/entropy.pyx")],
  [],["words generated","attributes and state of sequences and children","refusals"])

root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
