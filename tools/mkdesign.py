#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: the texts here, plus what properties.jsonl, sim/meta.py, known_findings.txt and seeded/ say."""
import ast, glob, json, os, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, ROOT)
from sim import meta
HEAD = r"""# Deterministic simulation of randomgen

One property = one module `sim/props/cNN.py` = one entry of `properties.jsonl` and `MANIFEST.json`.
All properties are decided by the same technique: the real library runs inside one process under a seeded
simulator; a seed fixes every interleaving, fault and input; results are judged by invariants during the run and by
refinement of the recorded history against a small reference afterwards.

## 1. What is simulated

randomgen is a library, not a distributed system, but its guarantees are about things that a simulator controls:
threads sharing a lock, user callbacks, crash and restart from checkpoints, copies in other processes and on other
CPUs, hardware and operating-system entropy that fails, memory that runs out, and requests that are refused half way.

| source of nondeterminism | seam | where |
|---|---|---|
| thread scheduling | `threading.Lock/RLock` of bit generators replaced by `SimLock`; every draw goes through trampolines in the `bitgen_t`; both are scheduling points of a cooperative scheduler in C (random walk, priorities with change points, round robin) | `sim/simseam.c`, `sim/env.py`, `sim/sched.py` |
| interrupted lock waits (signals) | `SimLock` raises at the k-th acquisition, before or during the wait | `sim/sched.py` |
| user callbacks | scripted Python/ctypes/cfunc functions that yield, stall, raise, draw elsewhere | `sim/props/c15.py` |
| RDRAND hardware | `_rdrand64_step` and its builtin redirected by a force-included header | `sim/seam.h` |
| CPUID / feature detection | same header; masked per process (C08), and for one run in five of every other property, which then takes the portable code paths | `sim/seam.h`, `sim/peer.py`, `sim/core.py` |
| CPUs without SIMD, compilers without a 128-bit integer | second build of the vectorised modules without SIMD, and of `pcg64` and `philox` with emulated 128-bit arithmetic (what `setup.py` builds on Windows and 32-bit systems) | `sim/build.py` |
| `/dev/urandom`, descriptors, clocks, pid, getrandom | linker `--wrap` of libc calls | `sim/build.py`, `sim/simseam.c` |
| memory | linker `--wrap` of malloc/PyMem/... in randomgen's modules; numpy data allocator handler | same |
| process crash and restart | the objects are dropped, only what `sim/store.py` kept (state dict, pickle, copy, ...) survives; restart in this process or a peer process with another hash seed | `sim/store.py`, `sim/peer.py` |
| numpy's OS entropy for seed None | `secrets.randbits` replaced by a seeded stream | `sim/env.py` |
| hash seed, addresses | every batch runs under several hash seeds; results must not depend on them | `sim/check.py` |

No hook in /repo is needed (`hooks` in MANIFEST.json says so): the verification build takes /repo's sources, copies
them by content to `/verif/build/tree`, and compiles them with /repo's own `setup.py` plus
`-include seam.h` and `-Wl,--wrap=...`. The shipped build is untouched. `bin/check` re-syncs and rebuilds on every
start (only when a digest over all sources changed, 40-60 s) and reads nothing from /repo's own build products.

**Determinism.** A run is a pure function of its plan (JSON made from `sha256(seed/property/index)`). Every run
yields an event hash. `sim/check.py` re-executes a sample of the runs (`CHECK_EVERY`) in other processes with
another hash seed and another order, and refuses to answer (exit 3) if any hash differs. A violation is reproduced
in a fresh process, minimised there (dropping operations, threads, faults and scheduling choices while the same
signature remains), and written as a replay file with the plan and the recorded scheduling choices;
`bin/check CNN --replay FILE` must reproduce signature and event hash exactly, otherwise it is not reported.
Crashes of the process (segmentation fault, abort, hang) are caught by the supervising process: the index and
step of the run in progress survive in a memory-mapped file, and the run is replayed the same way.

**Probes.** Every property lists `must` probes (`sim/meta.py`); if a batch never reached one (say, no outage ever struck
a refill) the check answers "no answer" instead of passing emptily.

**Evidence.** `evidence/CNN.json` has runs and seeds per hour, logical steps (there is no wall clock in these properties,
so simulated time is counted in operations, draws and scheduling points), fault kinds with counts, distinct
non-trivial runs (hash of configuration, operations, faults and hand-overs without data values), real and
stubbed components, determinism re-runs and probes.

## 2. The properties

Configurations are those of `sim/gens.py`: 59, covering all 23 modules and their variants (rounds, widths, numpy
seeding, original/fixed variants, user multipliers, RDRAND, UserBitGenerator where it makes sense). One run in 25 of C01, C02, C13
and C17 (in C04 one in 17) puts an ExtendedGenerator on one of NumPy's own bit generators, in C04 also on classes derived
from randomgen's: their streams are NumPy's business, but locking, words and checkpoints of the consumer are randomgen's.

"""
ORACLE = {'C01': "Oracle: a ledger written by the trampolines says which call drew which word; each call's run must be unbroken, and executing the calls one after another in ledger order on a new generator must give every "
        'result and the final state (linearizability with a known witness order, so it costs one replay, not a search). Generators and ExtendedGenerators are also made while other threads draw. Liveness: every call ends within 400,000 scheduling steps and no deadlock. Large fills (more than '
        '4096 words) are included because chunked locking only shows there.',
 'C02': 'Faults: rejected arguments, interrupted lock waits, the k-th allocation failing, raising callbacks, RDRAND outages. Oracle: the lock is free after each failed call, no deadlock, all other calls complete, and '
        '(seeded generators) the words are those of a serial history in which failed calls that drew nothing left no trace; for the calls named in the statement a failed result array must cost nothing.',
 'C03': 'Oracle: each worker re-executed alone, in this process and (a share of the runs) in a peer process, must give the same observations, and children spawned from the own seed sequences of each worker at its end must be the same. Finds hidden '
        'shared state: C statics, shared arrays, shared seed sequences.',
 'C04': 'Oracle: the undisturbed execution of the same script. Checkpoints through 13 methods; targets: same object, fresh, used, differently seeded, differently configured object of the class, other process; restores '
        'may be cut short (a key missing, wrong type) before a complete one. Draws after the restore go through random_raw, ExtendedGenerator, ctypes, cffi and new numpy Generators.',
 'C05': 'In a quarter of the runs the observer is a thread of its own that the scheduler also preempts at calls of the Python functions below pickle and copy (a profile hook), so that it meets draws half-way. Oracle: a twin without an observer; saved checkpoints compared with deep copies made when they were taken.',
 'C06': 'Oracle: exact integer position; the reference is placed without advance (constructor counter, Python LCG arithmetic, or drawing). Counters are placed next to their 32/64/128-bit carries by restoring states, so '
        'rare carries are common in the runs.',
 'C07': 'Oracle: counter or LCG arithmetic as in C06, or x^N modulo the minimal polynomial for the F2-linear families (`sim/linear.py`, constants precomputed by `tools/mkjump.py` into `data/jumps.json` from the '
        "recurrences, not from the library's tables).",
 'C08': 'Oracle: the same script executed without toggles or migration on the portable node. Nodes are peer processes with masked CPUID and a build without SIMD and without 128-bit integers. A tree whose emulated arithmetic does not even compile is checked without that node.',
 'C09': 'Oracle: a new generator of the same configuration and seed; compared in all widths and in the state.',
 'C10': 'Oracle: a model of the retry rule fed by the log of the simulated hardware decides for every call which words it gets and whether it must raise. Between a failure and reset only this is judged: success is '
        "False, failing calls raise, random_raw keeps raising, the position stays inside the buffer. The unsynchronised `status &=` on several cores is below the simulator's granularity.",
 'C11': 'Oracle: the log of bytes delivered by the simulated device; either exactly these bytes in the requested shape or RuntimeError; no descriptor open afterwards; fallback results compared pairwise across clock and '
        'pid changes.',
 'C12': 'Oracle: MemoryError or success at each failing allocation; a twin that never ran out of memory; live allocations counted before and after (the story is run twice so that one-time caches of the interpreter do '
        'not count).',
 'C13': 'Oracle: per-family width models (`sim/words.py`) fed by the raw stream of a second generator. Saved half words of special value are restored.',
 'C14': 'Oracle: a twin that never saw the refused requests. Attempts no generator can honour (foreign states, missing, mis-sized or null elements, positions outside the buffer, negative or out-of-range seeds, keys, counters) must be refused; for the rest the library decides, and a refusal must have no effect while an accepted state must not be mixed with the one it replaces. After a refusal the seed sequence (entropy, spawn key, children spawned) is compared as well, and at the end children of both twins; constructors are given parameters outside the documented ranges, which must be refused.',
 'C15': 'Oracle: the log of user-function calls replayed through a reference generator that derives missing functions as documented; the log must be used up exactly. Values and counts of calls whose function raised are '
        'unspecified (ctypes returns garbage) and skipped.',
 'C16': 'Oracle: the documented constraints as invariants of everything made; a bound on the words requested (or locks taken) as liveness; a repetition without threads, failures or hand-overs and with other bytes '
        'behind the delivered words as reference. Given keys, counters, increments and constants: read back from the state, and a new generator given plain ints as reference for the words.',
 'C17': 'Oracle: for each call the words recorded at the bitgen functions during this call, read by a numpy Generator on a tape (it must use exactly these words and widths), and the documented algebra. Factors that are not '
        'unique (svd, eigh) are judged by inner products of all pairs of results, x^T C^-1 y = z_x^T z_y and tr(C^-1 U C^-1 V) = tr(S_U S_V), Cholesky and given factors directly; scales of reduced rank by their column '
        'space and the trace over some rank rows. Tolerance 1e-8 for products, exact for integers and uniforms.',
 'C18': "Oracle: `sim/algos.py`, reference models written in integer arithmetic from the published descriptions (AES-128 and its key schedule, ChaCha, HC-128, Speck128/256, Philox, ThreeFry, the Mersenne Twisters, SFMT, dSFMT, "
        "PCG, xoshiro and relatives, SFC, JSF, LXM, Romu, EFIIX, Tyche, Squares) including seeding from the words of a seed sequence, composed with the width models of `sim/words.py`. The reference is given the origin and runs along "
        "through threads, crashes and accelerator changes without being resynchronised; after jumps and advances (C06, C07) it takes up the exported state. A state read under the lock while other threads draw must describe the words "
        "that follow. Streams on which a consumer's rejection sampling does not end (user-chosen constants without any period) end the run without a verdict on that consumer; their words are still compared.",
 'C19': "Oracle: a model in integer arithmetic of seed_seq (O'Neill) and SplitMix64, written from the published algorithms, fed with the integers whatever form the library got them in; the OS entropy log; a set of the children handed out "
        "since the last recovery. A request that fails half-way may lose children, it must not repeat any. Interruptions strike at the k-th Python-level call (a profile hook), memory at the k-th allocation."}
CRAFT = '''Starting states are not only reached by seeding and drawing: `sim/life.py` also *crafts* states (words that random
streams practically never contain, such as zeros, all ones and values next to carries, in buffers, tables, counters and the
saved half word) and restores them, in C03, C04, C05, C08, C09, C12, C13 and C14.

A violation that fresh processes do not reproduce is replayed together with the earlier runs of its worker (reduced by ddmin), so
that corruption left behind in process-wide state is reported with a replayable history (`before` in the replay file).

'''
LIMITS = r"""## 4. Limits, and decisions that keep the checks sound

* The simulator preempts at draws, lock operations, callbacks and calls, not between machine instructions inside one C
  draw function. Draw functions are called under the lock, so this loses only unsynchronised accesses within them.
* numpy Generators and ExtendedGenerators copy the `bitgen_t` struct when they are made. Consumers made before a
  checkpoint of another variant is restored keep the old functions (inherent to numpy's interface); such consumers
  are excluded from C04's cross-configuration restores, ExtendedGenerator itself is repaired.
* Allocation failures strike randomgen's modules and numpy's array data. The interpreter's object allocator is not
  failed (how often it is asked depends on its caches).
* `copy.copy` shares the seed sequence with the original (as numpy does); spawning from a shared sequence is excluded.
* `broadcasting.pyx` and `bounded_integers.pyx` are largely unreachable from the public API; what is reachable is driven.
* C17: `standard_wishart` with no degrees of freedom (a division by zero that warns) and `check_valid="ignore"` on invalid
  matrices are unspecified and not driven.
* chacha and hc128 form 64-bit words from two calls in one expression (evaluation order is the compiler's); noted, not
  a violation with the compilers at hand.
* `chacha_advance` and some helpers are dead code.
* C19: spawning from one sequence in several threads without a lock is not driven: neither randomgen nor NumPy documents locking there.
  The module under test is randomgen's own `_seed_sequence`; with current NumPy, `randomgen.SeedSequence` is NumPy's.
* Mutants that the repository's own tests already catch are not kept under `seeded/`.
* Tried by hand, not registered: the same simulations (C01, C04, C06, C07, C10 to C19) over a build with AddressSanitizer and UBSan (no
  memory error; only shifts by unchecked rotations of crafted JSF states, and unaligned `df` arrays read in `wishart`, both of which
  are harmless with the compilers at hand), and over a build made with clang (quiet: no property depends on the compiler).

## 5. Defects found

"""
RECORDED = r"""Recorded, not repaired (reported as KNOWN-FINDING):

* C07 MT19937 (both seedings): `jumped()` evaluates the jump on a circular state whose oldest word is at `pos`, while
  draws refresh the state in blocks of 624. After `jumped()` from a position inside a block the draws mix words of
  both readings. The repository's tests pin the state `jumped()` leaves; NumPy's MT19937 behaves the same way.

* C16: words 1 to 7 of a Squares key may be 0 although the documentation draws them from 1 to 15; the stored streams and the
  documented example contain such keys.
* Not a property violation, noted only: `choosek` in `sfc.pyx` overflows for 30 to 35 bits, which shifts the weights of the
  bit counts (the law of the increments, not their constraints).

False alarms met while building and removed: C10 values of buffered calls between failure and reset (unspecified);
C15 counts for raising callbacks (unspecified); C12 interpreter caches counted as leaks; C03 shared seed sequences of
shallow copies; C05/C04 consumers with stale function pointers (numpy's interface).

## 6. Planted bugs (`seeded/`)

| bug | property | what it needs | caught by |
|---|---|---|---|
"""
TAIL = r"""Checks strengthened because a planted bug was missed at first: C01 (long fills), C02 (failed result array), C03
(spawning from seed sequences), C04 (restores across configurations), C15 (raising state setters, fresh getter objects), C01
(consumers of bit generators that are not randomgen's).
"""
P = {json.loads(x)["id"]: json.loads(x) for x in open(f"{ROOT}/properties.jsonl")}
with open(f"{ROOT}/DESIGN.md", "w") as f:
    f.write(HEAD)
    for k, m in meta.META.items():
        doc = ast.get_docstring(ast.parse(open(f"{ROOT}/sim/props/{k.lower()}.py").read())).split("\n\n", 1)[1].replace("\n", " ")
        f.write(f"### {k} - {P[k]['title']}\n\n{doc}\n\n{ORACLE[k]}\n\n*Bounds*: {m['note']}; quick {m['runs']['quick']} runs, thorough {m['runs']['thorough']}. *Why tests cannot*: {P[k]['why_tests_cant']}\n\n")
    f.write(CRAFT)
    f.write("## 3. Not applicable\n\n" + ("" if meta.NA else "None of the listed properties.\n") + "".join(f"* {k} ({P[k]['title']}): {v}.\n" for k, v in meta.NA.items()) + "\n" + LIMITS)
    f.write("Repaired in /repo (each a \"fix:\" commit) and recorded in `known_findings.txt`:\n\n")
    for x in open(f"{ROOT}/known_findings.txt"):
        if x.startswith("fixed: property="):
            c, h, t = x[len("fixed: property="):].strip().split(" ", 2)
            f.write(f"* {c} `{h}`: {t}\n")
    f.write("\n" + RECORDED)
    for g in sorted(glob.glob(f"{ROOT}/seeded/*/meta.json")):
        m = json.load(open(g))
        f.write(f"| {g.split('/')[-2]} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'])} |\n")
    f.write("\n" + TAIL)
