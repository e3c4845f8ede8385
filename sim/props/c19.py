"""C19: seed material is expanded as published and no child is handed out twice.

A coordinator keeps a forest of seed sequences: it makes them from entropy in every form (or from the operating
system, which may fail), hands children out to workers, asks for words, checkpoints the forest, crashes and
recovers.  Requests run out of memory, are interrupted in the middle, come from several threads under a seeded
schedule, or are nonsense.  Every word, attribute and child is compared with an independent executable model of the
published algorithm (seed_seq of O'Neill; SplitMix64 for seed_by_array).
"""
import copy, pickle, sys, threading, warnings
import numpy as np
from sim import core, env, sched
from sim.core import Violation
from randomgen import _seed_sequence as mod
from randomgen._seed_sequence import SeedlessSeedSequence, SeedSequence
from randomgen.entropy import seed_by_array

ID = "C19"
CHECK_EVERY = 61
M32, M64 = (1 << 32) - 1, (1 << 64) - 1
mod.randbits = lambda k: Os.take(k)


class Os:
    """the operating system's entropy: a function of the run, failing on demand"""
    seed, n, fail, log = 0, 0, 0, []

    @classmethod
    def take(cls, k):
        cls.n += 1
        if cls.n == cls.fail:
            raise OSError("simulated failure of the entropy source")
        rng = core.run_rng(cls.seed, "os", cls.n)
        v = rng.getrandbits(k) >> rng.choice([0, 0, 0, 1, 32, k - 1])
        cls.log.append((k, v))
        return v


# ----------------------------------------------------------------- the published algorithm
def hashmix(v, h):
    v ^= h[0]
    h[0] = h[0] * 0x931E8875 & M32
    v = v * h[0] & M32
    return v ^ v >> 16


def mix(x, y):
    r = (0xCA01F9DD * x - 0x4973F715 * y) & M32
    return r ^ r >> 16


def pool_of(ent, n):
    h = [0x43B0D7E5]
    p = [hashmix(ent[i] if i < len(ent) else 0, h) for i in range(n)]
    for s in range(n):
        for d in range(n):
            if s != d:
                p[d] = mix(p[d], hashmix(p[s], h))
    for s in range(n, len(ent)):
        for d in range(n):
            p[d] = mix(p[d], hashmix(ent[s], h))
    return p


def words_of(v):
    """the 32-bit words of one integer, lowest first"""
    o = []
    while True:
        o.append(v & M32)
        v >>= 32
        if not v:
            return o


def flat(vals):
    return [w for v in vals for w in words_of(v)]


class Model:
    """what a seed sequence is: entropy, key and pool size, and how many children it gave away"""

    def __init__(self, vals, key, size, kids=0):
        self.vals, self.key, self.size, self.kids = vals, tuple(key), size, kids
        e, k = flat(vals), flat(self.key)
        if k and len(e) < size:
            e += [0] * (size - len(e))
        self.pool = pool_of(e + k, size)

    def words(self, n, wide):
        h, o = 0x8B51F9DD, []
        for i in range(n * (2 if wide else 1)):
            v = self.pool[i % self.size] ^ h
            h = h * 0x58F38DED & M32
            v = v * h & M32
            o.append(v ^ v >> 16)
        return [o[i] | o[i + 1] << 32 for i in range(0, len(o), 2)] if wide else o

    def child(self, i):
        return Model(self.vals, self.key + (i,), self.size)

    def same(self):
        m = Model.__new__(Model)
        m.__dict__.update(self.__dict__)
        return m


def split_of(vals, n):
    """SplitMix64 over the seed"""
    s, o = 0, [0] * n
    for i in range(max(n, len(vals))):
        if i < len(vals):
            s ^= vals[i]
        s = (s + 0x9E3779B97F4A7C15) & M64
        z = s
        z = (z ^ z >> 30) * 0xBF58476D1CE4E5B9 & M64
        z = (z ^ z >> 27) * 0x94D049BB133111EB & M64
        o[i % n] = z ^ z >> 31
    return o


# ----------------------------------------------------------------- forms of integers
DT = {"u1": 8, "u2": 16, "u4": 32, "u8": 64, "i1": 7, "i2": 15, "i4": 31, "i8": 63}


def rand_val(rng):
    k = rng.random()
    if k < 0.25:
        return rng.choice([0, 1, 2, 42, M32 - 1, M32, M32 + 1, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, M64, M64 - 1, M64 + 1, (1 << 128) - 1, 1 << 128, 1 << 31, 127, 128, 255, 256, 1 << 15, M32 << 32])
    if k < 0.5:
        return rng.getrandbits(rng.choice([5, 7, 8, 16, 31]))
    return rng.getrandbits(rng.choice([32, 32, 33, 53, 63, 64, 64, 65, 96, 127, 128, 200, 300]))


def rand_form(rng, vals, scalar):
    if scalar:
        v = vals[0]
        return rng.choice(["int", "int", "dec", "hex", "HEX", "zeros"] + ["np." + t for t in DT if v < 1 << DT[t]])
    big = max(vals, default=0)
    f = ["list", "list", "tuple", "strings", "mixed", "nested", "object", "scalars"] + (["range"] if len(vals) > 0 and all(b - a == 1 for a, b in zip(vals, vals[1:])) and big < 1 << 62 else [])
    if vals:
        f += ["<" + t for t in DT if big < 1 << DT[t]] + [">" + t for t in DT if big < 1 << DT[t]] + ["strided." + t for t in DT if big < 1 << DT[t]] + ["readonly." + t for t in DT if big < 1 << DT[t]]
        if len(vals) % 2 == 0:
            f += ["grid." + t for t in DT if big < 1 << DT[t] and t != "u4"]
    return rng.choice(f)


def formed(vals, how):
    """the integers as a caller may write them"""
    if how == "int":
        return vals[0]
    if how in ("dec", "zeros"):
        return ("000" if how == "zeros" else "") + str(vals[0])
    if how in ("hex", "HEX"):
        return "0x" + (format(vals[0], "x") if how == "hex" else format(vals[0], "X"))
    if how.startswith("np."):
        return np.dtype(how[3:]).type(vals[0])
    if how == "range":
        return range(vals[0], vals[-1] + 1)
    if how == "list":
        return list(vals)
    if how == "tuple":
        return tuple(vals)
    if how == "strings":
        return [str(v) if i % 2 else hex(v) for i, v in enumerate(vals)]
    if how == "mixed":
        return [(v, str(v), hex(v), [v], (v,))[(i + v) % 5] for i, v in enumerate(vals)]
    if how == "scalars":
        return [next((np.dtype(t).type(v) for t in (("i1", "u2", "i4", "u8") if i % 2 else ("u1", "i2", "u4", "i8", "u8")) if v < 1 << DT[t]), v) for i, v in enumerate(vals)]
    if how == "nested":
        h = len(vals) // 2
        return [list(vals[:h]), tuple(vals[h:])]
    if how == "object":
        a = np.empty(len(vals), dtype=object)
        a[:] = vals
        return a
    kind, t = ("", how) if how[0] in "<>" else how.split(".")
    a = np.array(vals, dtype=t)
    if kind == "strided":
        b = np.full(3 * len(vals), 77, dtype=t)
        b[::3] = a
        return b[::3]
    if kind == "grid":
        return a.reshape(2, -1)
    if kind == "readonly":
        a.flags.writeable = False
    return a


def rand_vals(rng):
    k = rng.random()
    if k < 0.4:
        return [rand_val(rng)], True
    n = rng.choice([0, 1, 2, 3, 4, 4, 5, 7, 8, 9, 20])
    if k < 0.5:
        a = rng.choice([0, 3, 250, M32 - 1, rng.getrandbits(30)])
        return list(range(a, a + n)), False
    lim = rng.choice([8, 32, 32, 64, 300])
    return [rand_val(rng) & (1 << lim) - 1 for _ in range(n)], False


def rand_new(rng, i):
    size = rng.choice([4, 4, 4, 4, 5, 6, 8, 8, 12, 16, 31])
    kids = rng.choice([0, 0, 0, 1, 7, 300, 65535, 2**31 - 40])
    if rng.random() < 0.12:
        return ["new", "os", None, [], "tuple", size, 0, False]
    vals, scalar = rand_vals(rng)
    key = [] if rng.random() < 0.6 else rand_vals(rng)[0]
    kf = rand_form(rng, key, False)
    return ["new", [str(v) for v in vals], rand_form(rng, vals, scalar), [str(v) for v in key], "list" if kf in ("nested", "mixed") or kf.startswith("grid") else kf, size, kids, rng.random() < 0.15]


def rand_gen(rng):
    return ["gen", rng.random(), rng.choice([0, 1, 2, 3, 4, 5, 8, 9, 17, 33, 70]), rng.choice(["u4", "<u4", "u8", "u8", "uint32", "uint64", "np.uint32", "np.uint64", "none", "dtype"]), rng.choice(["pos", "kw", "np"])]


def rand_op(rng, i):
    k = rng.random()
    if k < 0.14:
        return rand_new(rng, i)
    if k < 0.42:
        return rand_gen(rng)
    if k < 0.66:
        return ["spawn", rng.random(), rng.choice([0, 1, 1, 2, 3, 4, 9]), rng.choice(["pos", "kw", "np"])]
    if k < 0.72:
        return ["save"]
    if k < 0.8:
        return ["crash", rng.choice(HOW)]
    if k < 0.88:
        vals, scalar = rand_vals(rng)
        vals = [v & M64 for v in vals]
        return ["array", [str(v) for v in vals], rng.choice([f for f in [rand_form(rng, vals, scalar) for _ in range(9)] if okay(f)] or ["list"]), rng.choice([1, 1, 2, 3, 4, 5, 16, 21])]
    if k < 0.97:
        return ["bad", rng.random(), rng.choice(sorted(BAD))]
    return ["seedless", rng.choice([0, 1, 5])]


def okay(f):
    return f not in ("dec", "hex", "HEX", "zeros", "strings", "mixed", "nested", "range") and not f.startswith("grid")


HOW = ["pickle0", "pickle2", "pickle4", "pickle5", "copy", "deepcopy", "state", "attrs", "json"]


def plan(rng, tier, i):
    n = rng.randrange(3, 12) if tier == "quick" else rng.randrange(3, 40)
    ops = [rand_new(rng, i)] + [rand_op(rng, i) for _ in range(n)]
    p = {"seed": rng.getrandbits(40), "ops": ops, "faults": {}, "os_fail": rng.choice([0, 0, 1, 2]), "threads": []}
    for j in range(len(ops)):
        if rng.random() < 0.25:
            # memory runs out or the user interrupts, at the k-th opportunity of the request
            p["faults"][str(j)] = [rng.choice(["memory", "memory", "interrupt"]), rng.choice([0, 1, 2, 3, 5, 8, 13, rng.randrange(40)])]
    if rng.random() < 0.35:
        p["threads"] = [[rand_call(rng) for _ in range(rng.randrange(1, 5))] for _ in range(rng.choice([2, 2, 3]))]
        p["sched"] = sched.rand_sched(rng)
    return p


def rand_call(rng):
    k = rng.random()
    if k < 0.5:
        return rand_gen(rng)
    if k < 0.75:
        return ["spawn", rng.random(), rng.choice([1, 1, 2, 3]), "pos"]
    if k < 0.9:
        return ["look", rng.random()]
    return ["array", [str(rng.getrandbits(64)) for _ in range(rng.randrange(1, 4))], "list", rng.randrange(1, 5)]


def big(x):
    return ["os"] if x == "os" else [int(v) for v in x]


class Sub(SeedSequence):
    """a user's subclass"""


def cls_of(sub):
    return Sub if sub else SeedSequence


# nonsense: what the library must refuse (exceptions it may use are not checked)
BAD = {
    "negative": lambda s: SeedSequence(-1), "negative element": lambda s: SeedSequence([3, -7]), "negative np": lambda s: SeedSequence(np.int32(-5)),
    "negative array": lambda s: SeedSequence(np.array([1, -2])), "float": lambda s: SeedSequence(1.5), "whole float": lambda s: SeedSequence(2.0), "float element": lambda s: SeedSequence([1, 2.5]),
    "float array": lambda s: SeedSequence(np.array([1.0, 2.0])), "string": lambda s: SeedSequence("seed"), "empty string": lambda s: SeedSequence(""), "mixed string": lambda s: SeedSequence("12x"),
    "hex string": lambda s: SeedSequence("0xzz"), "string element": lambda s: SeedSequence(["a"]), "small pool": lambda s: SeedSequence(1, pool_size=3), "no pool": lambda s: SeedSequence(1, pool_size=0),
    "negative pool": lambda s: SeedSequence(1, pool_size=-8), "key": lambda s: SeedSequence(1, spawn_key=(-1,)), "float key": lambda s: SeedSequence(1, spawn_key=(0.5,)), "scalar key": lambda s: SeedSequence(1, spawn_key=3),
    "sequence": lambda s: SeedSequence(s), "dict": lambda s: SeedSequence({1: 2}), "negative children": lambda s: SeedSequence(1, n_children_spawned=-1),
    "spawn -1": lambda s: s.spawn(-1), "spawn -3": lambda s: s.spawn(-3), "spawn text": lambda s: s.spawn("2"), "spawn none": lambda s: s.spawn(None), "generate -1": lambda s: s.generate_state(-1),
    "generate uint8": lambda s: s.generate_state(2, np.uint8), "generate int32": lambda s: s.generate_state(2, np.int32), "generate int64": lambda s: s.generate_state(2, "i8"), "generate float": lambda s: s.generate_state(2, np.float64),
    "generate text": lambda s: s.generate_state("x"), "generate none": lambda s: s.generate_state(None), "set entropy": lambda s: setattr(s, "entropy", 3), "set pool": lambda s: setattr(s, "pool", None),
    "array negative": lambda s: seed_by_array(-1, 2), "array negative element": lambda s: seed_by_array([1, -1], 2), "array large": lambda s: seed_by_array(2**64, 2), "array large element": lambda s: seed_by_array([2**64, 1], 2),
    "array fraction": lambda s: seed_by_array(0.5, 2), "array fraction element": lambda s: seed_by_array([1, 0.5], 2), "array text": lambda s: seed_by_array("7", 2), "array text element": lambda s: seed_by_array(["7"], 2),
    "array grid": lambda s: seed_by_array([[1, 2], [3, 4]], 2), "array complex": lambda s: seed_by_array(np.array([1j]), 2), "array none": lambda s: seed_by_array(None, 2), "array length": lambda s: seed_by_array(3, -1),
}


class World:
    def __init__(self, plan, tr):
        self.plan, self.tr = plan, tr
        self.nodes = []  # [live object, model]
        self.given = set()  # children handed out since the last crash
        self.saved = None

    def pick(self, r):
        return self.nodes[int(r * len(self.nodes))]

    # ---- one request each; do() has no effect on the models, done() applies it
    def check_words(self, m, op, r, where=""):
        wide = op[3] in ("u8", "uint64", "np.uint64")
        want = m.words(op[2], wide)
        if not isinstance(r, np.ndarray) or r.dtype != (np.uint64 if wide else np.uint32) or not r.dtype.isnative or r.shape != (op[2],):
            raise Violation(f"generate_state{where}: the result does not have the documented form", f"{type(r).__name__} {getattr(r, 'dtype', '')} {getattr(r, 'shape', '')} for {op[2:]}")
        if r.tolist() != want:
            raise Violation(f"generate_state{where}: the words are not those of the published algorithm", f"{r.tolist()[:6]} instead of {want[:6]} for {op[2:]} of entropy {m.vals}, key {m.key}, pool size {m.size}")

    def check_node(self, s, m, where):
        got = (s.pool.tolist(), tuple(int(x) for x in s.spawn_key), s.pool_size, s.n_children_spawned)
        want = (m.pool, m.key, m.size, m.kids)
        for n, a, b in zip(("pool", "spawn_key", "pool_size", "n_children_spawned"), got, want):
            if a != b:
                raise Violation(f"{where}: {n} is not as it should be", f"{a} instead of {b}")
        st = s.state
        if set(st) - {"entropy", "spawn_key", "pool_size", "n_children_spawned"} or st["n_children_spawned"] != m.kids or st["pool_size"] != m.size or tuple(int(x) for x in st["spawn_key"]) != m.key:
            raise Violation(f"{where}: the state is not that of the sequence", str(st))

    def make(self, op):
        kw = {}
        if op[3] or op[4] != "tuple":
            key = big(op[3])
            kw["spawn_key"] = formed(key, op[4])
            if op[4] == "strings":
                kw["spawn_key"] = formed(key, "tuple")
        if op[5] != 4:
            kw["pool_size"] = op[5]
        if op[6]:
            kw["n_children_spawned"] = op[6]
        return cls_of(op[7])(*([] if op[1] == "os" else [formed(big(op[1]), op[2])]), **kw)

    def gen(self, s, op):
        n = {"pos": op[2], "kw": op[2], "np": np.int64(op[2])}[op[4]]
        dt = {"np.uint32": np.uint32, "np.uint64": np.uint64, "dtype": np.dtype(np.uint32)}.get(op[3], op[3])
        if op[3] == "none":
            return s.generate_state(n)
        return s.generate_state(n_words=n, dtype=dt) if op[4] == "kw" else s.generate_state(n, dt)

    def spawned(self, e, r, n, sub):
        """children handed out by e: [object, model]"""
        m = e[1]
        if not isinstance(r, list) or len(r) != n or len({id(x) for x in r}) != n:
            raise Violation("spawn: not as many children as asked for", f"{len(r)} for {n}")
        for i, c in enumerate(r):
            mc = m.child(m.kids + i)
            if type(c) is not type(e[0]):
                raise Violation("spawn: a child of another type", f"{type(c)} of {type(e[0])}")
            self.check_node(c, mc, "spawn")
            k = (id(e), c.pool.tobytes())
            if k in self.given:
                raise Violation("spawn: a child was handed out twice", str(c.spawn_key))
            self.given.add(k)
            if len(self.nodes) < 24:
                self.nodes.append([c, mc])
        m.kids += n
        self.check_node(e[0], m, "after spawn")

    def recover(self, s, how):
        if how.startswith("pickle"):
            return pickle.loads(pickle.dumps(s, int(how[6:])))
        if how == "copy":
            return copy.copy(s)
        if how == "deepcopy":
            return copy.deepcopy(s)
        st = dict(s.state) if how != "attrs" else {k: getattr(s, k) for k in ("entropy", "spawn_key", "pool_size", "n_children_spawned")}
        if how == "json":
            st["spawn_key"] = [int(x) for x in st["spawn_key"]]
            if isinstance(st["entropy"], (int, str, list, tuple)):
                e = st["entropy"] = copy.deepcopy(st["entropy"])
                if isinstance(e, (list, tuple)):
                    st["entropy"] = core.jsonable([str(x) if isinstance(x, (int, np.integer)) else x for x in e]) if all(isinstance(x, (int, str, np.integer)) for x in e) else e
        return type(s)(**st)

    # ---- faults
    def guarded(self, fn, fault, lab):
        """-> (failed, result); failed requests are repeated without the fault"""
        if not fault:
            return False, fn()
        kind, k = fault
        if kind == "memory":
            fired = env.u64()
            env.alloc_arm(9, k)
            try:
                r = fn()
                bad = None
            except MemoryError as e:
                bad = e
            finally:
                env.alloc_disarm(env.C.byref(fired))
            if not fired.value:
                if bad is not None:
                    raise Violation(f"{lab}: MemoryError although memory is there", "")
                return False, r
            self.tr.fault("failed allocation")
            if bad is None:
                return False, r  # it found another way
            return True, None
        n = [0]

        def hook(frame, event, arg):
            if event == "call":
                n[0] += 1
                if n[0] == k + 2:
                    raise KeyboardInterrupt

        try:
            sys.setprofile(hook)
            r = fn()
            cut = False
        except KeyboardInterrupt:
            cut = True
        finally:
            sys.setprofile(None)
        if cut:
            self.tr.fault("interrupted half-way")
        return cut, None if cut else r

    def step(self, op, fault):
        k, tr = op[0], self.tr
        core.MARK(f"{k} {op[2] if k in ('new', 'bad', 'array') else ''}")
        if k == "new":
            Os.log = []
            for attempt in (fault, None, None, None):
                try:
                    cut, s = self.guarded(lambda: self.make(op), attempt, "SeedSequence")
                except OSError:
                    if op[1] != "os":
                        raise
                    tr.fault("the entropy source failed")
                    continue
                if not cut:
                    break
                tr.probe("failed and repeated: new")
            if op[1] == "os":
                bits, v = Os.log[-1]
                if bits != 32 * op[5] or s.entropy != v:
                    raise Violation("SeedSequence(): the entropy is not what the system delivered", f"{s.entropy} after {Os.log}")
                tr.probe("entropy from the system")
                vals = [v]
            else:
                vals = big(op[1])
            m = Model(vals, big(op[3]), op[5], op[6])
            self.check_node(s, m, "SeedSequence")
            if len(self.nodes) < 24:
                self.nodes.append([s, m])
            tr.probe("entropy as " + str(op[2]).split(".")[0].strip("<>0123456789"))
            return
        if k == "gen":
            e = self.pick(op[1])
            cut, r = self.guarded(lambda: self.gen(e[0], op), fault, "generate_state")
            if cut:
                tr.probe("failed and repeated: gen")
                self.check_node(e[0], e[1], "after a failed generate_state")
                r = self.gen(e[0], op)
            self.check_words(e[1], op, r)
            if r.size:
                r[:] = 7  # the caller's own array
            self.check_words(e[1], op, self.gen(e[0], op))
            tr.ev("gen", e[1].words(1, False))
        elif k == "spawn":
            e = self.pick(op[1])
            f = {"pos": lambda: e[0].spawn(op[2]), "kw": lambda: e[0].spawn(n_children=op[2]), "np": lambda: e[0].spawn(np.int64(op[2]))}[op[3]]
            if op[2] + e[1].kids > 2**31 - 1:
                return
            cut, r = self.guarded(f, fault, "spawn")
            if cut:
                tr.probe("failed and repeated: spawn")
                # children may be lost with a request that failed, but none is handed out again
                if not e[1].kids <= e[0].n_children_spawned <= e[1].kids + op[2]:
                    raise Violation("a failed spawn moves the count of children", f"{e[0].n_children_spawned} after {e[1].kids} and a request for {op[2]}")
                e[1].kids = e[0].n_children_spawned
                self.check_node(e[0], e[1], "after a failed spawn")
                r = f()
            self.spawned(e, r, op[2], None)
        elif k == "save":
            self.saved = [[e[0], e[1].same(), None] for e in self.nodes]
            for x in self.saved:
                x[2] = {h: self.recover_later(x[0], h) for h in ("pickle", "state")}
        elif k == "crash":
            self.crash(op[1])
        elif k == "array":
            vals = big(op[1])
            arg = formed(vals, op[2])
            keep = copy.deepcopy(arg)
            cut, r = self.guarded(lambda: seed_by_array(arg, op[3]), fault, "seed_by_array")
            if cut:
                tr.probe("failed and repeated: array")
                r = seed_by_array(arg, op[3])
            self.check_array(r, vals, op[3], op[2])
            if isinstance(arg, (np.ndarray, list)) and not np.array_equal(np.asarray(arg), np.asarray(keep)):
                raise Violation("seed_by_array: the caller's array was changed", str(op))
            tr.probe("seed_by_array")
        elif k == "bad":
            e = self.pick(op[1])
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    r = BAD[op[2]](e[0])
                except (TypeError, ValueError, OverflowError, AttributeError) as x:
                    r = x
            if not isinstance(r, Exception):
                raise Violation(f"not refused: {op[2]}", repr(r)[:200])
            self.check_node(e[0], e[1], f"after a refused request ({op[2]})")
            tr.probe("refused")
        elif k == "seedless":
            z = SeedlessSeedSequence()
            try:
                z.generate_state(4)
                raise Violation("SeedlessSeedSequence generates a state", "")
            except NotImplementedError:
                pass
            r = z.spawn(op[1])
            if not isinstance(r, list) or len(r) != op[1] or any(x is not z for x in r):
                raise Violation("SeedlessSeedSequence.spawn does not return itself", str(r))

    def recover_later(self, s, h):
        if h == "pickle":
            return pickle.dumps(s)
        return type(s), {k: copy.deepcopy(v) for k, v in s.state.items()}

    def crash(self, how):
        """only checkpoints survive: the last save, or (without one) what is exported now"""
        self.tr.fault("crash")
        old = self.saved
        if old is not None and how in ("state", "pickle5"):
            self.nodes = [[pickle.loads(x[2]["pickle"]) if how == "pickle5" else x[2]["state"][0](**x[2]["state"][1]), x[1].same()] for x in old]
            self.tr.probe("recovered from an older checkpoint")
        else:
            self.nodes = [[self.recover(e[0], how), e[1].same()] for e in self.nodes]
        self.tr.probe("recovered by " + how)
        self.given = set()
        for s, m in self.nodes:
            self.check_node(s, m, f"recovered by {how}")
        for s, m in self.nodes[:3]:
            op = ["gen", 0, 3, "u8", "pos"]
            self.check_words(m, op, self.gen(s, op), f" recovered by {how}")

    def check_array(self, r, vals, n, how):
        want = split_of(vals, n)
        if not isinstance(r, np.ndarray) or r.dtype != np.uint64 or r.shape != (n,):
            raise Violation("seed_by_array: the result does not have the documented form", f"{type(r).__name__} {getattr(r, 'dtype', '')} {getattr(r, 'shape', '')}")
        if r.tolist() != want:
            raise Violation("seed_by_array: the words are not those of SplitMix64", f"{r.tolist()} instead of {want} for {vals} as {how}")

    # ---- threads
    def threads(self, sc):
        lock, tr = threading.Lock(), self.tr
        nodes = self.nodes[:6]
        lives = [[e[0], e[1]] for e in nodes]
        begun = [e[1].kids for e in nodes]
        pending = []

        def call(op):
            if op[0] == "array":
                self.check_array(seed_by_array(big(op[1]), op[3]), big(op[1]), op[3], "list")
                return
            j = int(op[1] * len(lives))
            s, m = lives[j]
            if op[0] == "gen":
                self.check_words(m, op, self.gen(s, op), " of concurrent threads")
            elif op[0] == "spawn":
                with lock:  # the documentation promises no locking by the library
                    if m.kids + op[2] >= 2**31:
                        return
                    r = s.spawn(op[2])
                    for i, c in enumerate(r):
                        self.check_node(c, m.child(m.kids + i), "spawn among threads")
                    m.kids += op[2]
                    pending.append(j)
            else:
                a = m.kids
                st = s.state
                c = pickle.loads(pickle.dumps(s))
                if not begun[j] <= a or not a <= st["n_children_spawned"] <= 2**31 or c.pool.tolist() != m.pool:
                    raise Violation("a look from another thread shows what never was", f"{st}")

        def body(t):
            for op in sc["threads"][t]:
                call(op)

        err = sched.run(sc, [body] * len(sc["threads"]), tr, py=("/numpy/_core/_ufunc_config.py", "/numpy/_core/multiarray.py", "/copyreg.py", "sim/props/c19.py"))
        for e in err:
            if isinstance(e, Violation):
                raise e
            if e is not None:
                raise e
        for s, m in lives:
            self.check_node(s, m, "after the threads")


def run(plan, tr):
    Os.seed, Os.n, Os.fail, Os.log = plan["seed"], 0, plan["os_fail"], []
    w = World(plan, tr)
    tr.trivial = False
    for j, op in enumerate(plan["ops"]):
        f = plan["faults"].get(str(j))
        w.step(op, f)
        tr.ev(op[0], len(w.nodes), f)
        tr.sh(op[0], op[2] if op[0] in ("new", "bad") else 0, f)
    if plan["threads"]:
        w.threads(plan)
        tr.probe("threads")
    for s, m in w.nodes:
        w.check_node(s, m, "at the end")
    tr.ev([(m.pool[0], m.kids) for s, m in w.nodes])
