"""C16: keys, increments and starting states meet their documented constraints.

The entropy below the library is simulated: seed sequences deliver scripted words (zeros, ones, repeats, long runs
of words that rejection sampling refuses), fail, and hand over to other threads; SFC64 objects are placed so that
their next words are chosen.  Threads make keys, increments and generators at the same time.  Everything made must
meet the constraints the documentation states, must not depend on the other threads nor on memory around the words
delivered, and must be finished within a bounded number of words once the script has ended.
"""
import random
import numpy as np
from numpy.random.bit_generator import ISpawnableSeedSequence
from sim import core, env, gens, sched
from sim.core import Violation
import randomgen as rg
from randomgen.squares import generate_keys

ID = "C16"
CHECK_EVERY = 41
M64, M128 = (1 << 64) - 1, (1 << 128) - 1

SEGS = ["zeros", "ones", "nibble", "bits", "repeat", "random", "low"]
KINDS = [["SFC64", {}], ["SFC64", {"w": None, "k": None}], ["SFC64", {"w": 3, "k": None}], ["SFC64", {"w": None, "k": 6}], ["SFC64", {"k": 4}], ["SFC64", {"k": M64 - 1}], ["LXM", {}], ["LXM", {"b": 4}],
         ["LXM", {"b": 2 ** 64 - 2}], ["Romu", {}], ["Romu", {"variant": "trio"}], ["SFMT", {}], ["DSFMT", {}], ["MT19937", {}], ["MT19937", {"numpy_seed": True}], ["MT64", {}],
         ["Squares", {}], ["Squares", {"variant": 32}], ["PCG32", {}], ["PCG32", {"inc": 6}], ["PCG64", {}], ["PCG64", {"inc": 4}], ["PCG64", {"variant": "dxsm", "inc": M128}],
         ["PCG64DXSM", {}], ["PCG64DXSM", {"inc": 2}], ["LCG128Mix", {}], ["LCG128Mix", {"inc": M128 - 1, "output": "dxsm"}]]

# generators that take keys and counters: bits of the key, bits of the counter, where the state keeps them
GIVEN = [["Philox", {"number": n, "width": w}, n // 2 * w, n * w, w] for n in (2, 4) for w in (32, 64)] + \
    [["ThreeFry", {"number": n, "width": w}, n * w, n * w, w] for n in (2, 4) for w in (32, 64)] + \
    [["AESCounter", {}, 128, 128, 64], ["ChaCha", {}, 256, 128, 64], ["ChaCha", {"rounds": 8}, 256, 128, 64], ["SPECK128", {}, 256, 128, 64], ["SPECK128", {"rounds": 3}, 256, 128, 64],
     ["HC128", {}, 256, 0, 64], ["Squares", {}, 64, 64, 64], ["Squares", {"variant": 32}, 64, 64, 64]]
FORMS = ["int", "int", "list", "list", "tuple", "array", "short", "shortlist", "strided", "ro", "npint", "npints"]


def rand_value(rng, bits):
    """a number of that many bits whose 64-bit words come in all sizes"""
    v = 0
    for j in range(0, bits, 64):
        w = rng.choice([0, 1, rng.getrandbits(64), rng.getrandbits(64), rng.getrandbits(64), rng.getrandbits(8), M64, M64 - rng.getrandbits(8), 1 << 63, (1 << 63) + rng.getrandbits(10), (1 << 63) - 1, (1 << 53) + 1])
        v |= w << j
    return v & ((1 << bits) - 1)


def form(v, bits, how):
    """a number as its documented representations"""
    words = [v >> j & M64 for j in range(0, max(bits, 1), 64)]
    if how.startswith("short"):
        while len(words) > 1 and not words[-1]:
            words.pop()
    if how == "npint" and v <= M64:
        return np.uint64(v)
    if how in ("list", "shortlist"):
        return words
    if how == "tuple":
        return tuple(words)
    if how == "npints":
        return [np.uint64(w) for w in words]
    if how in ("array", "short", "strided", "ro"):
        a = np.array(words, np.uint64)
        if how == "strided":
            b = np.full(2 * len(words), 7, np.uint64)
            b[::2] = a
            return b[::2]
        a.flags.writeable = how != "ro"
        return a
    return v


def rand_given(rng):
    g = rng.randrange(len(GIVEN))
    name, _, kb, cb, _ = GIVEN[g]
    key = rand_value(rng, kb)
    if name == "Squares":
        key |= 1
    return ["given", rng.choice(["ctor", "ctor", "seed", "seed"]), g, [str(key), rng.choice(FORMS)], [str(rand_value(rng, cb)), rng.choice(FORMS)] if cb and rng.random() < 0.7 else None, rng.randrange(20)]


def rand_kind(rng):
    """a kind of generator, with parameters of every size"""
    k = rng.randrange(len(KINDS))
    name, kw = KINDS[k]
    full = {"PCG32": 64, "PCG64": 128, "PCG64DXSM": 128, "LCG128Mix": 128, "LXM": 64, "SFC64": 64}.get(name)
    over = {x: str(rand_value(rng, full)) for x in ("inc", "b", "k", "w") if kw.get(x) is not None} if full and rng.random() < 0.7 else {}
    return [k, over]


def rand_seq(rng, heavy):
    segs = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        segs.append([rng.choice(SEGS), rng.choice([1, 1, 2, 5, 9, 10, 11, 19, 20, 21, 40] if heavy else [1, 2, 3, 4, 5, 8, 9, 20]), rng.getrandbits(64)])
    return {"segs": segs, "tail": rng.getrandbits(64), "yield": rng.random() < 0.7, "fail": rng.choice([0, 0, 0, 0, 1, 2, 3])}


def rand_weyl(rng):
    while True:
        hi = rng.choice([1, 2, 2, 3, 5, 16, 31, 32, 32, 33, 34, 48, 62, 63, 64, rng.randint(1, 64)])
        lo = rng.choice([None, None, hi, max(1, hi - 1), max(1, hi - 2), rng.randint(1, hi)])
        n = rng.choice([1, 1, 2, 3, 5, 8, 20, 63])
        m = hi if lo is None else lo
        if rng.random() < 0.06:
            # more values than there are, and bounds that no value meets
            have = sum(comb(k) for k in range(m, hi + 1))
            return ["weyl-no", rng.randrange(2)] + rng.choice([[have + rng.choice([1, 1, 2, 1000]) if have < 2**24 else -1, hi, lo], [0, hi, lo], [-n, hi, lo], [n, 65, lo], [n, 0, None], [n, -1, -1], [n, hi, hi + 1], [n, hi, 0]])
        if sum(comb(k) for k in range(m, hi + 1)) >= n:
            return ["weyl", rng.randrange(2), n, hi, lo]


def comb(k):
    import math
    return math.comb(63, k - 1)


def plan(rng, tier, i):
    if rng.random() < 0.004:
        return {"kind": "rule", "seed": rng.getrandbits(64), "n": rng.randint(1, 20), "threads": [], "seqs": [], "faults": []}
    kind = rng.choice(["keys", "keys", "weyl", "weyl", "seed", "given"])
    p = {"kind": kind, "sched": sched.rand_sched(rng), "faults": [], "seqs": [rand_seq(rng, kind == "keys") for _ in range(rng.choice([1, 2, 2, 3]))]}
    nt = rng.choice([1, 1, 2, 2, 3])
    ths = []
    for t in range(nt):
        ops = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            q = rng.randrange(len(p["seqs"]))
            if kind == "keys":
                ops.append(["keys", q, rng.choice([1, 1, 2, 3, 7, 30]), rng.random() < 0.4] if rng.random() < 0.75 else ["make", q, [rng.choice([16, 17]), {}]])
            elif kind == "given":
                ops.append(rand_given(rng))
            elif kind == "seed":
                ops.append([rng.choice(["make", "make", "reseed"]), q, rand_kind(rng)])
            else:
                ops.append(rand_weyl(rng) if rng.random() < 0.75 else [rng.choice(["raw", "u32"]), rng.randrange(2), rng.choice([1, 3, 9])])
        ths.append({"ops": ops})
    p["threads"] = ths
    if kind == "weyl":
        p["place"] = [[rng.getrandbits(60), rng.choice(["none", "ones", "ones", "zeros", "repeat", "top"]), rng.randrange(2)] for _ in range(2)]
        p["faults"] = [[rng.randrange(nt), rng.randint(1, 40)] for _ in range(rng.choice([0, 0, 1, 2]))]
    return p


class Failed(RuntimeError):
    """the seed sequence has no entropy at the moment"""


class Entropy:
    """A seed sequence whose words follow a script."""

    def __init__(self, spec, poison, tr=None, calm=False):
        self.spec, self.poison, self.tr, self.calm = spec, poison, tr, calm
        self.calls = 0
        self.words = 0
        self.script = sum(s[1] for s in spec["segs"])

    def stream(self, n):
        out = []
        r = random.Random(self.spec["tail"])
        for kind, cnt, arg in self.spec["segs"]:
            q = random.Random(arg)
            for j in range(cnt):
                out.append({"zeros": 0, "ones": M64, "nibble": 0x1111111111111111 * (arg & 15), "bits": 1 << (arg & 63), "random": q.getrandbits(64), "low": arg & 255,
                            "repeat": out[(arg + j) % len(out)] if out and kind == "repeat" else arg}[kind])
        while len(out) < n:
            out.append(r.getrandbits(64))
        return out[:n]

    def generate_state(self, n_words, dtype=np.uint32):
        self.calls += 1
        if not self.calm:
            if self.spec["yield"] and env.sim_tid() >= 0:
                env.sim_yield()
            if self.spec["fail"] == self.calls:
                if self.tr is not None:
                    self.tr.fault("entropy source failed")
                raise Failed()
        size = np.dtype(dtype).itemsize
        n = int(n_words)
        self.words = max(self.words, n)
        if self.calls > 60 or n > 200000:
            raise Violation("making a key, an increment or a state does not end", f"{self.calls} requests, {n} words, script of {self.script} words")
        n64 = (n * size + 7) // 8
        big = np.full(n64 + 64, self.poison, dtype=np.uint64)
        big[:n64] = np.array(self.stream(n64), dtype=np.uint64)
        return big.view(dtype)[:n]

    def spawn(self, n):
        return [Entropy(dict(self.spec, tail=self.spec["tail"] ^ (k + 1)), self.poison, self.tr, self.calm) for k in range(n)]


ISpawnableSeedSequence.register(Entropy)


def key_ok(k):
    w = [(k >> 4 * i) & 15 for i in range(16)]
    if not w[0] & 1:
        return "word 0 of a key is even"
    if len(set(w[:8])) != 8:
        return "a word repeats among words 0 to 7 of a key"
    if any(x == 0 for x in w[8:]):
        return "one of the words 8 to 15 of a key is 0"
    if any(w[i] == w[i - 1] for i in range(8, 16)):
        return "neighbouring words 8 to 15 of a key are equal"
    return None


def state_ok(name, kw, st, fresh):
    """the documented constraints on what seeding may leave -> complaint or None; fresh: made with the parameters kw"""
    s = st["state"]
    if fresh and kw.get("inc") is not None and int(s["inc"]) != (2 * kw["inc"] + 1) & (M64 if name == "PCG32" else M128):
        return "the increment is not the one given"
    if name == "LXM" and int(s["b"]) != kw.get("b", 3037000493) | 1:
        return "the additive constant is not the one given"
    if name == "SFC64" and kw.get("k", 1) is not None and int(s["k"]) != kw.get("k", 1) | 1:
        return "the Weyl increment is not the one given"
    if name == "SFC64" and kw.get("w", 1) is not None and int(s["w"]) != (kw.get("w", 1) + 12 * int(s["k"])) & M64:
        return "the counter did not start at the value given"
    if name == "Squares":
        return key_ok(int(s["key"]))
    if name == "SFC64" and int(s["k"]) & 1 == 0:
        return "the Weyl increment is even"
    if name == "LXM":
        if int(s["b"]) & 1 == 0:
            return "the additive constant is even"
        if not np.asarray(s["x"]).any():
            return "the xorshift state is all zero"
    if name == "Romu" and not any(int(s[k]) for k in ("wxyz" if kw.get("variant") != "trio" else "xyz")):
        return "the state is all zero"
    if name in ("PCG32", "PCG64", "PCG64DXSM", "LCG128Mix") and int(s["inc"]) & 1 == 0:
        return "the increment is even"
    if name == "LCG128Mix" and (int(s["multiplier"]) & 1 == 0 or int(s["dxsm_multiplier"]) & 1 == 0):
        return "a multiplier is even"
    if name == "SFMT":
        u = [int(x) for x in np.asarray(s["state"]).reshape(-1)[:4]]
        if (bin(u[0] & 1).count("1") + bin(u[3] & 0x13C9E684).count("1")) % 2 == 0:
            return "the state is not certified to have the full period"
    if name == "DSFMT":
        u = [int(x) for x in np.asarray(s["state"]).reshape(-1)[-2:]]
        if (bin((u[0] ^ 0x90014964B32F4329) & 0x3D84E1AC0DC82880).count("1") + ((u[1] ^ 0x3B8D12AC548A7C7A) & 1)) % 2 == 0:
            return "the state is not certified to have the full period"
    if name == "MT19937" and int(np.asarray(s["key"])[0]) != 0x80000000:
        return "the first word is not 2**31"
    if name == "MT64" and int(np.asarray(s["key"])[0]) != 1 << 63:
        return "the first word is not 2**63"
    return None


def words_of(st):
    return repr(sorted((k, v.tolist() if hasattr(v, "tolist") else repr(v)) for k, v in st["state"].items()))


def produce(op, spec, poison, tr=None, calm=False):
    """-> (result, complaint).  Raises Failed if the source failed and the library reported it."""
    e = Entropy(spec, poison, tr, calm)
    if op[0] == "keys":
        k = generate_keys(e, op[2], unique=op[3])
        v = [int(x) for x in np.asarray(k)]
        bad = next((b for b in map(key_ok, v) if b), None)
        if len(v) != op[2]:
            bad = "generate_keys returned another number of keys"
        if op[3] and len(set(v)) != len(v):
            bad = "unique keys are not distinct"
        return v, bad
    name, kw = KINDS[op[2][0] % len(KINDS)]
    kw = {**kw, **{x: int(y) for x, y in op[2][1].items()}}
    if op[0] == "make":
        g = getattr(rg, name)(e, **kw)
    else:
        g = getattr(rg, name)(99, **kw)
        g.random_raw(3)
        g.seed(e)
    st = g.state
    bad = state_ok(name, kw, st, op[0] == "make")
    return words_of(st), bad and f"{name}: {bad}"


def do_given(plan, tr):
    """keys and counters are the ones given, however they are passed and whatever the generator did before"""
    got = {}

    def make(op, plain):
        _, mode, g, key, ctr, hist = op
        name, kw, kb, cb, _ = GIVEN[g]
        a = {"key": form(int(key[0]), kb, "int" if plain else key[1])}
        if ctr is not None:
            a["counter"] = form(int(ctr[0]), cb, "int" if plain else ctr[1])
        if name == "Squares":
            a = {x: int(int(key[0]) if x == "key" else int(ctr[0])) for x in a}
        if mode == "ctor" or plain:
            b = getattr(rg, name)(**a, **kw)
        else:
            b = getattr(rg, name)(hist, **kw)
            b.random_raw(hist)
            np.random.Generator(b).integers(0, 9, dtype=np.uint32)
            b.seed(**a)
        st = b.state
        return gens.freeze(st), st, [int(x) for x in b.random_raw(20)]

    def body(t):
        for j, op in enumerate(plan["threads"][t]["ops"]):
            core.MARK(f"{GIVEN[op[2]][0]} with a given key")
            env.sim_yield()
            got[t, j] = make(op, False)
    err = sched.run(plan, [lambda t: body(t)] * len(plan["threads"]), tr)
    for e in err:
        if e is not None:
            raise e
    for (t, j), (fr, st, words) in sorted(got.items()):
        op = plan["threads"][t]["ops"][j]
        name, kw, kb, cb, w = GIVEN[op[2]]
        key, ctr = int(op[3][0]), int(op[4][0]) if op[4] else 0
        tr.ev(t, j, words)
        tr.probe("given key")
        s = st.get("s", st["state"] if "state" in st else None)

        def words_are(have, v, width):
            return [int(x) for x in np.asarray(have).reshape(-1)] == [v >> width * i & ((1 << width) - 1) for i in range(np.asarray(have).size)]
        ok = {"Philox": lambda: words_are(s["key"], key, w) and words_are(s["counter"], ctr, w), "ThreeFry": lambda: words_are(s["key"], key, w) and words_are(s["counter"], ctr, w),
              "AESCounter": lambda: words_are(s["seed"][:2], key, 64) and all(words_are(s["counter"][2 * i:2 * i + 2], (ctr + i) % 2**128, 64) for i in range(4)),
              "ChaCha": lambda: words_are(s["keysetup"], key, 32) and words_are(s["ctr"], ctr, 64),
              "SPECK128": lambda: words_are(s["ctr"][:2], ctr, 64), "HC128": lambda: True, "Squares": lambda: int(s["key"]) == key and int(s["counter"]) == ctr}[name]()
        if not ok:
            raise Violation(f"{name}: the key or the counter is not the one given", f"{op} {gens.freeze(st)[:600]}")
        f2, st2, words2 = make(op, True)
        if words != words2:
            raise Violation(f"{name}: the stream depends on how the key or the counter was passed, or on the past", f"{op} {words[:4]} {words2[:4]}")


def do_entropy(plan, tr):
    specs = plan["seqs"]
    got = {}

    def body(t):
        for j, op in enumerate(plan["threads"][t]["ops"]):
            core.MARK(f"{op[0]} {op[2] if op[0] == 'keys' else KINDS[op[2][0]][0]}")
            spec = specs[op[1] % len(specs)]
            try:
                got[t, j] = produce(op, spec, 0, tr)
            except Failed:
                got[t, j] = "failed"
    err = sched.run(plan, [lambda t: body(t)] * len(plan["threads"]), tr)
    for e in err:
        if e is not None:
            raise e
    for (t, j), r in sorted(got.items()):
        op = plan["threads"][t]["ops"][j]
        spec = specs[op[1] % len(specs)]
        tr.ev(t, j, r)
        tr.probe("made " + (op[0] if op[0] == "keys" else KINDS[op[2][0] % len(KINDS)][0]))
        a = produce(op, spec, M64, calm=True)
        if a[1]:
            raise Violation(a[1], f"{op} {spec}")
        b = produce(op, spec, 0x0123456789ABCDEF, calm=True)
        if a[0] != b[0]:
            raise Violation("what is made depends on memory beyond the words the seed sequence delivered", f"{op} {spec} {a} {b}")
        if r == "failed":
            if not spec["fail"]:
                raise Violation("an operation failed though its entropy source did not", f"{op}")
            tr.probe("failure of the entropy source reported")
            continue
        if r[0] != a[0]:
            raise Violation("what is made depends on other threads or on an earlier failure", f"{op} {spec} {r} {a}")
        if spec["segs"]:
            tr.probe("made from odd entropy")


def place(g, arg, kind):
    """SFC64 whose next words are chosen: the first two outputs are all ones, all zeros, ..."""
    if kind == "none":
        return
    r = random.Random(arg)
    o0 = {"ones": M64, "zeros": 0, "repeat": 0x0505050505050505, "top": M64 - r.getrandbits(8)}[kind]
    st = g.state
    k, w, b = int(st["state"]["k"]), r.getrandbits(64), r.getrandbits(64)
    a = (o0 - b - w) & M64
    a1 = b ^ (b >> 11)
    c = ((o0 - a1 - w - k) * pow(9, -1, 1 << 64)) & M64
    st["state"].update(a=a, b=b, c=c, w=w)
    g.state = st


def do_weyl(plan, tr):
    gs = [rg.SFC64(s, k=[1, 0x9E3779B97F4A7C15][z]) for s, _, z in plan["place"]]
    for g, (s, kind, _) in zip(gs, plan["place"]):
        place(g, s, kind)
        tr.probe("chosen words " + kind)
    budget = {}
    out = {}

    class TooLong(Exception):
        pass

    def before(t):
        if budget.get(t) is not None:
            budget[t] -= 1
            if budget[t] < 0:
                raise TooLong()

    def body(t):
        for j, op in enumerate(plan["threads"][t]["ops"]):
            g = gs[op[1]]
            core.MARK(op[0])
            try:
                if op[0] == "raw":
                    g.random_raw(op[2])
                elif op[0] == "u32":
                    rg.ExtendedGenerator(g).uintegers(op[2], bits=32)
                elif op[0] == "weyl-no":
                    budget[t] = 0
                    have = 0 if not 1 <= op[3] <= 64 else sum(comb(k) for k in range(max(1, op[3] if op[4] is None else op[4]), op[3] + 1))
                    try:
                        g.weyl_increments(op[2], op[3], op[4])
                        out[t, j] = "accepted" if not (have >= op[2] > 0 and (op[4] is None or 1 <= op[4] <= op[3])) else "fine"
                    except ValueError:
                        out[t, j] = "refused"
                else:
                    budget[t] = 400 + 200 * op[2]
                    v = np.asarray(g.weyl_increments(op[2], op[3], op[4]))
                    out[t, j] = [int(x) for x in v]
            except env.SimInterrupt:
                out[t, j] = "interrupted"
            except TooLong:
                out[t, j] = "endless"
            budget[t] = None
    err = sched.run(plan, [lambda t: body(t)] * len(plan["threads"]), tr, plan["faults"], before=before)
    for e in err:
        if e is not None:
            raise e
    for (t, j), v in sorted(out.items()):
        op = plan["threads"][t]["ops"][j]
        tr.ev(t, j, v)
        if op[0] == "weyl-no":
            if v == "refused":
                tr.probe("impossible request refused")
            elif v != "interrupted":
                raise Violation("increments that do not exist are not refused at once", f"{op} {v}")
            continue
        if v == "endless":
            raise Violation("weyl_increments does not end", f"{op} {plan['place'][op[1]]}: more than {400 + 200 * op[2]} draws")
        if v == "interrupted":
            continue
        hi, lo = op[3], op[3] if op[4] is None else op[4]
        tr.probe("increments made")
        if len(plan["threads"]) > 1:
            tr.probe("increments made by concurrent threads")
        if len(v) != op[2]:
            raise Violation("weyl_increments returned another number of values", f"{op} {v}")
        if len(set(v)) != len(v):
            raise Violation("Weyl increments are not distinct", f"{op} {v}")
        if any(x & 1 == 0 for x in v):
            raise Violation("a Weyl increment is even", f"{op} {v}")
        if any(not lo <= bin(x).count("1") <= hi for x in v):
            raise Violation("a Weyl increment has too few or too many bits", f"{op} {[(hex(x), bin(x).count('1')) for x in v]}")
    for g in gs:
        if g.lock.locked():
            raise Violation("the lock is still held after weyl_increments", "")


def run(plan, tr):
    tr.sh(plan["kind"], plan["seqs"], plan["threads"], plan["faults"], plan.get("place"))
    tr.trivial = False
    tr.steps += sum(len(t["ops"]) for t in plan["threads"])
    if plan["kind"] == "rule":
        # judged apart from the rest, as most keys break it
        for k in generate_keys(plan["seed"], plan["n"]):
            if any((int(k) >> 4 * j) & 15 == 0 for j in range(1, 8)):
                raise Violation("one of the words 1 to 7 of a key is 0", f"{int(k):#x}")
    elif plan["kind"] == "weyl":
        do_weyl(plan, tr)
    elif plan["kind"] == "given":
        do_given(plan, tr)
    else:
        do_entropy(plan, tr)
