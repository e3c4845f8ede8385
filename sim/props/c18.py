"""C18: every stream is that of its published algorithm.

A generator is made from a seed, a scripted seed sequence, a key and counter or a crafted state, with parameters of
every documented size, and lives through draws of all widths by all kinds of consumers, several threads under a
seeded schedule, crashes with recovery from checkpoints, jumps, reseeding and changes of the accelerated code path.
Every word that leaves it at the bitgen_t interface is compared with an independent reference of the published
algorithm that was given only the origin (or, after a move, the exported state).
"""
import warnings
import numpy as np
from sim import algos, core, env, gens, life, sched, store, words
from sim.core import Violation
from sim.props import c16

ID = "C18"
CHECK_EVERY = 41
M32, M64 = algos.M32, algos.M64
ACCEL = {"AESCounter": "use_aesni", "ChaCha": "use_simd", "SPECK128": "use_sse41"}
LINEAR = {"Xoroshiro128": 2, "Xoshiro256": 4, "Xoshiro512": 8, "Xorshift1024": 16}
MODES = {"AESCounter", "ChaCha", "DSFMT", "HC128", "JSF", "MT19937", "MT64", "PCG32", "PCG64", "Philox", "ThreeFry", "SFC64", "SFMT", "SPECK128",
         "Xoroshiro128", "Xorshift1024", "Xoshiro256", "Xoshiro512"}  # those that still take the argument
NOMODEL = {"Squares"}  # what its keys are is C16's


def odd(rng, bits):
    return c16.rand_value(rng, bits) | 1


def rand_params(rng, cfg):
    """parameters of a configuration, other than its own"""
    c, kw = gens.CONFIGS[cfg]
    if cfg in gens.NUMPY_MODE or rng.random() < 0.4:
        return {}
    if c == "LXM":
        return {"b": str(c16.rand_value(rng, 64))}
    if c == "SFC64":
        return {x: rng.choice([None, str(c16.rand_value(rng, 64))]) for x in "wk"}
    if c in ("PCG32", "PCG64", "PCG64DXSM", "LCG128Mix"):
        p = {"inc": str(c16.rand_value(rng, 64 if c == "PCG32" else 128))}
        if c == "LCG128Mix" and rng.random() < 0.7:
            p["multiplier"] = str(rng.getrandbits(128) & ~7 | 5)  # smaller periods are nothing a consumer can live on
            p["dxsm_multiplier"] = str(odd(rng, 64))
        if c == "LCG128Mix" and rng.random() < 0.35:
            p["output"] = rng.choice(["@py", "@c"])  # the user's own
        return p if c != "LCG128Mix" or rng.random() < 0.5 else {k: v for k, v in p.items() if k != "inc"}
    if c == "JSF":
        w = kw.get("size", 64)
        p = {"seed_size": rng.randint(1, 3)}
        if rng.random() < 0.5:
            p.update(p=str(rng.randrange(1, w)), q=str(rng.randrange(1, w)), r=str(rng.choice([0, rng.randrange(1, w)])))
        return p
    if c == "Tyche":
        return {"idx": str(rng.choice([0, 1, M32, rng.getrandbits(32), 1 << 31]))}
    if c == "ChaCha":
        return {"rounds": rng.choice([2, 4, 6, 8, 12, 20, 22])}
    if c == "SPECK128":
        return {"rounds": rng.randint(1, 34)}
    return {}


def given_of(cfg):
    """(bits of the key, bits of the counter) of generators that take them"""
    c, kw = gens.CONFIGS[cfg]
    if c in ("Philox", "ThreeFry"):
        n, w = kw.get("number", 4), kw.get("width", 64)
        return (n * w // (2 if c == "Philox" else 1), n * w)
    return {"AESCounter": (128, 128), "ChaCha": (256, 128), "HC128": (256, 0), "SPECK128": (256, 128), "Squares": (64, 64)}.get(c)


def rand_origin(rng, cfg):
    c, kw = gens.CONFIGS[cfg]
    g = given_of(cfg)
    if g and cfg not in gens.NUMPY_MODE and rng.random() < 0.4:
        key = c16.rand_value(rng, g[0])
        if c == "Squares":
            key |= 1
        return ["key", str(key), str(life.near(rng, [b for b in (32, 64, 96, 128, 192, 256) if b <= g[1]])) if g[1] and rng.random() < 0.8 else None]
    if rng.random() < 0.45:
        return ["script", dict(c16.rand_seq(rng, False), fail=0, **{"yield": False})]
    return ["seed", life.rand_seed(rng, cfg)]


def rand_draw(rng, cfg):
    op = life.rand_draw(rng, cfg)
    if op[0] == "skip" and gens.CONFIGS[cfg][0] == "AESCounter":
        op[1] = min(op[1], 70)
    return op


def rand_op(rng, cfg):
    k = rng.random()
    if k < 0.68:
        return rand_draw(rng, cfg)
    if k < 0.76:
        return ["crash", rng.choice(store.METHODS)]
    if k < 0.82:
        return ["reseed"] + [rand_origin(rng, cfg)]
    if k < 0.86:
        return ["sync"]
    if k < 0.91 and gens.CONFIGS[cfg][0] in ACCEL:
        return ["accel", rng.random() < 0.5]
    mv = life.rand_move(rng, cfg)
    return mv or rand_draw(rng, cfg)


def rand_call(rng):
    k = rng.random()
    n = rng.choice([1, 2, 3, 5, 8, 17])
    if k < 0.3:
        return ["raw", n]
    if k < 0.6:
        return ["np", rng.choice(["random", "random32", "u64", "u32", "normal"]), n]
    if k < 0.9:
        return ["ext", rng.choice(["u64", "u32", "d", "f", "ld", "cn"]), n]
    return ["read"]


def plan(rng, tier, i):
    cfg = gens.ALL[i % len(gens.ALL)]
    long = tier != "quick" and rng.random() < 0.3
    p = {"cfg": cfg, "params": rand_params(rng, cfg), "origin": rand_origin(rng, cfg), "craft": rng.randrange(2**32) if rng.random() < 0.2 else None,
         "mode": rng.choice(["sequence", "SEQUENCE"]) if rng.random() < 0.06 else None, "ops": [rand_op(rng, cfg) for _ in range(rng.randrange(8, 40) if long else rng.randrange(2, 9))], "threads": [], "faults": []}
    if rng.random() < 0.4:
        nt = rng.choice([2, 2, 3])
        p["threads"] = [{"ops": [rand_call(rng) for _ in range(rng.randrange(1, 4))]} for _ in range(nt)]
        p["sched"] = sched.rand_sched(rng)
        p["faults"] = [[rng.randrange(nt), rng.randint(1, 6)] for _ in range(rng.choice([0, 0, 1, 2]))]
    return p


def num(v):
    return int(v) if isinstance(v, str) and v.lstrip("-").isdigit() else v


class Weak(Exception):
    """nobody can live on this stream: its words go on and on being refused"""


class Life:
    """the generator, its reference, and the ledger between them"""

    def __init__(self, plan, tr):
        self.cfg = plan["cfg"]
        self.name, kw = gens.CONFIGS[self.cfg]
        self.params = plan["params"]
        self.extra = {k: num(v) for k, v in plan["params"].items()}
        self.user = self.extra.get("output")
        if self.user:
            self.extra["output"] = gens.UserOutput.get(self.user)
        self.kw = {**kw, **self.extra}
        self.ctor = dict(self.kw)
        if plan.get("mode") and self.name in MODES:
            # the way of seeding, named as in older versions
            np_ = self.ctor.pop("numpy_seed", False)
            self.ctor["mode"] = plan["mode"] if not np_ else {"sequence": "numpy", "SEQUENCE": "NumPy"}[plan["mode"]]
            tr.probe("deprecated mode")
        self.tr = tr
        self.M = words.model_of(self.cfg)
        self.where = "nothing"
        self.pos = 0
        self.words = 0
        self.node = None
        self.make(plan["origin"])

    # ---- origins
    def source(self, o):
        """(what the library is given, W32, W64)"""
        if o[0] == "script":
            ss = c16.Entropy(o[1], 0xA5A5A5A5A5A5A5A5, None, calm=True)
            self.tr.probe("scripted seed")
            if self.name in LINEAR and not any(ss.stream(LINEAR[self.name])):
                ss = c16.Entropy(dict(o[1], segs=[]), 0xA5A5A5A5A5A5A5A5, None, calm=True)  # no words but 0: there is no such stream
        else:
            s = gens.seed_of(o[1])
            if isinstance(o[1], dict):
                return s, gens.seed_of(dict(o[1], rg=False))
            return s, np.random.SeedSequence(s)
        return ss, ss

    restored = False

    def model(self, o):
        if self.restored and (self.name == "SFC64" or self.cfg == "mt19937-np") and o[0] != "key":
            return None  # a checkpoint keeps the state, not the parameters of later seeding
        if o[0] == "key":
            return algos.keyed(self.name, self.kw, int(o[1]), int(o[2] or 0))
        if self.name in NOMODEL:
            return None
        ss = self.source(o)[1]
        return algos.seeded(self.name, self.kw, lambda n: [int(x) for x in ss.generate_state(n, np.uint32)], lambda n: [int(x) for x in ss.generate_state(n, np.uint64)])

    def make(self, o):
        """a new generator from an origin"""
        self.where = f"made from {o}"
        core.MARK(f"{self.cfg} made from {o[0]}")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            cls = gens.CLS[self.cfg]
            if o[0] == "key":
                k = {"key": int(o[1])}
                if o[2] is not None:
                    k["counter"] = int(o[2])
                bg = cls(**self.ctor, **k)
            else:
                bg = cls(self.source(o)[0], **self.ctor)
        self.attach(life.Node(self.cfg, bg))
        self.follow(o)
        self.tr.probe("origin " + o[0])

    def reseed(self, o):
        self.where = f"reseeded from {o}"
        core.MARK(f"{self.cfg} reseeded from {o[0]}")
        bg = self.node.bg
        self.detach()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if o[0] == "key":
                k = {"key": int(o[1])}
                if o[2] is not None:
                    k["counter"] = int(o[2])
                bg.seed(**k)
            else:
                bg.seed(self.source(o)[0], **{k: self.kw[k] for k in ("inc", "idx") if k in self.kw})
        self.attach(self.node)
        self.follow(o)
        self.tr.probe("reseed " + o[0])

    def follow(self, o):
        u = self.model(o)
        if u is None:
            self.sync()
            return
        self.start(u, None)

    def start(self, units, half):
        self.used = 0
        gens.UserOutput.calls.clear()
        if self.user == "@py":
            def count():
                self.used += 1
                return next(units)
            self.u = count
        else:
            self.u = units.__next__
        m = self.m = self.M(self.u)
        if half is not None:
            m.half = half
        self.fs = (m.n64, m.n32, m.nd, m.raw)

    def sync(self, st=None):
        """take up the stream from the state the generator exports"""
        st = self.node.bg.state if st is None else st
        half = int(st["uinteger"]) if self.M is words.W64 and st.get("has_uint32") else None
        self.start(algos.words(st), half)

    # ---- seam
    def attach(self, node):
        self.node = node
        node.ext = node._np = None  # consumers copy the interface: make them behind the seam
        self.used = 0
        gens.UserOutput.calls.clear()
        self.p = env.bitgen_of(node.bg)
        env.tramp_install(self.p, 0, *self.mode)
        self.keep = node.bg

    mode = (1, 0)

    def detach(self):
        env.tramp_remove(self.p)

    def check(self, fs=None, led=None):
        fs = fs or self.fs
        if led is None:
            led = env.ledger()[self.pos:]
            self.pos += len(led)
            self.words += len(led)
            self.tr.steps += len(led)
        weak = env.ledger_over() or len(led) > 20000
        for n, r in enumerate(led[:20000]):
            v, k = r[0], r[3]
            w = fs[k]()
            if v != w:
                what = ("64-bit", "32-bit", "double", "raw")[k]
                raise Violation(f"{self.cfg}: the stream is not that of the published algorithm", f"{what} draw {n} after {self.where}: {v:#x} instead of {w:#x}; parameters {self.params}")
        if weak:
            raise Weak()
        if self.user == "@py" and fs is self.fs:
            if len(gens.UserOutput.calls) != self.used:
                raise Violation(f"{self.cfg}: the user's output function is not called once per word", f"{len(gens.UserOutput.calls)} calls for {self.used} words after {self.where}")
            self.tr.probe("calls of the user's output function", self.used)

    def do(self, op):
        o = op[0]
        if o == "crash":
            core.MARK(f"{self.cfg} restored: {op[1]}")
            self.detach()
            try:
                blob = store.save(self.node, op[1])
            except (ValueError, TypeError) as e:
                if not self.user:
                    raise Violation(f"{self.cfg}: a checkpoint by {op[1]} fails", repr(e))
                self.attach(self.node)  # functions of a process cannot leave it
                self.tr.probe("checkpoint of a user's function refused")
                return
            env.draw(self.node.bg, b"\0\1\3")  # what is not saved is lost
            self.attach(store.restore(self.cfg, op[1], blob, None, 99, None))
            self.restored = True
            self.tr.fault("crash: restored by " + op[1])
        elif o == "reseed":
            self.reseed(op[1])
        elif o == "sync":
            self.sync()
        elif o == "accel":
            a = ACCEL[self.name]
            try:
                setattr(self.node.bg, a, op[1])
                self.tr.probe("accelerated path switched")
            except ValueError:
                pass
        elif o in ("adv", "jump", "craft"):
            self.detach()
            self.node.do(op)
            self.attach(self.node)
            self.sync()
            self.tr.probe("moved: " + o)
        else:
            self.tr.ev(o, gens.freeze(self.node.do(op)))
        self.where = f"{op}"
        self.check()


def together(L, plan, tr):
    """threads share the generator under a seeded schedule"""
    L.detach()
    L.mode = (0, 1)
    L.attach(L.node)
    bg, node = L.node.bg, L.node
    g, e = node.get_np(), node.get_ext()
    seen = []

    def call(t, op):
        if op[0] == "raw":
            bg.random_raw(op[1])
        elif op[0] == "read":
            with bg.lock:
                n = env.ledger_len()
                st = bg.state
                env.sim_yield()
                if env.ledger_len() == n:
                    seen.append((n, st))
        else:
            n = op[2]
            {"random": lambda: g.random(n), "random32": lambda: g.random(n, dtype=np.float32), "normal": lambda: g.standard_normal(n),
             "u64": lambda: (g.integers(0, M64, n, dtype=np.uint64, endpoint=True) if op[0] == "np" else e.uintegers(n, 64)),
             "u32": lambda: (g.integers(0, M32, n, dtype=np.uint32, endpoint=True) if op[0] == "np" else e.uintegers(n, 32)),
             "d": lambda: e.random(n), "f": lambda: e.random(n, dtype=np.float32), "ld": lambda: e.random(n, dtype=np.longdouble), "cn": lambda: e.complex_normal(size=n)}[op[1]]()

    def body(t):
        for j, op in enumerate(plan["threads"][t]["ops"]):
            env.set_op(j)
            env.sim_yield()
            core.MARK(f"{L.cfg} threads {op[:2]}")
            try:
                call(t, op)
            except env.SimInterrupt:
                tr.probe("thread interrupted")

    start = L.pos
    err = sched.run(plan, [body] * len(plan["threads"]), tr, [tuple(x) for x in plan["faults"]])
    for x in err:
        if x is not None:
            raise x if isinstance(x, Violation) else Violation(f"unexpected {type(x).__name__} in a thread", repr(x))
    L.where = f"threads {[t['ops'] for t in plan['threads']]}"
    led = env.ledger()
    assert start <= len(led)
    L.check()
    for n, st in seen:  # a state read while others draw describes the stream from that point on
        m = L.M(algos.words(st).__next__)
        if L.M is words.W64 and st.get("has_uint32"):
            m.half = int(st["uinteger"])
        L.where = "a state read between the draws of other threads"
        L.check((m.n64, m.n32, m.nd, m.raw), led[n:])
        tr.probe("state read between draws")
    L.detach()
    L.mode = (1, 0)
    L.attach(L.node)


def run(plan, tr):
    env.tramp_free()
    env.ledger_reset()
    env.ledger_limit(200000)
    cfg = plan["cfg"]
    tr.sh(cfg, sorted(plan["params"]), plan["origin"][0], plan["craft"] is not None, [op[0] if op[0] != "crash" else op for op in plan["ops"]], [t["ops"] for t in plan["threads"]])
    L = Life(plan, tr)
    try:
        if plan["craft"] is not None:
            L.do(["craft", plan["craft"]])
        at = len(plan["ops"]) // 2
        for j, op in enumerate(plan["ops"] + [None]):
            if j == at and plan["threads"]:
                together(L, plan, tr)
            if op is not None:
                L.do(op)
        L.do(["d", "3130120131"])
    except Weak:
        tr.probe("the parameters chosen are too weak for a consumer")
    finally:
        L.detach()
    tr.trivial = False
    tr.probe("words compared", L.words)
    if plan["params"]:
        tr.probe("own parameters")
