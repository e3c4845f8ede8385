"""C01: concurrent draws on one shared bit generator are serializable.

Two to four threads draw from one or two shared bit generators.  Every draw and every lock operation is a
scheduling point.  The ledger says which call got which word; re-executing the calls one after another on a
new generator must give the same results and the same final state.
"""
import numpy as np
from sim import core, env, gens, life, sched
from sim.core import Violation
import randomgen as rg

ID = "C01"
CHECK_EVERY = 41

SINGLE_EXT = ["u64", "u32", "u64s", "u32s", "d", "f", "ld", "cn", "cn0", "cnarr", "wish", "wishs", "ds", "dout", "fout", "ldout"]
MULTI_EXT = ["mvn", "wishart", "mcn"]
NP = ["random", "random32", "u64", "u32", "u8", "normal", "expo", "bytes", "perm", "bounded", "scalarr", "gamma", "norm2", "binom", "normal32"]


def rand_op(rng, nb, big=0):
    b = rng.randrange(nb)
    n = rng.randrange(1, 7) if rng.random() < 0.8 else rng.randrange(7, 24)
    if big:
        n = big
    k = rng.random()
    if k < 0.22:
        return ["raw", b, rng.choice([None, n, n, [2, n]]), rng.random() < 0.8]
    if k < 0.58:
        return ["ext", b, rng.choice([0, 1, 0, 1, 2]), rng.choice(SINGLE_EXT), n]
    if k < 0.68:
        return ["ext", b, rng.choice([0, 1, 0, 1, 2]), rng.choice(MULTI_EXT), n]
    if k < 0.84:
        return ["np", b, rng.choice([0, 1, 0, 1, 2]), rng.choice(NP), n]
    if k < 0.93:
        return ["hold", b, rng.randrange(1, 8)]
    return ["rest", rng.randrange(1, 4)]


def plan(rng, tier, i):
    deep = tier == "thorough" and rng.random() < 0.25
    nb = 2 if rng.random() < 0.25 else 1
    cfgs = [gens.ALL[(i + 7 * k * (i + 1)) % len(gens.ALL)] for k in range(nb)]
    if rng.random() < 0.04:
        cfgs[0] = rng.choice(sorted(gens.FOREIGN))
    nt = rng.choice([2, 2, 2, 3, 3, 4]) if not deep else rng.randrange(2, 7)
    threads = [{"ops": [rand_op(rng, nb) for _ in range(rng.randrange(1, 5) if not deep else rng.randrange(2, 9))]} for _ in range(nt)]
    if rng.random() < 0.03:
        # fills long enough for anything done piecewise
        x = rng.choice(threads)["ops"]
        x[rng.randrange(len(x))] = rand_op(rng, nb, rng.choice([257, 1025, 1100, 2049, 4097, 8200, 16400 if tier == "quick" else 70000]))
    faults = [[rng.randrange(nt), rng.randrange(1, 6)] for _ in range(rng.choice([0, 0, 1, 1, 2]))]
    return {"cfgs": cfgs, "seeds": [life.rand_seed(rng, c) for c in cfgs], "warm": [life.rand_kinds(rng, rng.randrange(0, 5)) for _ in cfgs],
            "threads": threads, "faults": faults, "sched": sched.rand_sched(rng)}


class Shared:
    """a bit generator with two consumers of each kind"""

    def __init__(self, cfg, seed, warm, tramp=None):
        self.cfg = cfg
        self.bg = gens.make(cfg, seed)
        env.draw(self.bg, bytes(int(c) for c in warm))
        if tramp is not None:
            env.tramp_install(env.bitgen_of(self.bg), tramp, 0, 1)
        self.ext = [rg.ExtendedGenerator(self.bg) for _ in range(2)]
        self.np = [np.random.Generator(self.bg) for _ in range(2)]

    def done(self):
        env.tramp_remove(env.bitgen_of(self.bg))

    def do(self, op, live):
        k = op[0]
        core.MARK(f"{self.cfg} {k} {op[3] if k in ('ext', 'np') else ''}")
        if k == "raw":
            return self.bg.random_raw(tuple(op[2]) if isinstance(op[2], list) else op[2], op[3])
        if k == "hold":
            with self.bg.lock:
                a = gens.freeze(self.bg.state)
                if live:
                    for _ in range(op[2]):
                        env.sim_yield()
                    b = gens.freeze(self.bg.state)
                    if a != b:
                        raise Violation(f"{self.cfg}: the state changes while its lock is held", f"{a[:200]} then {b[:200]}")
                return a
        n = op[4]
        if op[2] == 2:  # a consumer made while others draw
            g = (rg.ExtendedGenerator if k == "ext" else np.random.Generator)(self.bg)
        else:
            g = (self.ext if k == "ext" else self.np)[op[2]]
        if k == "np":
            return {
                "random": lambda: g.random(n), "random32": lambda: g.random(n, dtype=np.float32),
                "u64": lambda: g.integers(0, 2**64 - 1, n, dtype=np.uint64, endpoint=True),
                "u32": lambda: g.integers(0, 2**32 - 1, n, dtype=np.uint32, endpoint=True),
                "u8": lambda: g.integers(0, 200, n, dtype=np.uint8), "normal": lambda: g.standard_normal(n),
                "expo": lambda: g.standard_exponential(n), "bytes": lambda: g.bytes(n), "perm": lambda: g.permutation(n),
                "bounded": lambda: g.integers(0, 1000003, n), "scalarr": lambda: g.random(), "gamma": lambda: g.standard_gamma(1.5, n),
                "norm2": lambda: g.normal(np.arange(n), 2.0), "binom": lambda: g.binomial(10, 0.3, n), "normal32": lambda: g.standard_normal(n, dtype=np.float32),
            }[op[3]]()
        return {
            "u64": lambda: g.uintegers(n, 64), "u32": lambda: g.uintegers(n, 32), "u64s": lambda: g.uintegers(None, 64), "u32s": lambda: g.uintegers(None, 32),
            "d": lambda: g.random(n), "ds": lambda: g.random(), "f": lambda: g.random(n, dtype=np.float32),
            "ld": lambda: g.random(n, dtype=np.longdouble).astype(np.float64),
            "dout": lambda: g.random(out=np.zeros(n)), "fout": lambda: g.random(out=np.zeros(n, np.float32), dtype=np.float32),
            "ldout": lambda: g.random(out=np.zeros(n, np.longdouble), dtype=np.longdouble).astype(np.float64),
            "cn": lambda: g.complex_normal(0.5, 2.0, 0.25, size=n), "cn0": lambda: g.complex_normal(),
            "cnarr": lambda: g.complex_normal(np.arange(n) + 1j, 2.0, 0.25),
            "wish": lambda: g.standard_wishart(5, 2, size=min(n, 4)), "wishs": lambda: g.standard_wishart(2, 3, size=min(n, 4)),
            "mvn": lambda: g.multivariate_normal([0.0, 1.0], [[2.0, 0.5], [0.5, 1.0]], size=n, method="cholesky"),
            "wishart": lambda: g.wishart([3, 1, 4][:1 + n % 3], np.array([[2.0, 0.5], [0.5, 1.0]]), method="cholesky"),
            "mcn": lambda: g.multivariate_complex_normal([0.0, 1.0], [[2.0, 0.5], [0.5, 1.0]], size=n),
        }[op[3]]()


# these make their result array before they draw: without memory for it they draw nothing
FIRST = ["u64", "u32", "u64s", "u32s", "d", "ds", "f", "cn", "cn0", "cnarr", "dout", "fout"]


def first(op):
    return op[0] == "raw" or op[0] == "ext" and op[3] in FIRST


def single(op):
    return op[0] != "ext" or op[3] in SINGLE_EXT


def label(op):
    if op[0] == "gone":
        return f"{label([op[2], op[1]] + op[4:])} without memory"
    if op[0] == "obs":
        return "observation " + op[2]
    return f"{op[0]} {op[3]}" if op[0] in ("ext", "np") else op[0]


def faulty(o, t, op):
    """a failed call must not leave the lock with its thread"""
    if getattr(o.bg.lock, "owner", None) == t:
        raise Violation(f"{label(op)}: the failed call leaves the lock held", o.cfg)


def run(plan, tr, make=Shared, py=False):
    objs = [make(c, s, w, k) for k, (c, s, w) in enumerate(zip(plan["cfgs"], plan["seeds"], plan["warm"]))]
    try:
        execute(plan, tr, objs, make, py)
    finally:
        for o in objs:
            o.done()


def execute(plan, tr, objs, make=Shared, py=False):
    th = plan["threads"]
    tr.sh(plan["cfgs"], [[label(op) for op in t["ops"]] for t in th])
    env.ledger_reset()
    res, cur = {}, [0] * len(th)
    seq = {}

    def on_lock(t, lid, what):
        if what == "acq":
            seq.setdefault((t, cur[t]), (env.ledger_len(), len(seq)))

    def body(t):
        for j, op in enumerate(th[t]["ops"]):
            cur[t] = j
            env.set_op(j)
            env.sim_yield()
            if op[0] == "rest":
                for _ in range(op[1]):
                    env.sim_yield()
                continue
            try:
                res[t, j] = gens.freeze(objs[op[1]].do(op, True))
            except env.SimInterrupt:
                res[t, j] = None
                faulty(objs[op[1]], t, op)
            seq.setdefault((t, j), (env.ledger_len(), 10**6 + len(seq)))

    err = sched.run(plan, [body] * len(th), tr, plan["faults"], on_lock, py=py)
    tr.trivial = False
    led = env.ledger()
    for e in err:
        if isinstance(e, Violation):
            raise e
    for t, e in enumerate(err):
        if e is not None:
            raise Violation(f"unexpected {type(e).__name__} in {label(th[t]['ops'][cur[t]])}", repr(e))
    for o in objs:
        if o.bg.lock.locked():
            raise Violation(f"{o.cfg}: the lock is held after all calls ended", "")
    check(plan, tr, objs, th, res, seq, led, make)


def check(plan, tr, objs, th, res, seq, led, make=None):
    for b, o in enumerate(objs):
        mine = [r for r in led if r[2] == b]
        span = {}
        for k, (v, t, _, kind, j) in enumerate(mine):
            span.setdefault((t, j), []).append(k)
        units = []
        pos = {}
        n = 0
        for k, r in enumerate(led):
            pos[k] = n
            n += r[2] == b
        pos[len(led)] = n
        holds = [pos[seq[t, j][0]] for t, x in enumerate(th) for j, op in enumerate(x["ops"]) if op[0] == "hold" and op[1] == b and res[t, j] is not None]
        for t, x in enumerate(th):
            for j, op in enumerate(x["ops"]):
                if op[0] == "rest" or op[1] != b:
                    continue
                s = span.get((t, j), [])
                if res[t, j] is None:
                    if s and (op[0] == "gone" and not first([op[2], b] + op[4:]) or op[0] != "gone" and not single(op)):  # stopped after it had drawn
                        tr.probe("call interrupted between two blocks")
                        units += [((k, 1, 0), mine[k], None, 1) for k in s]
                    elif s:
                        raise Violation(f"{label(op)}: a call that failed consumed words of the stream", f"{o.cfg}: {len(s)} words")
                    continue
                whole = not s or s[-1] - s[0] + 1 == len(s)
                if whole and not single(op):
                    # somebody who draws nothing may have held the lock between two blocks
                    whole = not any(s[0] < p <= s[-1] for p in holds)
                if single(op) and not whole:
                    i = next(k for k in range(s[0], s[-1]) if (mine[k][1], mine[k][4]) != (t, j))
                    thief = label(th[mine[i][1]]["ops"][mine[i][4]])
                    raise Violation(f"{label(op)}: another call draws in the middle of it", f"{o.cfg}: a word went to {thief}")
                lp, sq = seq.get((t, j), (len(led), 0))
                if whole:
                    units.append(((s[0], 1, sq) if s else (pos[min(lp, len(led))], 0, sq), op, res[t, j], len(s)))
                    tr.probe("call " + label(op))
                else:
                    tr.probe("call in several blocks interleaved")
                    for k in s:
                        units.append(((k, 1, 0), mine[k], None, 1))
        units.sort(key=lambda u: u[0])
        c = (make or Shared)(plan["cfgs"][b], plan["seeds"][b], plan["warm"][b])
        for key, op, r, n in units:
            if r is None:
                v = env.draw(c.bg, bytes([op[3]]))[0]
                if v != op[0]:
                    raise Violation(f"{o.cfg}: a word of the stream is lost or repeated", f"draw {key[0]}: {op[0]:x} instead of {v:x}")
                continue
            want = gens.freeze(c.do(op, False))
            tr.ev(op, r)
            if want != r:
                raise Violation(f"{label(op)}: no serial order explains the results", f"{o.cfg}: {r[:200]} instead of {want[:200]}")
        if gens.freeze(c.bg.state) != gens.freeze(o.bg.state):
            raise Violation(f"{o.cfg}: no serial order explains the final state", "")
