"""C15: user-written generators are called exactly once per word, in order.

Threads draw from UserBitGenerators whose functions are Python callables that yield to the scheduler, stall,
raise, or draw from other generators.  Every call of a user function is logged with the call it serves.  A
reference that plays the log back, deriving what was not supplied as documented, must give the same results
and use up the log exactly.
"""
import ctypes, gc, sys, types
import numpy as np
from sim import core, env, gens, sched
from sim.core import Violation
import randomgen as rg
from randomgen.wrapper import UserBitGenerator

ID = "C15"
CHECK_EVERY = 61
PLAIN = ["raw", "raw0", "rawx", "u64", "u32", "u64s", "u32s", "d", "ds", "f", "dout", "np-random", "np-random32", "np-u64", "np-u32", "np-bytes", "np-scalar"]
RICH = ["ld", "cn", "cn0", "wish", "mvn", "np-normal", "np-expo", "np-bounded", "np-perm", "np-gamma"]
NAMES = ["next_raw", "next_64", "next_32", "next_double"]


def rand_op(rng, nb, raising):
    b = rng.randrange(nb)
    n = rng.randrange(1, 7) if rng.random() < 0.85 else rng.randrange(7, 30)
    k = rng.random()
    if k < 0.12:
        return [rng.choice(["get", "set", "ext-get", "ext-set"]), b, rng.randrange(12)]
    if k < 0.17:
        return ["rest", rng.randrange(1, 4)]
    if k < 0.2:
        return ["gc", b]
    return ["draw", b, rng.choice(PLAIN if raising or rng.random() < 0.6 else RICH), n]


def rand_gen(rng, raising):
    kind = rng.choice(["python", "python", "python", "ctypes", "cfunc"])
    bits = rng.choice([32, 64])
    have = [True] + [rng.random() < 0.4 for _ in range(3)]
    if kind != "python":
        bits, have = 64, [True] * 4
    return {"kind": kind, "bits": bits, "have": have, "seed": rng.getrandbits(60), "pointer": rng.random() < 0.5,
            "getter": rng.random() < 0.6, "setter": rng.random() < 0.6, "nested": rng.random() < 0.2, "getraises": rng.random() < 0.1, "setraises": rng.sample(range(12), 4) if rng.random() < 0.4 else [],
            "raises": [[rng.randrange(0, 40), rng.choice([1, 1, 2, 6])] for _ in range(rng.randrange(1, 4))] if raising else [],
            "stalls": [[rng.randrange(0, 40), rng.choice([3, 20, 80])] for _ in range(rng.randrange(0, 3))]}


def plan(rng, tier, i):
    raising = rng.random() < 0.35
    nb = rng.choice([1, 1, 2])
    gs = [rand_gen(rng, raising) for _ in range(nb)]
    nt = rng.choice([1, 2, 2, 3, 4])
    ths = [{"ops": [rand_op(rng, nb, raising) for _ in range(rng.randrange(1, 6 if tier == "quick" else 10))]} for _ in range(nt)]
    calm = any(g["nested"] for g in gs)  # an interruption would strike inside the user's function
    return {"gens": gs, "threads": ths, "inner": rng.getrandbits(32), "faults": [] if calm else [[rng.randrange(nt), rng.randrange(1, 6)] for _ in range(rng.choice([0, 0, 1, 2]))], "sched": sched.rand_sched(rng)}


class Boom(Exception):
    pass


class CFunc:
    """what the library uses of numba's compiled callbacks"""

    def __init__(self, c):
        self.ctypes = c


def with_numba(f):
    mods = {"numba": types.ModuleType("numba"), "numba.core": types.ModuleType("numba.core"), "numba.core.ccallback": types.ModuleType("numba.core.ccallback")}
    mods["numba.core.ccallback"].CFunc = CFunc
    old = {k: sys.modules.get(k) for k in mods}
    sys.modules.update(mods)
    try:
        return f()
    finally:
        for k, m in old.items():
            if m is None:
                del sys.modules[k]
            else:
                sys.modules[k] = m


class User:
    """one user-written generator and its consumers"""

    def __init__(self, k, g, inner, world):
        self.k, self.g, self.inner, self.world = k, g, inner, world
        self.log = []  # (kind, bits of the value or None if it raised, tid, op)
        self.trouble = []
        self.state_log = []
        self.n = 0
        self.buf = ctypes.create_string_buffer(16) if g["pointer"] else None
        self.addr = ctypes.addressof(self.buf) if self.buf is not None else None
        p = ctypes.c_void_p(self.addr) if self.buf is not None else None
        fs = [self.fn(i) if h else None for i, h in enumerate(g["have"])]
        kw = {"state_getter": self.getter if g["getter"] else None, "state_setter": self.setter if g["setter"] else None}
        if g["kind"] == "python":
            self.bg = UserBitGenerator(fs[0], g["bits"], fs[1], fs[2], fs[3], state=p, **kw)
        else:
            R = [ctypes.c_uint64, ctypes.c_uint64, ctypes.c_uint32, ctypes.c_double]
            cs = [ctypes.CFUNCTYPE(r, ctypes.c_void_p)(f) for r, f in zip(R, fs)]
            if g["kind"] == "ctypes":
                self.bg = UserBitGenerator.from_ctypes(*cs, p, **kw)
            else:
                self.bg = with_numba(lambda: UserBitGenerator.from_cfunc(*[CFunc(c) for c in cs], p, **kw))
            del cs
        del fs
        self.ext, self.np = rg.ExtendedGenerator(self.bg), np.random.Generator(self.bg)

    def value(self, kind, n):
        r = core.run_rng(self.g["seed"], kind, n)
        if kind == 0:
            return r.getrandbits(self.g["bits"])
        return r.getrandbits(64) if kind == 1 else r.getrandbits(32) if kind == 2 else r.random()

    def fn(self, kind):
        def call(ptr):
            t = env.sim_tid()
            n, self.n = self.n, self.n + 1
            op = self.world.cur[t] if t >= 0 else -1
            if (ptr or None) != self.addr:
                self.trouble.append(f"{NAMES[kind]} gets another pointer than the one supplied")
            if getattr(self.bg.lock, "owner", t) != t:
                self.trouble.append(f"{NAMES[kind]} is called by a thread that does not hold the lock")
            slot = len(self.log)
            self.log.append(None)
            env.sim_yield()
            for a, k in self.g["stalls"]:
                if a == n:
                    self.world.stalls += 1
                    for _ in range(k):
                        env.sim_yield()
            if len(self.log) != slot + 1:
                self.trouble.append("another function is called before the first returned")
            if any(a <= n < a + k for a, k in self.g["raises"]):
                self.log[slot] = (kind, None, t, op)
                self.world.raised += 1
                raise Boom(str(n))
            v = self.value(kind, n)
            if self.g["nested"] and kind != 3:
                w = int(self.inner.random_raw())
                v ^= w if kind == 1 or self.g["bits"] == 64 and kind == 0 else w & 0xFFFFFFFF
            b = int(np.float64(v).view(np.uint64)) if kind == 3 else v
            self.log[slot] = (kind, b, t, op)
            return v

        return call

    def getter(self):
        o = {"user": self.k, "n": len(self.state_log)}
        self.state_log.append(("get", o, env.sim_tid()))
        env.sim_yield()
        if self.g["getraises"]:
            raise Boom("getter")
        return o

    def setter(self, v):
        self.state_log.append(("set", v, env.sim_tid()))
        env.sim_yield()
        if v["token"] in self.g["setraises"]:
            raise Boom("setter")

    def do(self, what, n):
        return draw(self.bg, self.ext, self.np, what, n)


def draw(bg, ext, npg, what, n):
    return {
        "raw": lambda: bg.random_raw(n), "raw0": lambda: bg.random_raw(), "rawx": lambda: bg.random_raw((2, n), False),
        "u64": lambda: ext.uintegers(n, 64), "u32": lambda: ext.uintegers(n, 32), "u64s": lambda: ext.uintegers(None, 64), "u32s": lambda: ext.uintegers(None, 32),
        "d": lambda: ext.random(n), "ds": lambda: ext.random(), "f": lambda: ext.random(n, dtype=np.float32), "dout": lambda: ext.random(out=np.zeros(n)),
        "ld": lambda: ext.random(n, dtype=np.longdouble).astype(np.float64),
        "cn": lambda: ext.complex_normal(0.5, 2.0, 0.25, size=n), "cn0": lambda: ext.complex_normal(), "wish": lambda: ext.standard_wishart(5, 2, size=min(n, 4)),
        "mvn": lambda: ext.multivariate_normal([0.0, 1.0], [[2.0, 0.5], [0.5, 1.0]], size=n, method="cholesky"),
        "np-random": lambda: npg.random(n), "np-random32": lambda: npg.random(n, dtype=np.float32),
        "np-u64": lambda: npg.integers(0, 2**64 - 1, n, dtype=np.uint64, endpoint=True), "np-u32": lambda: npg.integers(0, 2**32 - 1, n, dtype=np.uint32, endpoint=True),
        "np-bytes": lambda: npg.bytes(n), "np-scalar": lambda: npg.random(), "np-normal": lambda: npg.standard_normal(n), "np-expo": lambda: npg.standard_exponential(n),
        "np-bounded": lambda: npg.integers(0, 1000003, n), "np-perm": lambda: npg.permutation(n), "np-gamma": lambda: npg.standard_gamma(1.5, n),
    }[what]()


class World:
    def __init__(self, n):
        self.cur, self.stalls, self.raised = [0] * n, 0, 0


def run(plan, tr):
    hook, sys.unraisablehook = sys.unraisablehook, lambda u: None
    try:
        execute(plan, tr)
    finally:
        sys.unraisablehook = hook


def stateop(u, op, tr):
    """state access reaches the user's functions unchanged"""
    k, token = op[0], {"token": op[2]}
    g = u.ext if k.startswith("ext") else u.bg
    n = len(u.state_log)
    get = k.endswith("get")
    try:
        if get:
            r = ("ok", g.state)
        else:
            g.state = token
            r = ("ok", None)
    except NotImplementedError:
        r = ("NotImplementedError", None)
    except Boom:
        r = ("Boom", None)
    me = env.sim_tid()
    new = [x for x in u.state_log[n:] if x[0] == ("get" if get else "set") and x[2] == me]
    have = u.g["getter" if get else "setter"]
    if not have:
        if r[0] != "NotImplementedError" or new:
            raise Violation(f"{k}: a missing state function is not reported", str(r))
        tr.probe("missing state function reported")
        return
    if len(new) != 1:
        raise Violation(f"{k}: the user's state function is not called once", f"{len(new)} calls, {r}")
    if u.g["getraises"] if get else op[2] in u.g["setraises"]:
        if r[0] != "Boom":
            raise Violation(f"{k}: the exception of the state function is lost", str(r))
        tr.fault("state function raised")
        return
    if r[0] != "ok":
        raise Violation(f"{k}: fails though the state function is there", str(r))
    if get and r[1] is not new[0][1]:
        raise Violation(f"{k}: the state is not what the user's function returned", repr(r[1])[:100])
    if not get and new[0][1] is not token:
        raise Violation(f"{k}: the user's function does not get the state that was set", repr(new)[:100])
    tr.probe("state " + ("read" if get else "set"))


def execute(plan, tr):
    th = plan["threads"]
    w = World(len(th))
    inner = rg.PCG64(plan["inner"])
    us = [User(k, g, inner, w) for k, g in enumerate(plan["gens"])]
    gc.collect(0)
    tr.sh([(g["kind"], g["bits"], g["have"], g["nested"]) for g in plan["gens"]], [[op[:1] + op[2:] for op in t["ops"]] for t in th])
    res = {}

    def body(t):
        for j, op in enumerate(th[t]["ops"]):
            w.cur[t] = j
            env.set_op(j)
            env.sim_yield()
            if op[0] == "rest":
                for _ in range(op[1]):
                    env.sim_yield()
                continue
            if op[1] >= len(us):
                continue
            u = us[op[1]]
            if op[0] == "gc":
                gc.collect(0)
                continue
            if op[0] != "draw":
                core.MARK(f"user state {op[0]}")
                stateop(u, op, tr)
                continue
            core.MARK(f"user {u.g['kind']} {u.g['bits']} {op[2]}")
            try:
                r = ("ok", gens.freeze(u.do(op[2], op[3])))
            except env.SimInterrupt:
                r = ("cut", None)
            res[t, j] = r
            if getattr(u.bg.lock, "owner", None) == t:
                raise Violation(f"{op[2]}: the lock is held after the call", "")

    err = sched.run(plan, [body] * len(th), tr, plan["faults"])
    for e in err:
        if isinstance(e, Violation):
            raise e
    for t, e in enumerate(err):
        if e is not None:
            raise Violation(f"unexpected {type(e).__name__} in {th[t]['ops'][w.cur[t]]}", repr(e))
    tr.trivial = False
    tr.fault("user function stalled", w.stalls)
    tr.fault("user function raised", w.raised)
    for u in us:
        if u.trouble:
            raise Violation(u.trouble[0], u.g["kind"])
        if not u.bg.lock.acquire(False):
            raise Violation("the lock is held after all calls ended", "")
        u.bg.lock.release()
    for u in us:
        judge(tr, u, th, res)


_ref = []


def judge(tr, u, th, res):
    if not _ref:
        bg = np.random.PCG64(0)
        env.tape_install(env.bitgen_of(bg))
        _ref.append((bg, rg.ExtendedGenerator(bg), np.random.Generator(bg)))
    bg, ext, npg = _ref[0]
    mine = {}
    for kind, v, t, j in u.log:
        mine.setdefault((t, j), []).append((kind, v))
    h = u.g["have"]
    env.tape_config(u.g["bits"], h[1], h[2], h[3])
    for t, x in enumerate(th):
        for j, op in enumerate(x["ops"]):
            if op[0] != "draw" or op[1] != u.k:
                continue
            core.MARK(f"reference for {op[2]}")
            calls = mine.pop((t, j), [])
            r = res[t, j]
            lab = f"{op[2]} ({u.g['bits']} bits)"
            if r[0] == "cut":
                if calls and op[2] != "mvn":
                    raise Violation(f"{lab}: an interrupted call used the user's functions", "")
                continue
            bad = any(v is None for _, v in calls)
            ks, vs = bytes(k for k, _ in calls), (env.u64 * max(1, len(calls)))(*[v or 0 for _, v in calls])
            env.tape_load(ks, vs, len(calls))
            if op[2].startswith("raw"):
                n = {"raw": op[3], "raw0": 1, "rawx": 2 * op[3]}[op[2]]
                v = env.draw(bg, bytes([env.KRAW]) * n)
                want = {"raw": lambda: np.array(v, dtype=np.uint64), "raw0": lambda: v[0], "rawx": lambda: None}[op[2]]()
            else:
                want = draw(bg, ext, npg, op[2], op[3])
            want = gens.freeze(want)
            tr.ev(t, j, op, len(calls), None if bad else r[1])
            if bad:
                # a function that raised delivered nothing: what the call makes of it is unspecified
                tr.probe("call with a raising function")
                continue
            if env.tape_err() or env.tape_used() != len(calls):
                raise Violation(f"{lab}: the user's functions are not called as the draws require", f"{u.g['kind']}, supplied {h}: {len(calls)} calls {list(ks)[:12]}, {env.tape_used()} explained")
            if want != r[1]:
                raise Violation(f"{lab}: not what the user's functions returned", f"{u.g['kind']}, supplied {h}: {r[1][:150]} instead of {want[:150]}")
            tr.probe(f"call {u.g['kind']} {u.g['bits']} bits")
    if mine:
        raise Violation("user functions are called outside of any draw", str(list(mine)[:3]))
