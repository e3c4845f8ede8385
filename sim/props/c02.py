"""C02: a failed call never leaves the shared bit generator locked or half used.

Threads share generators while calls are made to fail: rejected arguments, interrupted waits for the lock,
failed allocations, raising user callbacks, hardware outages.  The lock must be free after every failed call,
every other call must complete, and for seeded generators the words must be those of a serial history in
which failed calls that drew nothing left no trace.
"""
import io, os, sys
import numpy as np
from sim import core, env, gens, life, sched
from sim.core import Violation
from sim.props import c01, c14
import randomgen as rg
from randomgen.wrapper import UserBitGenerator
from randomgen.rdrand import RDRAND

ID = "C02"
CHECK_EVERY = 43

BAD = [b for b in c14.BADDRAW if b not in ("raw-big",)]


# a raising callback yields an arbitrary word, so the number of words a call takes must not depend on them
PLAIN = ["u64", "u32", "u64s", "u32s", "d", "f", "ld", "ds", "dout", "fout", "ldout", "random", "random32", "bytes", "scalarr"]


def rand_op(rng, kind, nb):
    b = rng.randrange(nb)
    k = rng.random()
    if k < 0.3:
        return ["bad", b, 0, rng.choice(BAD), 0]
    if k < 0.5 and kind == "seeded":
        return ["alloc", b, 0, rng.choice([0, 0, 0, 1, 1, 2, 3, 5]), c01.rand_op(rng, 1)]
    if kind == "rdrand" and k < 0.4:
        return ["reset", b]
    while True:
        op = c01.rand_op(rng, nb)
        if kind == "user" and not (op[0] in ("raw", "rest") or op[3:4] and op[3] in PLAIN):
            continue
        if kind == "seeded" or op[0] != "hold":
            return op


def plan(rng, tier, i):
    kind = ["seeded", "seeded", "seeded", "rdrand", "user"][i % 5]
    nb = 2 if kind == "seeded" and rng.random() < 0.2 else 1
    cfgs = [gens.ALL[(i // 5 * 3 + (i % 5) + 11 * k) % len(gens.ALL)] if kind == "seeded" else kind for k in range(nb)]
    if kind == "seeded" and rng.random() < 0.04:
        cfgs[0] = rng.choice(sorted(gens.FOREIGN))
    nt = rng.choice([2, 2, 3, 3, 4])
    threads = [{"ops": [rand_op(rng, kind, nb) for _ in range(rng.randrange(1, 6 if tier == "quick" else 9))]} for _ in range(nt)]
    faults = [[rng.randrange(nt), rng.randrange(1, 7)] for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    p = {"kind": kind, "cfgs": cfgs, "seeds": [life.rand_seed(rng, c) if kind == "seeded" else 0 for c in cfgs], "warm": ["" for _ in cfgs],
         "threads": threads, "faults": faults, "sched": sched.rand_sched(rng)}
    if kind == "rdrand":
        p["retries"] = rng.choice([0, 1, 3, 10])
        p["bursts"] = [[rng.randrange(0, 700), rng.choice([1, 2, p["retries"] + 1, p["retries"] + 2, 40, 300])] for _ in range(rng.randrange(1, 4))]
        p["hw"] = rng.getrandbits(60)
    if kind == "user":
        p["bits"] = rng.choice([32, 64])
        p["bursts"] = [[rng.randrange(0, 60), rng.choice([1, 1, 2, 8])] for _ in range(rng.randrange(0, 4))]
        p["hw"] = rng.getrandbits(60)
    return p


class Mini:
    """what c14.bad_draw wants"""

    def __init__(self, o):
        self.bg, self.ext = o.bg, o.ext[0]

    def get_ext(self):
        return self.ext


class Shared(c01.Shared):
    def do(self, op, live):
        if op[0] == "bad":
            core.MARK(f"{self.cfg} bad {op[3]}")
            return c14.bad_draw(Mini(self), op[3])
        if op[0] == "reset":
            with self.bg.lock:
                self.bg._reset()
            return None
        if op[0] == "alloc":
            inner = op[4]
            if inner[0] in ("rest", "hold"):
                return None
            core.MARK(f"{self.cfg} failing allocation in {c01.label(inner)}")
            fired = env.u64()
            env.alloc_arm(9, op[3])
            try:
                return super().do(inner, live)
            finally:
                env.alloc_disarm(env.C.byref(fired))
        return super().do(op, live)


class Hardware(Shared):
    def __init__(self, plan):
        self.cfg = "rdrand"
        f = (env.u64 * 64)(*[b[0] for b in plan["bursts"]])
        n = (env.u64 * 64)(*[b[1] for b in plan["bursts"]])
        env.rdrand_begin(plan["hw"], len(plan["bursts"]), f, n, 1, 200_000)
        self.bg = RDRAND(retries=plan["retries"])
        self.make()

    def make(self):
        self.ext = [rg.ExtendedGenerator(self.bg) for _ in range(2)]
        self.np = [np.random.Generator(self.bg) for _ in range(2)]

    def done(self):
        env.rdrand_end()


class Boom(Exception):
    pass


class User(Shared):
    def __init__(self, plan):
        self.cfg = "user"
        self.calls = self.raised = 0
        bad = [tuple(b) for b in plan["bursts"]]
        mask = 2 ** plan["bits"] - 1

        def next_raw(_):
            k = self.calls
            self.calls += 1
            env.sim_yield()
            if any(a <= k < a + n for a, n in bad):
                self.raised += 1
                raise Boom(str(k))
            return (plan["hw"] * (2 * k + 1) * 0x9E3779B97F4A7C15 >> 5) & mask

        self.bg = UserBitGenerator(next_raw, plan["bits"])
        Hardware.make(self)

    def done(self):
        pass


def run(plan, tr):
    kind = plan["kind"]
    out, sys.stdout = sys.stdout, io.StringIO()  # RaisingLock prints
    hook, sys.unraisablehook = sys.unraisablehook, lambda u: None
    if kind == "seeded":
        objs = [Shared(c, s, w, k) for k, (c, s, w) in enumerate(zip(plan["cfgs"], plan["seeds"], plan["warm"]))]
    else:
        objs = [Hardware(plan) if kind == "rdrand" else User(plan)]
    try:
        execute(plan, tr, objs, kind)
    finally:
        sys.stdout, sys.unraisablehook = out, hook
        for o in objs:
            o.done()


def label(op):
    return {"bad": lambda: f"rejected {op[3]}", "alloc": lambda: f"failing allocation in {c01.label(op[4])}"}.get(op[0], lambda: c01.label(op))()


def execute(plan, tr, objs, kind):
    th = plan["threads"]
    tr.sh(plan["cfgs"], [[label(op) for op in t["ops"]] for t in th])
    env.ledger_reset()
    res, cur, seq = {}, [0] * len(th), {}
    failed = {}

    def on_lock(t, lid, what):
        if what == "acq":
            seq.setdefault((t, cur[t]), (env.ledger_len(), len(seq)))

    def body(t):
        for j, op in enumerate(th[t]["ops"]):
            cur[t] = j
            env.set_op(j)
            env.sim_yield()
            if op[0] == "rest":
                for _ in range(op[1]):
                    env.sim_yield()
                continue
            o = objs[op[1]]
            try:
                res[t, j] = gens.freeze(o.do(op, True))
            except Violation:
                raise
            except (Exception, env.SimInterrupt) as e:
                res[t, j] = None
                failed[t, j] = type(e).__name__
            if owner(o.bg.lock) == t:
                raise Violation(f"{label(op)}: " + (f"the call ended by {failed[t, j]}" if (t, j) in failed else "the completed call") + " leaves the lock held", o.cfg)
            seq.setdefault((t, j), (env.ledger_len(), 10**6 + len(seq)))

    err = sched.run(plan, [body] * len(th), tr, plan["faults"], on_lock)
    for e in err:
        if isinstance(e, Violation):
            raise e
    for t, e in enumerate(err):
        if e is not None:
            raise Violation(f"unexpected {type(e).__name__} in {label(th[t]['ops'][cur[t]])}", repr(e))
    led = env.ledger()
    for (t, j), e in sorted(failed.items()):
        op = th[t]["ops"][j]
        tr.trivial = False
        tr.ev(t, j, e)
        if e == "SimInterrupt":
            continue
        what = {"bad": "rejected arguments", "alloc": "failed allocation"}.get(op[0])
        if what is None:
            if kind == "seeded":
                raise Violation(f"unexpected {e} in {label(op)}", objs[op[1]].cfg)
            if kind == "rdrand" and e != "RuntimeError":
                raise Violation(f"unexpected {e} in {label(op)} during a hardware outage", "")
            if kind == "user":
                raise Violation(f"unexpected {e} in {label(op)} with a raising callback", "")
            else:
                what = "hardware failure reported"
        tr.fault(what)
    if kind == "rdrand":
        tr.fault("hardware step failed", env.rdrand_stats()[2])
        if env.rdrand_stats()[3]:
            raise Violation("rdrand: the hardware is read without end", "")
    if kind == "user":
        tr.fault("user callback raised", objs[0].raised)
    for o in objs:
        if not o.bg.lock.acquire(False):
            raise Violation(f"{o.cfg}: the lock is held after all calls ended", "")
        o.bg.lock.release()
    if kind != "seeded":
        for v in sorted(res):
            tr.ev(v, None if kind == "user" and objs[0].raised else res[v])
        return
    # the serial history: failing allocations become their inner call, rejected calls disappear
    plain = []
    for t, x in enumerate(th):
        ops = []
        for j, op in enumerate(x["ops"]):
            if op[0] == "bad":
                # what is rejected draws nothing; what is accepted after all is a call like any other
                n = sum(1 for r in led if (r[1], r[4]) == (t, j))
                if res[t, j] is None:
                    if n:
                        raise Violation(f"{label(op)}: the rejected call consumed words of the stream", f"{n} words")
                    ops.append(["rest", 0])
                else:
                    ops.append(op)
            elif op[0] == "alloc":
                inner = op[4] if op[4][0] == "rest" else [op[4][0], op[1]] + op[4][2:]
                ops.append(["rest", 0] if inner[0] in ("rest", "hold") else inner if res[t, j] is not None else ["gone", op[1]] + inner)
            else:
                ops.append(op)
        plain.append({"ops": ops})
    c01.check(plan, tr, objs, plain, res, seq, led, Shared)


def owner(lock):
    return getattr(lock, "owner", None)
