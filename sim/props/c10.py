"""C10: RDRAND never passes off a hardware failure as random data.

The RDRAND instruction is simulated: it delivers numbered words and fails in scripted bursts.  Threads draw
from one or several RDRAND objects.  A model of the retry rule, fed by the log of the hardware, says for every
call which words it gets and whether it must fail.
"""
import copy, io, pickle, sys
import numpy as np
from sim import core, env, gens, peer, sched
from sim.core import Violation
import randomgen as rg
from randomgen.rdrand import RDRAND
from randomgen.wrapper import UserBitGenerator

ID = "C10"
CHECK_EVERY = 37
NB = 256  # the plans expect buffered draws to fetch about so many words at once
refill = [NB]  # how many the code fetches

BUF = ["u64", "u32", "u64s", "u32s", "d", "ds", "f", "dout", "ld", "np-random", "np-random32", "np-u64", "np-u32", "np-bytes", "np-scalar"]
REJ = ["cn", "cn0", "np-normal", "np-expo", "np-bounded", "np-perm", "wish"]  # may draw again, depending on the words


def rand_op(rng, nb):
    b = rng.randrange(nb)
    n = rng.randrange(1, 9) if rng.random() < 0.7 else rng.choice([60, 128, 200, 255, 256, 257, 300])
    k = rng.random()
    if k < 0.35:
        return ["raw", b, rng.choice([None, None, n, n, [2, n], 0]), rng.random() < 0.7]
    if k < 0.8:
        return ["buf", b, rng.choice(BUF), n]
    return ["buf", b, rng.choice(REJ), min(n, 20)]


def rand_between(rng, nb):
    k = rng.random()
    if k < 0.4:
        return ["reset", rng.randrange(nb)]
    if k < 0.6:
        return ["derive", rng.randrange(nb), rng.choice(["copy", "deepcopy", "pickle", "jumped", "ext-pickle", "new"])]
    if k < 0.8:
        return ["retries", rng.randrange(nb), rng.choice([0, 1, 2, 5, 10, 10, -1])]
    if k < 0.9:
        return ["refuse", rng.randrange(nb), rng.randrange(len(REFUSE))]
    return ["seed", rng.randrange(nb)]


def set_state(bg, v):
    bg.state = v


# what no RDRAND accepts
REFUSE = [
    ("seed", lambda b: b.seed(7)), ("seed 0", lambda b: b.seed(0)), ("constructor with a seed", lambda b: RDRAND(3)), ("constructor with retries -1", lambda b: RDRAND(retries=-1)),
    ("constructor with retries x", lambda b: RDRAND(retries="x")), ("state of another generator", lambda b: set_state(b, rg.SFC64(3).state)), ("state without a name", lambda b: set_state(b, {"retries": 3})),
    ("state None", lambda b: set_state(b, None)), ("random_raw of a negative size", lambda b: b.random_raw(-3)), ("random_raw of size x", lambda b: b.random_raw("x")),
    ("random_raw of a negative size without output", lambda b: b.random_raw(2.5)), ("advance", lambda b: b.advance(3)), ("state with retries x", lambda b: set_state(b, dict(b.state, retries="x"))),
]


def plan(rng, tier, i):
    if i % 200 == 7:
        return {"kind": "absent", "mode": rng.choice([1, 2])}
    r = rng.choice([0, 1, 2, 3, 10, 10, 10, 30])
    nb = 1
    phases = []
    for _ in range(rng.randrange(1, 4 if tier == "quick" else 6)):
        between = [rand_between(rng, nb) for _ in range(rng.randrange(0, 3))] if phases else []
        nb += sum(1 for x in between if x[0] == "derive")
        nt = rng.choice([1, 1, 2, 2, 3])
        phases.append({"between": between, "threads": [[rand_op(rng, nb) for _ in range(rng.randrange(1, 5))] for _ in range(nt)], "sched": sched.rand_sched(rng)})
    bursts = []
    at = 0
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5])):
        at += rng.choice([rng.randrange(0, 12), rng.randrange(0, 300), rng.randrange(0, 1200), rng.choice([255, 256, 257])])
        ln = rng.choice([1, r, r, r + 1, r + 1, r + 2, 2 * r + 2, NB * (r + 1), rng.randrange(1, 500)])
        if ln:
            bursts.append([at, ln])
            at += ln
    if rng.random() < 0.03:
        bursts.append([at + rng.randrange(600), 10**12])
    return {"kind": "run", "retries": r, "hw": rng.getrandbits(60), "bursts": bursts, "phases": phases, "faults": [[rng.randrange(3), rng.randrange(1, 5)] for _ in range(rng.choice([0, 0, 0, 1]))]}


def call(bg, ext, npg, op):
    """one draw call; the same function runs against RDRAND and against the model"""
    n = op[3]
    return {
        "u64": lambda: ext.uintegers(n, 64), "u32": lambda: ext.uintegers(n, 32), "u64s": lambda: ext.uintegers(None, 64), "u32s": lambda: ext.uintegers(None, 32),
        "d": lambda: ext.random(n), "ds": lambda: ext.random(), "f": lambda: ext.random(n, dtype=np.float32), "dout": lambda: ext.random(out=np.zeros(n)),
        "ld": lambda: ext.random(n, dtype=np.longdouble).astype(np.float64),
        "cn": lambda: ext.complex_normal(0.5, 2.0, 0.25, size=n), "cn0": lambda: ext.complex_normal(), "wish": lambda: ext.standard_wishart(5, 2, size=min(n, 4)),
        "np-random": lambda: npg.random(n), "np-random32": lambda: npg.random(n, dtype=np.float32),
        "np-u64": lambda: npg.integers(0, 2**64 - 1, n, dtype=np.uint64, endpoint=True), "np-u32": lambda: npg.integers(0, 2**32 - 1, n, dtype=np.uint32, endpoint=True),
        "np-bytes": lambda: npg.bytes(n), "np-scalar": lambda: npg.random(), "np-normal": lambda: npg.standard_normal(n), "np-expo": lambda: npg.standard_exponential(n),
        "np-bounded": lambda: npg.integers(0, 1000003, n), "np-perm": lambda: npg.permutation(n),
    }[op[2]]()


def label(op):
    return f"random_raw{'' if op[3] else ' without output'}" if op[0] == "raw" else op[2]


class Underflow(Exception):
    pass


class Model:
    """what RDRAND promises"""

    def __init__(self, retries):
        self.retries, self.ok = retries, True
        self.buf = []
        self.src = None
        pop = self.pop
        self.bad, self.weyl = None, 1

        def raw(_):
            try:
                return pop()
            except Exception as e:
                self.bad, self.weyl = e, (self.weyl * 6364136223846793005 + 1442695040888963407) % 2**64
                return self.weyl  # any word that lets a rejection loop end

        self.bg = UserBitGenerator(raw, 64, None, lambda v: raw(v) & 0xFFFFFFFF, lambda v: (raw(v) >> 11) / 9007199254740992.0)
        self.ext, self.np = rg.ExtendedGenerator(self.bg), np.random.Generator(self.bg)

    def pop(self):
        if not self.buf:
            if len(self.src) < refill[0]:
                raise Underflow(f"{len(self.src)} words fetched, a refill is {refill[0]}")
            self.buf, self.src = self.src[:refill[0]][::-1], self.src[refill[0]:]
        return self.buf.pop()


def attempts(log, retries):
    """the attempts of one call grouped into words -> (list of words or None for one given up, attempts left over)"""
    out, f = [], 0
    for ok, v in log:
        if ok:
            out.append(v)
            f = 0
        else:
            f += 1
            if f > retries:
                out.append(None)
                f = 0
    return out, f


class Obj:
    def __init__(self, bg, retries):
        self.bg, self.model = bg, Model(retries)
        self.ext, self.np = rg.ExtendedGenerator(bg), np.random.Generator(bg)

    def do(self, op):
        core.MARK(f"rdrand {label(op)}")
        if op[0] == "raw":
            return self.bg.random_raw(tuple(op[2]) if isinstance(op[2], list) else op[2], op[3])
        return call(self.bg, self.ext, self.np, op)


def run(plan, tr):
    if plan["kind"] == "absent":
        r = peer.get(plan["mode"], env.ECX_RDRND if plan["mode"] == 1 else 0).call("sim.props.c10:absent")
        tr.fault("node without RDRAND")
        tr.sh("absent", plan["mode"])
        tr.trivial = False
        if r != "RuntimeError":
            raise Violation("a node without RDRAND is not reported", str(r))
        return
    out, sys.stdout = sys.stdout, io.StringIO()  # RaisingLock prints
    b = plan["bursts"]
    env.rdrand_begin(plan["hw"], len(b), (env.u64 * 64)(*[x[0] for x in b]), (env.u64 * 64)(*[x[1] for x in b]), 1, 400_000)
    try:
        execute(plan, tr)
    finally:
        sys.stdout = out
        env.rdrand_end()


def absent():
    try:
        RDRAND()
    except RuntimeError:
        return "RuntimeError"
    except Exception as e:
        return repr(e)
    return "constructed"


def between(x, objs, tr):
    k = x[0]
    if x[1] >= len(objs):
        return
    o = objs[x[1]]
    core.MARK(f"rdrand {k} {x[2] if len(x) > 2 else ''}")
    if k == "reset":
        if not o.model.ok:
            tr.probe("reset after a failure")
            o.model.buf = []
        o.bg._reset()
        o.model.ok = True
        if not o.bg.success:
            raise Violation("reset does not clear the failure", "")
    elif k == "retries":
        s = o.bg.state
        s["retries"] = x[2]
        o.bg.state = s
        o.model.retries = x[2]
        if o.bg.success != o.model.ok:
            raise Violation("setting the state changes the success flag", "")
    elif k == "refuse":
        what, f = REFUSE[x[2]]
        before, asked, kin, ok = gens.freeze(o.bg.state), env.rdrand_stats()[0], o.bg.seed_seq, o.bg.success
        core.MARK(f"rdrand refuses {what}")
        try:
            f(o.bg)
        except (TypeError, ValueError, AttributeError):
            tr.probe("refused")
        else:
            raise Violation(f"{what}: not refused", "")
        if env.rdrand_stats()[0] != asked:
            raise Violation(f"{what}: refused, but the hardware was read", "")
        if (before, ok, kin) != (gens.freeze(o.bg.state), o.bg.success, o.bg.seed_seq):
            raise Violation(f"{what}: refused, but something changed", f"{before[:200]} / {gens.freeze(o.bg.state)[:200]}")
    elif k == "seed":
        o.bg.seed()
        if o.bg.success != o.model.ok:
            raise Violation("seed changes the success flag", "")
    else:
        f = {"copy": lambda: copy.copy(o.bg), "deepcopy": lambda: copy.deepcopy(o.bg), "pickle": lambda: pickle.loads(pickle.dumps(o.bg)),
             "jumped": lambda: o.bg.jumped(), "new": lambda: RDRAND(retries=max(o.model.retries, 0)), "ext-pickle": lambda: pickle.loads(pickle.dumps(o.ext)).bit_generator}[x[2]]
        c = f()
        want = max(o.model.retries, 0) if x[2] == "new" else o.model.retries
        if c.state["retries"] != want:
            raise Violation(f"{x[2]}: the number of retries is not kept", f"{c.state['retries']} instead of {want}")
        objs.append(Obj(c, want))
        tr.probe("derived by " + x[2])


def execute(plan, tr):
    objs = [Obj(RDRAND(retries=plan["retries"]), plan["retries"])]
    refill[0] = len(objs[0].bg.state["buffer"])
    tr.sh(plan["retries"], plan["bursts"], [[[label(o) for o in t] for t in p["threads"]] for p in plan["phases"]])
    done = 0
    for p in plan["phases"]:
        for x in p["between"]:
            between(x, objs, tr)
        order, res, cur = [], {}, [0] * len(p["threads"])
        seen = set()

        def on_lock(t, lid, what):
            if what == "acq" and (t, cur[t]) not in seen:
                seen.add((t, cur[t]))
                order.append((t, cur[t]))

        def body(t):
            for j, op in enumerate(p["threads"][t]):
                cur[t] = j
                env.set_op(j)
                env.sim_yield()
                if op[1] >= len(objs):
                    continue
                o = objs[op[1]]
                try:
                    r = ("ok", o.do(op))
                except RuntimeError as e:
                    r = ("fail", str(e))
                    if o.bg.success:
                        raise Violation(f"{label(op)}: the success flag is true after a failure", "")
                except env.SimInterrupt:
                    r = ("cut", None)
                res[t, j] = r
                if getattr(o.bg.lock, "owner", None) == t:
                    raise Violation(f"{label(op)}: the lock is held after the call", "")

        err = sched.run(p, [body] * len(p["threads"]), tr, plan["faults"], on_lock)
        for e in err:
            if isinstance(e, Violation):
                raise e
        for t, e in enumerate(err):
            if e is not None:
                raise Violation(f"unexpected {type(e).__name__} in {label(p['threads'][t][cur[t]])}", repr(e))
        if env.rdrand_stats()[3]:
            raise Violation("the hardware is read without end", "")
        log = env.rdrand_log()
        mine = {}
        for tid, j, ok, step, v in log[done:]:
            mine.setdefault((tid, j), []).append((ok, v))
        done = len(log)
        for t in range(len(p["threads"])):  # calls that never asked for the lock
            for j, op in enumerate(p["threads"][t]):
                if (t, j) not in seen and (t, j) in res:
                    order.append((t, j))
        for t, j in order:
            judge(tr, objs, p["threads"][t][j], res[t, j], mine.pop((t, j), []))
        if mine:
            raise Violation("the hardware is read outside of any call", str(list(mine)[:3]))
        for o in objs:
            loc = o.bg.state["buffer_loc"]
            if not 0 <= loc <= refill[0]:
                raise Violation("the position lies outside the buffered words", str(loc))
            if not o.bg.success and o.model.ok:
                raise Violation("the success flag is false though nothing failed", "")
            if o.bg.success and not o.model.ok:
                raise Violation("the success flag is true though the hardware failed", "")
            if o.bg.lock.acquire(False):
                o.bg.lock.release()
            else:
                raise Violation("the lock is held after all calls ended", "")
    st = env.rdrand_stats()
    tr.fault("hardware step failed", st[2])
    tr.probe("words delivered", st[1])


def count(op):
    return 1 if op[2] is None else int(np.prod(op[2]))


def judge(tr, objs, op, res, log):
    o = objs[op[1]]
    m = o.model
    lab = label(op)
    kind, val = res
    tr.ev(op, kind, gens.freeze(val) if kind == "ok" else None)
    if kind == "cut":
        if log:
            raise Violation(f"{lab}: an interrupted call read the hardware", "")
        return
    words, left = attempts(log, m.retries)
    if left:
        raise Violation(f"{lab}: gives up after fewer retries than configured", f"{left - 1} of {m.retries}")
    nofail = m.retries >= 0
    expect = count(op) if op[0] == "raw" else None
    if expect is not None and nofail and len(words) != expect:
        raise Violation(f"{lab}: the hardware is not asked once for each word", f"{len(words)} words for {expect}, retries {m.retries}")
    if expect is None and nofail and len(words) % refill[0]:
        raise Violation(f"{lab}: a refill does not ask once for each buffered word", f"{len(words)} words, retries {m.retries}")
    failed = None in words or bool(not nofail and expect)
    if not nofail and expect is None:
        # never asks the hardware: the call can be served from the buffer or fails
        if log:
            raise Violation(f"{lab}: the hardware is read with no attempt allowed", "")
        if not m.ok:
            return
        keep = list(m.buf)
        m.src, m.bad = [], None
        call(m.bg, m.ext, m.np, op)
        failed = m.bad is not None
        m.buf = keep
    if any(not ok for ok, _ in log) and not failed:
        tr.probe("outage survived by retrying")
        if m.retries > 0:
            run_ = best = 0
            for ok, _ in log:
                run_ = 0 if ok else run_ + 1
                best = max(best, run_)
            if best == m.retries:
                tr.probe("outage of exactly the allowed length")
    if len(log) and not failed:
        tr.trivial = False
    healthy = m.ok
    if failed:
        tr.trivial = False
        m.ok = False
        tr.fault("call hit by an outage")
        if kind != "fail":
            raise Violation(f"{lab}: a hardware failure is not reported", f"retries {m.retries}")
        return
    if not healthy:
        tr.probe("call between failure and reset")
        if expect and kind != "fail":
            raise Violation(f"{lab}: an earlier failure is forgotten", f"retries {m.retries}")
        return
    if kind == "fail":
        raise Violation(f"{lab}: fails though the hardware delivered every word", f"retries {m.retries}, {sum(not ok for ok, _ in log)} failed attempts")
    if op[0] == "raw":
        if not op[3]:
            want = None
        elif op[2] is None:
            want = words[0]
        else:
            want = np.array(words, dtype=np.uint64).reshape(tuple(op[2]) if isinstance(op[2], list) else op[2])
    else:
        m.src, m.bad = words, None
        want = call(m.bg, m.ext, m.np, op)
        if m.bad is not None:
            raise Violation(f"{lab}: draws words the hardware has not delivered", str(m.bad))
        if m.src:
            raise Violation(f"{lab}: words are fetched but not delivered", f"{len(m.src)}")
        tr.probe("call " + lab)
    if gens.freeze(want) != gens.freeze(val):
        raise Violation(f"{lab}: the words delivered are not those of the hardware, each once and in order", f"{gens.freeze(val)[:150]} instead of {gens.freeze(want)[:150]}")
