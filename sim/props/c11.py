"""C11: random_entropy returns only entropy it really obtained.

The operating system below random_entropy is simulated: /dev/urandom with its descriptors, the clocks, the
process id and the allocator.  A run is a history of calls against a script of system-call outcomes.  Every
call is judged against the log of what the system actually delivered to it.
"""
import errno, warnings
import numpy as np
from sim import core, env
from sim.core import Violation
from randomgen.entropy import random_entropy

ID = "C11"
CHECK_EVERY = 53
EV_OPEN, EV_READ, EV_CLOSE, EV_TIME, EV_CLOCK, EV_PID, EV_GETRANDOM, EV_BADFD = range(1, 9)
ERR = {EV_OPEN: [errno.ENOENT, errno.EACCES, errno.EMFILE, errno.ENFILE, errno.EINTR, errno.ENODEV, errno.EPERM, errno.ENOMEM],
       EV_READ: [errno.EIO, errno.EINTR, errno.EAGAIN, errno.EFAULT, errno.EINVAL], EV_CLOSE: [errno.EIO, errno.EINTR]}
NAME = {EV_OPEN: "open", EV_READ: "read", EV_CLOSE: "close"}
SIZES = [None, None, 1, 2, 3, 5, 8, 16, 64, 65, 256, 300, (2, 3), (1,), (3, 1, 2), (4, 4), (), 0, (2, 0), (0, 3)]


def rand_size(rng):
    s = rng.choice(SIZES) if rng.random() < 0.995 else rng.choice([4096, 20000])
    if s == ():
        s = 7
    return list(s) if isinstance(s, tuple) else s


def plan(rng, tier, i):
    n = rng.randrange(1, 7) if tier == "quick" else rng.randrange(1, 16)
    steps = []
    for _ in range(n):
        k = rng.random()
        if k < 0.82:
            steps.append(["get", rng.choice(["system", "system", "auto", "auto", "fallback"]), rand_size(rng)])
        elif k < 0.9:
            steps.append(["again", rng.choice(["time", "clock", "pid", "same"]), rand_size(rng)])
        elif k < 0.95:
            steps.append(["nomem", rng.choice(["fallback", "auto", "system"]), rand_size(rng), rng.randrange(0, 3)])
        else:
            steps.append(["bad", rng.choice(["source", "negative", "float", "list", "string", "negtuple"])])
        if rng.random() < 0.2:
            steps.append(["clock", rng.choice(["back", "forward", "stop", "pid"]), rng.getrandbits(30)])
    faults = []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5])):
        ev = rng.choice([EV_OPEN, EV_READ, EV_READ, EV_READ, EV_CLOSE])
        kth = rng.randrange(0, n)
        if ev == EV_READ and rng.random() < 0.6:
            faults.append([ev, kth, 2, rng.choice([0, 0, 1, 2, 3, 4, 5, 7, 8, 31, 63, 64, 100, 256, 1023])])
        else:
            faults.append([ev, kth, 1, rng.choice(ERR[ev])])
    if rng.random() < 0.1:
        ev = rng.choice([EV_OPEN, EV_READ])
        faults += [[ev, k, 1, rng.choice(ERR[ev])] for k in range(40)]  # an outage
    return {"seed": rng.getrandbits(62), "steps": steps, "faults": faults, "time": rng.choice([0, 1, 999_999, 1_700_000_000_000_000, 2**31 * 10**6 - 2, rng.getrandbits(50)]),
            "clock": rng.getrandbits(20), "pid": rng.choice([1, 2, 4711, 32768, rng.getrandbits(22)]), "tick": rng.choice([0, 1, 1, 7, 1000])}


class Source:
    """the bytes the simulated device delivers"""

    def __init__(self, seed):
        self.seed, self.pos = seed, 0

    def take(self, n):
        if not n:
            return b""
        k = np.arange(self.pos >> 3, (self.pos + n + 7) // 8 + 1, dtype=np.uint64)
        with np.errstate(over="ignore"):
            z = (k ^ np.uint64(self.seed)) + np.uint64(0x9E3779B97F4A7C15)
            z = (z ^ (z >> np.uint64(30))) * np.uint64(0xBF58476D1CE4E5B9)
            z = (z ^ (z >> np.uint64(27))) * np.uint64(0x94D049BB133111EB)
            z ^= z >> np.uint64(31)
        o = self.pos & 7
        self.pos += n
        return z.astype("<u8").tobytes()[o:o + n]


def call(size, source):
    """-> (kind, value, warnings)"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            r = ("ok", random_entropy(tuple(size) if isinstance(size, list) else size, source))
        except (RuntimeError, MemoryError) as e:
            r = (type(e).__name__, None)
    return r[0], r[1], [x.category.__name__ for x in w]


def words(v, size, source, tr):
    """the result as bytes, after its form was checked"""
    if size is None:
        if not isinstance(v, (int, np.integer)) or not 0 <= int(v) < 2**32:
            raise Violation(f"{source}: a scalar request does not return one 32-bit integer", repr(v)[:80])
        return int(v).to_bytes(4, "little")
    shape = tuple(size) if isinstance(size, list) else (size,)
    if not isinstance(v, np.ndarray) or v.dtype != np.uint32 or v.shape != shape:
        raise Violation(f"{source}: the result does not have the requested form", f"{getattr(v, 'dtype', None)} {getattr(v, 'shape', None)} for {size}")
    return v.tobytes()


def count(size):
    return 1 if size is None else int(np.prod(size)) if isinstance(size, list) else size


def run(plan, tr):
    sc = [x for f in plan["faults"] for x in f]
    env.entropy_begin(plan["seed"], (env.i64 * max(1, len(sc)))(*sc), len(sc), plan["time"], plan["clock"], plan["pid"], plan["tick"])
    try:
        execute(plan, tr)
    finally:
        env.entropy_end()


def execute(plan, tr):
    src = Source(plan["seed"])
    t, c, p = plan["time"], plan["clock"], plan["pid"]
    done = 0
    tr.sh([s[:2] + [count(s[2])] if s[0] in ("get", "again", "nomem") else s[:2] for s in plan["steps"]], sorted(map(tuple, plan["faults"])))
    for s in plan["steps"]:
        core.MARK(f"random_entropy {s[0]} {s[1]}")
        if s[0] == "clock":
            # jumps, also backwards, a stopped clock, another process
            t, c, p = {"back": (t - s[2] % (t + 1), c, p), "forward": (t + s[2] * 1000, c + s[2], p), "stop": (t, c, p), "pid": (t, c, 1 + s[2] % 99999)}[s[1]]
            env.entropy_clock(t, c, p)
            tr.fault("clock moved " + s[1] if s[1] != "pid" else "process id changed")
            continue
        if s[0] == "bad":
            bad = {"source": lambda: random_entropy(3, "sytem"), "negative": lambda: random_entropy(-2), "float": lambda: random_entropy(2.5), "list": lambda: random_entropy([2]),
                   "string": lambda: random_entropy("3"), "negtuple": lambda: random_entropy((-1, 2))}[s[1]]
            try:
                r = ("ok", bad())
            except (TypeError, ValueError, OverflowError, RuntimeError) as e:
                r = (type(e).__name__, None)
            log = env.entropy_log()
            d = src.take(sum(x[2] for x in log[done:] if x[0] == EV_READ and x[2] > 0))
            if r[0] == "ok" and np.asarray(r[1]).tobytes() != d:
                raise Violation("an odd request returns data that the system did not deliver", s[1])
            done = leaks(log, done)
            tr.probe("request " + ("refused" if r[0] != "ok" else "accepted") + ": " + s[1])
            continue
        if s[0] == "again":
            done = again(s, (t, c, p), src, done, tr)
            t, c, p = (x + 10 for x in (t, c, p))
            env.entropy_clock(t, c, p)
            continue
        size, source = s[2], s[1]
        fired = sum(env.entropy_fired())
        nm = env.u64()
        if s[0] == "nomem":
            env.alloc_arm(1, s[3])
        try:
            kind, v, warned = call(size, source)
        finally:
            if s[0] == "nomem":
                env.alloc_disarm(env.C.byref(nm))
        nomem = bool(nm.value)
        tr.fault("failed allocation", nm.value)
        hit = sum(env.entropy_fired()) > fired
        log = env.entropy_log()
        mine = log[done:]
        done = leaks(log, done)
        got = src.take(sum(x[2] for x in mine if x[0] == EV_READ and x[2] > 0))
        asked = any(x[0] in (EV_OPEN, EV_READ, EV_CLOSE) for x in mine)
        for x in mine:
            if x[0] in NAME and x[1]:
                tr.fault(f"{NAME[x[0]]} fails with {errno.errorcode[x[1]]}")
            elif x[0] == EV_READ and x[2] < x[3]:
                tr.fault("end of file" if x[2] == 0 else "short read")
        n = count(size)
        tr.ev(s, kind, warned, None if v is None else np.asarray(v).tobytes().hex()[:64])
        tr.trivial = tr.trivial and not hit
        if kind != "ok" and warned and source != "auto":
            raise Violation(f"{source}: an unexpected warning", str(warned))
        if kind != "ok":
            if not hit and not nomem:
                raise Violation(f"{source}: fails though the system delivered", f"{kind} {size}")
            if source == "fallback" and not nomem:
                raise Violation("fallback: fails though it needs no system source", "")
            if source == "auto" and not nomem:
                raise Violation("auto: fails instead of falling back", kind)
            tr.probe(f"{source}: failure reported")
            continue
        b = words(v, size, source, tr)
        if source == "fallback":
            if asked:
                raise Violation("fallback: touches the system source", str(mine[:4]))
            if warned:
                raise Violation("fallback: an unexpected warning", str(warned))
            clocked(mine, n, source)
            tr.probe("fallback: data")
            continue
        if n == 0:
            continue
        if warned:
            if source != "auto" or warned != ["RuntimeWarning"]:
                raise Violation(f"{source}: an unexpected warning", str(warned))
            if not hit and not nomem:
                raise Violation("auto: falls back though the system delivered", str(size))
            clocked(mine, n, "auto after a failure")
            if len(got) >= 4 and len(b) >= 8 and b == got[:len(b)]:
                raise Violation("auto: reports a failure but returns the system's bytes", "")
            tr.probe("auto: fell back with a warning")
            continue
        if b != got:
            i = next((k for k in range(min(len(b), len(got))) if b[k] != got[k]), min(len(b), len(got)))
            raise Violation(f"{source}: returns data that the system did not deliver", f"{len(b)} bytes returned, {len(got)} delivered, first difference at {i}; calls {mine[:4]}")
        tr.probe(f"{source}: system data")


def clocked(mine, n, who):
    if n and not ({x[0] for x in mine} >= {EV_PID} and {x[0] for x in mine} & {EV_TIME, EV_CLOCK}):
        raise Violation(f"{who}: the fallback consults neither clock nor process", "")


def leaks(log, done):
    """descriptors are closed exactly once"""
    for x in log[done:]:
        if x[0] == EV_BADFD:
            raise Violation("a descriptor is used that is not open", str(x))
    if env.entropy_openfds():
        raise Violation("a file descriptor is left open", f"{env.entropy_openfds()} open")
    return len(log)


def again(s, now, src, done, tr):
    """the fallback is a function of clock and process: equal inputs, equal data; another input, other data"""
    t, c, p = now
    t2, c2, p2 = {"time": (t + 3_000_017, c, p), "clock": (t, c + 5, p), "pid": (t, c, p + 1), "same": (t, c, p)}[s[1]]
    r = []
    for x in ((t, c, p), (t2, c2, p2)):
        env.entropy_clock(*x)
        k, v, w = call(s[2], "fallback")
        if k != "ok" or w:
            raise Violation("fallback: fails though it needs no system source", f"{k} {w}")
        r.append(words(v, s[2], "fallback", tr))
    log = env.entropy_log()
    if any(x[0] in (EV_OPEN, EV_READ, EV_CLOSE) for x in log[done:]):
        raise Violation("fallback: touches the system source", "")
    if not count(s[2]):
        return leaks(log, done)
    tr.trivial = False
    tr.ev("again", s[1], r[0][:16].hex())
    if s[1] == "same" and r[0] != r[1]:
        raise Violation("fallback: depends on more than clock and process", f"{r[0][:16].hex()} {r[1][:16].hex()}")
    if s[1] != "same" and r[0] == r[1]:
        raise Violation(f"fallback: does not depend on the {dict(time='time', clock='processor clock', pid='process')[s[1]]}", r[0][:16].hex())
    if s[1] != "same" and any(r[0][k:k + 4] == r[1][k:k + 4] for k in range(0, len(r[0]), 4)):
        raise Violation("fallback: part of the result depends on neither clock nor process", "")
    tr.probe("fallback compared: " + s[1])
    return leaks(log, done)
