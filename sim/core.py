"""Run loop shared by all properties: seeds, traces, violations."""
import hashlib, json, os, random, traceback


HOOK = None
LAST = ["start"]


def MARK(s):
    """the step in progress, for the report if the process dies (HOOK is set by the worker)"""
    LAST[0] = s
    if HOOK is not None:
        HOOK(s)


class Violation(Exception):
    """The property does not hold in this run.  sig identifies what fails (not where in the run)."""

    def __init__(self, sig, msg, **detail):
        super().__init__(f"{sig}: {msg}")
        self.sig, self.msg, self.detail = sig, msg, detail


class HarnessError(Exception):
    """The machinery itself is broken or cannot decide."""


def run_rng(seed, prop, idx):
    d = hashlib.sha256(f"{seed}/{prop}/{idx}".encode()).digest()
    return random.Random(int.from_bytes(d[:16], "big"))


class Trace:
    """Everything one run reports.  ev() feeds the event hash that decides whether two runs were the same."""

    def __init__(self):
        self.h = hashlib.blake2b(digest_size=12)
        self.n = 0
        self.faults, self.probes = {}, {}
        self.shape = hashlib.blake2b(digest_size=8)  # distinct-run measure: what happened, without data values
        self.trivial = True
        self.steps = 0
        self.log = None
        self.choices = None  # scheduling decisions, when the run was scheduled

    def ev(self, *what):
        s = repr(what)
        self.h.update(s.encode())
        self.n += 1
        if self.log is not None:
            self.log.append(s)

    def sh(self, *what):
        self.shape.update(repr(what).encode())

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        if n:
            self.probes[name] = self.probes.get(name, 0) + n

    def digest(self):
        return self.h.hexdigest()


def jsonable(x):
    return json.loads(json.dumps(x))


SIMD = 1 << 9 | 1 << 19 | 1 << 25  # the CPUID bits of SSSE3, SSE4.1 and AES


def plan_of(prop, seed, pid, tier, i):
    """the plan of run i; one run in five is placed on a node whose CPU lacks the accelerated instructions"""
    plan = jsonable(prop.plan(run_rng(seed, pid, i), tier, i))
    if getattr(prop, "NODE_CPU", True):
        rng = run_rng(seed, pid + ":cpu", i)
        if rng.random() < 0.2:
            plan["node_cpu"] = SIMD
    return plan


def execute(prop, plan, log=False):
    """-> (trace, violation or None).  A pure function of the plan and the code."""
    clear = plan.get("node_cpu")
    if clear is None:
        return execute_here(prop, plan, log)
    from sim import env
    calls = env.cpuid_calls()
    env.cpu(1, clear, 0, 0)
    try:
        tr, v = execute_here(prop, plan, log)
    finally:
        env.cpu(0, 0, 0, 0)
    if env.cpuid_calls() != calls:
        tr.probe("CPU without the accelerated instructions")
    return tr, v


def execute_here(prop, plan, log):
    tr = Trace()
    if log:
        tr.log = []
    LAST[0] = "start"
    try:
        prop.run(plan, tr)
        v = None
    except Violation as e:
        v = e
        tr.ev("VIOLATION", e.sig)
    except (HarnessError, MemoryError):
        raise
    except Exception as e:
        # no step of a run fails unless the run says so: the library refused or broke something it should do
        v = Violation(f"unexpected {type(e).__name__} during {LAST[0]}".strip(), traceback.format_exc()[-1500:])
        tr.ev("VIOLATION", v.sig)
    return tr, v
