"""C12: running out of memory is reported, never fatal.

A generator lives through construction, seeding, moves, checkpoints, derivations and draws while single
allocations of the library's modules or of numpy's array data fail.  Every call that fails must raise
MemoryError and, once memory is back, do what it does for a twin that never met a failure.  When all objects
are gone nothing may stay allocated.
"""
import copy, gc, pickle, sys, warnings
import numpy as np
from sim import core, env, gens, life, store
from sim.core import Violation
import randomgen as rg
from randomgen.wrapper import UserBitGenerator
from randomgen.rdrand import RDRAND
from randomgen.entropy import random_entropy, seed_by_array

ID = "C12"
CHECK_EVERY = 59
DERIVE = ["copy", "deepcopy", "pickle", "jumped", "ext-pickle", "ext-copy", "npgen"]
EXTRA = ["ext", "ext-none", "attrs", "ss", "ss-spawn", "entropy", "seedarr", "rdrand", "rdrand-raw", "user", "keys", "weyl", "mvn", "mcn", "wishart", "cnarr", "f-out"]


def rand_step(rng, cfg):
    k = rng.random()
    if k < 0.12:
        return ["make", life.rand_seed(rng, cfg), life.rand_ctor(rng, cfg)]
    if k < 0.22:
        return ["op", ["reseed", life.rand_seed(rng, cfg)]]
    if k < 0.34:
        m = life.rand_move(rng, cfg)
        return ["op", m] if m else ["state"]
    if k < 0.42:
        return ["state"]
    if k < 0.5:
        return ["restore", rng.choice(["same", "same", "fresh"])]
    if k < 0.68:
        d = rng.choice(DERIVE)
        return ["derive", "copy" if d == "jumped" and not life.has(cfg, "jumped") else d, rng.random() < 0.3]
    if k < 0.86:
        return ["op", life.rand_draw(rng, cfg)]
    return ["extra", rng.choice(EXTRA), rng.randrange(1, 9)]


def plan(rng, tier, i):
    cfg = gens.ALL[i % len(gens.ALL)]
    n = rng.randrange(2, 8) if tier == "quick" else rng.randrange(2, 16)
    steps = [["make", life.rand_seed(rng, cfg), life.rand_ctor(rng, cfg)]]
    steps += [rand_step(rng, cfg) for _ in range(n)]
    # failures met by each step before memory is back: [which allocators, which allocation]
    faults = [[[rng.choice([1, 1, 8, 9]), rng.randrange(64)] for _ in range(rng.choice([0, 1, 1, 2, 3]))] for _ in steps]
    return {"cfg": cfg, "steps": steps, "faults": faults}


class Side:
    """one of the two copies of the story"""

    def __init__(self, cfg):
        self.cfg, self.node, self.saved = cfg, None, None

    def do(self, s):
        k = s[0]
        if k == "make":
            n = life.Node(self.cfg, gens.make(self.cfg, s[1], **s[2]))
            self.node, self.saved = n, None
            return None
        n = self.node
        if k == "op":
            return n.do(s[1])
        if k == "state":
            self.saved = n.bg.state
            return self.saved
        if k == "restore":
            if self.saved is None:
                return None
            if s[1] == "fresh":
                o = life.Node.make(self.cfg, 5)
                o.bg.state = self.saved
                self.node = o
            else:
                n.bg.state = self.saved
            return None
        if k == "derive":
            d = s[1]
            if d == "jumped":
                o = life.Node(self.cfg, n.bg.jumped(2))
            elif d == "copy":
                o = life.Node(self.cfg, copy.copy(n.bg))
            elif d == "deepcopy":
                o = life.Node(self.cfg, copy.deepcopy(n.bg))
            elif d == "pickle":
                o = life.Node(self.cfg, pickle.loads(pickle.dumps(n.bg)))
            elif d == "npgen":
                o = life.Node(self.cfg, copy.deepcopy(n.get_np()).bit_generator)
            else:
                g = n.get_ext()
                g = pickle.loads(pickle.dumps(g)) if d == "ext-pickle" else copy.copy(g)
                o = life.Node(self.cfg, g.bit_generator, g)
            st = o.bg.state
            if s[2]:
                self.node = o
            return [st, o]
        return self.extra(s[1], s[2])

    def extra(self, what, k):
        n = self.node
        g = n.get_ext() if what in ("mvn", "mcn", "wishart", "cnarr", "f-out") else None
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return {
                "ext": lambda: rg.ExtendedGenerator(n.bg).uintegers(k), "ext-none": lambda: rg.ExtendedGenerator().random(k).shape,
                "attrs": lambda: (n.bg.ctypes.state_address > 0, repr(n.bg)[:6], n.bg.cffi is not None, n.bg.capsule is not None),
                "ss": lambda: rg.SeedSequence([k, 7]).generate_state(k), "ss-spawn": lambda: [c.generate_state(2) for c in rg.SeedSequence(k).spawn(2)],
                "entropy": lambda: random_entropy(k, ["system", "fallback"][k % 2]).shape, "seedarr": lambda: seed_by_array([k, 3], 5),
                "rdrand": lambda: RDRAND(retries=k).state["retries"], "rdrand-raw": lambda: RDRAND().random_raw(k).shape,
                "user": lambda: UserBitGenerator(lambda _: k).random_raw(3), "keys": lambda: rg.squares.generate_keys(k, 3), "weyl": lambda: rg.SFC64(k).weyl_increments(3),
                "mvn": lambda: g.multivariate_normal([0.0, 1.0], [[2.0, 0.5], [0.5, 1.0]], size=k, method=["cholesky", "svd", "eigh"][k % 3]),
                "mcn": lambda: g.multivariate_complex_normal([0.0, 1.0], [[2.0, 0.5], [0.5, 1.0]], size=k),
                "wishart": lambda: g.wishart([3, 1, 4][:1 + k % 3], np.array([[2.0, 0.5], [0.5, 1.0]]), method="cholesky"),
                "cnarr": lambda: g.complex_normal(np.arange(k) + 1j, 2.0, 0.25), "f-out": lambda: g.random(out=np.zeros(k, np.float32), dtype=np.float32),
            }[what]()


def draws(s):
    return s[0] == "op" and s[1][0] not in ("reseed", "adv", "jump", "craft") or s[0] == "extra" and s[1] in ("ext", "mvn", "mcn", "wishart", "cnarr", "f-out")


def label(s):
    if s[0] == "op":
        return s[1][0] + (" " + s[1][1] if s[1][0] in ("np", "ext") else "")
    return s[0] + (" " + s[1] if s[0] in ("derive", "extra", "restore") else "")


def strip(r):
    return r[0] if isinstance(r, list) and len(r) == 2 and isinstance(r[1], life.Node) else r


_frozen = []


def run(plan, tr):
    if not _frozen:
        gc.collect()
        gc.freeze()  # collections then look at the objects of the runs only
        _frozen.append(1)
    gc.collect()
    base = env.alloc_live()
    story(plan, tr)
    gc.collect()
    core.MARK(f"{plan['cfg']} destruction")
    live = env.alloc_live()
    if live != base:
        # one-time caches (of the places exceptions come from) are no leak: it must happen again
        base = live
        story(plan, core.Trace())
        gc.collect()
        live = env.alloc_live()
    if live != base:
        raise Violation(f"{plan['cfg']}: memory stays allocated after all objects are gone", f"{live - base} blocks")


def story(plan, tr):
    cfg = plan["cfg"]
    real, twin = Side(cfg), Side(cfg)
    for s, fs in zip(plan["steps"], plan["faults"]):
        lab = label(s)
        for mask, k in fs:
            # how many allocations does this call make?  Ask a throw-away copy of the situation.
            n = count(real, s, mask, tr)
            if not n:
                tr.probe("call without allocation")
                continue
            before = None
            if real.node is not None:
                before = gens.freeze(real.node.bg.state), life.kin(real.node.bg)
            fired = env.u64()
            core.MARK(f"{cfg} {lab} with failing allocation {k % n} of {n} ({mask})")
            hook, sys.unraisablehook = sys.unraisablehook, lambda u: None
            env.alloc_arm(mask, k % n)
            try:
                r = ("ok", None)
                real.do(s)
            except MemoryError:
                r = ("MemoryError", None)
            except Exception as e:
                r = (type(e).__name__, str(e))
            finally:
                env.alloc_disarm(env.C.byref(fired))
                sys.unraisablehook = hook
            tr.ev(lab, mask, k % n, r[0], fired.value)
            tr.sh(lab, mask, k % n, r[0])
            if not fired.value:
                if r[0] != "ok":
                    raise Violation(f"{lab}: fails without cause", str(r))
                twin.do(s)
                continue
            tr.trivial = False
            tr.fault("failed allocation " + {1: "of the library", 8: "of array data", 9: "of either"}[mask])
            if r[0] == "ok":
                tr.probe("call went on without the memory")
                twin.do(s)
                same(real, twin, lab, "a call that went on without memory")
                continue
            if r[0] != "MemoryError" and not (r[0] == "RuntimeError" and s[:2] == ["extra", "entropy"]):
                raise Violation(f"{lab}: running out of memory ends in {r[0]}", f"{cfg}: {r[1]}")
            tr.probe("MemoryError from " + lab.split()[0])
            if real.node is None:
                continue
            if draws(s):
                # words may have been consumed: go on from there
                twin.node.bg.state = real.node.bg.state
                same(real, twin, lab, "a failed draw")
            elif before[0] != gens.freeze(real.node.bg.state) and s[0] != "make":
                raise Violation(f"{lab}: the failed call moved the generator", cfg)
            if s[0] != "make" and before[1] != life.kin(real.node.bg):
                raise Violation(f"{lab}: after the failed call the children are another seed's", f"{cfg}: {before[1]} / {life.kin(real.node.bg)}")
        core.MARK(f"{cfg} {lab}")
        a, b = real.do(s), twin.do(s)
        if gens.freeze(strip(a)) != gens.freeze(strip(b)):
            raise Violation(f"{lab}: not the normal result after memory is back", f"{cfg}: {gens.freeze(strip(a))[:150]} instead of {gens.freeze(strip(b))[:150]}")
        same(real, twin, lab, "the repeated call")
    for x in (real, twin):
        x.w = life.window(x.node.bg)
    if real.w != twin.w:
        raise Violation(f"{cfg}: another stream after memory is back", "")


def count(side, s, mask, tr):
    c = Side(side.cfg)
    if side.node is not None:
        c.node = life.Node.make(side.cfg, 3)
        c.node.bg.state = side.node.bg.state
        c.saved = side.saved
        if side.node.ext is not None:
            c.node.get_ext()
        if side.node._np is not None:
            c.node.get_np()
    fired = env.u64()
    env.alloc_arm(mask, 2**60)
    try:
        c.do(s)
    finally:
        n = env.alloc_disarm(env.C.byref(fired))
    return n


def same(real, twin, lab, what):
    a, b = gens.freeze(real.node.bg.state), gens.freeze(twin.node.bg.state)
    if a != b:
        raise Violation(f"{lab}: {what} leaves another state than without the failure", f"{real.cfg}: {a[:200]} instead of {b[:200]}")
