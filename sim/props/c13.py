"""C13: draws of different widths share one stream without loss or repetition.

Several consumers of one bit generator (C interface, ctypes, cffi, random_raw, numpy Generators, several
ExtendedGenerators) take turns in an order decided by the seed.  Every word each of them receives is recorded
at the bitgen_t interface and must be what the width model makes of a second generator of the same making
that only ever draws raw words; simple consumers must also return what they received.
"""
import struct
import numpy as np
from sim import core, env, gens, life, words
from sim.core import Violation

ID = "C13"
CHECK_EVERY = 53
M32 = 0xFFFFFFFF


def rand_op(rng, cfg):
    k = rng.random()
    if k > 0.97:
        return ["half", rng.choice(life.SPECIAL) & M32]
    n = rng.randrange(1, 7) if rng.random() < 0.75 else rng.randrange(1, 60)
    if k < 0.3:
        return ["d", life.rand_kinds(rng, n)]
    if k < 0.4:
        return ["raw", rng.choice([None, n, [n], [2, n], [3, 1, 2], 1, 0]), rng.random() < 0.7]
    if k < 0.5:
        return [rng.choice(["ct", "cffi"]), life.rand_kinds(rng, n).replace("3", "0")]
    if k < 0.75:
        return ["np", rng.choice(["random", "random32", "u64", "u32", "u8", "normal", "expo", "bytes", "perm", "bounded", "scalar"]), n]
    return ["ext", rng.choice(["u64", "u32", "d", "f", "ld", "cn", "wish", "cn0", "u32s", "u64s", "fs", "ds", "lds"]), n, rng.randrange(2)]


def plan(rng, tier, i):
    cfg = gens.ALL[i % len(gens.ALL)]
    if rng.random() < 0.04:
        cfg = rng.choice(["np:PCG64", "np:PCG64DXSM", "np:Philox", "np:SFC64"])
    n = rng.randrange(3, 14) if tier == "quick" or rng.random() < 0.7 else rng.randrange(10, 60)
    lim = life.rand_ctor(rng, cfg)
    return {"cfg": cfg, "seed": life.rand_seed(rng, cfg), "ctor": lim, "skip": rng.choice([0, 0, 1, 3, rng.choice(life.BLOCKS) - 2, rng.randrange(700)]),
            "craft": rng.randrange(2**32) if rng.random() < 0.3 else None, "ops": [op for op in [rand_op(rng, cfg) for _ in range(n)] if op[0] != "raw" or cfg not in gens.FOREIGN]}


def simple(op, led):
    """what a simple consumer must return given the words it received (kind, value); None: not modelled"""
    k = [x for x, _ in led]
    v = [y for _, y in led]
    o = op[0]
    if o in ("d", "ct", "cffi"):
        kinds = [int(c) for c in op[1]]
        if k != kinds:
            return ("kinds", kinds)
        if o == "d":
            return ("val", v)
        return ("val", [words.dbl(y) if x == 2 else y for x, y in led])
    if o == "raw":
        size = op[1]
        n = 1 if size is None else int(np.prod(size))
        if k != [3] * n:
            return ("kinds", [3] * n)
        if not op[2]:
            return ("val", None)
        return ("val", v[0] if size is None else np.array(v, np.uint64).reshape(tuple(size) if isinstance(size, list) else (size,)))
    n = op[2]
    if o == "ext":
        w = op[1]
        one = {"u64s": 0, "u32s": 1, "fs": 1, "ds": 2, "lds": 0}
        many = {"u64": 0, "u32": 1, "d": 2, "f": 1, "ld": 0}
        kinds = [one[w]] if w in one else [many[w]] * n if w in many else None
        if kinds is None:
            return None
        if k != kinds:
            return ("kinds", kinds)
        return ("val", {"u64": lambda: np.array(v, np.uint64), "u32": lambda: np.array(v, np.uint32), "u64s": lambda: v[0], "u32s": lambda: v[0],
                        "d": lambda: np.array([words.dbl(x) for x in v]), "ds": lambda: words.dbl(v[0]),
                        "f": lambda: np.array([(x >> 9) * 2.0**-23 for x in v], np.float32), "fs": lambda: (v[0] >> 9) * 2.0**-23,
                        "ld": lambda: np.array([np.longdouble(x) * np.longdouble(2) ** -64 for x in v]).astype(np.float64),
                        "lds": lambda: float(np.longdouble(v[0]) * np.longdouble(2) ** -64)}[w]())
    if o == "np" and op[1] in ("random", "random32", "u64", "u32"):
        kinds = [{"random": 2, "random32": 1, "u64": 0, "u32": 1}[op[1]]] * n
        if k != kinds:
            return ("kinds", kinds)
        return ("val", {"random": lambda: np.array([words.dbl(x) for x in v]), "random32": lambda: np.array([(x >> 8) * 2.0**-24 for x in v], np.float32),
                        "u64": lambda: np.array(v, np.uint64), "u32": lambda: np.array(v, np.uint32)}[op[1]]())
    return None


def run(plan, tr):
    cfg = plan["cfg"]
    a = life.Node.make(cfg, plan["seed"], plan["ctor"])
    b = life.Node.make(cfg, plan["seed"], plan["ctor"])
    env.skip(a.bg, plan["skip"])
    env.skip(b.bg, plan["skip"])
    if plan.get("craft") is not None:
        s = life.craft(a.bg.state, plan["craft"])
        s.update({k: 0 for k in ("has_uint32", "uinteger") if k in s})
        a.bg.state = s
        b.bg.state = s
        tr.probe("crafted state")
    tr.sh(cfg, plan["skip"], plan["ops"])
    env.tramp_free()
    env.ledger_reset()
    p = env.bitgen_of(a.bg)
    env.tramp_install(p, 0, 1, 0)
    exts = [None, None]
    M = words.model_of(cfg)
    m = M(words.Units(b.bg, M.split))
    fs = (m.n64, m.n32, m.nd, m.raw)
    widths = set()
    pos = 0
    last = "nothing"
    try:
        for op in plan["ops"]:
            if op[0] == "half":
                if M is words.W64 and "has_uint32" in (s := a.bg.state):
                    # a restored half word is delivered whatever its value
                    s["has_uint32"], s["uinteger"] = 1, op[1]
                    env.tramp_remove(p)
                    a.bg.state = s
                    env.tramp_install(p, 0, 1, 0)
                    m.half = op[1]
                    tr.probe("half word restored")
                continue
            if op[0] == "raw":
                core.MARK(f"{cfg} raw")
                got = a.bg.random_raw(tuple(op[1]) if isinstance(op[1], list) else op[1], op[2])
            elif op[0] == "ext":
                if exts[op[3]] is None:
                    exts[op[3]] = env.randomgen.ExtendedGenerator(a.bg)
                a.ext = exts[op[3]]
                core.MARK(f"{cfg} ext {op[1]}")
                got = {"fs": lambda: a.ext.random(dtype=np.float32), "ds": lambda: a.ext.random(), "lds": lambda: float(a.ext.random(dtype=np.longdouble))}.get(
                    op[1], lambda: a.op_ext(op[1], op[2]))()
            else:
                got = a.do(op)
            led = [(r[3], r[0]) for r in env.ledger()[pos:]]
            pos += len(led)
            for k, v in led:
                w = fs[k]()
                if v != w:
                    what = ("64-bit", "32-bit", "double", "raw")[k]
                    raise Violation(f"{cfg}: a {what} draw is not the documented function of the stream",
                                    f"in {op} after {last}: got {v:#x}, the raw stream gives {w:#x}")
                widths.add(k)
            s = simple(op, led)
            if s is not None:
                if s[0] == "kinds":
                    raise Violation(f"{op[0]} {op[1] if op[0] in ('np', 'ext') else ''}: wrong number or kind of draws",
                                    f"{cfg} {op}: drew {[k for k, _ in led][:40]} instead of {s[1][:40]}")
                if not gens.eq(s[1], got):
                    raise Violation(f"{op[0]} {op[1] if op[0] in ('np', 'ext') else ''}: does not return the words it drew",
                                    f"{cfg} {op}: returned {gens.freeze(got)[:120]} for {gens.freeze(s[1])[:120]}")
            last = op
            tr.ev(op[0], gens.freeze(got))
            tr.steps += len(led)
    finally:
        env.tramp_remove(p)
    # once more, directly
    for k, v in zip((1, 3, 1, 0, 1, 2, 1, 1), env.draw(a.bg, b"\1\3\1\0\1\2\1\1")):
        if fs[k]() != v:
            raise Violation(f"{cfg}: a {('64-bit', '32-bit', 'double', 'raw')[k]} draw is not the documented function of the stream", f"after {last}: got {v:#x}")
    tr.trivial = len(widths) < 2
    tr.probe("width changes", len(widths))
    if m.__dict__.get("half") is not None:
        tr.probe("run ends with half a word buffered")
