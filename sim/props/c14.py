"""C14: a rejected operation leaves the stream as it was.

Between the draws of a worker a faulty client sends what the generator must refuse: torn, mistyped and foreign
checkpoints, bad seeds, keys, counters and steps, bad arguments and output arrays of draw calls.  Whenever the
attempt raises, the worker must go on exactly like a twin that never saw it.
"""
import ctypes as C, warnings
import numpy as np
from sim import core, env, gens, life, store
from sim.core import Violation
import randomgen as rg
from randomgen.common import BitGenerator
from randomgen.wrapper import UserBitGenerator

ID = "C14"
CHECK_EVERY = 53

BADSEED = ["neg", "huge", "str", "negarr", "bigarr", "float", "2d", "floatarr", "obj", "dict", "list-str", "empty", "nan"]
BADKEY = ["neg", "huge", "str", "float", "2d", "floatarr", "long", "both", "badcounter", "obj", "list-mixed", "key+badcounter", "short", "even"]
BADWITH = [["inc", -1], ["inc", str(2**128)], ["inc", "x"], ["idx", -1], ["idx", str(2**32)], ["counter", -1], ["counter", str(2**300)], ["counter", "x"], ["nothing", 1]]
BADADV = ["none", "str", "float", "list", "obj", "huge", "complex"]
BADDRAW = ["raw-neg", "raw-str", "raw-float", "raw-big", "uint-bits", "uint-size", "rnd-dtype", "out-shape", "out-dtype", "out-ro", "out-noncontig", "out-list",
           "cn-gamma", "cn-imag", "cn-rel", "cn-size", "cn-arr", "wish-df", "wish-dim", "wish-size", "wishart-scale", "wishart-df", "wishart-shape",
           "mvn-shape", "mvn-check", "mvn-cov", "mvn-size", "mvn-method", "mcn-loc", "mcn-shape", "mcn-psd", "uint-neg", "rnd-size", "mcn-gamma", "mvn-1d", "wishart-psd"]
STATES = ["torn", "torn", "torn", "torn", "foreign", "nodict", "tuple", "ext-torn", "ext-foreign", "class"]


def rand_attempt(rng, cfg):
    k = rng.random()
    if k < 0.4:
        return ["state", rng.choice(STATES), [rng.randrange(1000), rng.randrange(1000)], rng.randrange(2**32), rng.choice(gens.ALL)]
    if k < 0.5:
        return ["seed", rng.choice(BADSEED)]
    if k < 0.57:
        return ["with"] + rng.choice(BADWITH)
    if k < 0.6:
        return ["make", rng.randrange(len(BADMAKE))]
    if k < 0.7:
        return ["key", rng.choice(BADKEY), rng.getrandbits(64)]
    if k < 0.8:
        w = rng.choice(["advance", "advance", "jump", "jumped"])
        # the jump count is multiplied by the distance: sequences would be repeated 2**32 times before anything is refused
        return [w, rng.choice([x for x in BADADV if w == "advance" or x not in ("str", "list")])]
    return ["draw", rng.choice(BADDRAW)]


def plan(rng, tier, i):
    cfg = gens.ALL[i % len(gens.ALL)]
    ops = []
    for _ in range(rng.randrange(2, 8) if tier == "quick" or rng.random() < 0.8 else rng.randrange(8, 24)):
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            ops.append(["try"] + rand_attempt(rng, cfg))
        r = rng.random()
        mv = life.rand_move(rng, cfg) if r < 0.1 else None
        ops.append(mv or life.rand_draw(rng, cfg))
    return {"cfg": cfg, "seed": life.rand_seed(rng, cfg), "ctor": life.rand_ctor(rng, cfg), "ops": ops}


OBJ = object()


def bad_seed(w):
    return {"neg": -1, "huge": 2**20000, "str": "abc", "negarr": [-1, 2], "bigarr": [2**64], "float": 1.5, "2d": [[1, 2], [3, 4]], "floatarr": np.array([0.5, 1.0]),
            "obj": OBJ, "dict": {}, "list-str": ["1", "x"], "empty": [], "nan": float("nan")}[w]


def key_args(cfg, w, r):
    c = gens.CONFIGS[cfg][0]
    bits = life.KEYBITS.get(c, 64)
    if c in ("Philox", "ThreeFry"):
        k = gens.CONFIGS[cfg][1]
        bits = k.get("width", 64) * k.get("number", 4) // (2 if c == "Philox" else 1)
    good = r % 2**bits | 1
    cnt = {"counter": r >> 3}
    return {"neg": {"key": -1}, "huge": {"key": 2**bits + r}, "str": {"key": "k"}, "float": {"key": 1.5}, "2d": {"key": np.ones((2, 2), np.uint64)},
            "floatarr": {"key": np.array([1.5, 2.5])}, "long": {"key": np.ones(40, np.uint64)}, "both": {"seed": 5, "key": good},
            "badcounter": {"counter": -1}, "obj": {"key": OBJ}, "list-mixed": {"key": [1, "x"]},
            "key+badcounter": {"key": good, "counter": [2**2000, "x", 1.5, OBJ, -3][r % 5]}, "short": {"key": np.ones(1, np.uint64), **cnt}, "even": {"key": good ^ 1}}[w]


def bad_adv(w):
    return {"none": None, "str": "12", "float": 1.5, "list": [1], "obj": OBJ, "huge": 2**4000, "complex": 1j}[w]


def bad_draw(n, w):
    bg = n.bg
    if w.startswith("raw"):
        return bg.random_raw({"raw-neg": -1, "raw-str": "a", "raw-float": 2.5, "raw-big": 2**62}[w])
    g = n.get_ext()
    ro = np.zeros(4)
    ro.flags.writeable = False
    return {
        "uint-bits": lambda: g.uintegers(3, 17),
        "uint-size": lambda: g.uintegers("x", 64),
        "uint-neg": lambda: g.uintegers(-3, 32),
        "rnd-dtype": lambda: g.random(3, dtype=np.int64),
        "rnd-size": lambda: g.random((2, -3)),
        "out-shape": lambda: g.random((3,), out=np.zeros(4)),
        "out-dtype": lambda: g.random(out=np.zeros(4, np.float32)),
        "out-ro": lambda: g.random(out=ro),
        "out-noncontig": lambda: g.random(out=np.zeros(8)[::2]),
        "out-list": lambda: g.random(out=[0.0, 1.0]),
        "cn-gamma": lambda: g.complex_normal(0, -1.0, 0),
        "cn-imag": lambda: g.complex_normal(0, 1 + 1j, 0),
        "cn-rel": lambda: g.complex_normal(0, 1.0, 2.0),
        "cn-size": lambda: g.complex_normal([0.0, 1.0], 1.0, 0.0, size=(3,)),
        "cn-arr": lambda: g.complex_normal([0.0, 1.0], [1.0, -1.0], [0.0, 0.0]),
        "wish-df": lambda: g.standard_wishart(-2, 3),
        "wish-dim": lambda: g.standard_wishart(3, -1),
        "wish-size": lambda: g.standard_wishart(3, 2, size="x"),
        "wishart-scale": lambda: g.wishart(5, np.ones((2, 3))),
        "wishart-df": lambda: g.wishart([5, 0], np.eye(2)),
        "wishart-shape": lambda: g.wishart([5, 6], np.ones((3, 2, 2))),
        "wishart-psd": lambda: g.wishart(5, np.array([[1.0, 2.0], [2.0, 1.0]]), check_valid="raise", method="cholesky"),
        "mvn-shape": lambda: g.multivariate_normal([0.0, 1.0], np.eye(3)),
        "mvn-check": lambda: g.multivariate_normal([0.0, 1.0], np.eye(2), check_valid="maybe"),
        "mvn-cov": lambda: g.multivariate_normal([0.0, 1.0], np.array([[1.0, 2.0], [2.0, 1.0]]), check_valid="raise"),
        "mvn-size": lambda: g.multivariate_normal([0.0, 1.0], np.eye(2), size="x"),
        "mvn-method": lambda: g.multivariate_normal([0.0, 1.0], np.eye(2), method="magic"),
        "mvn-1d": lambda: g.multivariate_normal([0.0, 1.0], np.ones(2)),
        "mcn-loc": lambda: g.multivariate_complex_normal([]),
        "mcn-shape": lambda: g.multivariate_complex_normal([0.0, 1.0], np.eye(3)),
        "mcn-psd": lambda: g.multivariate_complex_normal([0.0, 1.0], -np.eye(2), check_valid="raise"),
        "mcn-gamma": lambda: g.multivariate_complex_normal([0.0, 1.0], np.ones(2)),
    }[w]()


def bad_tuple(k, r):
    """what looks like the state of RandomState and is not"""
    key = np.arange(624, dtype=np.uint32) + r % 2**20
    return [("MT19938", key, 3), ("MT19937", key), ("MT19937", key, 3, 0), ("MT19937", key, 3, 0, 0.0, 1), ("MT19937", key[1:], 3), ("MT19937", key.astype(np.uint64), 3), ("MT19937", key, 625),
            ("MT19937", key, -1), ("MT19937", None, 3), ("MT19937", key, None), ("MT19937", key.reshape(2, 312), 3), (), ("MT19937", key, "x"), (3, 4, 5)][k % 14]


def wrong_type(*t):
    return C.CFUNCTYPE(*t)(lambda *a: 0)


# parameters that are not documented; no generator can be made of them
BADMAKE = [(c, k) for c, ks in {
    "JSF": [{"p": 64}, {"p": -1}, {"q": 64}, {"size": 32, "r": 32}, {"p": 1.5}, {"seed_size": 0}, {"seed_size": 4}, {"size": 16}, {"size": 32, "p": 3, "q": 32}],
    "LCG128Mix": [{"multiplier": 2**64}, {"multiplier": 2**128 + 1}, {"multiplier": -1}, {"dxsm_multiplier": 2}, {"dxsm_multiplier": 2**64 + 1}, {"dxsm_multiplier": -1}, {"output": "xsh"},
                  {"output": 3}, {"post": 1}, {"output": "f0"}, {"output": "f1"}, {"output": "f2"}, {"inc": -1}, {"inc": 2**128}],
    "PCG64": [{"variant": "xsl"}, {"variant": 3}, {"inc": 2**128}, {"inc": -1}, {"numpy_seed": True, "variant": "dxsm"}, {"inc": 1.5}, {"inc": "3"}, {"numpy_seed": True, "variant": "xsl-rr", "inc": 3}],
    "PCG64DXSM": [{"inc": 2**128}, {"inc": -1}],
    "PCG32": [{"inc": 2**64}, {"inc": -1}, {"inc": 1.5}, {"inc": "x"}],
    "ChaCha": [{"rounds": 3}, {"rounds": 0}, {"rounds": -2}, {"rounds": 2.5}, {"key": 2**256}, {"key": -1}, {"key": 1, "counter": 2**128}],
    "SPECK128": [{"rounds": 0}, {"rounds": 35}, {"rounds": -1}, {"key": 2**256}, {"counter": 2**128}],
    "HC128": [{"key": 2**256}, {"key": -3}], "AESCounter": [{"key": 2**128}, {"counter": 2**128}, {"key": 1.5}, {"key": -1}],
    "Philox": [{"number": 3}, {"width": 16}, {"key": 2**128}, {"counter": 2**256}, {"number": 2, "width": 32, "key": 2**32}, {"number": 2, "width": 32, "numpy_seed": True}, {"width": 32, "counter": 2**128}],
    "ThreeFry": [{"number": 3}, {"width": 8}, {"key": 2**256}, {"counter": -1}, {"number": 2, "width": 32, "key": 2**64}],
    "Romu": [{"variant": "duo"}, {"variant": 4}],
    "Squares": [{"variant": 33}, {"key": 2}, {"key": 2**64 + 1}, {"key": -1}, {"counter": -1}, {"counter": 2**64}],
    "SFC64": [{"w": 2**64}, {"k": 2**64}, {"k": -1}, {"w": -1}], "LXM": [{"b": 2**64}, {"b": -1}], "Tyche": [{"idx": -1}, {"idx": 2**32}],
    "RDRAND": [{"seed": 1}, {"retries": -1}], "MT19937": [{"mode": "magic"}, {"mode": 3}], "SFMT": [{"mode": "numpy"}], "BitGenerator": [{}],
    "ctypes": [{"n": 0}, {"n": 1}, {"n": 2}, {"n": 3}, {"n": 4}],
}.items() for k in ks]


def make_bad(c, kw):
    if c == "ctypes":
        f = [C.CFUNCTYPE(t, C.c_void_p)(lambda p: 0) for t in (C.c_uint64, C.c_uint64, C.c_uint32, C.c_double)]
        n = kw["n"]
        bad = [f[2], f[3], f[0], f[2], 5][n]
        f[n % 4] = bad
        return UserBitGenerator.from_ctypes(*f, C.c_void_p())
    kw = dict(kw)
    if isinstance(kw.get("output"), str) and kw["output"][0] == "f":
        u = C.c_ulonglong
        kw["output"] = [wrong_type(C.c_uint32, u), wrong_type(u, u), wrong_type(C.c_uint32, u, u)][int(kw["output"][1])]
    if c != "RDRAND" and "key" not in kw:
        kw["seed"] = 1
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return (BitGenerator if c == "BitGenerator" else getattr(rg, c))(**kw)


def donor_state(cfg, seed):
    d = gens.make(cfg, seed)
    env.draw(d, b"\1\0\1\1\3")
    return d.state


def leaf(st, where):
    for k in where.split("."):
        st = st[k]
    return st


def attempt(n, cfg, a):
    """perform the attempt; raises what the library raises; returns whether it should have been refused"""
    k = a[0]
    must = False
    if k == "state":
        w = a[1]
        if w in ("torn", "ext-torn", "class"):
            st, where, what = store.damage(a[2], donor_state(cfg, a[3]))
            if w == "class":
                st = donor_state(cfg, a[3])
                st["bit_generator"] = ["Nothing", None, 3][a[2][0] % 3]
                where, what = "bit_generator", "replaced"
                must = True
            else:
                must = store.hopeless(where, what, leaf(donor_state(cfg, a[3]), where))
            x = n.bg if w != "ext-torn" else n.get_ext()
            core.MARK(f"{cfg} state setter: {where} {what}")
            x.state = st
        elif w in ("foreign", "ext-foreign"):
            other = a[4] if gens.CONFIGS[a[4]][0] != gens.CONFIGS[cfg][0] else ("sfc64" if not cfg.startswith("sfc") else "jsf64")
            st = donor_state(other, a[3])
            core.MARK(f"{cfg} state setter: state of {other}")
            (n.bg if w == "foreign" else n.get_ext()).state = st
            must = True
        elif w == "tuple":
            must = True
            core.MARK(f"{cfg} state setter: tuple")
            n.bg.state = bad_tuple(a[2][0], a[3])
        else:
            must = True
            core.MARK(f"{cfg} state setter: not a dictionary")
            n.bg.state = [None, [1, 2], "state", 5][a[2][0] % 4]
    elif k == "seed":
        core.MARK(f"{cfg} seed: {a[1]}")
        n.bg.seed(bad_seed(a[1]))
        must = a[1] in ("neg", "str", "negarr", "float", "floatarr", "nan")
    elif k == "key":
        core.MARK(f"{cfg} seed with keywords: {a[1]}")
        n.bg.seed(**key_args(cfg, a[1], a[2]))
        must = a[1] in ("neg", "huge", "str", "2d", "floatarr", "long", "badcounter", "list-mixed", "key+badcounter", "even") and not (a[1] == "even" and not cfg.startswith("squares")) and not (cfg.startswith("squares") and a[2] % 5 == 2)
    elif k == "with":
        core.MARK(f"{cfg} seed with {a[1]}")
        v = a[2]
        n.bg.seed(n.bg.seed_seq.entropy, **{a[1]: int(v) if isinstance(v, str) and v.isdigit() else v})
        must = True
    elif k == "make":
        c, kw = BADMAKE[a[1]]
        core.MARK(f"{c} made with {sorted(kw)}")
        make_bad(c, kw)
        must = True
    elif k in ("advance", "jump", "jumped"):
        core.MARK(f"{cfg} {k}: {a[1]}")
        getattr(n.bg, k)(bad_adv(a[1]))
        must = a[1] in ("none", "str", "list", "complex")
    else:
        core.MARK(f"{cfg} draw: {a[1]}")
        bad_draw(n, a[1])
        must = a[1] != "mvn-method"
    return must


def run(plan, tr):
    cfg = plan["cfg"]
    tr.sh(cfg, [op[1:3] if op[0] == "try" else op[0] for op in plan["ops"]])
    n, t = life.Node.make(cfg, plan["seed"], plan["ctor"]), life.Node.make(cfg, plan["seed"], plan["ctor"])
    n.get_ext(), t.get_ext()
    for op in plan["ops"]:
        tr.steps += 1
        if op[0] != "try":
            a, b = gens.freeze(n.do(op)), gens.freeze(t.do(op))
            tr.ev(op[0], a)
            if a != b:
                raise Violation(f"{cfg}: the same script gives different results", f"{op}")
            continue
        a = op[1:]
        family = life.kin(n.bg)
        env.reset_os_entropy(7)
        try:
            must = attempt(n, cfg, a)
            err = None
        except Exception as e:
            err = type(e).__name__
        label = core.LAST[0]
        if err == "AttributeError" and a[0] in ("advance", "jump", "jumped") and not life.has(cfg, a[0]):
            err = "unsupported"
        tr.ev(a, err)
        if err is None:
            tr.probe("attempt accepted: " + a[0])
            if must:
                raise Violation(f"{label}: not refused", f"{a}")
            env.reset_os_entropy(7)
            try:
                attempt(t, cfg, a)
            except Exception as e:
                raise Violation(f"{label}: accepted once and refused once", repr(e))
            if a[0] == "state":
                # what is accepted must not be completed from what the generator was before
                u = life.Node.make(cfg, 77 + a[3], plan["ctor"])
                u.do(["d", "0123"[a[2][0] % 4] * (1 + a[2][1] % 3)])
                u.get_ext()
                attempt(u, cfg, a)
                if gens.freeze(u.bg.state) != gens.freeze(n.bg.state):
                    raise Violation(f"{label}: accepted and mixed with the state it replaces", f"{gens.freeze(n.bg.state)[:300]} / {gens.freeze(u.bg.state)[:300]}")
                tr.probe("damaged state accepted as a whole")
        else:
            tr.trivial = False
            if life.kin(n.bg) != family:
                raise Violation(f"{label}: refused, but the children are now another seed's", f"{err}: {family} / {life.kin(n.bg)}")
            tr.fault(f"refused: {a[0]}" + (f" {a[1]}" if a[0] == "state" else ""))
        if gens.freeze(n.bg.state) != gens.freeze(t.bg.state):
            raise Violation(f"{label}: " + ("refused, but the state changed" if err else "accepted with different results"), f"{err}: {gens.freeze(n.bg.state)[:300]} / {gens.freeze(t.bg.state)[:300]}")
        if not env_locked(n.bg):
            raise Violation(f"{label}: leaves the lock held", "")
        # the state may not show everything: copies made through the state only see the state, so look at the stream of the worker itself now and then
    a, b = life.window(n.bg), life.window(t.bg)
    tr.ev(a)
    x, y = ([c.generate_state(3).tolist() for c in g.bg.seed_seq.spawn(2)] for g in (n, t))
    if x != y:
        raise Violation(f"{cfg}: a refused operation changes the children", f"{[op[1:4] for op in plan['ops'] if op[0] == 'try']}")
    if a != b:
        raise Violation(f"{cfg}: a refused operation changes the stream", f"{[op[1:4] for op in plan['ops'] if op[0] == 'try']}")


def env_locked(bg):
    return not bg.lock.locked()
