"""C17: what ExtendedGenerator returns is a fixed function of the words it drew and of its parameters.

One to three threads call one shared bit generator through ExtendedGenerators; its words come from a real stream or
from a script of words that random streams practically never contain.  The ledger tells which words each call got.
Afterwards a reference, made of the documented algebra and of NumPy's normals and chi-squares read from a tape of
those words, says what the call had to return.
"""
import ctypes as C, itertools, warnings
import numpy as np
from sim import core, env, gens, life, sched
from sim.core import Violation
import randomgen as rg

ID = "C17"
CHECK_EVERY = 43
LEADS = [[], [], [], [1], [2], [3], [2, 3], [1, 3], [2, 1], [3, 2, 1]]
FORMS = ["list", "tuple", "plain", "plain", "F", "swap", "rev", "ro", "unal", "small", "strided"]


# ------------------------------------------------------------------ plans
def q(rng, lo, hi, d=4):
    return rng.randrange(int(lo * d), int(hi * d) + 1) / d


def nest(f, shape):
    return f() if not shape else [nest(f, shape[1:]) for _ in range(shape[0])]


def rand_lead(rng):
    return rng.choice(LEADS)


def compat(rng, *leads):
    """leading shapes that broadcast with the first"""
    base = leads[0]
    k = rng.random()
    if k < 0.4:
        return []
    r = [1 if rng.random() < 0.35 else n for n in base]
    return r[rng.randrange(len(r) + 1):]


def rand_tri(rng, n):
    return [[q(rng, 1, 2) if i == j else q(rng, -1, 1) if j < i else 0.0 for j in range(n)] for i in range(n)]


def spd(a):
    a = np.array(a)
    return (a @ a.T).tolist()


def rand_size(rng, lead, zero=True):
    """None or a size that the parameters broadcast to exactly"""
    k = rng.random()
    if k < 0.35:
        return None
    extra = rng.choice([[], [], [1], [2], [4], [1, 3], [2, 1], [5]] + ([[0]] if zero else []))
    if rng.random() < 0.02:
        extra = rng.choice([[64], [127], [130], [16, 17]] + ([[1000]] if not lead else []))
    s = extra + list(lead)
    if not s:
        return rng.choice([None, []])
    if len(s) == 1 and rng.random() < 0.5:
        return s[0]
    return s


def rand_count(rng):
    k = rng.random()
    return rand_size(rng, []) if k < 0.8 else rng.randrange(0, 40) if k < 0.97 else rng.choice([255, 256, 257, 511, 1000, 1023, 1024, 1025, 2049, 4096, 4097, 9001])


def rand_df(rng):
    return rng.randrange(1, 8) if rng.random() < 0.9 else rng.choice([8, 9, 12, 16, 31, 64, 100, 255, 256, 1000])


def rand_op(rng, i):
    k = rng.choice(["u", "r", "r", "cn", "cn", "mvn", "mvn", "sw", "sw", "w", "w", "w", "mcn", "mcn", "bad"])
    e = rng.randrange(2)
    if k == "u":
        return {"k": k, "e": e, "size": rand_count(rng), "bits": rng.choice([32, 64])}
    if k == "r":
        o = {"k": k, "e": e, "size": rand_count(rng), "dtype": rng.choice("dfl"), "name": rng.randrange(3), "out": None}
        if rng.random() < 0.4:
            o["out"] = rng.choice("CF")
            o["shape"] = rng.choice([[3], [2, 3], [4, 1], [2, 2, 2], [0]])
            o["size"] = rng.choice([None, o["shape"]])
        return o
    if k == "cn":
        lead = rng.choice([[], [], [1], [3], [2, 3], [2, 1]])
        one = lambda: [q(rng, -3, 3), q(rng, -3, 3)]  # noqa: E731
        gl = lead if rng.random() < 0.5 else compat(rng, lead)
        rl = lead if rng.random() < 0.4 else compat(rng, lead)
        ll = lead if rng.random() < 0.6 else compat(rng, lead)
        full = list(np.broadcast_shapes(tuple(gl), tuple(rl), tuple(ll)))
        edge = rng.random() < 0.1
        if rng.random() < 0.15:  # nearly singular with unequal variances, both for parts that go along and against each other
            def near(g):
                a = rng.choice([.6, -.6, .28, -.96, .8])
                return [a * g, rng.choice([-1, 1]) * (1 - a * a) ** .5 * g * rng.choice([.9999, 1 - 2.0**-20, 1 - 2.0**-30, .99])]
            g = rng.choice([1.0, 1.0, 2.5])
            return {"k": k, "e": e, "loc": nest(one, ll), "gamma": nest(lambda: g, gl), "rel": nest(lambda: near(g), rl), "size": rand_size(rng, full), "forms": [rng.choice([f for f in FORMS if f != "small"]) for _ in range(3)],
                    "kw": rng.random() < 0.5}
        return {"k": k, "e": e, "loc": nest(one, ll), "gamma": nest(lambda: 1.0 if edge else q(rng, 1, 4), gl),
                "rel": nest(lambda: rng.choice([[1.0, 0.0], [-1.0, 0.0], [0.0, 1.0], [0.0, -1.0], [0.0, 0.0]]) if edge else rng.choice([[q(rng, -.5, .5), q(rng, -.5, .5)], [0.0, 0.0]]), rl),
                "size": rand_size(rng, full), "forms": [rng.choice(FORMS) for _ in range(3)], "kw": rng.random() < 0.5}
    n = rng.choice([1, 2, 2, 3, 4, 4, 6, 8] if rng.random() < 0.95 else [5, 7, 9, 10, 12, 16])
    meth = rng.choice(["svd", "eigh", "cholesky", "cholesky", "factor"])
    if k == "mvn":
        cl = rand_lead(rng)
        ml = compat(rng, cl) if rng.random() < 0.7 else rand_lead(rng)
        try:
            full = list(np.broadcast_shapes(tuple(cl), tuple(ml)))
        except ValueError:
            ml, full = [], cl
        tri = nest(lambda: rand_tri(rng, n) if meth != "factor" else nest(lambda: q(rng, -2, 2), [n, n]), cl)
        size = rand_size(rng, full)
        if isinstance(size, list) and full and rng.random() < 0.2:
            j = len(size) - 1 - rng.randrange(len(full))
            size = size[:j] + [1] + size[j + 1:]  # documented: 1 stands for the size of the parameters
        return {"k": k, "e": e, "mean": nest(lambda: q(rng, -5, 5), ml + [n]), "tri": tri, "n": n, "method": meth, "size": size,
                "forms": [rng.choice(FORMS) for _ in range(2)], "valid": rng.choice(["warn", "raise", "ignore"])}
    if k == "sw":
        return {"k": k, "e": e, "df": rand_df(rng), "n": n, "size": rand_size(rng, []), "rescale": rng.random() < 0.5}
    if k == "w":
        cl = rng.choice([[], [], [], [2], [1], [2, 3], [2, 1]])
        dl = rng.choice([[], [], compat(rng, cl), cl, [2] + cl])
        full = list(np.broadcast_shapes(tuple(cl), tuple(dl)))
        rank = None
        tri = nest(lambda: rand_tri(rng, n) if meth != "factor" else nest(lambda: q(rng, -2, 2), [n, n]), cl)
        if rng.random() < 0.2 and n > 1 and meth != "factor":
            rank = rng.randrange(1, n)
            tri = nest(lambda: [[q(rng, 1, 2) if a == b else 0.0 if a < b else q(rng, -1, 1) for b in range(rank)] for a in range(n)], cl)
        return {"k": k, "e": e, "df": nest(lambda: rand_df(rng), dl), "tri": tri, "n": n, "rank": rank, "method": meth,
                "size": rand_size(rng, full), "forms": [rng.choice(FORMS) for _ in range(2)], "valid": rng.choice(["warn", "raise", "ignore"])}
    if k == "mcn":
        n = rng.choice([1, 2, 2, 3])
        gl = rng.choice([[], [], [2], [1], [2, 3], [3, 1]])
        rl = compat(rng, gl) if rng.random() < 0.6 else gl
        ll = compat(rng, gl) if rng.random() < 0.6 else gl
        full = list(np.broadcast_shapes(tuple(gl), tuple(rl), tuple(ll)))

        def herm():
            m = [[[0.0, 0.0] for _ in range(n)] for _ in range(n)]
            for a in range(n):
                m[a][a] = [3.0 + q(rng, 0, 2), 0.0]
                for b in range(a):
                    x, y = q(rng, -.5, .5), q(rng, -.5, .5)
                    m[a][b], m[b][a] = [x, y], [x, -y]
            return m

        def symm():
            m = [[[0.0, 0.0] for _ in range(n)] for _ in range(n)]
            for a in range(n):
                for b in range(a + 1):
                    m[a][b] = m[b][a] = [q(rng, -.125, .125, 32), q(rng, -.125, .125, 32)]
            return m
        g = None if rng.random() < 0.2 else nest(herm, gl)
        r = None if rng.random() < 0.2 else nest(symm, rl) if g is not None or rl == gl else nest(symm, [])
        if g is None or r is None:
            full = list(np.broadcast_shapes(tuple([] if g is None else gl), tuple([] if r is None else (rl if g is not None or rl == gl else [])), tuple(ll)))
        return {"k": k, "e": e, "loc": nest(lambda: [q(rng, -3, 3), q(rng, -3, 3)], ll + [n]), "gamma": g, "rel": r, "n": n,
                "method": rng.choice(["svd", "eigh", "cholesky", "cholesky"]), "size": rand_size(rng, full), "forms": [rng.choice(FORMS) for _ in range(3)],
                "valid": rng.choice(["warn", "raise", "ignore"])}
    return {"k": "bad", "e": e, "what": rng.randrange(len(BAD))}


def odd_words(rng, n):
    pool = [0, 2**64 - 1, 1, 1 << 63, 2**64 - 2**9, 2**64 - 2**9 - 2**8, 2**64 - 2**8, 0x1FF, 0x100, 0xFF, 2**32 - 1, (2**32 - 1) << 32, 2**64 - 2**11, 2**41 - 1, (2**64 - 1) ^ 1, 2**11 - 1]
    out = []
    for _ in range(n):
        k = rng.random()
        # the zero word ends a ziggurat at once; idx 0 with large magnitude goes to the tail, other indices to the wedge
        out.append(rng.choice(pool) if k < 0.6 else (rng.getrandbits(52) << 9 | rng.getrandbits(9)) if k < 0.7 else (2**64 - 2**9 | rng.getrandbits(9)) if k < 0.85 else rng.getrandbits(64))
    return out


def plan(rng, tier, i):
    nt = rng.choice([1, 1, 1, 2, 2, 3])
    src = rng.random() < 0.4
    cfg = gens.ALL[i % len(gens.ALL)]
    if rng.random() < 0.04:
        cfg = rng.choice(sorted(gens.FOREIGN))
    return {"cfg": cfg, "seed": life.rand_seed(rng, cfg), "odd": odd_words(rng, rng.randrange(1, 200)) if src else None, "oddseed": rng.getrandbits(60),
            "threads": [[rand_op(rng, i) for _ in range(rng.randrange(1, 4 if nt > 1 else 6))] for _ in range(nt)],
            "faults": [[rng.randrange(nt), rng.randrange(1, 6)] for _ in range(rng.choice([0, 0, 0, 1, 2]))], "sched": sched.rand_sched(rng)}


# ------------------------------------------------------- the same numbers in many dresses
def cplx(x):
    a = np.array(x, dtype=np.float64)
    return a[..., 0] + 1j * a[..., 1]


def dress(a, how):
    a = np.array(a)
    if how == "list":
        return a.tolist()
    if how == "tuple":
        def t(x):
            return tuple(t(y) for y in x) if isinstance(x, list) else x
        return t(a.tolist())
    if how == "F":
        return np.asfortranarray(a) if a.ndim else a
    if how == "swap":
        return a.astype(a.dtype.newbyteorder(">"))
    if how == "rev" and a.ndim:
        return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    if how == "strided" and a.ndim:
        b = np.full(a.shape[:-1] + (2 * a.shape[-1],), 7, a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    if how == "ro":
        a = a.copy()
        a.flags.writeable = False
        return a
    if how == "unal" and a.size:
        b = np.zeros(a.nbytes + 1, np.uint8)[1:].view(a.dtype).reshape(a.shape)
        b[...] = a
        return b
    if how == "small":
        if a.dtype.kind == "f" and np.all(a == np.round(a)):
            return a.astype(np.int32)
        return a.astype({"f": np.float32, "c": np.complex64, "i": np.int32}[a.dtype.kind])
    return a


def size_of(s):
    return tuple(s) if isinstance(s, list) else s


# ------------------------------------------------------- calls that must be refused
I2 = np.eye(2)
BAD = [
    ("uintegers of 16 bits", lambda g: g.uintegers(3, bits=16), ValueError),
    ("random of integers", lambda g: g.random(3, dtype=int), TypeError),
    ("random into another dtype", lambda g: g.random(out=np.zeros(3, np.float32)), TypeError),
    ("float random into another dtype", lambda g: g.random(out=np.zeros(3), dtype=np.float32), TypeError),
    ("random into another size", lambda g: g.random(4, out=np.zeros(3)), ValueError),
    ("long double random into another size", lambda g: g.random((3, 1), out=np.zeros(3, np.longdouble), dtype=np.longdouble), ValueError),
    ("random into a strided array", lambda g: g.random(out=np.zeros(6)[::2]), ValueError),
    ("random into a read-only array", lambda g: g.random(out=np.broadcast_to(np.float64(0), (3,))), ValueError),
    ("random into a byte-swapped array", lambda g: g.random(out=np.zeros(3, ">f8")), (ValueError, TypeError)),
    ("random into a list", lambda g: g.random(out=[0.0]), TypeError),
    ("complex_normal with complex gamma", lambda g: g.complex_normal(0, 1 + 1j), ValueError),
    ("complex_normal with complex gamma array", lambda g: g.complex_normal(0, [1, 1 + 1j]), ValueError),
    ("complex_normal with relation beyond gamma", lambda g: g.complex_normal(0, 1, 1.5), ValueError),
    ("complex_normal with relation below -gamma", lambda g: g.complex_normal(0, 1, -1.5), ValueError),
    ("complex_normal with imaginary relation beyond gamma", lambda g: g.complex_normal(0, 1, 1.5j), ValueError),
    ("complex_normal with imaginary relation below -gamma", lambda g: g.complex_normal(0, 1, -1.5j), ValueError),
    ("complex_normal with covariance but no variance", lambda g: g.complex_normal(0, 1, 1 + 0.5j), ValueError),
    ("complex_normal with relation array beyond gamma", lambda g: g.complex_normal(0, 1, [0, 1.5]), ValueError),
    ("complex_normal with relation array below -gamma", lambda g: g.complex_normal(0, 1, [-1.5, 0]), ValueError),
    ("complex_normal with imaginary relation array beyond gamma", lambda g: g.complex_normal(0, [1, 1], [0, 1.5j]), ValueError),
    ("complex_normal with imaginary relation array below -gamma", lambda g: g.complex_normal(0, [1, 1], [0, -1.5j]), ValueError),
    ("complex_normal with an array of covariances but no variance", lambda g: g.complex_normal(0, 1, [0, 1 + 0.5j]), ValueError),
    ("complex_normal with a size below its parameters", lambda g: g.complex_normal([0, 1, 2], 1, 0, size=(1,)), ValueError),
    ("complex_normal with a size across its parameters", lambda g: g.complex_normal([0, 1, 2], 1, 0, size=(3, 1)), ValueError),
    ("complex_normal with another size", lambda g: g.complex_normal(0, [1, 2], 0, size=(2, 3)), ValueError),
    ("complex_normal with parameters that do not broadcast", lambda g: g.complex_normal([0, 1], [1, 2, 3]), ValueError),
    ("multivariate_normal with a scalar mean", lambda g: g.multivariate_normal(0, [[1]]), ValueError),
    ("multivariate_normal with a vector as covariance", lambda g: g.multivariate_normal([0, 0], [1, 1]), ValueError),
    ("multivariate_normal with a covariance of another size", lambda g: g.multivariate_normal([0, 0], np.eye(3)), ValueError),
    ("multivariate_normal with a covariance that is not square", lambda g: g.multivariate_normal([0, 0], np.ones((2, 3))), ValueError),
    ("multivariate_normal with a size below its parameters", lambda g: g.multivariate_normal(np.zeros((2, 3, 2)), I2, size=3), ValueError),
    ("multivariate_normal with an empty size for several means", lambda g: g.multivariate_normal(np.zeros((3, 2)), I2, size=()), ValueError),
    ("multivariate_normal with another size", lambda g: g.multivariate_normal(np.zeros((3, 2)), I2, size=(2,)), ValueError),
    ("multivariate_normal with an unknown check", lambda g: g.multivariate_normal([0, 0], I2, check_valid="other"), ValueError),
    ("multivariate_normal of an indefinite covariance, svd", lambda g: g.multivariate_normal([0, 0], [[1, 2], [2, 1]], check_valid="raise"), ValueError),
    ("multivariate_normal of an indefinite covariance, eigh", lambda g: g.multivariate_normal([0, 0], [[1, 2], [2, 1]], check_valid="raise", method="eigh"), ValueError),
    ("multivariate_normal of an indefinite covariance, cholesky", lambda g: g.multivariate_normal([0, 0], [[1, 2], [2, 1]], method="cholesky"), np.linalg.LinAlgError),
    ("multivariate_normal of an indefinite covariance, warning, svd", lambda g: g.multivariate_normal([0, 0], [[1, 2], [2, 1]]), RuntimeWarning),
    ("multivariate_normal of an indefinite covariance, warning, eigh", lambda g: g.multivariate_normal([0, 0], [[1, 2], [2, 1]], method="eigh"), RuntimeWarning),
    ("multivariate_normal of one indefinite covariance among others", lambda g: g.multivariate_normal([0, 0], [[[1, 0], [0, 1]], [[1, 2], [2, 1]]], check_valid="raise"), ValueError),
    ("wishart of no degrees of freedom", lambda g: g.wishart(0, I2), ValueError),
    ("wishart of negative degrees of freedom", lambda g: g.wishart([3, -1], I2), ValueError),
    ("wishart of an empty df", lambda g: g.wishart([], I2), ValueError),
    ("wishart of a vector", lambda g: g.wishart(3, [1, 1]), ValueError),
    ("wishart of a scale that is not square", lambda g: g.wishart(3, np.ones((2, 3))), ValueError),
    ("wishart of an empty scale", lambda g: g.wishart(3, np.empty((0, 2, 2))), ValueError),
    ("wishart with another size", lambda g: g.wishart([3, 4], I2, size=3), ValueError),
    ("wishart with a size below its parameters", lambda g: g.wishart([[3, 4]], I2, size=2), ValueError),
    ("wishart of an indefinite scale", lambda g: g.wishart(3, [[1, 2], [2, 1]], check_valid="raise"), ValueError),
    ("wishart of an indefinite scale, warning", lambda g: g.wishart(3, [[1, 2], [2, 1]], method="eigh"), RuntimeWarning),
    ("wishart of one indefinite scale among others", lambda g: g.wishart(3, [[[1, 0], [0, 1]], [[1, 2], [2, 1]]], check_valid="raise"), ValueError),
    ("wishart of more than its rank", lambda g: g.wishart(3, np.eye(3), rank=2, check_valid="raise"), ValueError),
    ("multivariate_complex_normal of a scalar", lambda g: g.multivariate_complex_normal(0), ValueError),
    ("multivariate_complex_normal of an empty loc", lambda g: g.multivariate_complex_normal(np.empty((0, 2))), ValueError),
    ("multivariate_complex_normal with another gamma", lambda g: g.multivariate_complex_normal([0, 0], np.eye(3)), ValueError),
    ("multivariate_complex_normal with another relation", lambda g: g.multivariate_complex_normal([0, 0], I2, np.zeros((3, 3))), ValueError),
    ("multivariate_complex_normal with a gamma that is not Hermitian", lambda g: g.multivariate_complex_normal([0, 0], [[1, 0.5j], [0.5j, 1]]), ValueError),
    ("multivariate_complex_normal with a relation that is not symmetric", lambda g: g.multivariate_complex_normal([0, 0], I2, [[0, 0.5j], [-0.5j, 0]]), ValueError),
    ("multivariate_complex_normal with parameters that do not broadcast", lambda g: g.multivariate_complex_normal([0, 0], np.tile(I2, (3, 1, 1)), np.zeros((2, 2, 2))), ValueError),
    ("multivariate_complex_normal with another size", lambda g: g.multivariate_complex_normal([0, 0], np.tile(I2, (3, 1, 1)), size=2), ValueError),
    ("multivariate_complex_normal with relation beyond gamma", lambda g: g.multivariate_complex_normal([0, 0], I2, 2 * I2, check_valid="raise"), ValueError),
    ("multivariate_complex_normal with relation beyond gamma, warning", lambda g: g.multivariate_complex_normal([0, 0], I2, 2 * I2), RuntimeWarning),
]


# ------------------------------------------------------------------ calls
def name_of(o):
    return {"u": f"uintegers({o.get('bits')})", "r": f"random({ {'d': 'float64', 'f': 'float32', 'l': 'longdouble'}.get(o.get('dtype'))})", "cn": "complex_normal", "mvn": "multivariate_normal",
            "sw": "standard_wishart", "w": "wishart", "mcn": "multivariate_complex_normal", "bad": "refused call"}[o["k"]]


DT = {"d": (np.float64, "float64", "d"), "f": (np.float32, "float32", "f"), "l": (np.longdouble, "longdouble", "g")}


def cov_of(o):
    a = np.array(o["tri"], dtype=np.float64)
    return a if o["method"] == "factor" else a @ np.swapaxes(a, -1, -2)


def params(o):
    """the arguments as given, dressed"""
    k = o["k"]
    f = o.get("forms", [])
    if k == "cn":
        return [dress(cplx(o["loc"]), f[0]), dress(np.array(o["gamma"], np.float64), f[1]), dress(cplx(o["rel"]), f[2])]
    if k == "mvn":
        return [dress(np.array(o["mean"], np.float64), f[0]), dress(cov_of(o), f[1])]
    if k == "w":
        return [dress(np.array(o["df"], np.int64), f[0]), dress(cov_of(o), f[1])]
    if k == "mcn":
        return [dress(cplx(o["loc"]), f[0])] + [None if o[x] is None else dress(cplx(o[x]), y) for x, y in (("gamma", f[1]), ("rel", f[2]))]
    return []


def call(g, o, p):
    k, s = o["k"], size_of(o.get("size"))
    if k == "u":
        return g.uintegers(s, bits=o["bits"]) if o["bits"] == 32 or o["e"] else g.uintegers(s)
    if k == "r":
        dt = DT[o["dtype"]][o["name"]]
        if o["out"]:
            out = np.full(tuple(o["shape"]), 2, DT[o["dtype"]][0], order=o["out"])
            r = g.random(s, dt, out)
            if r is not out:
                raise Violation(f"{name_of(o)}: does not return the output array it was given", "")
            return r
        return g.random(s, dt)
    if k == "cn":
        return g.complex_normal(*p, size=s) if o["kw"] else g.complex_normal(loc=p[0], gamma=p[1], relation=p[2], size=s)
    if k == "mvn":
        return g.multivariate_normal(*p, s, o["valid"], method=o["method"])
    if k == "sw":
        return g.standard_wishart(o["df"], o["n"], s, o["rescale"])
    if k == "w":
        return g.wishart(*p, s, check_valid=o["valid"], rank=o["rank"], method=o["method"])
    return g.multivariate_complex_normal(*p, s, check_valid=o["valid"], method=o["method"])


# -------------------------------------------------------------- reference
TAPE = {}


class Tape:
    """the words one call drew, as a source of NumPy's normals and chi-squares"""

    def __init__(self, recs):
        if not TAPE:
            TAPE["bg"] = np.random.PCG64(0)
            env.tape_install(env.bitgen_of(TAPE["bg"]))
            TAPE["gen"] = np.random.Generator(TAPE["bg"])
        self.n = len(recs)
        self.k = bytes({0: 1, 1: 2, 2: 3, 3: 0}[r[3]] for r in recs)
        self.v = (env.u64 * max(self.n, 1))(*(r[0] for r in recs))
        env.tape_config(64, 1, 1, 1)
        env.tape_load(self.k, self.v, self.n)
        self.normals = TAPE["gen"].standard_normal
        self.chi2 = TAPE["gen"].chisquare

    def close(self, what):
        if env.tape_err():
            raise Violation(f"{what}: draws other words than its variates need", f"{self.n} words drawn, used {env.tape_used()} or of another width")
        if env.tape_used() != self.n:
            raise Violation(f"{what}: draws more words than its variates need", f"{self.n} words drawn, {env.tape_used()} needed")


def close(a, b, scale=1.0):
    a, b = np.asarray(a), np.asarray(b)
    with np.errstate(all="ignore"):
        ok = (np.abs(a - b) <= 1e-8 * (scale + np.abs(b))) | (a == b) | (np.isnan(a) & np.isnan(b))
    return bool(np.all(ok))


def standard(t, df, n, num):
    """num standard Wishart variates (Odell and Feiveson, or inner products of normals)"""
    out = np.empty((num, n, n))
    if df < n:
        z = t.normals((num, df, n))
        return np.swapaxes(z, -1, -2) @ z
    for k in range(num):
        u = np.zeros((n, n))
        for i in range(n):
            u[i, i] = np.sqrt(t.chi2(df - i))
            for j in range(i + 1, n):
                u[i, j] = t.normals()
        out[k] = u.T @ u
    return out


def lead_of(size, full):
    """documented output shape (without the sample's own dimensions)"""
    if size is None:
        return tuple(full)
    s = (size,) if isinstance(size, int) else tuple(size)
    k = len(full)
    return s[:len(s) - k] + tuple(a if b == 1 else b for a, b in zip(s[len(s) - k:], full))


def shape_check(o, r, want, dtype):
    if np.shape(r) != want:
        raise Violation(f"{name_of(o)}: wrong shape", f"{np.shape(r)} instead of {want} for size {o.get('size')}")
    if want and r.dtype != dtype:
        raise Violation(f"{name_of(o)}: wrong type", f"{r.dtype}")


def wrong(o, got, want):
    raise Violation(f"{name_of(o)}: not the documented function of the words and parameters", f"{brief(o)}: got {gens.freeze(np.asarray(got))[:150]}, expected {gens.freeze(np.asarray(want))[:150]}")


def brief(o):
    return {k: v for k, v in o.items() if k not in ("mean", "loc", "tri")}


def pairs(o, groups, x, z, inner_x, inner_z):
    """x and z agree up to an orthogonal transformation that all members of a group share"""
    for idx in groups:
        idx = idx[:8]
        for a, b in itertools.combinations_with_replacement(idx, 2):
            u, v = inner_x(x[a], x[b], a), inner_z(z[a], z[b])
            big = np.sqrt(abs(inner_z(z[a], z[a]) * inner_z(z[b], z[b])))
            if not close(u, v, 1 + big):
                wrong(o, u, v)


def groups_of(index):
    g = {}
    for i, k in enumerate(index):
        g.setdefault(k, []).append(i)
    return list(g.values())


def gaussian(o, t, dev, cov, lead, clead, n):
    """dev: deviations from the mean, lead + (n,)"""
    z = t.normals(lead + (n,)).reshape(-1, n)
    dev = dev.reshape(-1, n)
    idx = np.broadcast_to(np.arange(int(np.prod(clead, dtype=int))).reshape(clead), lead).reshape(-1).tolist()
    cov = cov.reshape(-1, n, n)
    if o["method"] == "cholesky" or o["method"] == "factor":
        f = np.array([np.linalg.cholesky(c) for c in cov]) if o["method"] == "cholesky" else cov
        want = np.array([f[k] @ zz for k, zz in zip(idx, z)]).reshape(dev.shape)
        if not close(dev, want, 10):
            wrong(o, dev, want)
        return
    inv = np.array([np.linalg.inv(c) for c in cov])
    pairs(o, groups_of(idx), dev, z, lambda a, b, i: a @ inv[idx[i]] @ b, lambda a, b: a @ b)


def judge(o, r, recs, tr):
    k = o["k"]
    nm = name_of(o)
    s = size_of(o.get("size"))
    v = [x[0] for x in recs]
    if k == "u":
        want = () if s is None else lead_of(o["size"], [])
        shape_check(o, r, want, np.uint64 if o["bits"] == 64 else np.uint32)
        kind = 0 if o["bits"] == 64 else 1
        if any(x[3] != kind for x in recs) or np.ravel(np.asarray(r, dtype=np.uint64)).tolist() != v:
            wrong(o, r, np.array(v, np.uint64))
        return
    if k == "r":
        want = tuple(o["shape"]) if o["out"] else () if s is None else lead_of(o["size"], [])
        shape_check(o, r, want, DT[o["dtype"]][0])
        a = np.asarray(r)
        if not np.all((a >= 0) & (a < 1)):
            raise Violation(f"{nm}: outside [0, 1)", f"{a.reshape(-1)[~((a >= 0) & (a < 1)).reshape(-1)][:3]!r}")
        kind = {"d": 2, "f": 1, "l": 0}[o["dtype"]]
        if any(x[3] != kind for x in recs) or len(v) != a.size:
            raise Violation(f"{nm}: draws other words than its variates need", f"{a.size} values from {len(v)} words")
        if o["dtype"] == "d":
            w = np.array(v, np.uint64).view(np.float64)
        elif o["dtype"] == "f":
            w = np.array([(x >> 9) * 2.0**-23 for x in v], np.float32)
        else:
            w = np.array([np.longdouble(x) * np.longdouble(2) ** -64 for x in v], np.longdouble)
        if not np.array_equal(a.ravel("K"), w):
            wrong(o, a.ravel("K").astype(np.float64), w.astype(np.float64))
        return
    t = Tape(recs)
    if k == "cn":
        loc, gam, rel = cplx(o["loc"]), np.array(o["gamma"], np.float64), cplx(o["rel"])
        full = np.broadcast_shapes(loc.shape, gam.shape, rel.shape)
        lead = lead_of(o["size"], full)
        shape_check(o, r, lead, np.complex128)
        z = t.normals(lead + (2,))
        t.close(nm)
        vr, vi, c = 0.5 * (gam + rel.real), 0.5 * (gam - rel.real), 0.5 * rel.imag + 0 * gam
        with np.errstate(all="ignore"):
            rho = np.where((vr > 0) & (vi > 0), c / np.sqrt(vr * vi), 0.0)
        w = loc + np.sqrt(vr) * z[..., 0] + 1j * np.sqrt(vi) * (rho * z[..., 0] + np.sqrt(np.maximum(1 - rho * rho, 0)) * z[..., 1])
        if not close(r, w, 10):
            wrong(o, r, w)
        return
    n = o["n"]
    if k == "mvn":
        mean, cov = np.array(o["mean"]), cov_of(o)
        full = np.broadcast_shapes(mean.shape[:-1], cov.shape[:-2])
        lead = lead_of(o["size"], full)
        shape_check(o, r, lead + (n,), np.float64)
        gaussian(o, t, np.asarray(r) - mean, cov, lead, cov.shape[:-2], n)
    elif k == "mcn":
        loc = cplx(o["loc"])
        g = np.eye(n) + 0j if o["gamma"] is None else cplx(o["gamma"])
        c = np.zeros((n, n)) + 0j if o["rel"] is None else cplx(o["rel"])
        clead = np.broadcast_shapes(g.shape[:-2], c.shape[:-2])
        full = np.broadcast_shapes(loc.shape[:-1], clead)
        lead = lead_of(o["size"], full)
        shape_check(o, r, lead + (n,), np.complex128)
        cov = np.empty(clead + (2 * n, 2 * n))
        p, m = 0.5 * (g + c), 0.5 * (c - g)
        cov[..., ::2, ::2], cov[..., ::2, 1::2] = p.real, m.imag
        cov[..., 1::2, ::2], cov[..., 1::2, 1::2] = p.imag, -m.real
        d = np.asarray(r) - loc
        dev = np.stack([d.real, d.imag], -1).reshape(lead + (2 * n,))
        gaussian(o, t, dev, cov, lead, clead, 2 * n)
    elif k == "sw":
        lead = lead_of(o["size"], [])
        shape_check(o, r, lead + (n, n), np.float64)
        w = standard(t, o["df"], n, int(np.prod(lead, dtype=int))).reshape(lead + (n, n))
        if o["rescale"]:
            w = w / o["df"]
        if not close(r, w, 1):
            wrong(o, r, w)
    else:
        df, cov = np.array(o["df"]), cov_of(o)
        full = np.broadcast_shapes(df.shape, cov.shape[:-2])
        lead = lead_of(o["size"], full)
        shape_check(o, r, lead + (n, n), np.float64)
        cnt = int(np.prod(full, dtype=int))
        block = int(np.prod(lead[:len(lead) - len(full)], dtype=int))
        dfs = np.broadcast_to(df, full).reshape(-1)
        which = np.broadcast_to(np.arange(int(np.prod(cov.shape[:-2], dtype=int))).reshape(cov.shape[:-2]), full).reshape(-1)
        st = np.stack([standard(t, int(dfs[i]), n, block) for i in range(cnt)], 1) if cnt else np.empty((block, 0, n, n))
        got = np.asarray(r).reshape(block, cnt, n, n)
        if not close(got, np.swapaxes(got, -1, -2), 10):
            raise Violation("wishart: not symmetric", f"{brief(o)}")
        cov = cov.reshape(-1, n, n)
        idx = np.broadcast_to(which, (block, cnt)).reshape(-1).tolist()
        got, st = got.reshape(-1, n, n), st.reshape(-1, n, n)
        if o["rank"] is not None:
            deficient(o, got, st, cov, idx)
        elif o["method"] in ("cholesky", "factor"):
            f = np.array([np.linalg.cholesky(c) for c in cov]) if o["method"] == "cholesky" else cov
            want = np.array([f[k] @ x @ f[k].T for k, x in zip(idx, st)]).reshape(got.shape)
            if not close(got, want, 10):
                wrong(o, got, want)
        else:
            inv = np.array([np.linalg.inv(c) for c in cov])
            pairs(o, groups_of(idx), got, st, lambda a, b, i: np.trace(inv[idx[i]] @ a @ inv[idx[i]] @ b), lambda a, b: np.trace(a @ b))
            for k, a, b in zip(idx, got, st):
                if not close(np.trace(inv[k] @ a), np.trace(b), 1 + np.trace(b)):
                    wrong(o, a, b)
    t.close(nm)


def deficient(o, got, st, cov, idx):
    """scales of the given rank: the variates lie in their column space and consist of rank rows of the standard ones"""
    n, rank = o["n"], o["rank"]
    for k, a, b in zip(idx, got, st):
        s = np.linalg.svd(cov[k])[1]
        pinv = np.linalg.pinv(cov[k], rcond=1e-9, hermitian=True)
        proj = cov[k] @ pinv
        if not close(proj @ a, a, 10 + np.abs(a).max()):
            raise Violation("wishart: leaves the column space of its scale", f"{brief(o)}")
        if np.sum(s > 1e-9 * max(s[0], 1e-300)) < rank:
            continue
        got_t = np.trace(pinv @ a)
        if not any(abs(got_t - np.trace(b[np.ix_(c, c)])) <= 1e-6 * (1 + np.trace(b)) for c in itertools.combinations(range(n), rank)):
            wrong(o, got_t, np.trace(b))


# -------------------------------------------------------------------- run
def freeze_params(p):
    return [gens.freeze(np.asarray(x)) if x is not None else None for x in p]


def run(plan, tr):
    th = plan["threads"]
    bg = gens.make(plan["cfg"], plan["seed"])
    b = env.bitgen_of(bg)
    keep = env.Bitgen(b[0].state, b[0].n64, b[0].n32, b[0].nd, b[0].nraw)
    if plan["odd"] is not None:
        env.odd_install(b, 0, plan["oddseed"], (env.u64 * len(plan["odd"]))(*plan["odd"]), len(plan["odd"]))
        tr.fault("scripted words", len(plan["odd"]))
    env.tramp_install(b, 0, 0, 1)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("error")
            execute(plan, tr, bg, th)
    finally:
        env.tramp_remove(b)
        b[0] = keep


def execute(plan, tr, bg, th):
    ext = [rg.ExtendedGenerator(bg) for _ in range(2)]
    tr.sh(plan["cfg"] if plan["odd"] is None else plan["odd"], th)
    env.ledger_reset()
    res, arr, cur = {}, {}, [0] * len(th)

    def body(t):
        for j, o in enumerate(th[t]):
            cur[t] = j
            env.set_op(j)
            env.sim_yield()
            core.MARK(f"{plan['cfg']} {name_of(o)}")
            g = ext[o["e"]]
            if o["k"] == "bad":
                what, f, exc = BAD[o["what"]]
                try:
                    f(g)
                except env.SimInterrupt:
                    continue
                except exc:
                    res[t, j] = "refused"
                    tr.probe("refused")
                    continue
                raise Violation(f"{what}: not refused", "")
            p = params(o)
            before = freeze_params(p)
            try:
                r = call(g, o, p)
            except env.SimInterrupt:
                continue
            if freeze_params(p) != before:
                raise Violation(f"{name_of(o)}: changes its parameters", f"{brief(o)}")
            if isinstance(r, np.ndarray) and any(isinstance(x, np.ndarray) and np.shares_memory(x, r) for x in p):
                raise Violation(f"{name_of(o)}: the result shares memory with a parameter", f"{brief(o)}")
            res[t, j] = r
            arr[t, j] = gens.freeze(r)

    err = sched.run(plan, [body] * len(th), tr, plan["faults"])
    tr.trivial = False
    for e in err:
        if isinstance(e, Violation):
            raise e
    for t, e in enumerate(err):
        if e is not None:
            o = th[t][cur[t]]
            if o["k"] == "bad":
                raise Violation(f"{BAD[o['what']][0]}: {type(e).__name__} instead of being refused", repr(e)[:300])
            raise Violation(f"{name_of(o)}: {type(e).__name__} for valid parameters", f"{brief(o)}: {e!r}"[:400])
    words = {}
    for rec in env.ledger():
        words.setdefault((rec[1], rec[4]), []).append(rec)
    tr.probe("words drawn", sum(len(x) for x in words.values()))
    env_ok = warnings.catch_warnings()
    with env_ok:
        warnings.simplefilter("ignore")
        for (t, j), r in sorted(res.items()):
            o = th[t][j]
            recs = words.get((t, j), [])
            if o["k"] == "bad":
                if recs:
                    raise Violation(f"{BAD[o['what']][0]}: draws before it refuses", f"{len(recs)} words")
                tr.ev("refused", o["what"])
                continue
            if arr[t, j] != gens.freeze(r):
                raise Violation(f"{name_of(o)}: the result changes afterwards", f"{brief(o)}")
            judge(o, r, recs, tr)
            tr.probe(name_of(o))
            if o["k"] == "w" and np.ndim(o["df"]) == 0 and np.ndim(o["tri"]) == 2:
                tr.probe("wishart of one df and scale")
            if o.get("rank") is not None:
                tr.probe("reduced rank")
            if plan["odd"] is not None and recs:
                tr.probe("made of scripted words")
            tr.ev(o["k"], arr[t, j])
