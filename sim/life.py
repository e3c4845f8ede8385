"""The life of one generator: operations (JSON) and their execution against the real code."""
import random
import warnings
import numpy as np
from sim import core, env, gens
import randomgen as rg

warnings.simplefilter("ignore")

BIG = [0, 1, 2, 3, 7, 2**31, 2**32 - 1, 2**32, 2**63, 2**64 - 1]
BLOCKS = [2, 4, 8, 16, 31, 32, 64, 128, 156, 191, 256, 312, 320, 382, 384, 512, 624, 1024]


def rand_seed(rng, cfg):
    """seeds as JSON; 'numpy_seed' MT19937 accepts what numpy's legacy seeding accepts"""
    k = rng.random()
    lim = 32 if cfg == "mt19937-np" else 64
    if k < 0.35:
        return rng.randrange(2**32)
    if k < 0.5:
        return rng.choice([b for b in BIG if b < 2**lim])
    if k < 0.6 and lim == 64:
        return rng.getrandbits(100)
    if k < 0.75:
        return [rng.randrange(2**lim) for _ in range(rng.randrange(1, 5))]
    return {"ss": rng.getrandbits(64), "spawn": [rng.randrange(4) for _ in range(rng.randrange(3))], "rg": rng.random() < 0.5}


def rand_ctor(rng, cfg):
    """extra constructor arguments: counters close to their carries, explicit keys"""
    c = gens.CONFIGS[cfg][0]
    kw = {}
    if c in ("AESCounter", "SPECK128") and rng.random() < 0.5:
        kw["counter"] = near(rng, (64, 128))
    elif c == "ChaCha" and rng.random() < 0.5:
        kw["counter"] = near(rng, (32, 64, 128))
    elif c in ("Philox", "ThreeFry") and rng.random() < 0.5:
        k = gens.CONFIGS[cfg][1]
        w, n = k.get("width", 64), k.get("number", 4)
        kw["counter"] = near(rng, [w * i for i in range(1, n + 1)])
    elif c == "Squares" and rng.random() < 0.5:
        kw["counter"] = near(rng, (32, 64)) % 2**64
    return kw


def near(rng, bits):
    top = max(bits)
    if rng.random() < 0.2:
        return rng.getrandbits(top)
    v = 2 ** rng.choice(bits) - rng.randrange(0, 40)
    if rng.random() < 0.3:
        v += rng.getrandbits(top) & ~((1 << rng.choice(bits)) - 1)
    return v % 2**top


KINDS = ["0", "1", "2", "3"]


def rand_kinds(rng, n):
    m = rng.random()
    if m < 0.25:
        return rng.choice(KINDS) * n
    if m < 0.5:
        a, b = rng.sample(KINDS, 2)
        return "".join(rng.choice((a, b)) for _ in range(n))
    return "".join(rng.choice(KINDS) for _ in range(n))


def rand_draw(rng, cfg, rich=True):
    k = rng.random()
    n = rng.randrange(1, 9) if rng.random() < 0.7 else rng.randrange(1, 70)
    if k < 0.4 or not rich:
        return ["d", rand_kinds(rng, n)]
    if k < 0.5:
        b = rng.choice(BLOCKS) + rng.randrange(-2, 3)
        return ["skip", max(1, b)]
    if k < 0.6:
        return ["raw", rng.choice([None, 1, n, [2, n]])]
    if k < 0.7:
        return [rng.choice(["ct", "cffi"]), rand_kinds(rng, n).replace("3", "0")]
    if k < 0.85:
        return ["np", rng.choice(["random", "random32", "u64", "u32", "u8", "normal", "expo", "bytes", "perm", "bounded", "scalar"]), n]
    return ["ext", rng.choice(["u64", "u32", "d", "f", "ld", "cn", "wish", "cn0", "u32s", "u64s", "mvn"]), n]


def has(cfg, what):
    return hasattr(gens.CLS[cfg], what)


def rand_advance(rng, cfg):
    """["adv", delta, counter flag]; any size, also wrapped and negative"""
    c = gens.CONFIGS[cfg][0]
    bits = {"AESCounter": 129, "SPECK128": 129, "PCG32": 64, "Squares": 64}.get(c, 128)
    k = rng.random()
    if k < 0.5:
        d = rng.randrange(1, 200)
    elif k < 0.75:
        d = 2 ** rng.randrange(0, bits) + rng.randrange(-3, 4)
    else:
        d = rng.getrandbits(bits)
    if c == "Squares":
        d %= 2**64
    elif rng.random() < 0.15:
        d = -d
    if not d:
        d = 1
    return ["adv", str(d), None if c not in ("Philox", "ThreeFry") else rng.random() < 0.4]


SPECIAL = [0, 0, 1, 2**64 - 1, 2**63, 2**32 - 1, (2**32 - 1) << 32, 2**31, 2**32, 0x7FF]


def craft(state, seed):
    """a state dictionary whose words (in buffers, tables, keys, halves) are special ones"""
    rng = random.Random(seed)
    p = rng.choice([0.5, 0.1])

    def edit(d):
        for k, v in sorted(d.items()):
            if isinstance(v, dict):
                edit(v)
            elif k == "round_key":
                pass  # SPECK128 keeps each one twice
            elif isinstance(v, np.ndarray) and v.size and v.dtype.kind == "u":
                for j in range(v.size):
                    if rng.random() < p:
                        w = rng.choice(SPECIAL) & (2 ** (8 * v.dtype.itemsize) - 1)
                        v.flat[j] = w if not dsfmt else 1023 << 52 | w & (2**52 - 1)
                if not v.any():
                    v.flat[0] = 1
            elif isinstance(v, np.ndarray) and v.dtype.kind == "f":
                for j in range(v.size):
                    if rng.random() < p:
                        v.flat[j] = rng.choice([1.0, 1.5, 2 - 2.0**-52])
            elif k in ("uinteger", "state", "lcg_state", "x", "a", "w") and type(v) is int and v >> 8 and rng.random() < p:
                d[k] = rng.choice(SPECIAL) & (2**32 - 1 if k == "uinteger" or v < 2**32 else 2**64 - 1)
    dsfmt = state["bit_generator"].endswith("DSFMT")
    edit(state)
    if "has_uint32" in state and rng.random() < 0.3:
        state["has_uint32"], state["uinteger"] = 1, rng.choice(SPECIAL) & (2**32 - 1)
    return state


def rand_move(rng, cfg):
    if rng.random() < 0.15:
        return ["craft", rng.randrange(2**32)]
    ch = [x for x in ("advance", "jump") if has(cfg, x)]
    if gens.CONFIGS[cfg][0] == "PCG64DXSM":
        ch = ["advance"]
    if not ch:
        return None
    if rng.choice(ch) == "advance":
        return rand_advance(rng, cfg)
    return ["jump", rng.choice([1, 1, 2, 3])]


class Node:
    """a generator object with its consumers"""
    watch, lost = False, None  # whether states are read back after they were set; one that was not there

    def __init__(self, cfg, bg, ext=None):
        self.cfg, self.bg = cfg, bg
        self.ext = ext
        self._np = None

    @classmethod
    def make(cls, cfg, seed, ctor=None):
        return cls(cfg, gens.make(cfg, seed, **(ctor or {})))

    def get_ext(self):
        if self.ext is None:
            self.ext = rg.ExtendedGenerator(self.bg)
        return self.ext

    def get_np(self):
        if self._np is None:
            self._np = np.random.Generator(self.bg)
        return self._np

    def do(self, op):
        core.MARK(f"{self.cfg} {op[0]} {op[1] if op[0] in ('np', 'ext') else ''}")
        return getattr(self, "op_" + op[0])(*op[1:])

    def op_d(self, kinds):
        return env.draw(self.bg, bytes(int(c) for c in kinds))

    def op_skip(self, n):
        env.skip(self.bg, n)

    def op_raw(self, size):
        return self.bg.random_raw(tuple(size) if isinstance(size, list) else size)

    def _iface(self, i, kinds, cffi):
        f = (i.next_uint64, i.next_uint32, i.next_double)
        return [f[int(c)](i.state) for c in kinds]

    def op_ct(self, kinds):
        return self._iface(self.bg.ctypes, kinds, False)

    def op_cffi(self, kinds):
        return self._iface(self.bg.cffi, kinds, True)

    def op_np(self, what, n):
        g = self.get_np()
        return {
            "random": lambda: g.random(n),
            "random32": lambda: g.random(n, dtype=np.float32),
            "u64": lambda: g.integers(0, 2**64 - 1, n, dtype=np.uint64, endpoint=True),
            "u32": lambda: g.integers(0, 2**32 - 1, n, dtype=np.uint32, endpoint=True),
            "u8": lambda: g.integers(0, 255, n, dtype=np.uint8, endpoint=True),
            "normal": lambda: g.standard_normal(n),
            "expo": lambda: g.standard_exponential(n),
            "bytes": lambda: g.bytes(n),
            "perm": lambda: g.permutation(n),
            "bounded": lambda: g.integers(0, 1000003, n),
            "scalar": lambda: (g.random(), int(g.integers(10)), g.standard_normal()),
        }[what]()

    def op_ext(self, what, n):
        g = self.get_ext()
        return {
            "u64": lambda: g.uintegers(n, 64),
            "u32": lambda: g.uintegers(n, 32),
            "u64s": lambda: g.uintegers(None, 64),
            "u32s": lambda: g.uintegers(None, 32),
            "d": lambda: g.random(n),
            "f": lambda: g.random(n, dtype=np.float32),
            "ld": lambda: g.random(n, dtype=np.longdouble).astype(np.float64),
            "cn": lambda: g.complex_normal(0.5, 2.0, 0.25, size=n),
            "cn0": lambda: g.complex_normal(),
            "wish": lambda: g.standard_wishart(5, 2, size=min(n, 5)),
            "mvn": lambda: g.multivariate_normal([0.0, 1.0], [[2.0, 0.5], [0.5, 1.0]], size=n, method="cholesky"),
        }[what]()

    def op_adv(self, delta, flag=None):
        d = int(delta)
        if flag is None:
            r = self.bg.advance(d)
        else:
            r = self.bg.advance(d, flag)
        return None

    def op_craft(self, seed):
        st = craft(self.bg.state, seed)
        self.bg.state = st
        if self.watch and gens.freeze(self.bg.state) != gens.freeze(st):
            self.lost = f"{st} / {self.bg.state}"

    def op_jump(self, k):
        self.bg.jump(k)

    def op_reseed(self, seed):
        gens.reseed(self.bg, self.cfg, seed)


PROBE = "1301201113"  # a mixed-width window compared after an operation


def window(bg, n=2):
    return env.draw(bg, bytes(int(c) for c in PROBE) * n)


KEYBITS = {"AESCounter": 128, "ChaCha": 256, "SPECK128": 256, "HC128": 256}


def rand_key(rng, cfg):
    """keyword arguments of an explicitly keyed generator, or None"""
    c, k = gens.CONFIGS[cfg]
    if c in KEYBITS:
        b = KEYBITS[c]
    elif c == "Philox":
        b = k.get("width", 64) * k.get("number", 4) // 2
    elif c == "ThreeFry":
        b = k.get("width", 64) * k.get("number", 4)
    elif c == "Squares":
        return {"key": rng.getrandbits(64) | 1}
    else:
        return None
    return {"key": rng.choice([rng.getrandbits(b), rng.getrandbits(b), 1, 2**b - 1, 0])}


def kin(bg):
    """what the children of a generator come from"""
    s = bg.seed_seq
    return [text(getattr(s, x, None)) for x in ("entropy", "spawn_key", "pool_size", "n_children_spawned")]


def text(v):
    return hex(v) if isinstance(v, int) else gens.freeze(v)
