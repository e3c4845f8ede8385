"""Catalogue of bit generator configurations.  Everything a plan says about a generator is JSON."""
import ctypes as C, warnings
from sim import env
import numpy as np
import randomgen as rg
from randomgen.wrapper import UserBitGenerator

M64, M128 = (1 << 64) - 1, (1 << 128) - 1

# name -> (class name, constructor kwargs)
CONFIGS = {
    "aes": ("AESCounter", {}),
    "chacha8": ("ChaCha", {"rounds": 8}),
    "chacha20": ("ChaCha", {}),
    "chacha2": ("ChaCha", {"rounds": 2}),
    "dsfmt": ("DSFMT", {}),
    "efiix64": ("EFIIX64", {}),
    "hc128": ("HC128", {}),
    "jsf64": ("JSF", {}),
    "jsf64-s3": ("JSF", {"seed_size": 3}),
    "jsf64-pqr": ("JSF", {"p": 39, "q": 11, "r": 0}),
    "jsf32": ("JSF", {"size": 32}),
    "jsf32-s2": ("JSF", {"size": 32, "seed_size": 2}),
    "lxm": ("LXM", {}),
    "lxm-b": ("LXM", {"b": 3202034522624059733}),
    "mt19937": ("MT19937", {}),
    "mt19937-np": ("MT19937", {"numpy_seed": True}),
    "mt64": ("MT64", {}),
    "pcg32": ("PCG32", {}),
    "pcg32-inc": ("PCG32", {"inc": 12345}),
    "pcg64": ("PCG64", {}),
    "pcg64-xsl": ("PCG64", {"variant": "xsl-rr"}),
    "pcg64-dxsm": ("PCG64", {"variant": "dxsm"}),
    "pcg64-dxsm128": ("PCG64", {"variant": "dxsm-128"}),
    "pcg64-inc": ("PCG64", {"inc": 0xDA3E39CB94B95BDB}),
    "pcg64-np": ("PCG64", {"variant": "xsl-rr", "numpy_seed": True}),
    "pcg64dxsm": ("PCG64DXSM", {}),
    "lcg-xsl": ("LCG128Mix", {}),
    "lcg-dxsm": ("LCG128Mix", {"output": "dxsm"}),
    "lcg-murmur": ("LCG128Mix", {"output": "murmur3"}),
    "lcg-upper": ("LCG128Mix", {"output": "upper", "post": False}),
    "lcg-lower": ("LCG128Mix", {"output": "lower", "multiplier": 25096281518912105342191851917838718629}),
    "lcg-dxsm2": ("LCG128Mix", {"output": "dxsm", "post": False, "dxsm_multiplier": 0xDA942042E4DD58B5,
                                "multiplier": 0xDA942042E4DD58B5}),
    "philox4x64": ("Philox", {}),
    "philox2x64": ("Philox", {"number": 2}),
    "philox4x32": ("Philox", {"width": 32}),
    "philox2x32": ("Philox", {"number": 2, "width": 32}),
    "philox-np": ("Philox", {"numpy_seed": True}),
    "threefry4x64": ("ThreeFry", {}),
    "threefry2x64": ("ThreeFry", {"number": 2}),
    "threefry4x32": ("ThreeFry", {"width": 32}),
    "threefry2x32": ("ThreeFry", {"number": 2, "width": 32}),
    "romu-quad": ("Romu", {}),
    "romu-trio": ("Romu", {"variant": "trio"}),
    "sfc64": ("SFC64", {}),
    "sfc64-wk": ("SFC64", {"w": None, "k": None}),
    "sfc64-k3": ("SFC64", {"w": 7, "k": 0xF0F0F0F0F0F0F0F1}),
    "sfc64-np": ("SFC64", {"numpy_seed": True}),
    "sfmt": ("SFMT", {}),
    "speck": ("SPECK128", {}),
    "speck13": ("SPECK128", {"rounds": 13}),
    "squares64": ("Squares", {}),
    "squares32": ("Squares", {"variant": 32}),
    "tyche": ("Tyche", {}),
    "tyche-or": ("Tyche", {"original": False}),
    "tyche-idx": ("Tyche", {"idx": 3}),
    "xoroshiro": ("Xoroshiro128", {}),
    "xoroshiro++": ("Xoroshiro128", {"plusplus": True}),
    "xorshift1024": ("Xorshift1024", {}),
    "xoshiro256": ("Xoshiro256", {}),
    "xoshiro512": ("Xoshiro512", {}),
}


class UserOutput:
    """the output functions a user may give to LCG128Mix, with what they compute and a record of their calls"""
    calls = []

    @staticmethod
    def mix(hi, lo):
        z = (hi ^ (lo >> 30)) * 0xBF58476D1CE4E5B9 & M64
        return (z ^ z >> 27 ^ lo << 1) & M64

    @staticmethod
    def python(hi, lo):
        UserOutput.calls.append(hi << 64 | lo)
        if env.sim_tid() >= 0:
            env.sim_yield()
        return UserOutput.mix(hi, lo)

    @staticmethod
    def get(kind):
        if kind == "@py":
            f = C.CFUNCTYPE(C.c_ulonglong, C.c_ulonglong, C.c_ulonglong)(UserOutput.python)
        else:
            f = C.cast(env.lib.sim_lcg_mix, C.CFUNCTYPE(C.c_ulonglong, C.c_ulonglong, C.c_ulonglong))
        f.model = lambda s, _: UserOutput.mix(s >> 64, s & M64)
        return f


ALL = list(CONFIGS)
NUMPY_MODE = {n for n, (_, k) in CONFIGS.items() if k.get("numpy_seed")}
# words of 32 bits are native: next_raw gives 32 bits
NATIVE32 = {n for n in ALL if n.startswith(("jsf32", "mt19937", "pcg32")) or n.endswith("x32")}
# NumPy's own bit generators, which randomgen's consumers take too
FOREIGN = {"np:MT19937": ("numpy.MT19937", {}), "np:PCG64": ("numpy.PCG64", {}), "np:PCG64DXSM": ("numpy.PCG64DXSM", {}),
           "np:Philox": ("numpy.Philox", {}), "np:SFC64": ("numpy.SFC64", {})}
# generators of a user, derived from randomgen's
DERIVED = {"my:PCG64": ("MyPCG64", {"variant": "dxsm"}), "my:SFC64": ("MySFC64", {}), "my:ChaCha": ("MyChaCha", {"rounds": 12}),
           "my:DSFMT": ("MyDSFMT", {}), "my:Romu": ("MyRomu", {"variant": "trio"})}
CONFIGS.update(FOREIGN)
CONFIGS.update(DERIVED)


class MyPCG64(rg.PCG64):
    pass


class MySFC64(rg.SFC64):
    pass


class MyChaCha(rg.ChaCha):
    pass


class MyDSFMT(rg.DSFMT):
    pass


class MyRomu(rg.Romu):
    pass


CLS = {n: getattr(np.random, n[3:]) if n in FOREIGN else globals()[c] if n in DERIVED else getattr(rg, c) for n, (c, _) in CONFIGS.items()}


def make(name, seed, **extra):
    """a new generator of a configuration; seed is an int, a list of ints, {"ss": entropy, "spawn": [..]} """
    c, kw = CONFIGS[name]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return CLS[name](seed_of(seed), **{**kw, **extra})


def seed_of(s):
    if isinstance(s, dict):
        ss = (rg.SeedSequence if s.get("rg") else np.random.SeedSequence)(s["ss"], spawn_key=tuple(s.get("spawn", ())))
        return ss
    if isinstance(s, list):
        return np.array(s, dtype=np.uint64)
    return s


def numpy_mode_seed(name, s):
    """numpy_seed configurations are seeded the numpy way; MT19937 there wants 32-bit seeds"""
    return s


def reseed(bg, name, seed, **extra):
    """bg.seed(...) with the arguments the constructor of this configuration uses"""
    c, kw = CONFIGS[name]
    k = dict(extra)
    if "inc" in kw:
        k["inc"] = kw["inc"]
    if "idx" in kw:
        k["idx"] = kw["idx"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        bg.seed(seed_of(seed), **k)


def eq(a, b):
    """deep equality of states and results"""
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()
    if isinstance(a, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if callable(a) and callable(b):
        return True
    return type(a) is type(b) and a == b or (isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)) and int(a) == int(b))


def freeze(x):
    """repr that depends on content only"""
    if isinstance(x, dict):
        return "{" + ",".join(f"{k}:{freeze(x[k])}" for k in sorted(x, key=str)) + "}"
    if isinstance(x, np.ndarray):
        return f"{x.dtype}{x.shape}:{x.tobytes().hex() if x.nbytes < 256 else __import__('hashlib').md5(x.tobytes()).hexdigest()}"
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(map(freeze, x)) + "]"
    if isinstance(x, (np.integer,)):
        return str(int(x))
    if isinstance(x, (np.floating,)):
        return float(x).hex()
    if callable(x):
        return "<fn>"
    return repr(x)
