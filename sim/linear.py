"""The F2-linear recurrences behind the jumpable generators, and their jump polynomials."""
import json, os
import numpy as np
from sim import env

# family -> (configuration used to find the minimal polynomial, size of the state in bits, log2 of one jump in steps)
FAMS = {
    "xoroshiro": ("xoroshiro", 128, 64),
    "xoroshiro++": ("xoroshiro++", 128, 64),
    "xoshiro256": ("xoshiro256", 256, 128),
    "xoshiro512": ("xoshiro512", 512, 256),
    "xorshift1024": ("xorshift1024", 1024, 512),
    "lxm": ("lxm", 256, 128),
    "mt19937": ("mt19937", 19968, 128),
    "sfmt": ("sfmt", 19968, 128),
    "dsfmt": ("dsfmt", 20024, 128),
}
FAM_OF = {"lxm-b": "lxm", "mt19937-np": "mt19937"}


def fam_of(cfg):
    f = FAM_OF.get(cfg, cfg)
    return f if f in FAMS else None


def words_of(bg, fam):
    """the linear words of the current position, read from the state"""
    s = bg.state
    if fam == "lxm":
        return tuple(int(x) for x in s["state"]["x"])
    if fam == "xorshift1024":
        a, p = s["state"]["s"], int(s["state"]["p"])
        return tuple(int(a[(p + i) % 16]) for i in range(16))
    return tuple(int(x) for x in s["s"])


PER = {"mt19937": 1, "sfmt": 2, "dsfmt": 2}  # raw draws per step


def sequence(bg, fam, n):
    """n successive steps of the recurrence as tuples of words; moves bg"""
    if fam in PER:
        k = PER[fam]
        w = env.draw(bg, b"\3" * (n * k))
        return [tuple(w[i:i + k]) for i in range(0, n * k, k)]
    out = []
    for _ in range(n):
        out.append(words_of(bg, fam))
        env.draw(bg, b"\3")
    return out


_polys = {}


def poly(fam, k):
    """exponents i with a one in x^(k jumps), as an array; None if not tabulated"""
    if not _polys:
        d = json.load(open(os.path.join(env.VERIF, "data", "jumps.json")))
        for f, v in d.items():
            for kk, h in v["poly"].items():
                _polys[f, int(kk)] = (h, None)
    if (fam, k) not in _polys:
        return None
    h, a = _polys[fam, k]
    if a is None:
        b = bin(int(h, 16))[2:][::-1]
        a = np.flatnonzero(np.frombuffer(b.encode(), dtype=np.uint8) == 49)
        _polys[fam, k] = (h, a)
    return a


def tabulated(fam):
    poly(fam, 1)
    return sorted(k for f, k in _polys if f == fam)
