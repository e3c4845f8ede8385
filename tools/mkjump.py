#!/usr/bin/env python3
"""Writes data/jumps.json: the jump polynomials x^(k * distance) mod the minimal polynomial of each F2-linear
recurrence.  The minimal polynomials are found by Berlekamp-Massey on the recurrence's own words (they are those
of the published generators); nothing here looks at the jump constants of the code."""
import json, random, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from sim import env, gens  # noqa: E402
from sim import linear  # noqa: E402


def bm(bits):
    """minimal polynomial (int, bit i = coefficient of x^i) of a bit sequence given as a list"""
    n = len(bits)
    C, B, L, m = 1, 1, 0, 1
    hist = 0  # bit j = s[i-j]
    for i in range(n):
        hist = (hist << 1) | bits[i]
        d = (C & hist).bit_count() & 1
        if not d:
            m += 1
        elif 2 * L <= i:
            T = C
            C ^= B << m
            L, B, m = i + 1 - L, T, 1
        else:
            C ^= B << m
            m += 1
    # connection polynomial -> characteristic polynomial of degree L
    return int(bin(C)[2:].zfill(L + 1)[::-1].ljust(L + 1, "0"), 2) if C.bit_length() <= L + 1 else None, L


SPREAD = [sum(((b >> i) & 1) << (2 * i) for i in range(8)) for b in range(256)]


def sq(a):
    by = a.to_bytes((a.bit_length() + 7) // 8 or 1, "little")
    return int.from_bytes(b"".join(SPREAD[x].to_bytes(2, "little") for x in by), "little")


def mod(a, p):
    d = p.bit_length()
    while a.bit_length() >= d:
        a ^= p << (a.bit_length() - d)
    return a


def mul(a, b, p):
    r = 0
    i = 0
    while b:
        t = (b & -b).bit_length() - 1
        a2 = a << t
        r ^= a2
        b &= b - 1
    return mod(r, p)


def divmod2(a, b):
    q = 0
    d = b.bit_length()
    while a.bit_length() >= d:
        s = a.bit_length() - d
        q |= 1 << s
        a ^= b << s
    return q, a


def lcm(a, b):
    x, y = a, b
    while y:
        x, y = y, divmod2(x, y)[1]
    r, q = 0, divmod2(b, x)[0]
    while q:
        r ^= a << (q & -q).bit_length() - 1
        q &= q - 1
    return r


def xpow2(e, p, base=2):
    a = base
    for _ in range(e):
        a = mod(sq(a), p)
    return a


def main():
    out = {}
    rng = random.Random(5)
    for fam, (cfg, deg, e) in linear.FAMS.items():
        p = 1
        for seed in range(6 if deg > 15000 else 3):  # one combination of bits can miss a small factor
            seq = linear.sequence(gens.make(cfg, 12345 + seed), fam, 2 * deg + 400)
            mask = [rng.getrandbits(64) for _ in seq[0]]
            bits = [sum((w & m).bit_count() for w, m in zip(t, mask)) & 1 for t in seq]
            p = lcm(p, bm(bits)[0])
        L = p.bit_length() - 1
        print(fam, "degree", L, flush=True)
        one = xpow2(e, p)
        tab = {1: one}
        for k in (16, 256, 4096, 65536):
            tab[k] = xpow2(4, p, tab[k // 16])
        tab[2] = mul(one, one, p)
        tab[3] = mul(tab[2], one, p)
        tab[17] = mul(tab[16], one, p)
        tab[18] = mul(tab[16], tab[2], p)
        tab[33] = mul(mul(tab[16], tab[16], p), one, p)
        tab[273] = mul(tab[256], tab[17], p)
        tab[4369] = mul(tab[4096], tab[273], p)
        tab[65553] = mul(tab[65536], tab[17], p)
        if fam not in ("mt19937", "sfmt", "dsfmt"):
            tab = {k: v for k, v in tab.items() if k < 4}
        out[fam] = {"degree": L, "log2": e, "poly": {str(k): f"{v:x}" for k, v in sorted(tab.items())}}
    (V / "data" / "jumps.json").write_text(json.dumps(out))


if __name__ == "__main__":
    main()
