"""How draws of each width are made from the words of the raw stream: one small reference model per family.

A model reads 'units' (the smallest words the family produces) from a source and answers
n64/n32/nd/raw as unsigned integers (doubles as their bit pattern).
"""
import struct
from sim import env

D53 = 1.0 / 9007199254740992.0


def bits(d):
    return struct.unpack("<Q", struct.pack("<d", d))[0]


def dbl(u):
    return struct.unpack("<d", struct.pack("<Q", u))[0]


class Units:
    """units of a reference generator, produced from its raw draws only"""

    def __init__(self, ref, split, chunk=64):
        self.ref, self.split, self.q, self.i, self.chunk = ref, split, [], 0, chunk

    def __call__(self):
        if self.i >= len(self.q):
            self.q, self.i = [], 0
            for w in env.draw(self.ref, b"\3" * self.chunk):
                self.q.extend(self.split(w))
        self.i += 1
        return self.q[self.i - 1]


ONE = lambda w: (w,)  # noqa: E731
LOHI = lambda w: (w & 0xFFFFFFFF, w >> 32)  # noqa: E731
HILO = lambda w: (w >> 32, w & 0xFFFFFFFF)  # noqa: E731


class W64:
    """64-bit words; a 32-bit draw takes the low half and keeps the high half for the next 32-bit draw"""
    split = staticmethod(ONE)

    def __init__(self, unit):
        self.u, self.half = unit, None

    def raw(self):
        return self.u()

    n64 = raw

    def n32(self):
        if self.half is not None:
            h, self.half = self.half, None
            return h
        w = self.u()
        self.half = w >> 32
        return w & 0xFFFFFFFF

    def nd(self):
        return bits((self.u() >> 11) * D53)


class W32:
    """32-bit words; 64-bit draws put the first word in the high half; doubles take 27 and 26 bits of two words"""
    split = staticmethod(ONE)

    def __init__(self, unit):
        self.u = unit

    def raw(self):
        return self.u()

    n32 = raw

    def n64(self):
        a = self.u()
        return a << 32 | self.u()

    def nd(self):
        a = self.u() >> 5
        b = self.u() >> 6
        return bits((a * 67108864.0 + b) / 9007199254740992.0)


class JSF32(W32):
    def nd(self):
        return bits((self.n64() >> 11) * D53)


class HC(W32):
    split = staticmethod(LOHI)

    def raw(self):
        a = self.u()
        return self.u() << 32 | a

    n64 = raw

    def n32(self):
        return self.u()

    def nd(self):
        return bits((self.raw() >> 11) * D53)


class SQ32(HC):
    def nd(self):
        return W32.nd(self)


class TY(W32):
    split = staticmethod(HILO)

    def raw(self):
        return self.n64()

    def n32(self):
        return self.u()


class DSF:
    """doubles in [1,2): 52 random bits per word"""
    split = staticmethod(ONE)

    def __init__(self, unit):
        self.u = unit

    def raw(self):
        return self.u()

    def n32(self):
        return (self.u() >> 16) & 0xFFFFFFFF

    def n64(self):
        a = self.n32()
        return a << 32 | self.n32()

    def nd(self):
        return bits(dbl(self.u()) - 1.0)


def model_of(cfg):
    if cfg.startswith("jsf32"):
        return JSF32
    if cfg.startswith(("mt19937", "pcg32")) or cfg.endswith("x32"):
        return W32
    if cfg.startswith("chacha"):
        return HC
    return {"hc128": HC, "squares32": SQ32, "dsfmt": DSF}.get(cfg) or (TY if cfg.startswith("tyche") else W64)
