"""Reference models of the algorithms, written from their published descriptions: from an exported state of the
generator to its next native words.  Pure integer arithmetic; no code of the library is used.

A model is made with words(cfg, state); `next(model)` is the next native word (units of the raw stream).
"""
M32, M64, M128 = (1 << 32) - 1, (1 << 64) - 1, (1 << 128) - 1


def rl(x, k, w=64):
    k %= w
    return (x << k | x >> (w - k)) & ((1 << w) - 1)


def rr(x, k, w=64):
    return rl(x, -k % w, w)


def ints(a):
    return [int(x) for x in a]


# ------------------------------------------------------------------ small state machines
def efiix(st):
    ind, it = ints(st["indirection_table"]), ints(st["iteration_table"])
    i, a, b, c = (int(st[k]) for k in "iabc")
    while True:
        iterated, indirect = it[i % 32], ind[c % 16]
        ind[c % 16] = (iterated + a) & M64
        it[i % 32] = indirect
        old = a ^ b
        a = (b + i) & M64
        i = (i + 1) & M64
        b = (c + indirect) & M64
        c = (old + rl(c, 25)) & M64
        yield b ^ iterated


def jsf(st, w):
    m = (1 << w) - 1
    a, b, c, d = (int(st[k]) for k in "abcd")
    p, q, r = (int(st[k]) for k in "pqr")
    while True:
        e = (a - rl(b, p, w)) & m
        a = b ^ rl(c, q, w)
        b = (c + rl(d, r, w)) & m
        c = (d + e) & m
        d = (e + a) & m
        yield d


def murmur(z):
    z = (z ^ z >> 30) * 0xBF58476D1CE4E5B9 & M64
    z = (z ^ z >> 27) * 0x94D049BB133111EB & M64
    return z ^ z >> 31


def xoshiro256_step(s):
    t = s[1] << 17 & M64
    s[2] ^= s[0]
    s[3] ^= s[1]
    s[1] ^= s[2]
    s[0] ^= s[3]
    s[2] ^= t
    s[3] = rl(s[3], 45)


def lxm(st):
    x, l, b = ints(st["x"]), int(st["lcg_state"]), int(st["b"])
    while True:
        yield murmur((x[0] + l) & M64)
        l = (2862933555777941757 * l + b) & M64
        xoshiro256_step(x)


def romu(st):
    quad = st["variant"] == "quad"
    w, x, y, z = (int(st[k]) for k in "wxyz")
    mul = 15241094284759029579
    while True:
        yield x
        if quad:
            w, x, y, z = mul * z & M64, (z + rl(w, 52)) & M64, (y - x) & M64, rl((y + w) & M64, 19)
        else:
            x, y, z = mul * z & M64, rl((y - x) & M64, 12), rl((z - y) & M64, 44)


def sfc(st):
    a, b, c, w, k = (int(st[n]) for n in "abcwk")
    while True:
        out = (a + b + w) & M64
        w = (w + k) & M64
        a, b, c = b ^ b >> 11, (c + (c << 3)) & M64, (rl(c, 24) + out) & M64
        yield out


def squares(st, bits):
    key, ctr = int(st["key"]), int(st["counter"])
    while True:
        x = y = ctr * key & M64
        z = (y + key) & M64
        ctr = (ctr + 1) & M64
        for add in (y, z, y):
            x = rl((x * x + add) & M64, 32)
        t = (x * x + z) & M64
        yield t >> 32 if bits == 32 else t ^ ((rl(t, 32) ** 2 + y) & M64) >> 32


def tyche(st):
    a, b, c, d = (int(st[n]) for n in "abcd")
    while True:
        if st["original"]:
            for r1, r2 in ((16, 12), (8, 7)):
                a = (a + b) & M32
                d = rl(d ^ a, r1, 32)
                c = (c + d) & M32
                b = rl(b ^ c, r2, 32)
            yield b
        else:
            for r1, r2 in ((7, 8), (12, 16)):
                b = rl(b, r1, 32) ^ c
                c = (c - d) & M32
                d = rl(d, r2, 32) ^ a
                a = (a - b) & M32
            yield a


def pcg32(st):
    s, inc = int(st["state"]), int(st["inc"])
    while True:
        yield rr((s >> 18 ^ s) >> 27 & M32, s >> 59, 32)
        s = (s * 6364136223846793005 + inc) & M64


PCG_MULT, CHEAP = 2549297995355413924 << 64 | 4865540595714422341, 0xDA942042E4DD58B5


def xsl_rr(s, _):
    return rr((s >> 64 ^ s) & M64, s >> 122)


def dxsm(s, mul):
    hi, lo = s >> 64, s & M64 | 1
    hi = (hi ^ hi >> 32) * mul & M64
    hi ^= hi >> 48
    return hi * lo & M64


OUT = {"xsl-rr": xsl_rr, "dxsm": dxsm, "murmur3": lambda s, _: murmur(s >> 64), "upper": lambda s, _: s >> 64,
       "lower": lambda s, _: s & M64}


def outfn(o):
    """the output function of an LCG128Mix: one of the documented names, or a user's own that comes with its model"""
    return OUT[o] if isinstance(o, str) else o.model


def lcg(s, inc, mult, out, mul, post):
    while True:
        if post:
            s = (s * mult + inc) & M128
            yield out(s, mul)
        else:
            yield out(s, mul)
            s = (s * mult + inc) & M128


def pcg64(st, variant):
    s, inc = int(st["state"]), int(st["inc"])
    if variant == "dxsm":
        return lcg(s, inc, CHEAP, dxsm, CHEAP, False)
    return lcg(s, inc, PCG_MULT, xsl_rr if variant == "xsl-rr" else dxsm, CHEAP, True)


# ------------------------------------------------------------------ linear over GF(2)
def xoroshiro(s, pp):
    a, b = ints(s)
    while True:
        yield (rl((a + b) & M64, 17) + a if pp else a + b) & M64
        b ^= a
        if pp:
            a, b = rl(a, 49) ^ b ^ b << 21 & M64, rl(b, 28)
        else:
            a, b = rl(a, 24) ^ b ^ b << 16 & M64, rl(b, 37)


def xoshiro256(s):
    s = ints(s)
    while True:
        yield rl(s[1] * 5 & M64, 7) * 9 & M64
        xoshiro256_step(s)


def xoshiro512(s):
    s = ints(s)
    while True:
        yield rl(s[1] * 5 & M64, 7) * 9 & M64
        t = s[1] << 11 & M64
        for i, j in ((2, 0), (5, 1), (1, 2), (7, 3), (3, 4), (4, 5), (0, 6), (6, 7)):
            s[i] ^= s[j]
        s[6] ^= t
        s[7] = rl(s[7], 21)


def xorshift1024(st):
    s, p = ints(st["s"]), int(st["p"])
    while True:
        s0 = s[p]
        p = (p + 1) % 16
        s1 = s[p]
        s1 ^= s1 << 31 & M64
        s[p] = s1 ^ s0 ^ s1 >> 11 ^ s0 >> 30
        yield s[p] * 0x9E3779B97F4A7C13 & M64


def mt(st, n, m, r, w, a, temper):
    """Mersenne Twister; temper: ((shift, mask) ...), negative shifts are to the right"""
    x, i, full = ints(st["key"]), int(st["pos"]), (1 << w) - 1
    low = (1 << r) - 1
    while True:
        if i >= n:
            for k in range(n):
                y = x[k] & ~low & full | x[(k + 1) % n] & low
                x[k] = x[(k + m) % n] ^ y >> 1 ^ (a if y & 1 else 0)
            i = 0
        y = x[i]
        i += 1
        for sh, mask in temper:
            y ^= (y << sh if sh > 0 else y >> -sh) & mask & full
        yield y


def sfmt(state):
    s = ints(state["state"]["state"])
    buf, loc = ints(state["buffered_uint64"]), int(state["buffer_loc"])
    yield from buf[loc:]
    r = [s[i] | s[i + 1] << 32 | s[i + 2] << 64 | s[i + 3] << 96 for i in range(0, 624, 4)]
    msk = 0xBFFFFFF6 << 96 | 0xBFFAFFFF << 64 | 0xDDFECB7F << 32 | 0xDFFFFFEF
    # shifts of the four 32-bit lanes at once, bits that cross lanes masked out
    sr = sum(M32 >> 11 << 32 * i for i in range(4))
    sl = sum(((M32 << 18) & M32) << 32 * i for i in range(4))
    while True:
        for i in range(156):
            a, b, c, d = r[i], r[(i + 122) % 156], r[(i - 2) % 156], r[(i - 1) % 156]
            r[i] = (a ^ a << 8 & M128 ^ b >> 11 & sr & msk ^ c >> 8 ^ d << 18 & sl) & M128
            yield r[i] & M64
            yield r[i] >> 64


def dsfmt(state):
    """words in [1, 2) as bit patterns"""
    import struct
    s, idx = ints(state["state"]["state"]), int(state["state"]["idx"])
    buf, loc = state["buffered_uniforms"], int(state["buffer_loc"])
    for d in buf[loc:]:
        yield struct.unpack("<Q", struct.pack("<d", float(d)))[0]
    r = [(s[2 * i], s[2 * i + 1]) for i in range(191)]
    l0, l1 = s[382], s[383]
    m1, m2 = 0x000FFAFFFFFFFB3F, 0x000FFDFFFC90FFFD
    while True:
        for i in range(191):
            t0, t1 = r[i]
            b0, b1 = r[(i + 117) % 191]
            l0, l1 = t0 << 19 & M64 ^ rl(l1, 32) ^ b0, t1 << 19 & M64 ^ rl(l0, 32) ^ b1
            r[i] = (l0 >> 12 ^ l0 & m1 ^ t0, l1 >> 12 ^ l1 & m2 ^ t1)
            yield r[i][0]
            yield r[i][1]


# ------------------------------------------------------------------ ciphers and hashes of a counter
def hc128(st):
    p, q, i = ints(st["p"]), ints(st["q"]), int(st["hc_idx"])
    bi = int(st["buffer_idx"])
    if bi % 16:
        yield from ints(st["buffer"])[bi:]

    def step(x, y, j, r1, r2, r3):
        x[j] = (x[j] + (rr(x[(j - 3) % 512], r1, 32) ^ rr(x[(j - 511) % 512], r2, 32))
                + rr(x[(j - 10) % 512], r3, 32)) & M32
        v = x[(j - 12) % 512]
        return (y[v & 255] + y[256 + (v >> 16 & 255)] & M32) ^ x[j]

    while True:
        yield step(p, q, i % 512, 10, 23, 8) if i < 512 else step(q, p, i % 512, 22, 9, 24)
        i = (i + 1) % 1024


def chacha(st):
    key, ctr, rounds = ints(st["keysetup"]), int(st["ctr"][0]) | int(st["ctr"][1]) << 64, int(st["rounds"])
    block = ints(st["block"]) if "block" in st else None
    while True:
        if block is None or ctr % 16 == 0:
            n = ctr // 16
            x = [0x61707865, 0x3320646E, 0x79622D32, 0x6B206574] + key + [n >> 32 * k & M32 for k in range(4)]
            y = list(x)

            def quarter(a, b, c, d):
                for u, v, w, r in ((a, b, d, 16), (c, d, b, 12), (a, b, d, 8), (c, d, b, 7)):
                    y[u] = (y[u] + y[v]) & M32
                    y[w] = rl(y[w] ^ y[u], r, 32)
            for _ in range((rounds + 1) // 2):
                for k in range(4):
                    quarter(k, 4 + k, 8 + k, 12 + k)
                for k in range(4):
                    quarter(k, 4 + (k + 1) % 4, 8 + (k + 2) % 4, 12 + (k + 3) % 4)
            block = [(u + v) & M32 for u, v in zip(x, y)]
        yield block[ctr % 16]
        ctr = (ctr + 1) & M128


def _sbox():
    box, p, q = [0] * 256, 1, 1
    while True:
        p ^= p << 1 & 255 ^ (0x1B if p & 128 else 0)
        for k in (1, 2, 4):
            q ^= q << k & 255
        if q & 128:
            q ^= 9
        box[p] = (q ^ rl(q, 1, 8) ^ rl(q, 2, 8) ^ rl(q, 3, 8) ^ rl(q, 4, 8)) ^ 0x63
        if p == 1:
            box[0] = 0x63
            return box


SBOX = _sbox()


def xt(b):
    return b << 1 & 255 ^ (0x1B if b & 128 else 0)


def aes_block(block, keys):
    """AES-128 of 16 bytes with 11 round keys of 16 bytes"""
    s = [a ^ b for a, b in zip(block, keys[0])]
    for r in range(1, 11):
        s = [SBOX[s[(i + 4 * (i % 4)) % 16]] for i in range(16)]
        if r < 10:
            t = []
            for c in range(0, 16, 4):
                a = s[c:c + 4]
                e = a[0] ^ a[1] ^ a[2] ^ a[3]
                t += [a[i] ^ e ^ xt(a[i] ^ a[(i + 1) % 4]) for i in range(4)]
            s = t
        s = [a ^ b for a, b in zip(s, keys[r])]
    return s


def aes_keys(key):
    k = [list(key)]
    rcon = 1
    for _ in range(10):
        p = k[-1]
        t = [SBOX[p[13]] ^ rcon, SBOX[p[14]], SBOX[p[15]], SBOX[p[12]]]
        n = []
        for c in range(4):
            t = [p[4 * c + i] ^ t[i] for i in range(4)]
            n += t
        k.append(n)
        rcon = xt(rcon)
    return k


def aes(st):
    raw = b"".join(int(x).to_bytes(8, "little") for x in st["seed"])
    keys = [list(raw[16 * i:16 * i + 16]) for i in range(11)]
    off = int(st["offset"])
    buf = bytes(int(x) for x in st["state"])
    for o in range(off, 64, 8):
        yield int.from_bytes(buf[o:o + 8], "little")
    ctr = [int(st["counter"][2 * i]) | int(st["counter"][2 * i + 1]) << 64 for i in range(4)]
    while True:
        for i in range(4):
            o = bytes(aes_block(ctr[i].to_bytes(16, "little"), keys))
            ctr[i] = (ctr[i] + 4) & M128
            yield int.from_bytes(o[:8], "little")
            yield int.from_bytes(o[8:], "little")


def speck_round(x, y, k):
    x = ((rr(x, 8) + y) & M64) ^ k
    return x, rl(y, 3) ^ x


def speck(st):
    keys = ints(st["round_key"])[::2][:int(st["rounds"])]
    buf, off = ints(st["buffer"]), int(st["offset"])
    yield from buf[off // 8:]
    c = ints(st["ctr"])
    ctr = [c[2 * i] | c[2 * i + 1] << 64 for i in range(6)]
    while True:
        for i in range(6):
            x, y = ctr[i] >> 64, ctr[i] & M64
            for k in keys:
                x, y = speck_round(x, y, k)
            ctr[i] = (ctr[i] + 6) & M128
            yield y
            yield x


def counter_words(state, fn):
    n, w = int(state["number"]), int(state["width"])
    key, ctr = ints(state["state"]["key"]), ints(state["state"]["counter"])
    buf, pos = ints(state["buffer"]), int(state["buffer_pos"])
    yield from buf[pos:]
    c = sum(v << w * i for i, v in enumerate(ctr))
    while True:
        c = (c + 1) & ((1 << w * n) - 1)
        yield from fn([c >> w * i & ((1 << w) - 1) for i in range(n)], key, w)


PHILOX_M = {(2, 64): (0xD2B74407B1CE6E93,), (4, 64): (0xD2E7470EE14C6C93, 0xCA5A826395121157),
            (2, 32): (0xD256D193,), (4, 32): (0xD2511F53, 0xCD9E8D57)}
PHILOX_W = {64: (0x9E3779B97F4A7C15, 0xBB67AE8584CAA73B), 32: (0x9E3779B9, 0xBB67AE85)}


def philox_block(c, key, w):
    m, n = (1 << w) - 1, len(c)
    M = PHILOX_M[n, w]
    for r in range(10):
        k = [(v + r * PHILOX_W[w][i]) & m for i, v in enumerate(key)]
        if n == 2:
            p = M[0] * c[0]
            c = [p >> w ^ k[0] ^ c[1], p & m]
        else:
            p0, p1 = M[0] * c[0], M[1] * c[2]
            c = [p1 >> w ^ c[1] ^ k[0], p1 & m, p0 >> w ^ c[3] ^ k[1], p0 & m]
    return c


ROT = {(4, 64): ((14, 16), (52, 57), (23, 40), (5, 37), (25, 33), (46, 12), (58, 22), (32, 32)),
       (4, 32): ((10, 26), (11, 21), (13, 27), (23, 5), (6, 20), (17, 11), (25, 10), (18, 20)),
       (2, 64): (16, 42, 12, 31, 16, 32, 24, 21), (2, 32): (13, 15, 26, 6, 17, 29, 16, 24)}


def threefry_block(c, key, w):
    m, n = (1 << w) - 1, len(c)
    par = 0x1BD11BDA if w == 32 else 0x1BD11BDAA9FC1A22
    for k in key:
        par ^= k
    ks = key + [par]
    x = [(a + b) & m for a, b in zip(c, key)]

    def mix(i, j, r):
        x[i] = (x[i] + x[j]) & m
        x[j] = rl(x[j], r, w) ^ x[i]
    for r in range(20):
        rot = ROT[n, w][r % 8]
        if n == 2:
            mix(0, 1, rot)
        else:
            mix(0, 1 + 2 * (r % 2), rot[0])
            mix(2, 3 - 2 * (r % 2), rot[1])
        if r % 4 == 3:
            s = (r + 1) // 4
            for i in range(n):
                x[i] = (x[i] + ks[(s + i) % (n + 1)]) & m
            x[n - 1] = (x[n - 1] + s) & m
    return x


def words(state):
    """native words (units) that follow an exported state; the state itself says which generator it is of"""
    kind = state["bit_generator"].rsplit(".", 1)[-1]
    st = state.get("state")
    if kind == "EFIIX64":
        return efiix(st)
    if kind == "JSF":
        return jsf(st, int(state["size"]))
    if kind == "LXM":
        return lxm(st)
    if kind == "Romu":
        return romu(st)
    if kind == "SFC64":
        return sfc(st)
    if kind == "Squares":
        return squares(st, int(state["variant"]))
    if kind == "Tyche":
        return tyche(st)
    if kind == "PCG32":
        return pcg32(st)
    if kind == "PCG64":
        return pcg64(st, state["variant"])
    if kind == "PCG64DXSM":
        return pcg64(st, "dxsm")
    if kind == "LCG128Mix":
        return lcg(int(st["state"]), int(st["inc"]), int(st["multiplier"]), outfn(st["output_func"]),
                   int(st["dxsm_multiplier"]), bool(st["post"]))
    if kind == "Xoroshiro128":
        return xoroshiro(state["s"], state["plusplus"])
    if kind == "Xoshiro256":
        return xoshiro256(state["s"])
    if kind == "Xoshiro512":
        return xoshiro512(state["s"])
    if kind == "Xorshift1024":
        return xorshift1024(st)
    if kind == "MT19937":
        return mt(st, 624, 397, 31, 32, 0x9908B0DF,
                  ((-11, M32), (7, 0x9D2C5680), (15, 0xEFC60000), (-18, M32)))
    if kind == "MT64":
        return mt(st, 312, 156, 31, 64, 0xB5026F5AA96619E9,
                  ((-29, 0x5555555555555555), (17, 0x71D67FFFEDA60000), (37, 0xFFF7EEE000000000), (-43, M64)))
    if kind == "SFMT":
        return sfmt(state)
    if kind == "DSFMT":
        return dsfmt(state)
    if kind == "HC128":
        return hc128(st)
    if kind == "ChaCha":
        return chacha(st)
    if kind == "AESCounter":
        return aes(state["s"])
    if kind == "SPECK128":
        return speck(st)
    if kind in ("Philox", "ThreeFry"):
        return counter_words(state, philox_block if kind == "Philox" else threefry_block)
    raise KeyError(kind)


# ------------------------------------------------------------------ seeding: from the words of the seed sequence to a state
def take(gen, n):
    for _ in range(n):
        next(gen)


def _arbee(a, b, c, d):
    i = 1
    n = 0
    while True:
        e = (a + rl(b, 45)) & M64
        a = b ^ rl(c, 13)
        b = (c + rl(d, 37)) & M64
        c = (e + d + i) & M64
        i = (i + 1) & M64
        d = (e + a) & M64
        n += 1
        if n > 12:
            yield d


def _efiix_run(st, n):
    ind, it = st["indirection_table"], st["iteration_table"]
    for _ in range(n):
        i, a, b, c = st["i"], st["a"], st["b"], st["c"]
        iterated, indirect = it[i % 32], ind[c % 16]
        ind[c % 16], it[i % 32] = (iterated + a) & M64, indirect
        st.update(i=(i + 1) & M64, a=(b + i) & M64, b=(c + indirect) & M64, c=((a ^ b) + rl(c, 25)) & M64)


def seed_efiix(s):
    g = _arbee(*s)
    st = {"indirection_table": [next(g) for _ in range(16)], "i": next(g), "iteration_table": [0] * 32}
    for w in range(32):
        st["iteration_table"][(w + st["i"]) % 32] = next(g)
    for k in "abc":
        st[k] = next(g)
    _efiix_run(st, 64)
    next(g)
    t = [(s[k] + next(g)) & M64 for k in range(3)]
    g = _arbee(t[0] ^ st["a"], t[1] ^ st["b"], t[2] ^ st["c"], ~s[3] & M64)
    for w in range(16):
        st["indirection_table"][w] ^= next(g)
    _efiix_run(st, 48)
    return st


def mt_seeded(n, w, f, m1, m2, first, key):
    """init_by_array of the Mersenne Twister with n words of w bits"""
    full, sh = (1 << w) - 1, w - 2
    x = [first]
    for i in range(1, n):
        x.append((f * (x[-1] ^ x[-1] >> sh) + i) & full)
    i, j = 1, 0
    for _ in range(max(n, len(key))):
        x[i] = ((x[i] ^ (x[i - 1] ^ x[i - 1] >> sh) * m1) + key[j] + j) & full
        i, j = i + 1, (j + 1) % len(key)
        if i == n:
            x[0], i = x[n - 1], 1
    for _ in range(n - 1):
        x[i] = ((x[i] ^ (x[i - 1] ^ x[i - 1] >> sh) * m2) - i) & full
        i += 1
        if i == n:
            x[0], i = x[n - 1], 1
    x[0] = 1 << w - 1
    return {"key": x, "pos": n}


def sfmt_by_array(n, fill, key):
    """the seeding of SFMT and dSFMT: n words of 32 bits"""
    lag = 11 if n >= 623 else 7
    mid = (n - lag) // 2
    x = [fill] * n

    def f(v, mul):
        return (v ^ v >> 27) * mul & M32
    r = f(x[0] ^ x[mid] ^ x[n - 1], 1664525)
    x[mid] = (x[mid] + r) & M32
    r = (r + len(key)) & M32
    x[mid + lag] = (x[mid + lag] + r) & M32
    x[0] = r
    i = 1
    for j in range(max(len(key) + 1, n) - 1):
        p, q = (i + mid) % n, (i + mid + lag) % n
        r = f(x[i] ^ x[p] ^ x[i - 1], 1664525)
        x[p] = (x[p] + r) & M32
        r = (r + (key[j] if j < len(key) else 0) + i) & M32
        x[q] = (x[q] + r) & M32
        x[i] = r
        i = (i + 1) % n
    for _ in range(n):
        p, q = (i + mid) % n, (i + mid + lag) % n
        r = f((x[i] + x[p] + x[i - 1]) & M32, 1566083941)
        x[p] ^= r
        r = (r - i) & M32
        x[q] ^= r
        x[i] = r
        i = (i + 1) % n
    return x


def parity(v):
    return bin(v).count("1") & 1


def hc128_keyed(key):
    def f1(v):
        return rr(v, 7, 32) ^ rr(v, 18, 32) ^ v >> 3

    def f2(v):
        return rr(v, 17, 32) ^ rr(v, 19, 32) ^ v >> 10
    k, iv = key[:4], key[4:]
    w = k + k + iv + iv
    for i in range(16, 1280):
        w.append((f2(w[i - 2]) + w[i - 7] + f1(w[i - 15]) + w[i - 16] + i) & M32)
    p, q = w[256:768], w[768:]

    def run(x, y, i, a, b, c):
        x[i] = (x[i] + (rr(x[(i - 3) % 512], a, 32) ^ rr(x[(i - 511) % 512], b, 32)) + rr(x[(i - 10) % 512], c, 32)) & M32
        v = x[(i - 12) % 512]
        x[i] ^= (y[v & 255] + y[256 + (v >> 16 & 255)]) & M32
    for i in range(512):
        run(p, q, i, 10, 23, 8)
    for i in range(512):
        run(q, p, i, 22, 9, 24)
    return {"p": p, "q": q, "hc_idx": 0, "buffer": [], "buffer_idx": 0}


def speck_keys(key, rounds=34):
    """the round keys of Speck128/256 from four 64-bit words"""
    a, ls = key[0], list(key[1:])
    out = []
    for i in range(rounds):
        out.append(a)
        l, a = speck_round(ls[i % 3], a, i)
        ls[i % 3] = l
    return out


def split(v, w, n):
    return [v >> w * k & ((1 << w) - 1) for k in range(n)]


def keyed(name, kw, key, counter=0):
    """words of a generator made from a key (an integer) and a counter"""
    if name == "AESCounter":
        rk = aes_keys(key.to_bytes(16, "little"))
        ctr = []
        for i in range(4):
            ctr += split((counter + i) & M128, 64, 2)
        seed = [int.from_bytes(bytes(b), "little") for k in rk for b in (k[:8], k[8:])]
        return aes({"seed": seed, "offset": 64, "state": [], "counter": ctr})
    if name == "ChaCha":
        return chacha({"keysetup": split(key, 32, 8), "ctr": split(counter, 64, 2), "rounds": kw.get("rounds", 20)})
    if name == "HC128":
        return hc128(hc128_keyed(split(key, 32, 8)))
    if name == "SPECK128":
        rk = speck_keys(split(key, 64, 4))
        ctr = []
        for i in range(6):
            ctr += split((counter + i) & M128, 64, 2)
        return speck({"round_key": [k for k in rk for _ in (0, 1)], "rounds": kw.get("rounds", 34), "buffer": [], "offset": 96, "ctr": ctr})
    if name in ("Philox", "ThreeFry"):
        n, w = kw.get("number", 4), kw.get("width", 64)
        return counter_words({"number": n, "width": w, "buffer": [], "buffer_pos": 0,
                              "state": {"key": split(key, w, n // 2 if name == "Philox" else n), "counter": split(counter, w, n)}},
                             philox_block if name == "Philox" else threefry_block)
    if name == "Squares":
        return squares({"key": key, "counter": counter}, kw.get("variant", 64))
    raise KeyError(name)


def pcg_init(state, inc, mult, mask):
    inc = (2 * inc + 1) & mask
    s = inc  # a step from 0
    s = (s + state) * mult + inc & mask
    return {"state": s, "inc": inc}


def seeded(name, kw, W32, W64, counter=0):
    """words of a generator seeded with a sequence of which W32(n) and W64(n) are the first n words"""
    def w128(v):
        return v[0] << 64 | v[1]

    def number(v):
        return sum(x << 64 * i for i, x in enumerate(v))
    if name in ("AESCounter", "ChaCha", "HC128", "SPECK128"):
        return keyed(name, kw, number(W64(2 if name == "AESCounter" else 4)), counter)
    if name in ("Philox", "ThreeFry"):
        n, w = kw.get("number", 4), kw.get("width", 64)
        bits = n * w // (2 if name == "Philox" else 1)
        return keyed(name, kw, number(W64((bits + 63) // 64)) & ((1 << bits) - 1), counter)
    if name == "EFIIX64":
        return efiix(seed_efiix(W64(4)))
    if name == "JSF":
        w, n = kw.get("size", 64), kw.get("seed_size", 1)
        s = (W64 if w == 64 else W32)(n)
        pqr = {k: kw[k] if kw.get(k) is not None else d for k, d in zip("pqr", (7, 13, 37) if w == 64 else (27, 17, 0))}
        g = jsf(dict(a=0xF1EA5EED, b=s[0], c=s[1] if n > 1 else s[0], d=s[2] if n > 2 else s[0], **pqr), w)
        take(g, 20)
        return g
    if name == "LXM":
        s = W64(5)
        x = s[:4] if any(s[:4]) else [0, 0, 0, 1]
        return lxm({"x": x, "lcg_state": s[4], "b": kw.get("b", 3037000493) | 1})
    if name == "Romu":
        quad = kw.get("variant", "quad") == "quad"
        s = W64(4)
        if not any(s[0 if quad else 1:]):
            s = s[:3] + [1]
        g = romu(dict(zip("wxyz", s), variant="quad" if quad else "trio"))
        take(g, 10)
        return g
    if name == "SFC64":
        w, k = kw.get("w", 1), kw.get("k", 1)
        s = W64(3 + (w is None) + (k is None))
        if w is None:
            w = s[3]
        if k is None:
            k = s[-1]
        g = sfc({"a": s[0], "b": s[1], "c": s[2], "w": w, "k": k | 1})
        take(g, 12)
        return g
    if name == "PCG32":
        s = W64(2)
        return pcg32(pcg_init(s[0], s[1] if kw.get("inc") is None else kw["inc"], 6364136223846793005, M64))
    if name in ("PCG64", "PCG64DXSM", "LCG128Mix"):
        s = W64(4)
        inc = w128(s[2:]) if kw.get("inc") is None else kw["inc"]
        v = "dxsm" if name == "PCG64DXSM" else kw.get("variant", "xsl-rr")
        if name == "LCG128Mix":
            mult = kw.get("multiplier", PCG_MULT)
        else:
            mult = CHEAP if v == "dxsm" else PCG_MULT
        st = pcg_init(w128(s[:2]), inc, mult, M128)
        if name == "LCG128Mix":
            return lcg(st["state"], st["inc"], mult, outfn(kw.get("output", "xsl-rr")), kw.get("dxsm_multiplier", CHEAP), kw.get("post", True))
        return pcg64(st, v)
    if name == "Tyche":
        s = W32(3)
        org = kw.get("original", True)
        g = tyche({"a": s[1], "b": s[0], "c": 2654435769, "d": 1367130551 ^ (s[2] if kw.get("idx") is None else kw["idx"]), "original": org})
        take(g, 20)
        return g
    if name == "Xoroshiro128":
        return xoroshiro(W64(2), kw.get("plusplus", False))
    if name == "Xoshiro256":
        return xoshiro256(W64(4))
    if name == "Xoshiro512":
        return xoshiro512(W64(8))
    if name == "Xorshift1024":
        return xorshift1024({"s": W64(16), "p": 0})
    if name == "MT19937":
        s = W32(624)
        if kw.get("numpy_seed"):
            st = {"key": [0x80000000] + s[1:], "pos": 623}
        else:
            st = mt_seeded(624, 32, 1812433253, 1664525, 1566083941, 19650218, s)
        return words({"bit_generator": "MT19937", "state": st})
    if name == "MT64":
        return words({"bit_generator": "MT64", "state": mt_seeded(312, 64, 6364136223846793005, 3935559000370003845, 2862933555777941757, 19650218, W64(312))})
    if name == "SFMT":
        x = sfmt_by_array(624, 0x8B8B8B8B, W32(624))
        if not parity(x[0] & 1 ^ x[3] & 0x13C9E684):
            x[0] ^= 1
        return sfmt({"state": {"state": x}, "buffered_uint64": [], "buffer_loc": 0})
    if name == "DSFMT":
        x = sfmt_by_array(768, 0x8B8B8B8B, W32(764))
        s = [x[i] | x[i + 1] << 32 for i in range(0, 768, 2)]
        s[:382] = [v & (1 << 52) - 1 | 0x3FF << 52 for v in s[:382]]
        if not parity((s[382] ^ 0x90014964B32F4329) & 0x3D84E1AC0DC82880 ^ (s[383] ^ 0x3B8D12AC548A7C7A) & 1):
            s[383] ^= 1
        return dsfmt({"state": {"state": s, "idx": 382}, "buffered_uniforms": [], "buffer_loc": 0})
    raise KeyError(name)
