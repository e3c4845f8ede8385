"""C06: skip-ahead reaches exactly the position that drawing would have reached.

A worker draws, skips forward, backward and around the period, crashes, and is restarted from its seed with one
advance.  Its position is followed in exact integer arithmetic; after every operation its words are compared with
a reference positioned without advance: by a constructor counter, by Python arithmetic on the LCG state, or by
plain drawing.
"""
import numpy as np
from sim import core, env, gens, life, words
from sim.core import Violation

ID = "C06"
CHECK_EVERY = 53
CFGS = [c for c in gens.ALL if life.has(c, "advance")]

MULT = {"PCG32": 6364136223846793005}
M128 = 0x2360ED051FC65DA44385DF649FCCF645
CHEAP = 0xDA942042E4DD58B5


class Family:
    """positions of one configuration: pos counts units (the smallest words), mod period"""

    def __init__(self, cfg, seed, ctor):
        self.cfg, self.seed, self.ctor = cfg, seed, dict(ctor)
        c, k = gens.CONFIGS[cfg]
        self.kind, self.scale = "lcg", 1
        self.c0 = self.ctor.pop("counter", 0)
        if c in ("AESCounter", "SPECK128"):
            self.kind, self.n, self.cbits = "block", 2, 128
        elif c in ("Philox", "ThreeFry"):
            self.kind, self.n, self.cbits = "block", k.get("number", 4), k.get("width", 64) * k.get("number", 4)
        elif c == "Squares":
            self.kind, self.n, self.cbits = "block", 1, 64
        else:
            self.n, self.cbits = 1, 64 if c == "PCG32" else 128
            st = gens.make(cfg, seed, **self.ctor).state
            self.st = st
            self.s0, self.inc = int(st["state"]["state"]), int(st["state"]["inc"])
            if c == "LCG128Mix":
                self.mult = int(st["state"]["multiplier"])
            elif c == "PCG64DXSM" or k.get("variant") == "dxsm":
                self.mult = CHEAP
            else:
                self.mult = MULT.get(c, M128)
        self.period = self.n << self.cbits

    def fresh(self):
        kw = dict(self.ctor)
        if self.c0:
            kw["counter"] = self.c0
        return gens.make(self.cfg, self.seed, **kw)

    def at(self, pos):
        """a new generator positioned without advance"""
        pos %= self.period
        if self.kind == "block":
            kw = dict(self.ctor)
            kw["counter"] = (self.c0 + pos // self.n) % (1 << self.cbits)
            g = gens.make(self.cfg, self.seed, **kw)
            for _ in range(pos % self.n):
                env.draw(g, b"\3")
            return g
        m, a, inc, ai, s = 1 << self.cbits, self.mult, self.inc, 0, pos
        acc_m, acc_a, cur_m, cur_a = 1, 0, a % m, inc
        while s:
            if s & 1:
                acc_m, acc_a = acc_m * cur_m % m, (acc_a * cur_m + cur_a) % m
            cur_a = (cur_m + 1) * cur_a % m
            cur_m = cur_m * cur_m % m
            s >>= 1
        g = gens.make(self.cfg, self.seed, **self.ctor)
        st = g.state
        v = (acc_m * self.s0 + acc_a) % m
        st["state"]["state"] = v if self.cbits == 128 else np.uint64(v)
        g.state = st
        return g


class Follow:
    """what the worker must deliver: a width model over reference words, restarted at every move"""

    def __init__(self, fam):
        self.f, self.pos = fam, 0
        self.move(0)

    def move(self, pos):
        self.pos = pos % self.f.period
        self.count = 0
        m = words.model_of(self.f.cfg)
        src = words.Units(self.f.at(self.pos), m.split, 16)

        def unit():
            self.count += 1
            return src()
        self.m = m(unit)

    def here(self):
        return (self.pos + self.count) % self.f.period

    def draw(self, kinds):
        f = (self.m.n64, self.m.n32, self.m.nd, self.m.raw)
        return [f[int(c)]() for c in kinds]


def rand_delta(rng, fam_bits, cfg, n):
    c = gens.CONFIGS[cfg][0]
    P = n << fam_bits
    k = rng.random()
    if k < 0.35:
        d = rng.randrange(1, 40)
    elif k < 0.5:
        d = rng.randrange(1, 4000)
    elif k < 0.75:
        d = 2 ** rng.randrange(0, P.bit_length()) + rng.randrange(-3, 4)
    elif k < 0.85:
        d = P - rng.randrange(1, 60)
    else:
        d = rng.getrandbits(P.bit_length() - 1)
    d %= P
    d = d or 1
    if c != "Squares":
        k = rng.random()
        if k < 0.15:
            d -= P  # the same move, negative
        elif k < 0.25:
            d += P * rng.choice([1, 2, 3, -2])
        elif k < 0.3:
            d = -rng.randrange(1, 300)
        elif k < 0.32:
            d = P * rng.choice([1, 1, 2, -1, 5])  # back to where it was
    return d


def plan(rng, tier, i):
    cfg = CFGS[i % len(CFGS)]
    ctor = life.rand_ctor(rng, cfg)
    if rng.random() < 0.3:
        kk = life.rand_key(rng, cfg)
        if kk:
            ctor.update(kk)
    c, k = gens.CONFIGS[cfg]
    n = {"AESCounter": 2, "SPECK128": 2, "Philox": k.get("number", 4), "ThreeFry": k.get("number", 4)}.get(c, 1)
    bits = {"PCG32": 64, "Squares": 64, "Philox": k.get("width", 64) * n, "ThreeFry": k.get("width", 64) * n}.get(c, 128)
    ops = []
    for _ in range(rng.randrange(2, 9) if tier == "quick" or rng.random() < 0.8 else rng.randrange(8, 30)):
        r = rng.random()
        if r < 0.45:
            ops.append(["d", life.rand_kinds(rng, rng.randrange(1, 24))])
        elif r < 0.53:
            ops.append(["skip", rng.randrange(1, 140)])
        elif r < 0.85:
            flag = None
            if c in ("Philox", "ThreeFry"):
                flag = rng.random() < 0.3
            d = rand_delta(rng, bits, cfg, n)
            if flag and rng.random() < 0.5:
                d = rng.choice([1, 2, 3, -1, 2**rng.randrange(bits), rng.getrandbits(bits) or 1])
            ops.append(["adv", str(d), flag])
        elif r < 0.92:
            ops.append(["crash", rng.random() < 0.4, str(rng.getrandbits(bits))])
        else:
            ops.append(["copy", rng.choice(["copy", "state"])])
    seed = None if "key" in ctor else life.rand_seed(rng, cfg)
    return {"cfg": cfg, "seed": seed, "ctor": ctor, "ops": ops}


def small(pos, period):
    return pos if pos < 1 << 14 else None


def run(plan, tr):
    cfg = plan["cfg"]
    fam = Family(cfg, plan["seed"], plan["ctor"])
    unit_is_raw = fam.n != 1 or fam.cbits != 64 or cfg != "squares32"
    n = life.Node(cfg, fam.fresh())
    ref = Follow(fam)
    moved = False
    tr.sh(cfg, sorted(plan["ctor"]))
    drawn, moved_in = False, False  # which block a counter-only advance starts from depends on them
    for op in plan["ops"]:
        tr.sh(op[0], op[1] if op[0] == "d" else (len(op[1]), op[1][0] == "-", op[2]) if op[0] == "adv" else None)
        tr.steps += 1
        if op[0] == "d":
            core.MARK(f"{cfg} draw")
            a, b = n.op_d(op[1]), ref.draw(op[1])
            drawn = True
            tr.ev("d", a)
            if a != b:
                raise Violation(f"{cfg}: words after advance are not those of the position" if moved else f"{cfg}: words are not those of the position",
                                f"{op}: {a} instead of {b} at position {ref.here() - len(b)} of {plan}")
        elif op[0] == "skip":
            env.skip(n.bg, op[1])
            for _ in range(op[1]):
                ref.m.raw()
            drawn = True
        elif op[0] == "adv":
            d, flag = int(op[1]), op[2]
            core.MARK(f"{cfg} advance")
            half = getattr(ref.m, "half", None) is not None
            here = ref.here()
            if flag:
                # whole counters, then a new block: the current block is the one last drawn from
                blk = (here - 1) // fam.n if drawn or here % fam.n else here // fam.n
                if not drawn and not moved_in:
                    blk = here // fam.n - 1
                to = (blk + 1 + d) * fam.n
            else:
                to = here + d
            n.op_adv(d, flag)
            if d % fam.period == 0 and not flag:
                tr.probe("advance by whole periods")
            moved_in = not flag
            ref.move(to)
            drawn = False
            moved = True
            tr.trivial = False
            if half:
                tr.probe("advance with half a word buffered")
            if d < 0:
                tr.probe("negative advance")
            if abs(d) > fam.period:
                tr.probe("wrapped advance")
            if ref.pos < here and d % fam.period > 0:
                tr.probe("advance across the end of the period")
            if fam.kind == "block" and ((fam.c0 + here // fam.n) >> 32) != ((fam.c0 + ref.pos // fam.n) >> 32):
                tr.probe("carry into the next counter word")
        elif op[0] == "crash":
            # only the number of steps used is durable
            here = ref.here()
            core.MARK(f"{cfg} restart and advance")
            if op[1]:
                a = int(op[2]) % fam.period or 1
                b = (here - a) % fam.period
                steps = [a, b]
            else:
                steps = [here]
            m = life.Node(cfg, fam.fresh())
            for s in steps:
                if s:
                    m.bg.advance(s, False) if gens.CONFIGS[cfg][0] in ("Philox", "ThreeFry") else m.bg.advance(s)
                    moved = True
            n = m
            moved_in = bool(steps[-1])
            ref.move(here)
            drawn = False
            if not any(steps):
                moved_in = False
            tr.fault("crash, restart from the seed")
            tr.trivial = False
            s = small(here, fam.period)
            if s is not None and unit_is_raw and cfg not in ("squares32",):
                core.MARK(f"{cfg} plain drawing")
                plain = fam.fresh()
                env.skip(plain, s)
                x, y = n.op_d("3333"), env.draw(plain, b"\3\3\3\3")
                ref.draw("3333")
                drawn = True
                if x != y:
                    raise Violation(f"{cfg}: restart and advance is not where drawing was", f"position {s}: {x} instead of {y}")
                tr.probe("restart compared with plain drawing")
        elif op[0] == "copy":
            here, half = ref.here(), getattr(ref.m, "half", None)
            if op[1] == "state":
                m = life.Node.make(cfg, 99)
                m.bg.state = n.bg.state
                n = m
            else:
                import copy
                n = life.Node(cfg, copy.copy(n.bg))
    core.MARK(f"{cfg} draw")
    a, b = n.op_d(life.PROBE * 4), ref.draw(life.PROBE * 4)
    tr.ev("end", a)
    if a != b:
        raise Violation(f"{cfg}: words after advance are not those of the position" if moved else f"{cfg}: words are not those of the position",
                        f"at the end: {a[:6]} instead of {b[:6]}; {plan}")
