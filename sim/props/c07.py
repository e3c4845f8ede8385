"""C07: jumped streams start exactly one documented jump apart.

A coordinator hands out workers with jumped(), at any point of its life, directly, in chains, through checkpoints
and with the workers' draws interleaved.  The start of every worker is compared with the position computed without
the jump code: counter or LCG arithmetic (C06), or x^N modulo the minimal polynomial for the F2-linear families.
"""
import copy, pickle
import numpy as np
from sim import core, env, gens, life, linear, words
from sim.core import Violation
from sim.props import c06

ID = "C07"
CHECK_EVERY = 53
CFGS = [c for c in gens.ALL if life.has(c, "jumped")]
LIN = [c for c in CFGS if linear.fam_of(c)]
BIG = {"mt19937", "mt19937-np", "sfmt", "dsfmt"}
STEP = {"AESCounter": 2**64, "SPECK128": 2**64, "PCG32": 0x9E3779B97F4A7C16, "Squares": 11400714819323198485}
PCG_STEP = 0x9E3779B97F4A7C15F39CC0605CEDC834
L = 40  # raw words of the linear reference


def plan(rng, tier, i):
    cfg = CFGS[i % len(CFGS)]
    ctor = life.rand_ctor(rng, cfg)
    pre = []
    lin = cfg in LIN
    for _ in range(rng.randrange(0, 4)):
        if lin:
            r = rng.random()
            if r < 0.6:
                pre.append(life.rand_draw(rng, cfg))
            elif r < 0.75:
                pre.append(["jump1"])
            elif r < 0.9:
                pre.append(["reseed", life.rand_seed(rng, cfg)])
            else:
                pre.append(["half"])
        else:
            r = rng.random()
            n = 1
            if r < 0.6:
                pre.append(["d", life.rand_kinds(rng, rng.randrange(1, 24))])
            elif r < 0.7:
                pre.append(["skip", rng.randrange(1, 90)])
            else:
                c, k = gens.CONFIGS[cfg]
                n = {"AESCounter": 2, "SPECK128": 2, "Philox": k.get("number", 4), "ThreeFry": k.get("number", 4)}.get(c, 1)
                bits = {"PCG32": 64, "Squares": 64, "Philox": k.get("width", 64) * n, "ThreeFry": k.get("width", 64) * n}.get(c, 128)
                pre.append(["adv", str(c06.rand_delta(rng, bits, cfg, n)), None if c not in ("Philox", "ThreeFry") else False])
    if cfg in BIG:
        ks = [1, 1, 2, 3, 16, 17, 18, 33, 256, 273] + [4096, 4369, 65536, 65553]
    elif lin:
        ks = [1, 1, 2, 3]
    else:
        ks = [1, 1, 2, 3, rng.randrange(4, 60), rng.randrange(1, 2**31)]
        if gens.CONFIGS[cfg][0] == "Squares":
            ks[-1] = rng.randrange(1, 3000)
    return {"cfg": cfg, "seed": life.rand_seed(rng, cfg), "ctor": ctor, "pre": pre, "k": rng.choice(ks),
            "via": rng.choice(["jumped", "jumped", "jumped", "inplace", "chain", "checkpoint", "pickle"]),
            "mix": [[rng.randrange(2), life.rand_kinds(rng, rng.randrange(1, 9))] for _ in range(rng.randrange(1, 5))],
            "reseed": life.rand_seed(rng, cfg) if rng.random() < 0.3 else None}


class ListUnits:
    def __init__(self, ws, split):
        self.q = [u for w in ws for u in split(w)]
        self.i = 0

    def __call__(self):
        self.i += 1
        return self.q[self.i - 1]


def xor_at(fam, k, W, t):
    return [int(x) for x in np.bitwise_xor.reduce(W[linear.poly(fam, k) + t], axis=0)]


def lazy(bg):
    """an MT19937 whose first words are those of the state array read as a circular buffer whose oldest word is at pos"""
    s = bg.state
    key, pos = np.asarray(s["state"]["key"]), int(s["state"]["pos"])
    pos = 0 if pos >= 624 else pos
    g = gens.make("mt19937", 1)
    t = g.state
    t["state"] = {"key": np.concatenate([key[pos:], key[:pos]]), "pos": 0}
    g.state = t
    return g


class Linear:
    """where k jumps of an F2-linear generator must land, from the state before the jump"""

    def __init__(self, cfg, bg):
        self.cfg, self.fam = cfg, linear.fam_of(cfg)
        g = gens.make(cfg, 4242)
        g.state = bg.state
        self.g, self.data, self.state = g, None, g.state

    def jumped_words(self, k):
        if self.data is None:
            a = linear.FAMS[self.fam][1] + L + 8
            if self.fam in ("sfmt", "dsfmt"):
                loc = int(self.state["buffer_loc"])
                nb = len(self.state["buffered_uint64" if self.fam == "sfmt" else "buffered_uniforms"])
                if loc < nb:
                    env.skip(self.g, nb - loc)  # words computed in advance are dropped
            self.data = np.array(linear.sequence(self.g, self.fam, a), dtype=np.uint64)
        if self.fam in linear.PER:
            out = []
            for t in range(L // linear.PER[self.fam]):
                out += xor_at(self.fam, k, self.data, t)
            return out
        return xor_at(self.fam, k, self.data, 0)

    def model(self, k):
        ws = self.jumped_words(k)
        m = words.model_of(self.cfg)
        if self.fam in linear.PER:
            return m(ListUnits(ws, m.split))
        r = gens.make(self.cfg, 4243)
        s = dict(self.state)
        if self.fam == "lxm":
            s["state"] = {**s["state"], "x": np.array(ws, dtype=np.uint64)}
        elif self.fam == "xorshift1024":
            s["state"] = {"s": np.array(ws, dtype=np.uint64), "p": 0}
        else:
            s["s"] = np.array(ws, dtype=np.uint64)
        s["has_uint32"] = s["uinteger"] = 0
        r.state = s
        return m(words.Units(r, m.split, 16))


def take(m, kinds):
    f = (m.n64, m.n32, m.nd, m.raw)
    return [f[int(c)]() for c in kinds]


def run(plan, tr):
    cfg, k, via = plan["cfg"], plan["k"], plan["via"]
    c, ckw = gens.CONFIGS[cfg]
    lin = cfg in LIN
    if c == "PCG64DXSM" or not life.has(cfg, "jump"):
        via = "jumped" if via == "inplace" else via
    if via == "chain" and k > 3:
        via = "jumped"
    tr.sh(cfg, k, via, [p[0] for p in plan["pre"]])
    ref = fam = None
    if lin:
        n = life.Node.make(cfg, plan["seed"])
        for op in plan["pre"]:
            if op[0] == "jump1":
                n = life.Node(cfg, n.bg.jumped(1))
            elif op[0] == "half":
                n.op_d("1")
            else:
                n.do(op)
            tr.steps += 1
        exp = Linear(cfg, n.bg)
        model = exp.model(k)
    else:
        fam = c06.Family(cfg, plan["seed"], plan["ctor"])
        n, ref = life.Node(cfg, fam.fresh()), c06.Follow(fam)
        drawn = moved_in = False
        for op in plan["pre"]:
            tr.steps += 1
            if op[0] == "d":
                n.op_d(op[1]), ref.draw(op[1])
                drawn = True
            elif op[0] == "skip":
                n.op_skip(op[1])
                for _ in range(op[1]):
                    ref.m.raw()
                drawn = True
            else:
                n.op_adv(int(op[1]), op[2])
                ref.move(ref.here() + int(op[1]))
                drawn, moved_in = False, True
        here = ref.here()
        if c in ("Philox", "ThreeFry"):
            blk = (here - 1) // fam.n if drawn or here % fam.n else here // fam.n
            if not drawn and not moved_in:
                blk = here // fam.n - 1
            to = (blk + 1 + k * 2 ** (fam.cbits // 2)) * fam.n
        else:
            to = here + k * STEP.get(c, PCG_STEP)
        if getattr(ref.m, "half", None) is not None:
            tr.probe("jump with half a word buffered")
        jref = c06.Follow(fam)
        jref.move(to)
        model = jref.m
    before = gens.freeze(n.bg.state)
    twin = gens.make(cfg, 77)
    twin.state = n.bg.state
    core.MARK(f"{cfg} jumped({k}) by {via}")
    if via == "inplace":
        j = copy.deepcopy(n.bg)
        j.jump(k)
    elif via == "chain":
        j = n.bg
        for _ in range(k):
            j = j.jumped(1)
    else:
        j = n.bg.jumped(k)
    tr.trivial = False
    tr.probe("by " + via)
    if type(j) is not type(n.bg):
        raise Violation(f"{cfg}: jumped returns another kind of generator", repr(type(j)))
    if gens.freeze(n.bg.state) != before:
        raise Violation(f"{cfg}: jumped changes the original", f"{via}({k}) after {plan['pre']}")
    if via == "checkpoint":
        x = gens.make(cfg, 99)
        x.state = j.state
        j = x
        tr.fault("crash of the worker before its first draw")
    elif via == "pickle":
        j = pickle.loads(pickle.dumps(j))
        tr.fault("crash of the worker before its first draw")
    if cfg.startswith("mt19937"):
        return mt(plan, tr, cfg, n, j, exp, model, k, twin)
    # draws of original and worker interleave; each continues its own stream
    first = True
    for who, kinds in [[1, "1301"]] + plan["mix"] + [[1, "1302"], [0, life.PROBE]]:
        if who and not lin or who and first:
            a, b = env.draw(j, bytes(int(x) for x in kinds)), take(model, kinds)
            tr.ev(a)
            if a != b:
                raise Violation(f"{cfg}: the jumped stream is not one documented jump away", f"{via}({k}) after {plan['pre']} mix {plan['mix']}: {a[:4]} instead of {b[:4]}")
            first = first and not lin or sum(map(len, (kinds,))) < 0
        elif who:
            env.draw(j, bytes(int(x) for x in kinds))
        else:
            kk = bytes(int(x) for x in kinds)
            a, b = env.draw(n.bg, kk), env.draw(twin, kk)
            if a != b:
                raise Violation(f"{cfg}: jumped changes the original", f"{via}({k}) after {plan['pre']}: the original gave {a[:4]} instead of {b[:4]}")
    reseed(plan, tr, cfg, j)


def reseed(plan, tr, cfg, j):
    if plan["reseed"] is None or plan["via"] in ("checkpoint", "pickle", "inplace"):
        return
    core.MARK(f"{cfg} seed of a jumped generator")
    gens.reseed(j, cfg, plan["reseed"])
    a, b = life.window(j), life.window(gens.make(cfg, plan["reseed"]))
    if a != b:
        raise Violation(f"{cfg}: a jumped generator loses its configuration", f"seed({plan['reseed']}) of the jumped generator gave {a[:3]} instead of {b[:3]}")
    tr.probe("jumped generator reseeded")


def mt(plan, tr, cfg, n, j, exp, model, k, twin):
    for who, kinds in plan["mix"]:
        kk = bytes(int(x) for x in kinds)
        if who == 0 and env.draw(n.bg, kk) != env.draw(twin, kk):
            raise Violation(f"{cfg}: jumped changes the original", str(plan))
    kinds = "1301201113"
    st = j.state
    a, b = env.draw(j, bytes(int(x) for x in kinds)), take(model, kinds)
    tr.ev(a)
    if a == b:
        return reseed(plan, tr, cfg, j)
    # the words of the state, read in the order the jump code works in, must still be exact
    j2 = gens.make(cfg, 5)
    j2.state = st
    g = gens.make(cfg, 6)
    g.state = exp.state
    data = np.array(linear.sequence(lazy(g), "mt19937", 19968 + 48), dtype=np.uint64)
    want = [xor_at("mt19937", k, data, t)[0] for t in range(1, 40)]
    got = env.draw(lazy(j2), b"\3" * 40)[1:]
    if want != got:
        raise Violation(f"{cfg}: jumped(k) lands neither at the documented distance nor where its known finding puts it", f"k={k} after {plan['pre']}: {got[:3]} instead of {want[:3]}")
    reseed(plan, tr, cfg, j)
    raise Violation(f"{cfg}: the jumped stream is not one documented jump away", f"k={k} after {plan['pre']}: {a[:3]} instead of {b[:3]}")
