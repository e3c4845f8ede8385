"""C03: generators in different threads never influence one another.

A coordinator makes generators and hands relatives of them (spawned, jumped, copied, pickled, restored, twins)
to workers.  The workers run as simulated threads that are preempted at every draw, and draw, move, reseed,
save, restore, derive, replace and destroy only objects of their own.  What each worker sees must be what it
sees when it runs alone, here or in another process.
"""
import copy, gc, pickle, warnings
import numpy as np
from sim import core, env, gens, life, peer, sched
from sim.core import Violation
import randomgen as rg

ID = "C03"
CHECK_EVERY = 47
SLOTS = 3
DERIVE = ["twin", "copy", "deepcopy", "pickle", "state", "jumped", "jumped", "spawn", "ext-pickle", "ext-copy", "ext-deepcopy"]
# configurations of one class share code and tables
KINOF = {c: [d for d in gens.ALL if gens.CONFIGS[d][0] == gens.CONFIGS[c][0]] for c in gens.ALL}


def can_jump(cfg):
    return life.has(cfg, "jumped")


def rand_make(rng, cfg):
    m = {"cfg": cfg, "seed": life.rand_seed(rng, cfg), "ctor": life.rand_ctor(rng, cfg)}
    k = life.rand_key(rng, cfg) if rng.random() < 0.2 else None
    if k:
        m["seed"], m["ctor"] = None, {**m["ctor"], **k}
    return m


def derivation(rng, cfg):
    while True:
        d = rng.choice(DERIVE)
        if d == "jumped" and not can_jump(cfg):
            continue
        return [d, rng.choice([1, 1, 2, 5])]


def rand_op(rng, kin, slots):
    """slots: configuration per slot, updated as the plan is written"""
    s = rng.randrange(SLOTS)
    if slots[s] is None and rng.random() < 0.75:
        s = rng.choice([x for x in range(SLOTS) if slots[x]] or [0])
    c = slots[s]
    k = rng.random()
    if c is None or k < 0.07:
        slots[s] = c = rng.choice(kin)
        return ["make", s, rand_make(rng, c)]
    if k < 0.45:
        return ["do", s, life.rand_draw(rng, c)]
    if k < 0.53:
        m = life.rand_move(rng, c)
        return ["do", s, m] if m else ["do", s, life.rand_draw(rng, c)]
    if k < 0.6:
        return ["do", s, ["reseed", life.rand_seed(rng, c)]]
    if k < 0.78:
        d = rng.randrange(SLOTS)
        slots[d] = c
        return ["derive", s, d, derivation(rng, c)]
    if k < 0.84:
        slots[s] = None
        return ["drop", s, rng.random() < 0.1]
    if k < 0.88:
        return ["save", s]
    if k < 0.92:
        return ["load", s]
    if k < 0.945:
        d = rng.randrange(SLOTS)
        slots[d] = c
        return ["spawn", s, d]
    if k < 0.97:
        o = rng.randrange(SLOTS)
        if o != s and slots[o] is not None:
            return ["cross", s, o, life.rand_draw(rng, slots[o])]
        return ["look", s]
    if k < 0.985:
        return ["util", rng.choice(["weyl", "keys", "ss", "ssr", "refuse"]), rng.randrange(2**32)]
    return ["rest", rng.randrange(1, 4)]


def plan(rng, tier, i):
    cfg = gens.ALL[i % len(gens.ALL)]
    kin = KINOF[cfg] if rng.random() < 0.8 else rng.sample(gens.ALL, 3) + [cfg]
    roots = [{**rand_make(rng, cfg if k == 0 else rng.choice(kin)), "warm": [life.rand_draw(rng, cfg) for _ in range(rng.randrange(0, 3))]} for k in range(rng.choice([1, 1, 2]))]
    nt = rng.choice([2, 2, 3, 3, 4])
    deep = tier == "thorough" and rng.random() < 0.3
    ws = []
    for t in range(nt):
        r = rng.randrange(len(roots))
        slots = [None] * SLOTS
        slots[0] = roots[r]["cfg"]
        d = derivation(rng, roots[r]["cfg"]) if t else ["self", 0]
        if not t:
            r, slots[0] = 0, cfg
        ws.append({"root": r, "derive": d, "ops": [rand_op(rng, kin, slots) for _ in range(rng.randrange(3, 12 if not deep else 30))]})
    for w in ws:
        w["own"] = roots[w["root"]]["seed"] is not None and not any(x["root"] == w["root"] and x["derive"][0] == "copy" for x in ws)
    return {"kin": kin, "roots": roots, "threads": ws, "sched": sched.rand_sched(rng), "py": rng.random() < 0.3, "peer": rng.random() < (0.03 if tier == "quick" else 0.1)}


def build(m):
    """a node from its description"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return life.Node(m["cfg"], gens.make(m["cfg"], m["seed"], **m["ctor"]))


def derive(node, how, t):
    """a relative of a node; it must share nothing with it"""
    k, n = how
    if k == "twin":
        k = "state"
    bg = node.bg
    if k == "jumped":
        return life.Node(node.cfg, bg.jumped(n))
    if k == "copy":
        return life.Node(node.cfg, copy.copy(bg))
    if k == "deepcopy":
        return life.Node(node.cfg, copy.deepcopy(bg))
    if k == "pickle":
        return life.Node(node.cfg, pickle.loads(pickle.dumps(bg)))
    if k == "state":
        o = life.Node.make(node.cfg, 1 + n)
        o.bg.state = bg.state
        return o
    if k == "spawn":
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ss = np.random.SeedSequence(n)
            return life.Node.make(node.cfg, {"ss": n, "spawn": [t + 1]} if t % 2 else ss.spawn(t + 1)[t])
    g = node.get_ext()
    g = {"ext-pickle": lambda: pickle.loads(pickle.dumps(g)), "ext-copy": lambda: copy.copy(g), "ext-deepcopy": lambda: copy.deepcopy(g)}[k]()
    return life.Node(node.cfg, g.bit_generator, g)


class Worker:
    def __init__(self, t, node, w, live):
        self.t, self.w, self.live = t, w, live
        self.slots = [None] * SLOTS
        self.saved = {}
        self.res = []
        # a shallow copy shares the seed sequence with its original
        self.own = [w["derive"][0] not in ("copy", "ext-pickle", "ext-copy", "ext-deepcopy") and w.get("own", True)] + [True] * (SLOTS - 1)
        self.put(0, node)

    def put(self, s, node):
        self.slots[s] = node
        if node is not None and self.live:
            b = env.bitgen_of(node.bg)
            env.tramp_remove(b)
            env.tramp_install(b, self.t, 0, 1)

    def plain(self, s, f):
        """operations that may choose new draw functions act on the object without the seam"""
        if self.live:
            env.tramp_remove(env.bitgen_of(self.slots[s].bg))
        try:
            return f()
        finally:
            self.put(s, self.slots[s])

    def end(self):
        for n in self.slots:
            if n is not None and self.live:
                env.tramp_remove(env.bitgen_of(n.bg))

    def drop(self, s):
        if self.slots[s] is not None:
            self.slots[s] = None

    def step(self, op):
        k = op[0]
        if k == "rest":
            for _ in range(op[1]):
                env.sim_yield()
            return None
        if k == "util":
            return util(op[1], op[2])
        s = op[1]
        if k == "make":
            self.drop(s)
            self.put(s, build(op[2]))
            self.own[s] = op[2]["seed"] is not None
            return None
        n = self.slots[s]
        if n is None:  # minimisation removed what made it
            return None
        if k == "do" and op[2][0] not in ("reseed", "adv", "jump", "craft"):
            return n.do(op[2])
        if k == "do":
            return self.plain(s, lambda: n.do(op[2]))
        if k == "derive":
            core.MARK(f"{n.cfg} derive {op[3][0]}")
            o = derive(n, op[3], self.t)
            if op[2] != s:
                self.drop(op[2])
            self.put(op[2], o)
            if op[3][0] == "copy":
                self.own[s] = self.own[op[2]] = False
            else:
                self.own[op[2]] = op[3][0][:3] != "ext" and (self.own[s] or op[3][0] in ("state", "twin", "spawn"))
            return None
        if k == "spawn":
            ss = n.bg.seed_seq
            if not self.own[s] or not hasattr(ss, "spawn"):
                return None
            core.MARK(f"{n.cfg} spawn")
            if self.j % 2 and not gens.CONFIGS[n.cfg][1] and hasattr(n.bg, "spawn"):
                new = life.Node(n.cfg, n.bg.spawn(1)[0])  # the generator's own (NumPy's) way
                c = new.bg.seed_seq
            else:
                c = ss.spawn(1)[0]
                new = life.Node.make(n.cfg, c)
            self.put(op[2], new)
            self.own[op[2]] = True
            return [list(c.spawn_key), c.generate_state(2)]
        if k == "drop":
            self.drop(s)
            if op[2]:
                gc.collect(0)
            return None
        if k == "save":
            self.saved[s] = (n.cfg, n.bg.state)
            return None
        if k == "load":
            if s in self.saved and self.saved[s][0] == n.cfg:
                self.plain(s, lambda: setattr(n.bg, "state", self.saved[s][1]))
            return None
        if k == "look":
            return n.bg.state, repr(n.bg)[:8]
        if k == "cross":
            o = self.slots[op[2]]
            if o is None or o is n:
                return None
            with n.bg.lock:  # locks of different objects are different
                return o.do(op[3])
        raise KeyError(k)

    def all(self):
        for j, op in enumerate(self.w["ops"]):
            if self.live:
                env.set_op(j)
                env.sim_yield()
            self.j = j
            self.res.append(gens.freeze(self.step(op)))
        for s, n in enumerate(self.slots):
            if n is not None:
                self.res.append(gens.freeze([n.bg.state, life.window(n.bg), self.child(s)]))
                if self.live:
                    env.sim_yield()

    def child(self, s):
        """what a generator can spawn is its own as well"""
        ss = self.slots[s].bg.seed_seq
        if not self.own[s] or not hasattr(ss, "spawn"):
            return None
        c = ss.spawn(1)[0]
        return [list(c.spawn_key), c.generate_state(2)]


def util(what, k):
    if what == "weyl":
        return rg.SFC64(k).weyl_increments(2)
    if what == "keys":
        from randomgen.squares import generate_keys
        return generate_keys(k, 2)
    if what == "ss":
        s = np.random.SeedSequence(k)
        return [c.generate_state(2) for c in s.spawn(2)]
    if what == "ssr":
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s = rg.SeedSequence(k)
            return [c.generate_state(2) for c in s.spawn(2)]
    try:
        rg.PCG64(-1)
    except Exception as e:
        return type(e).__name__


def prepare(plan, only=None):
    """the coordinator: roots, then one relative per worker (or for one worker alone)"""
    roots = []
    for k, r in enumerate(plan["roots"]):
        if only is not None and plan["threads"][only]["root"] != k:
            roots.append(None)
            continue
        n = build(r)
        for op in r["warm"]:
            n.do(op)
        roots.append(n)
    out = []
    for t, w in enumerate(plan["threads"]):
        if only is not None and t != only:
            out.append(None)
            continue
        r = roots[w["root"]]
        out.append(r if w["derive"][0] == "self" else derive(r, w["derive"], t))
    return out


def solo(plan, t):
    w = Worker(t, prepare(plan, t)[t], plan["threads"][t], False)
    w.all()
    return w.res


def run(plan, tr):
    th = plan["threads"]
    tr.sh([r["cfg"] for r in plan["roots"]], [[w["derive"], [(op[0], op[2][0]) if op[0] == "do" else (op[0], op[3][0]) if op[0] == "derive" else op[0] for op in w["ops"]]] for w in th])
    env.ledger_reset()
    nodes = prepare(plan)
    ws = [Worker(t, n, th[t], True) for t, n in enumerate(nodes)]
    del nodes
    try:
        err = sched.run(plan, [lambda t: ws[t].all()] * len(th), tr, py=plan.get("py", False))
    finally:
        for w in ws:
            w.end()
    for t, e in enumerate(err):
        if e is not None and not isinstance(e, Exception):
            raise Violation(f"worker ends with {type(e).__name__}", repr(e))
    tr.trivial = False
    tr.probe("words drawn under preemption", env.ledger_len())
    for t, w in enumerate(ws):
        for op in th[t]["ops"]:
            tr.probe("op " + op[0])
        tr.probe("worker from " + th[t]["derive"][0])
    for t, w in enumerate(ws):
        compare(plan, tr, t, w.res, err[t], lambda: solo(plan, t), "alone")
        if plan["peer"] and err[t] is None:
            r = peer.get().call("sim.props.c03:solo", plan, t)
            tr.fault("worker repeated in another process")
            compare(plan, tr, t, w.res, None, lambda: r if isinstance(r, list) else boom(r), "in another process")


def boom(r):
    raise RuntimeError(str(r))


def compare(plan, tr, t, got, err, ref, where):
    try:
        want, e2 = ref(), None
    except Exception as e:
        want, e2 = [], e
    if (err is None) != (e2 is None):
        j = len(got)
        raise Violation(f"a worker fails only {'together with others' if err else where}", f"{err!r} / {e2!r}")
    if err is not None:
        raise err  # fails alone as well: report what it is
    tr.ev(t, len(got), hash_(got))
    ops = plan["threads"][t]["ops"]
    for j, (a, b) in enumerate(zip(got, want)):
        if a != b:
            op = ops[j] if j < len(ops) else ["end"]
            raise Violation(f"{plan['roots'][plan['threads'][t]['root']]['cfg']}: a worker's stream differs from what it produces {where}",
                            f"worker {t} ({plan['threads'][t]['derive']}), step {j} {op}: {a[:160]} instead of {b[:160]}")


def hash_(x):
    import hashlib
    return hashlib.md5(repr(x).encode()).hexdigest()
