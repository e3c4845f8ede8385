"""C09: reseeding erases every trace of the past.

A generator lives through a random life (draws in every width, moves, restored states, jumped and copied
objects, refused and repeated seeds) and is then seeded; from there on it must be indistinguishable from a new
one of the same configuration and seed.
"""
import copy, pickle
from sim import core, env, gens, life
from sim.core import Violation

ID = "C09"
CHECK_EVERY = 53


def rand_event(rng, cfg):
    k = rng.random()
    if k < 0.5:
        return life.rand_draw(rng, cfg)
    if k < 0.65:
        return life.rand_move(rng, cfg) or life.rand_draw(rng, cfg)
    if k < 0.75:
        return ["restore", rng.randrange(2**32), life.rand_draw(rng, cfg), life.rand_ctor(rng, cfg)]
    if k < 0.85:
        return ["reseed", life.rand_seed(rng, cfg)]
    if k < 0.9:
        return ["key", life.rand_key(rng, cfg), life.rand_ctor(rng, cfg)]
    if k < 0.95:
        return ["badseed", rng.randrange(8)]
    return [rng.choice(["copy", "jumped", "ext-restore"])]


BAD = [-1, 2**600, "abc", [-1, 2], [2**64], 1.5, [[1, 2], [3, 4]], [0.5]]


def plan(rng, tier, i):
    cfg = gens.ALL[i % len(gens.ALL)]
    n = rng.randrange(1, 7) if tier == "quick" or rng.random() < 0.8 else rng.randrange(6, 30)
    how = rng.choice(["seed", "seed", "seed", "seed", "none", "key"])
    if "inc" in gens.CONFIGS[cfg][1] and how == "none":
        how = "seed"
    if how == "key" and life.rand_key(rng, cfg) is None:
        how = "seed"
    kw = life.rand_ctor(rng, cfg) if rng.random() < 0.5 else {}
    if how == "key":
        kw.update(life.rand_key(rng, cfg))
    elif "key" in kw:
        del kw["key"]
    tail = [life.rand_draw(rng, cfg) for _ in range(rng.randrange(0, 3))]
    if rng.random() < 0.25:
        mv = life.rand_move(rng, cfg)
        if mv:
            tail.append(mv)
    return {"cfg": cfg, "seed": life.rand_seed(rng, cfg), "ctor": life.rand_ctor(rng, cfg), "life": [rand_event(rng, cfg) for _ in range(n)],
            "how": how, "new": None if how != "seed" else life.rand_seed(rng, cfg), "kw": kw, "tail": tail, "again": rng.random() < 0.4,
            "ext": rng.random() < 0.3}


def step(node, e, cfg, tr):
    k = e[0]
    if k == "restore":
        d = life.Node.make(cfg, e[1], e[3])
        d.do(e[2])
        core.MARK(f"{cfg} state setter")
        node.bg.state = d.bg.state
        tr.fault("state of another generator restored")
    elif k == "key":
        if e[1]:
            gens.reseed(node.bg, cfg, None, **e[1], **e[2])
    elif k == "badseed":
        core.MARK(f"{cfg} seed({BAD[e[1]]})")
        try:
            gens.reseed(node.bg, cfg, BAD[e[1]])
        except Exception:
            tr.fault("seed refused")
    elif k == "copy":
        if cfg in gens.NUMPY_MODE or cfg.startswith("sfc64-"):
            return node  # the seeding mode and w, k belong to the constructor call: a copy is seeded with the defaults
        return life.Node(cfg, copy.deepcopy(node.bg))
    elif k == "jumped":
        if life.has(cfg, "jumped"):
            core.MARK(f"{cfg} jumped")
            return life.Node(cfg, node.bg.jumped(1))
    elif k == "ext-restore":
        x = node.get_ext()
        x.state = x.state
    elif k == "reseed":
        node.op_reseed(e[1])
    else:
        node.do(e)
    return node




def run(plan, tr):
    cfg = plan["cfg"]
    tr.sh(cfg, plan["how"], [e[:2] if e[0] in ("d", "np", "ext", "raw") else e[0] for e in plan["life"]], sorted(plan["kw"]))
    n = life.Node.make(cfg, plan["seed"], plan["ctor"])
    for e in plan["life"]:
        n = step(n, e, cfg, tr)
        tr.steps += 1
    tr.trivial = not plan["life"]
    if plan["ext"]:
        n.get_ext()

    def fresh():
        env.os_constant(rnd)
        try:
            return life.Node(cfg, gens.make(cfg, plan["new"], **plan["kw"]), None)
        finally:
            env.os_constant(None)

    def again():
        core.MARK(f"{cfg} seed {plan['how']}")
        env.os_constant(rnd)
        try:
            gens.reseed(n.bg, cfg, plan["new"], **plan["kw"])
        finally:
            env.os_constant(None)

    past = "+".join(sorted({e[0] if e[0] not in ("d", "skip", "raw", "ct", "cffi", "np", "ext") else "draws" for e in plan["life"]}))
    for rnd in range(2 if plan["again"] else 1):
        again()
        f = fresh()
        for op in plan["tail"] + [["d", life.PROBE * 3]]:
            a, b = gens.freeze(n.do(op)), gens.freeze(f.do(op))
            tr.ev(op[0], a)
            if a != b:
                raise Violation(f"{cfg}: seed does not erase the past", f"after {past} and seed({plan['how']}, {sorted(plan['kw'])}) {op} gave {a[:120]} instead of {b[:120]}")
        # what is left in the state must not differ where it can influence later output: a copy through the state goes on equally
        g = life.Node.make(cfg, 12345)
        g.bg.state = n.bg.state
        if gens.freeze(life.window(g.bg)) != gens.freeze(life.window(f.bg)):
            raise Violation(f"{cfg}: seed does not erase the past", f"after {past}: the state of the reseeded generator is not that of a new one")
        life.window(n.bg)
        tr.probe("seeded by " + plan["how"])
