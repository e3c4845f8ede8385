"""C04: a restored checkpoint continues exactly the stream that was saved.

A worker executes a fixed script of operations on one generator and checkpoints it now and then.  The simulator
crashes it at operation boundaries; it restarts from a durable checkpoint (sometimes an older one, sometimes after
restores that were cut short, sometimes in another process) and redoes the work from there.  Every operation, done
once or redone, must give the result of the undisturbed execution.
"""
from sim import core, env, gens, life, peer, store
from sim.core import Violation

ID = "C04"
CHECK_EVERY = 53


SAME_CLASS = {a: [b for b in gens.ALL if gens.CONFIGS[b][0] == gens.CONFIGS[a][0] and b not in gens.NUMPY_MODE and b != a] for a in gens.ALL}


def plan(rng, tier, i):
    cfg = gens.ALL[i % len(gens.ALL)] if rng.random() < 0.7 else rng.choice(gens.ALL)
    if rng.random() < 0.06:
        cfg = rng.choice(sorted(gens.FOREIGN) + sorted(gens.DERIVED))
    foreign = cfg in gens.FOREIGN
    pre = []
    rich = rng.random() < 0.8
    for _ in range(rng.randrange(0, 5)):
        k = rng.random()
        op = ["reseed", life.rand_seed(rng, cfg)] if k < 0.2 and not foreign else life.rand_move(rng, cfg) if k < 0.4 else None
        pre.append(op or life.rand_draw(rng, cfg, rich))
    ops = []
    for _ in range(rng.randrange(3, 12)):
        op = life.rand_move(rng, cfg) if rng.random() < 0.2 else None
        ops.append(op or life.rand_draw(rng, cfg, rich))
    # fault script: (position, kind, details); swarm: some runs are free of some kinds
    kinds = [k for k in ("torn", "stale", "dirty", "process", "again") if rng.random() < 0.6]
    if foreign or cfg in gens.DERIVED:
        kinds = [k for k in kinds if k != "torn"]
    methods = [m for m in store.METHODS if m != "state-json"] if foreign or cfg in gens.DERIVED else store.METHODS if rng.random() < 0.6 else rng.sample(store.METHODS, 2)
    ev = []
    n = len(ops)
    for _ in range(rng.randrange(1, 4)):
        p = rng.randrange(0, n)
        ev.append({"at": p, "do": "save", "m": rng.choice(methods)})
        if rng.random() < 0.9:
            ev.append({"at": min(n, p + rng.randrange(0, 4)), "do": "crash", "stale": "stale" in kinds and rng.random() < 0.3,
                       "torn": [[rng.randrange(64), rng.randrange(4)] for _ in range(rng.randrange(1, 4))] if "torn" in kinds and rng.random() < 0.5 else [],
                       "into": rng.choice(["fresh", "used", "same", "other", "other"] if SAME_CLASS.get(cfg) else ["fresh", "used", "same"]) if "dirty" in kinds else "fresh",
                       "oc": rng.choice(SAME_CLASS.get(cfg) or [cfg]),
                       "dirt": life.rand_draw(rng, cfg), "seed": rng.randrange(2**32),
                       "ext": rng.random() < 0.3,
                       "proc": "process" in kinds and rng.random() < 0.25,
                       "again": "again" in kinds and rng.random() < 0.3})
    if rng.random() < 0.3:
        ev = [e for e in ev if e["do"] == "save" or not (e["torn"] or e["stale"] or e["proc"])]
    return {"cfg": cfg, "seed": rng.getrandbits(100) if foreign else life.rand_seed(rng, cfg), "ctor": life.rand_ctor(rng, cfg), "pre": pre, "ops": ops, "faults": ev,
            "ext_first": rng.random() < 0.3}


def run(plan, tr):
    cfg, ops = plan["cfg"], plan["ops"]
    tr.sh(cfg, [o[0] for o in ops], [(e["at"], e["do"], e.get("m"), e.get("into"), len(e.get("torn", ()))) for e in plan["faults"]])
    gold = life.Node.make(cfg, plan["seed"], plan["ctor"])
    gold.watch = True
    for op in plan["pre"]:
        gold.do(op)
    want = [gens.freeze(gold.do(op)) for op in ops]
    want_end = gens.freeze(life.window(gold.bg, 3))
    if gold.lost:
        raise Violation(f"{cfg}: a state read back is not the one restored", gold.lost)

    node = life.Node.make(cfg, plan["seed"], plan["ctor"])
    if plan["ext_first"]:
        node.get_ext()
    for op in plan["pre"]:
        node.do(op)
    saved = []  # (position, method, checkpoint)
    pos, fired = 0, set()
    how = "no restore"

    def check(p, got, where):
        tr.steps += 1
        if got != want[p]:
            raise Violation(f"{cfg}: wrong continuation after {where}", f"operation {p} {ops[p]} gave {got[:160]} instead of {want[p][:160]}; ctor {plan['ctor']}")

    guard = 0
    while True:
        guard += 1
        if guard > 200:
            raise core.HarnessError("no progress")
        for j, e in enumerate(plan["faults"]):
            if e["at"] != pos or j in fired:
                continue
            fired.add(j)
            if e["do"] == "save":
                core.MARK(f"{cfg} save {e['m']}")
                try:
                    saved.append((pos, e["m"], store.save(node, e["m"])))
                except Exception as x:
                    raise Violation(f"{cfg}: checkpoint by {e['m']} fails", f"{type(x).__name__}: {x}")
                tr.probe("save:" + e["m"])
            else:
                if not saved:
                    tr.probe("crash before any checkpoint")
                    continue
                c = saved[0] if e["stale"] and len(saved) > 1 else saved[-1]
                if e["stale"] and len(saved) > 1:
                    tr.fault("stale checkpoint")
                tr.fault("crash")
                tr.trivial = False
                p0, m, blob = c
                core.MARK(f"{cfg} restore {m}")
                how = f"restore by {m}" + (f" into {e['into']}" if m in store.STATES else "")
                into = None
                if e["into"] == "used":
                    into = life.Node.make(cfg, e["seed"])
                    if e["ext"]:
                        into.get_ext()
                    into.do(e["dirt"])
                    tr.probe("restore into a used generator")
                elif e["into"] == "other":
                    # an object of the same class made with other options; what is built on it is built after the restore,
                    # except an ExtendedGenerator that does the restore itself
                    into = life.Node.make(e["oc"], e["seed"])
                    into.do(e["dirt"])
                    into.cfg, into._np = cfg, None
                    if not e["ext"]:
                        into.ext = None
                    tr.probe("restore into another configuration")
                elif e["into"] == "same":
                    into = node
                    tr.probe("restore into the same generator")
                if e["torn"] and m in store.STATES:
                    if into is None:
                        into = life.Node.make(cfg, e["seed"])
                    st = store.loads(m, blob)
                    if isinstance(st, tuple):
                        st = {"bit_generator": st[0], "state": {"key": list(st[1]), "pos": st[2]}}
                    for t in e["torn"]:
                        bad, path, what = store.damage(t, st)
                        try:
                            into.bg.state = bad
                            tr.probe("damaged state accepted")
                        except Exception:
                            tr.fault("restore cut short")
                if e["proc"] and m in store.DURABLE:
                    # the new node runs in another process until it crashes too
                    rest = ops[p0:]
                    b = blob
                    r = peer.get().call("resume", cfg, m, b, e["seed"], rest)
                    tr.fault("restart in another process")
                    if isinstance(r, tuple) and r[:1] == ("err",):
                        raise Violation(f"{cfg}: {how} in another process fails", r[1])
                    for k, got in enumerate(r):
                        check(p0 + k, got, how + " in another process")
                for _ in range(2 if e["again"] else 1):
                    try:
                        node2 = store.restore(cfg, m, blob, into, e["seed"], None, e["ext"])
                    except Exception as x:
                        raise Violation(f"{cfg}: {how} fails", f"{type(x).__name__}: {x}")
                    if e["again"]:
                        # it runs a little, crashes at once, and is restored once more
                        if p0 < len(ops):
                            check(p0, gens.freeze(node2.do(ops[p0])), how)
                        into = node2 if e["into"] == "same" else (into and life.Node.make(cfg, e["seed"]))
                        tr.fault("crash right after restore")
                if e["again"]:
                    node2 = store.restore(cfg, m, blob, None, e["seed"] + 1, None, e["ext"])
                node = node2
                pos = p0
                tr.ev("restart", m, p0)
                break
        else:
            if pos >= len(ops):
                break
            got = gens.freeze(node.do(ops[pos]))
            check(pos, got, how)
            tr.ev(pos, got)
            pos += 1
            continue
    got = gens.freeze(life.window(node.bg, 3))
    if got != want_end:
        raise Violation(f"{cfg}: wrong continuation after {how}", f"the words after the last operation differ; ctor {plan['ctor']}")
    tr.ev("end", got)
