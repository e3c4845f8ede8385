"""C05: checkpoints and other observations are inert.

An observer acts between the draws of a worker: it reads states, copies, pickles, prints, touches every public
attribute and interface, keeps what it got, edits it, restores it elsewhere, uses and destroys it.  A twin without
an observer must produce the same stream, and whatever was saved must stay as it was saved.
"""
import copy, gc, pickle
import numpy as np
from sim import core, env, gens, life, sched, store
from sim.props import c01
from sim.core import Violation
import randomgen as rg

ID = "C05"
CHECK_EVERY = 53

OBS = ["state", "state", "state", "state-edit", "ext-state", "ext-state-edit", "copy", "deepcopy", "pickle", "ext-copy", "ext-deepcopy",
       "ext-pickle", "repr", "attrs", "ctypes", "cffi", "capsule", "jumped", "generator", "reduce", "state-set-elsewhere", "state-set-self",
       "state-set-edit", "seed-array", "spawn", "lock", "use-copy", "drop", "random_raw0", "raw-noop", "out"]
# methods of copying for which the copy's configuration need not follow are still inert for the original


# what may be done to a generator that another thread draws from without its lock
LOOK = [o for o in OBS if o not in ("state-set-self", "state-set-edit", "seed-array", "out")] + ["jumped"] * 3 + ["use-copy", "deepcopy", "ext-deepcopy"]


def rand_obs(rng):
    return [rng.choice(OBS), rng.randrange(2**32), rng.randrange(8)]


def plan(rng, tier, i):
    cfg = gens.ALL[i % len(gens.ALL)]
    if rng.random() < 0.25:
        # an observer in a thread of its own
        nt = rng.choice([2, 2, 3])
        th = [{"ops": [c01.rand_op(rng, 1) for _ in range(rng.randrange(1, 5))]} for _ in range(nt - 1)]
        look = [["obs", 0, rng.choice(LOOK), rng.randrange(2**32), rng.randrange(8)] for _ in range(rng.randrange(1, 5))]
        return {"cfgs": [cfg], "seeds": [life.rand_seed(rng, cfg)], "warm": [life.rand_kinds(rng, rng.randrange(0, 5))], "threads": th + [{"ops": look}],
                "faults": [], "sched": sched.rand_sched(rng)}
    ops = []
    for _ in range(rng.randrange(3, 9) if tier == "quick" or rng.random() < 0.8 else rng.randrange(9, 30)):
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            ops.append(["obs"] + rand_obs(rng))
        r = rng.random()
        mv = life.rand_move(rng, cfg) if r < 0.12 else None
        ops.append(mv or (["reseed", life.rand_seed(rng, cfg)] if r > 0.93 else life.rand_draw(rng, cfg)))
    return {"cfg": cfg, "seed": life.rand_seed(rng, cfg), "ctor": life.rand_ctor(rng, cfg), "ops": ops}


def edit(x, how):
    """change everything a saved state holds"""
    for k in list(x):
        v = x[k]
        if isinstance(v, dict):
            edit(v, how)
        elif isinstance(v, np.ndarray):
            if v.flags.writeable:
                v[...] = np.asarray(how).astype(v.dtype)
        elif isinstance(v, (int, np.integer)) and not isinstance(v, bool):
            x[k] = how
    x.pop("has_uint32", None) if how % 2 else None


def observe(n, o, a, b, keep, cfg, tr):
    bg = n.bg
    core.MARK(f"{cfg} observation {o}")
    if o == "state":
        s = bg.state
        keep.append((s, gens.freeze(s), o))
    elif o == "state-edit":
        edit(bg.state, a)
    elif o == "ext-state":
        s = n.get_ext().state
        keep.append((s, gens.freeze(s), o))
    elif o == "ext-state-edit":
        s = n.get_ext().state
        edit(s, a)
    elif o in ("copy", "deepcopy"):
        c = getattr(copy, o)(bg)
        keep.append((c, gens.freeze(c.state), o))
    elif o == "pickle":
        s = pickle.dumps(bg, b % 4 + 2)
        c = pickle.loads(s)
        keep.append((c, gens.freeze(c.state), o))
    elif o in ("ext-copy", "ext-deepcopy"):
        c = getattr(copy, o[4:])(n.get_ext())
        if o == "ext-deepcopy":
            keep.append((c, gens.freeze(c.state), o))
    elif o == "ext-pickle":
        c = pickle.loads(pickle.dumps(n.get_ext()))
        keep.append((c, gens.freeze(c.state), o))
    elif o == "repr":
        repr(bg), str(bg), repr(n.get_ext()), str(n.get_ext()), hash(bg), bg == n, bg == bg
    elif o == "attrs":
        for x in dir(bg):
            if x.startswith("__") or x == "generator":
                continue
            try:
                getattr(bg, x)
            except (NotImplementedError, AttributeError):
                pass
        for x in dir(n.get_ext()):
            if not x.startswith("__"):
                getattr(n.get_ext(), x)
    elif o == "ctypes":
        bg.ctypes
    elif o == "cffi":
        bg.cffi
    elif o == "capsule":
        bg.capsule, env.bitgen_of(bg)
    elif o == "jumped":
        if life.has(cfg, "jumped"):
            c = bg.jumped(1)
            keep.append((c, gens.freeze(c.state), o))
    elif o == "generator":
        np.random.Generator(bg), rg.ExtendedGenerator(bg), np.random.RandomState(bg)
    elif o == "reduce":
        bg.__reduce__(), bg.__getstate__()
    elif o == "state-set-elsewhere":
        x = gens.make(cfg, a)
        s = bg.state
        x.state = s
        keep.append((s, gens.freeze(s), o))
        life.window(x)
        edit(s, b)
        keep.pop()
    elif o == "state-set-self":
        s = bg.state
        bg.state = s
        keep.append((s, gens.freeze(s), o))
    elif o == "state-set-edit":
        s = copy.deepcopy(bg.state)
        f = gens.freeze(s)
        bg.state = s
        if gens.freeze(s) != f:
            raise Violation(f"{cfg}: setting a state changes the dictionary", f"{s}")
        edit(s, a)
    elif o == "seed-array":
        arr = np.array([a, b, 3], dtype=np.uint64 if cfg != "mt19937-np" else np.uint32)
        f = arr.copy()
        x = gens.make(cfg, 5)
        w = None
        x.seed(arr)
        if not np.array_equal(arr, f):
            raise Violation(f"{cfg}: seed changes the caller's array", f"{arr}")
        arr[...] = 0
        w = life.window(x)
        x.seed(f.copy())
        if w != life.window(x):
            raise Violation(f"{cfg}: editing the seed array changes the seeded generator", "")
    elif o == "spawn":
        # spawning from the seed sequence moves its spawn counter, never the generator
        ss = getattr(bg, "seed_seq", None)
        if hasattr(ss, "spawn"):
            ss.spawn(1 + b % 3)
        if ss is not None:
            ss.generate_state(4), repr(ss)
    elif o == "lock":
        with bg.lock:
            pass
    elif o == "use-copy":
        c = copy.deepcopy(bg)
        life.window(c)
        if a % 2:
            c.seed(a)
        d = copy.copy(bg)
        life.window(d)
        st = d.state
        d.state = bg.state
        life.window(d)
        d.state = st
    elif o == "drop":
        c = [copy.deepcopy(bg), pickle.loads(pickle.dumps(bg)), np.random.Generator(bg), rg.ExtendedGenerator(bg)]
        life.window(c[0])
        del c
        if b == 0:
            gc.collect()
    elif o == "random_raw0":
        bg.random_raw(0), bg.random_raw((3, 0)), n.get_ext().random(0), n.get_ext().uintegers(0)
    elif o == "raw-noop":
        bg.random_raw(0, output=False)
    elif o == "out":
        if keep and b % 2:
            keep.pop(0)
    if tr is not None:
        tr.probe("observation " + o)


class Watched(c01.Shared):
    def do(self, op, live):
        if op[0] != "obs":
            return super().do(op, live)
        n = life.Node(self.cfg, self.bg)
        keep = []
        observe(n, op[2], op[3], op[4], keep, self.cfg, None)
        for s, f, o in keep:
            if gens.freeze(s if isinstance(s, dict) else s.state) != f:
                raise Violation(f"{self.cfg}: something saved by {o} changes by itself", "while another thread draws")


def threaded(plan, tr):
    cfg = plan["cfgs"][0]
    looks = [op[2] for op in plan["threads"][-1]["ops"]]
    core.MARK(f"{cfg} observations while others draw")
    try:
        c01.run(plan, tr, Watched, True)
    except Violation as e:
        raise Violation(f"{cfg}: an observation by another thread changes the stream", f"{looks}: {e}")
    tr.probe("observer in a thread of its own")
    for o in looks:
        tr.probe("observation " + o)


def run(plan, tr):
    if "cfgs" in plan:
        return threaded(plan, tr)
    cfg = plan["cfg"]
    tr.sh(cfg, [op[1] if op[0] == "obs" else op[0] for op in plan["ops"]])
    n, t = life.Node.make(cfg, plan["seed"], plan["ctor"]), life.Node.make(cfg, plan["seed"], plan["ctor"])
    n.get_ext(), t.get_ext()
    keep, last = [], []
    for op in plan["ops"]:
        tr.steps += 1
        if op[0] == "obs":
            observe(n, op[1], op[2], op[3], keep, cfg, tr)
            last.append(op[1])
            tr.trivial = False
            continue
        a, b = gens.freeze(n.do(op)), gens.freeze(t.do(op))
        tr.ev(op[0], a)
        if a != b:
            raise Violation(f"{cfg}: an observation changes the stream", f"after {last[-4:]}: {op} gave {a[:100]} instead of {b[:100]}")
        for s, f, o in keep:
            now = gens.freeze(s if isinstance(s, dict) else s.state)
            if now != f:
                raise Violation(f"{cfg}: something saved by {o} changes by itself", f"at {op}: {now[:200]} was {f[:200]}")
    a, b = life.window(n.bg), life.window(t.bg)
    tr.ev(a)
    if a != b:
        raise Violation(f"{cfg}: an observation changes the stream", f"after {last[-4:]}: {a[:3]} instead of {b[:3]}")
    if gens.freeze(n.bg.state) != gens.freeze(t.bg.state):
        raise Violation(f"{cfg}: an observation changes the state", f"after {last}")
