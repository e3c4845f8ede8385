"""C08: the stream does not depend on which CPU path computes it.

A generator's life moves between nodes with different simulated CPUs (CPUID masked per process) and a node whose
randomgen was built without SIMD; on every node acceleration is switched on and off through any instance, other
generators come and go, and refused switches are attempted.  The same script without switches, executed without
migration on the portable node, is the reference.  That node also computes the PCG64 family and Philox with the
emulated 128-bit arithmetic of platforms whose compiler has none.
"""
from sim import core, env, gens, life, peer, store
from sim.core import Violation

ID = "C08"
NODE_CPU = False  # the nodes of a run are part of its plan
CHECK_EVERY = 31
CFGS = ["aes", "chacha20", "speck", "chacha8", "aes", "chacha2", "speck13", "chacha20", "dsfmt", "sfmt"]
# on the portable node these are computed without a 128-bit integer type, as on Windows and 32-bit systems
EMULATED = [c for c, (k, _) in gens.CONFIGS.items() if k in ("PCG64", "PCG64DXSM", "LCG128Mix", "Philox")]
FLAG = {"AESCounter": ("use_aesni", env.ECX_AES), "ChaCha": ("use_simd", env.ECX_SSSE3), "SPECK128": ("use_sse41", env.ECX_SSE41)}
# name -> arguments of peer.get; "native" runs in this process
NODES = {
    "native": None,
    "no AES": dict(mode=1, clr_ecx=env.ECX_AES),
    "no SSSE3/SSE4.1": dict(mode=1, clr_ecx=env.ECX_SSSE3 | env.ECX_SSE41),
    "no features": dict(mode=2),
    "portable": dict(portable=True),
}
METHODS = ["state-pickle", "pickle2", "pickle5", "ext-pickle"]


def plan(rng, tier, i):
    k = i % (len(CFGS) + 3)
    cfg = CFGS[k] if k < len(CFGS) else rng.choice(EMULATED)
    segs = []
    nodes = list(NODES)
    for _ in range(rng.randrange(1, 5) if tier == "quick" or rng.random() < 0.8 else rng.randrange(4, 10)):
        ops = []
        for _ in range(rng.randrange(1, 7)):
            k = rng.random()
            if k < 0.35:
                ops.append(["use", rng.choice(["self", "self", "other"]), rng.random() < 0.5])
            elif k < 0.4:
                ops.append(["new", rng.randrange(1000)])
            elif k < 0.5:
                ops.append(life.rand_move(rng, cfg) or life.rand_draw(rng, cfg))
            elif k < 0.53:
                ops.append(["reseed", life.rand_seed(rng, cfg)])
            else:
                ops.append(life.rand_draw(rng, cfg))
        segs.append({"node": rng.choice(nodes) if rng.random() < 0.6 else "native", "method": rng.choice(METHODS),
                     "used": rng.random() < 0.5, "ops": ops})
    ctor = life.rand_ctor(rng, cfg)
    if rng.random() < 0.2 and life.rand_key(rng, cfg):
        ctor = {**ctor, **life.rand_key(rng, cfg)}
    return {"cfg": cfg, "seed": None if "key" in ctor else life.rand_seed(rng, cfg), "ctor": {k: str(v) for k, v in ctor.items()}, "segs": segs}


class CpuNode(life.Node):
    other = None

    def flag(self):
        return FLAG.get(gens.CONFIGS[self.cfg][0])

    def op_use(self, who, value):
        """-> (value before, outcome, value after)"""
        f = self.flag()
        if f is None:
            return None
        o = self.bg
        if who == "other":
            if self.other is None:
                self.other = gens.make(self.cfg, 99)
            o = self.other
        before = getattr(o, f[0])
        try:
            setattr(o, f[0], value)
            r = "ok"
        except ValueError:
            r = "refused"
        return bool(before), r, bool(getattr(o, f[0])), bool(getattr(self.bg, f[0]))

    def op_new(self, seed):
        gens.make(self.cfg, seed)


def segment(cfg, seed, ctor, method, blob, used, ops):
    """on a node: make or restore the generator, perform the operations -> results and the next checkpoint"""
    node = None
    if blob is None:
        node = CpuNode.make(cfg, seed, ctor)
    else:
        if used:
            node = life.Node.make(cfg, 5)
            node.op_d("1300120")
        n = store.restore(cfg, method, blob, node, 5, None)
        node = CpuNode(cfg, n.bg, n.ext)
        node._np = n._np
    out = []
    for op in ops:
        r = node.do(op)
        out.append(r if op[0] == "use" else gens.freeze(r))
    w = life.window(node.bg)
    return out, w, node


def remote(cfg, seed, ctor, method, blob, used, ops, next_method):
    out, w, node = segment(cfg, seed, ctor, method, blob, used, ops)
    return out, w, store.save(node, next_method) if next_method else None


def run(plan, tr):
    cfg = plan["cfg"]
    ctor = {k: int(v) for k, v in plan["ctor"].items()}
    segs = plan["segs"]
    flag = FLAG.get(gens.CONFIGS[cfg][0])
    cap = hw_capable(cfg)
    tr.sh(cfg, [(s["node"], s["method"], [o[:3] if o[0] == "use" else o[0] for o in s["ops"]]) for s in segs])
    script = [[op for op in s["ops"] if op[0] not in ("use", "new")] for s in segs]
    core.MARK(f"{cfg} on the portable node")
    ref = peer.get(portable=True).call("sim.props.c08:straight", cfg, plan["seed"], ctor, script)
    if ref[0] == "err":
        raise Violation(f"{cfg}: fails on the portable node", ref[1])
    blob, method = None, None
    path = []
    for k, s in enumerate(segs):
        nm = segs[k + 1]["method"] if k + 1 < len(segs) else None
        args = (cfg, plan["seed"], ctor, method, blob, s["used"], s["ops"], nm)
        core.MARK(f"{cfg} on node {s['node']}")
        if NODES[s["node"]] is None:
            r = remote(*args)
        else:
            r = peer.get(**NODES[s["node"]]).call("sim.props.c08:remote", *args)
        if r[0] == "err":
            raise Violation(f"{cfg}: fails on a node with {s['node']}", r[1])
        out, w, blob = r
        method = nm
        path.append(s["node"])
        if k:
            tr.fault("migration")
        tr.fault("segment on node " + s["node"])
        plain = iter(ref[k][0])
        for op, o in zip(s["ops"], out):
            tr.steps += 1
            if op[0] == "use":
                if flag is not None:
                    can = can_use(s["node"], flag[1], cap)
                    before, what, after, mine = o
                    want = ("ok", op[2]) if not op[2] or can is not False else ("refused", before)
                    if can is None and op[2] and what == "refused":
                        want = ("refused", before)
                    tr.ev("use", op[2], can, what, after)
                    if (what, after) != want or mine != after:
                        raise Violation(f"{cfg}: setting {flag[0]} does not do what it says",
                                        f"{flag[0]}={op[2]} on node {s['node']} (capable: {can}, before: {before}): {what}, then {after}")
                    tr.fault("acceleration " + ("refused" if what == "refused" else "switched on" if op[2] else "switched off"))
                continue
            if op[0] == "new":
                continue
            want = next(plain)
            tr.ev(op[0], o)
            if o != want:
                raise Violation(f"{cfg}: the stream depends on the CPU path", f"nodes {path}, switches {[x[2] for x in s['ops'] if x[0] == 'use']}: {op} gave {o[:100]} instead of {want[:100]}")
        if w != ref[k][1]:
            raise Violation(f"{cfg}: the stream depends on the CPU path", f"nodes {path}: {w[:3]} instead of {ref[k][1][:3]}")
        tr.ev(w)
    tr.trivial = len(segs) < 2 and not any(o[0] == "use" for s in segs for o in s["ops"]) and segs[0]["node"] == "portable"


def straight(cfg, seed, ctor, script):
    """the whole script on this node: no migration, no switches"""
    node = life.Node.make(cfg, seed, ctor)
    f = FLAG.get(gens.CONFIGS[cfg][0])
    out = []
    for ops in script:
        r = []
        for op in ops:
            if f:
                setattr(node.bg, f[0], False)
            r.append(gens.freeze(node.do(op)))
        out.append((r, life.window(node.bg)))
    return out


def can_use(node, bit, cap):
    n = NODES[node]
    if n is None:
        return cap
    if n.get("portable"):
        return None  # what that build can still use is its own affair
    if n.get("mode") == 2:
        return False
    return cap and not (n.get("clr_ecx", 0) & bit)


_cap = {}


def hw_capable(cfg):
    """what the real CPU of this sandbox reports (read from the kernel, not from the code under test)"""
    f = FLAG.get(gens.CONFIGS[cfg][0])
    if f is None:
        return False
    if not _cap:
        words = set()
        for line in open("/proc/cpuinfo"):
            if line.startswith("flags"):
                words = set(line.split(":")[1].split())
                break
        _cap.update({env.ECX_AES: "aes" in words, env.ECX_SSSE3: "ssse3" in words, env.ECX_SSE41: "sse4_1" in words})
    return _cap[f[1]]
