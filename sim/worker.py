"""One worker process: executes a slice of the runs of one property.

usage: worker.py PROP SEED TIER FIRST STRIDE LAST OUT PROGRESS DEADLINE REDO
Results go to OUT as JSON lines; the index and the current step of the run in
progress go to PROGRESS (memory mapped, so they survive a crash of this process).
"""
import importlib, json, mmap, os, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def load(pid):
    import sim.env  # noqa: F401  (must come before numpy and randomgen)
    return importlib.import_module("sim.props." + pid.lower())


class Progress:
    def __init__(self, path):
        with open(path, "wb") as f:
            f.write(b"\0" * 512)
        self.f = open(path, "r+b")
        self.m = mmap.mmap(self.f.fileno(), 512)

    def put(self, off, text):
        b = text.encode()[:200]
        self.m[off:off + 204] = len(b).to_bytes(4, "little") + b + b"\0" * (200 - len(b))

    @staticmethod
    def read(path):
        with open(path, "rb") as f:
            d = f.read()
        return tuple(d[o + 4:o + 4 + int.from_bytes(d[o:o + 4], "little")].decode(errors="replace") for o in (0, 256))


def main():
    pid, seed, tier, first, stride, last, out, prog, deadline, redo = sys.argv[1:11]
    seed, first, stride, last, deadline, redo = int(seed), int(first), int(stride), int(last), float(deadline), int(redo)
    res = open(out, "a")
    pr = Progress(prog)
    from sim import core
    prop = load(pid)
    core.HOOK = lambda s: pr.put(256, s)
    shapes = set()
    agg = {"runs": 0, "nontrivial": 0, "steps": 0, "events": 0, "faults": {}, "probes": {}, "digests": {}, "samples": []}
    found = {}
    idxs = range(first, last, stride)
    if redo:
        idxs = reversed(idxs)
    every = getattr(prop, "CHECK_EVERY", 37)
    t_end = time.time() + deadline
    for i in idxs:
        if redo and i % every:
            continue
        if time.time() > t_end:
            agg["capped"] = True
            break
        pr.put(0, str(i))
        pr.put(256, "start")
        try:
            plan = core.plan_of(prop, seed, pid, tier, i)
            tr, v = core.execute(prop, plan)
        except BaseException:
            res.write(json.dumps({"error": f"run {i}: " + traceback.format_exc()}) + "\n")
            res.flush()
            return 3
        agg["runs"] += 1
        agg["steps"] += tr.steps
        agg["events"] += tr.n
        for a, b in ((agg["faults"], tr.faults), (agg["probes"], tr.probes)):
            for k, n in b.items():
                a[k] = a.get(k, 0) + n
        if not tr.trivial:
            agg["nontrivial"] += 1
            shapes.add(tr.shape.hexdigest())
        if i % every == 0:
            agg["digests"][i] = tr.digest()
        if len(agg["samples"]) < 2 and not tr.trivial:
            agg["samples"].append(plan)
        if v is not None and v.sig not in found:
            found[v.sig] = i
            if tr.choices is not None:
                plan = {**plan, "choices": tr.choices}
            res.write(json.dumps({"violation": v.sig, "msg": v.msg[:2000], "idx": i, "digest": tr.digest(), "plan": plan}) + "\n")
            res.flush()
            if len(found) >= 12:
                agg["capped"] = True
                break
    pr.put(0, "done")
    agg["shapes"] = sorted(shapes)
    res.write(json.dumps({"done": agg}) + "\n")
    res.flush()
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
