"""Replays one plan file in this (fresh) process.  usage: replay.py FILE OUT PROGRESS [minimise SECONDS]

OUT: JSON {sig,msg,digest,digest2}.  With 'minimise', candidate plans are tried in forked children.
"""
import json, os, select, signal, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim.worker import Progress, load  # noqa: E402


def in_child(core, prop, plan, prog, timeout):
    """sig of the violation of this plan, executed in a forked child (None: no violation)"""
    r, w = os.pipe()
    pr = Progress(prog)
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            core.HOOK = lambda s: pr.put(256, s)
            tr, v = core.execute(prop, plan)
            os.write(w, json.dumps({"sig": v.sig if v else None, "digest": tr.digest()}).encode())
        except BaseException as e:
            os.write(w, json.dumps({"sig": None, "err": repr(e)}).encode())
        os._exit(0)
    os.close(w)
    data = b""
    end = time.time() + timeout
    hung = False
    while True:
        left = end - time.time()
        if left <= 0:
            hung = True
            break
        if select.select([r], [], [], left)[0]:
            c = os.read(r, 65536)
            if not c:
                break
            data += c
    os.close(r)
    if hung:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if hung:
        return "hang during " + Progress.read(prog)[1]
    if os.WIFSIGNALED(st):
        return f"killed by signal {os.WTERMSIG(st)} during " + Progress.read(prog)[1]
    return json.loads(data)["sig"] if data else None


def simplify(plan, ok, t_end):
    """ddmin over every list of the plan called ops, faults, threads' ops, choices, then scalars the property names"""
    def lists(p):
        out = []

        def walk(x, path):
            if isinstance(x, dict):
                for k in sorted(x):
                    if k in ("ops", "faults", "choices", "bursts", "script") and isinstance(x[k], list):
                        out.append(path + [k])
                    walk(x[k], path + [k])
            elif isinstance(x, list):
                for i, y in enumerate(x):
                    if isinstance(y, (dict, list)):
                        walk(y, path + [i])
        walk(p, [])
        return out

    def get(p, path):
        for k in path:
            p = p[k]
        return p

    def with_list(p, path, val):
        q = json.loads(json.dumps(p))
        x = q
        for k in path[:-1]:
            x = x[k]
        x[path[-1]] = val
        return q

    changed = True
    while changed and time.time() < t_end:
        changed = False
        for path in lists(plan):
            try:
                cur = get(plan, path)
            except (KeyError, IndexError):
                continue
            if not cur:
                continue
            n = 2
            chop = path[-1] == "choices"
            while cur and time.time() < t_end:
                size = max(1, len(cur) // n)
                hit = False
                for s in range(0, len(cur), size):
                    if time.time() > t_end:
                        break
                    cand = cur[:s] + cur[s + size:] if not chop else cur[:s] + [0] * min(size, len(cur) - s) + cur[s + size:]
                    if chop and s + size >= len(cur):
                        cand = cur[:s]
                    if cand == cur:
                        continue
                    q = with_list(plan, path, cand)
                    if ok(q):
                        plan, cur, hit, changed = q, cand, True, True
                        break
                if not hit:
                    if size == 1:
                        break
                    n = min(len(cur), n * 2)
                else:
                    n = max(2, n - 1) if not chop else n
    return plan


def main():
    f, out, prog = sys.argv[1:4]
    from sim import core
    doc = json.load(open(f))
    prop = load(doc["property"])
    if doc.get("plan") is None:
        doc["plan"] = core.plan_of(prop, doc["seed"], doc["property"], doc["tier"], doc["idx"])
    if len(sys.argv) > 4 and sys.argv[4] == "plan":
        json.dump(doc, open(out, "w"))
        return
    if len(sys.argv) > 4:
        sig, plan = doc["violation"], doc["plan"]
        t_end = time.time() + float(sys.argv[5])
        tmo = 60 if "hang" in sig else 30
        ok = lambda q: in_child(core, prop, q, prog, tmo) == sig  # noqa: E731
        small = simplify(plan, ok, t_end) if ok(plan) else doc["plan"]
        doc["plan"] = small
        json.dump(doc, open(out, "w"))
        return
    pr = Progress(prog)
    core.HOOK = lambda s: pr.put(256, s)
    pr.put(0, "run")
    r = {}
    try:
        for k in doc.get("before", []):  # runs this process has to have seen
            core.execute(prop, core.plan_of(prop, doc["seed"], doc["property"], doc["tier"], k) if isinstance(k, int) else k)
        tr, v = core.execute(prop, doc["plan"], log=True)
        tr2, v2 = core.execute(prop, doc["plan"])
        r = {"sig": v.sig if v else None, "msg": v.msg if v else None, "digest": tr.digest(), "digest2": tr2.digest(), "log": tr.log[-400:]}
        pr.put(0, "done")
    except BaseException:
        r = {"error": traceback.format_exc()}
    json.dump(r, open(out, "w"))


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    os._exit(0)
