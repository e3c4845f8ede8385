"""bin/check PROP [--tier quick|thorough] [--seed N] [--replay FILE] [--runs N] [--jobs N]

exit 0: the property held on everything explored (known findings are printed)
exit 1: VIOLATION property=<id> replay=<path>
exit 2/3: the machinery could not decide (build failure, nondeterminism, internal error)
"""
import argparse, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time
from pathlib import Path

HERE = Path(__file__).resolve().parent
VERIF = HERE.parent
sys.path.insert(0, str(VERIF))
from sim import build as B  # noqa: E402
from sim.meta import META  # noqa: E402
from sim.worker import Progress  # noqa: E402

OUT = VERIF / "out"
HANG = 90  # seconds without progress of a single run


def child_env(hashseed):
    e = B.env()
    e["PYTHONHASHSEED"] = str(hashseed)
    e["VERIF_BUILD"] = str(B.BUILD)
    e["MALLOC_PERTURB_"] = "165"
    return e


def spawn(args, hashseed, err):
    return subprocess.Popen([B.PY, *map(str, args)], cwd="/", env=child_env(hashseed), stdin=subprocess.DEVNULL,
                            stdout=subprocess.DEVNULL, stderr=open(err, "wb"), start_new_session=True)


class Err(Exception):
    pass


def fresh(doc, tmp, tag, hashseed, timeout=120):
    """execute one plan in a fresh process -> result dict with 'sig'"""
    f, o, p = tmp / f"{tag}.plan", tmp / f"{tag}.out", tmp / f"{tag}.prog"
    f.write_text(json.dumps(doc))
    pr = spawn([HERE / "replay.py", f, o, p], hashseed, tmp / f"{tag}.err")
    try:
        rc = pr.wait(timeout)
    except subprocess.TimeoutExpired:
        os.killpg(pr.pid, signal.SIGKILL)
        pr.wait()
        return {"sig": "hang during " + Progress.read(p)[1], "msg": f"no end after {timeout} s", "digest": None}
    if rc < 0:
        return {"sig": f"killed by signal {-rc} during " + Progress.read(p)[1], "msg": (tmp / f"{tag}.err").read_text()[-600:], "digest": None}
    try:
        r = json.loads(o.read_text())
    except Exception:
        raise Err(f"replay ended with {rc}: " + (tmp / f"{tag}.err").read_text()[-1500:])
    if "error" in r:
        raise Err("replay failed: " + r["error"])
    return r


def known():
    """known_findings.txt: lines '<property> <signature>' ; 'fixed:' and '#' lines suppress nothing"""
    out = {}
    p = VERIF / "known_findings.txt"
    for line in p.read_text().splitlines() if p.exists() else ():
        line = line.strip()
        if not line or line.startswith(("#", "fixed:")):
            continue
        if line.startswith("finding: property="):
            pid, _, sig = line[len("finding: property="):].partition(" ")
            out.setdefault(pid, []).append(sig.split(" -- ")[0].strip())
    return out


def run_batch(pid, tier, seed, n, jobs, cap, tmp, base_deadline):
    """-> (aggregates, violations, digests)"""
    procs = {}
    viol, aggs, errors = [], [], []
    crashes = 0

    def start(w, first):
        out, prog = tmp / f"w{w}.jsonl", tmp / f"w{w}.prog"
        left = base_deadline - time.time()
        procs[w] = [spawn([HERE / "worker.py", pid, seed, tier, first, jobs, n, out, prog, max(1, left), 0], 0, tmp / f"w{w}.err"),
                    None, time.time()]

    for w in range(jobs):
        start(w, w)
    while procs:
        time.sleep(0.05)
        for w in list(procs):
            pr, last, since = procs[w]
            rc = pr.poll()
            prog = tmp / f"w{w}.prog"
            if rc is None:
                try:
                    cur = Progress.read(prog)
                except Exception:
                    cur = None
                if cur != last:
                    procs[w][1], procs[w][2] = cur, time.time()
                    continue
                if time.time() - since > HANG:
                    os.killpg(pr.pid, signal.SIGKILL)
                    pr.wait()
                    rc = "hang"
                else:
                    continue
            del procs[w]
            if rc == 0:
                continue
            idx, mark = Progress.read(prog) if prog.exists() else ("", "")
            if rc == 3 or not idx.isdigit():
                txt = (tmp / f"w{w}.jsonl").read_text() if (tmp / f"w{w}.jsonl").exists() else ""
                errors.append(f"worker {w} ended with {rc}: " + txt[-3000:] + (tmp / f"w{w}.err").read_text()[-1500:])
                continue
            sig = ("hang during " if rc == "hang" else f"killed by signal {-rc} during ") + mark
            if rc != "hang" and rc > 0:
                errors.append(f"worker {w} exited with {rc}: " + (tmp / f"w{w}.err").read_text()[-1500:])
                continue
            viol.append({"violation": sig, "msg": "the process running the library died or stopped", "idx": int(idx), "plan": None})
            crashes += 1
            if crashes < 8 and time.time() < base_deadline:
                start(w, int(idx) + jobs)
    for w in range(jobs):
        f = tmp / f"w{w}.jsonl"
        for line in f.read_text().splitlines() if f.exists() else ():
            d = json.loads(line)
            if "violation" in d:
                viol.append(d)
            elif "done" in d:
                aggs.append(d["done"])
            elif "error" in d and not errors:
                errors.append(d["error"])
    return aggs, viol, errors


def redo_batch(pid, tier, seed, n, tmp, jobs, cap):
    """the sampled runs again: fresh processes, other hash seed, other order, other slicing"""
    ps = []
    for w in range(jobs):
        ps.append(spawn([HERE / "worker.py", pid, seed, tier, w, jobs, n, tmp / f"r{w}.jsonl", tmp / f"r{w}.prog", cap, 1], 4242 + w, tmp / f"r{w}.err"))
    dig = {}
    for w, p in enumerate(ps):
        try:
            p.wait(cap + 120)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        f = tmp / f"r{w}.jsonl"
        for line in f.read_text().splitlines() if f.exists() else ():
            d = json.loads(line)
            if "done" in d:
                dig.update(d["done"]["digests"])
    return dig


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 4))
    ap.add_argument("--minimise", type=float, default=20)
    a = ap.parse_args()
    pid = a.prop
    t0 = time.time()
    try:
        digest, tb = B.build()
    except (B.BuildError, subprocess.CalledProcessError, OSError) as e:
        print(f"cannot build the verification build: {e}", file=sys.stderr)
        return 2
    tmp = Path(tempfile.mkdtemp(prefix=f"sim-{pid}-"))
    try:
        if a.replay:
            doc = json.loads(Path(a.replay).read_text())
            r = fresh(doc, tmp, "replay", 0)
            if r["sig"] is None:
                print(f"no violation: {a.replay} replays cleanly on this tree")
                return 0
            print(f"{r['sig']}: {r.get('msg')}\ndigest {r.get('digest')} (recorded {doc.get('digest')})")
            print(f"VIOLATION property={doc['property']} replay={a.replay}")
            return 1
        return check(a, pid, tmp, t0, tb, digest)
    except Err as e:
        print(f"cannot decide {pid}: {e}", file=sys.stderr)
        return 3
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(a, pid, tmp, t0, tb, digest):
    m = META[pid]
    n = a.runs or m["runs"][a.tier]
    cap = {"quick": 100, "thorough": 780}[a.tier]
    print(f"{pid} {a.tier}: VERIF_SEED={a.seed}, {n} runs on {a.jobs} workers; build {digest[:12]} ({tb:.1f}s)", flush=True)
    t1 = time.time()
    aggs, viol, errors = run_batch(pid, a.tier, a.seed, n, a.jobs, cap, tmp, t1 + cap)
    t2 = time.time()
    kn = known().get(pid, [])
    new, old, flaky = {}, {}, []
    for v in sorted(viol, key=lambda v: v["idx"]):
        (old if v["violation"] in kn else new).setdefault(v["violation"], v)
    reported = 0
    for sig, v in list(new.items())[:4]:
        doc = {"property": pid, "seed": a.seed, "tier": a.tier, "idx": v["idx"], "violation": sig, "plan": v["plan"], "digest": v.get("digest")}
        r1, r2 = fresh(doc, tmp, "a", 0), fresh(doc, tmp, "b", 77)
        if r1["sig"] != r2["sig"] or r1["sig"] is None:
            if r1["sig"] is None and r2["sig"] is None and time.time() - t2 < 120:
                hdoc, r = with_history(doc, a.jobs, tmp)
                if r is not None and r["sig"] not in kn:
                    reported += report(hdoc, r)
                    continue
            flaky.append(f"{sig}: replays gave {r1['sig']!r} and {r2['sig']!r}")
            continue
        if doc["plan"] is None or r1["sig"] != sig:
            sig = doc["violation"] = r1["sig"]
            if sig in kn:
                old.setdefault(sig, v)
                continue
        doc["reproduced"] = {"digests": [r1.get("digest"), r1.get("digest2"), r2.get("digest"), r2.get("digest2")]}
        doc["plan"] = doc["plan"] or r1.get("plan") or plan_of(doc, tmp)
        small = minimise(doc, tmp, a.minimise if not reported else 8)
        r3 = fresh(small, tmp, "c", 5)
        if r3["sig"] == sig:
            doc = small
            r1 = r3
        reported += report(doc, r1)
    for sig in old:
        print(f"KNOWN-FINDING: property={pid} {sig}")
    rep = {"compared": 0, "mismatches": []}
    if not reported and not errors:
        dig = {}
        for g in aggs:
            dig.update(g["digests"])
        again = redo_batch(pid, a.tier, a.seed, n, tmp, 4 if a.tier == "quick" else 8, cap)
        both = set(dig) & set(again)
        rep["compared"] = len(both)
        rep["mismatches"] = sorted(int(k) for k in both if dig[k] != again[k])[:20]
        # a run that depends on what its process did before is not lost if fresh processes agree on it
        bad = []
        for k in rep["mismatches"]:
            doc = {"property": pid, "seed": a.seed, "tier": a.tier, "idx": k, "violation": None, "plan": None, "digest": None}
            doc["plan"] = plan_of(doc, tmp)
            d = {fresh(doc, tmp, "h", h).get("digest") for h in (0, 99, 7)}
            if len(d) != 1 or len(bad) > 2 or None in d:
                bad.append(k)
        rep["history"], rep["mismatches"] = sorted(set(rep["mismatches"]) - set(bad)), bad
    wall = time.time() - t0
    need = m.get("must", [])
    tot = {}
    for g in aggs:
        for d in (g["faults"], g["probes"]):
            for k, c in d.items():
                tot[k] = tot.get(k, 0) + c
    miss = [k for k in need if not tot.get(k)]
    rep["missed"] = miss
    evidence(a, pid, m, n, aggs, viol, old, new, rep, wall, t2 - t1, tb, flaky)
    if reported:
        return 1
    if errors:
        raise Err("\n".join(errors)[:6000])
    if flaky:
        raise Err("violations that do not replay: " + "; ".join(flaky))
    if rep["mismatches"]:
        raise Err(f"runs {rep['mismatches']} are not deterministic")
    if miss and not a.runs:
        # code that goes another way to the same results may leave a place unvisited; a workload that misses most of its places is broken
        print(f"NOTE: not reached in these runs: {', '.join(miss)}")
        if len(miss) * 2 > len(need):
            raise Err(f"the workload no longer reaches: {miss}")
    print(f"{pid}: held on {sum(g['runs'] for g in aggs)} runs, {rep['compared']} repeated identically in other processes; {wall:.1f}s")
    return 0


def report(doc, r):
    pid, sig = doc["property"], doc["violation"]
    doc["digest"], doc["msg"], doc["trace"] = r.get("digest"), r.get("msg"), r.get("log")
    OUT.joinpath(pid).mkdir(parents=True, exist_ok=True)
    path = OUT / pid / (hashlib.sha256(sig.encode()).hexdigest()[:12] + ".json")
    path.write_text(json.dumps(doc, indent=1))
    print(f"{sig}: {r.get('msg')}")
    print(f"VIOLATION property={pid} replay={path}", flush=True)
    return 1


def with_history(doc, jobs, tmp):
    """a violation that needs what earlier runs left in the process -> the document with the runs it needs, and its replay"""
    prev = list(range(doc["idx"] % jobs, doc["idx"], jobs))
    t_end = time.time() + 60
    sig = doc["violation"]

    def go(before, hs=0):
        r = fresh({**doc, "before": before}, tmp, "h", hs)
        return r if r["sig"] == sig or (r["sig"] or "").split(" during ")[0] == sig.split(" during ")[0] else None
    k = 1
    while time.time() < t_end:
        r = go(prev[-k:])
        if r is not None:
            break
        if k >= len(prev):
            return doc, None
        k *= 4
    else:
        return doc, None
    cur, n = prev[-k:], 2
    t_end = time.time() + 20
    while len(cur) > 1 and time.time() < t_end:
        size = max(1, len(cur) // n)
        for s in range(0, len(cur), size):
            q = go(cur[:s] + cur[s + size:]) if time.time() < t_end else None
            if q is not None:
                cur, r, n = cur[:s] + cur[s + size:], q, max(2, n - 1)
                break
        else:
            if size == 1:
                break
            n = min(len(cur), 2 * n)
    r = go(cur, 77)
    return ({**doc, "before": cur, "violation": r["sig"], "plan": doc["plan"] or plan_of(doc, tmp)}, r) if r is not None else (doc, None)


def plan_of(doc, tmp):
    f, o = tmp / "p.plan", tmp / "p.out"
    f.write_text(json.dumps(doc))
    p = spawn([HERE / "replay.py", f, o, tmp / "p.prog", "plan"], 0, tmp / "p.err")
    if p.wait(60):
        raise Err("no plan: " + (tmp / "p.err").read_text()[-1000:])
    return json.loads(o.read_text())["plan"]


def minimise(doc, tmp, secs):
    f, o = tmp / "m.plan", tmp / "m.out"
    f.write_text(json.dumps(doc))
    p = spawn([HERE / "replay.py", f, o, tmp / "m.prog", "minimise", secs], 0, tmp / "m.err")
    try:
        if p.wait(secs + 150) == 0:
            return json.loads(o.read_text())
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
    return doc


def evidence(a, pid, m, n, aggs, viol, old, new, rep, wall, sim_wall, tb, flaky):
    def tot(k):
        d = {}
        for g in aggs:
            for x, c in g[k].items():
                d[x] = d.get(x, 0) + c
        return dict(sorted(d.items()))
    shapes = set()
    for g in aggs:
        shapes.update(g["shapes"])
    runs = sum(g["runs"] for g in aggs)
    steps = sum(g["steps"] for g in aggs)
    samples = []
    for g in aggs:
        samples += g["samples"][:1]
    ev = {
        "property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration", "wall_s": round(wall, 2),
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(shapes),
            "rule": m["rule"],
            "samples": samples[:3],
            "nontrivial_runs": sum(g["nontrivial"] for g in aggs),
            "planned_runs": n,
            "stopped_by_wall_cap": any(g.get("capped") for g in aggs),
            "runs_per_hour": int(runs / max(sim_wall, 1e-6) * 3600),
            "seeds_per_hour": int(runs / max(sim_wall, 1e-6) * 3600),
            "simulated_time": {"unit": m.get("time", "logical steps (operations, draws and scheduling points)"), "steps": steps},
            "events": sum(g["events"] for g in aggs),
            "faults_injected": tot("faults"), "expected_but_not_reached": rep.get("missed", []),
            "probes": tot("probes"),
            "determinism": {"runs_repeated_in_other_processes": rep["compared"], "other_PYTHONHASHSEED": True, "mismatches": rep["mismatches"], "same_only_in_fresh_processes": rep.get("history", [])},
            "violations": sorted(new), "known_findings": sorted(old), "not_reproduced": flaky,
            "real_components": m["real"], "stubbed_components": m["stub"],
            "sim_wall_s": round(sim_wall, 2), "build_s": round(tb, 2), "workers": a.jobs,
        },
    }
    d = VERIF / "evidence"
    d.mkdir(exist_ok=True)
    tmpf = d / f".{pid}.tmp"
    tmpf.write_text(json.dumps(ev, indent=1))
    os.replace(tmpf, d / f"{pid}.json")


if __name__ == "__main__":
    try:
        rc = main()
    except Err as e:
        print(f"cannot decide: {e}", file=sys.stderr)
        rc = 3
    sys.exit(rc)
