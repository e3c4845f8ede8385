"""Runs Python callables as simulated threads: real threads, one at a time, every hand-over decided by the plan."""
import sys, threading
from sim import core, env
from sim.core import Violation

POLICIES = ["random walk", "priorities", "round robin"]
LIMIT = 400_000
# Python code a bit generator runs in the middle of an operation: the interpreter may hand over at any call in it
PYCODE = ("/copy.py", "/copyreg.py", "random/_pickle.py", "randomgen/_pickle.py", "sim/props/c05.py")


def python_calls(files):
    def hook(frame, event, arg):
        if event == "call" and frame.f_code.co_filename.endswith(files):
            env.sim_yield()

    return hook


def rand_sched(rng):
    return {"seed": rng.getrandbits(60), "pol": rng.choice([0, 0, 0, 0, 1, 1, 2]), "psw": rng.choice([1500, 6000, 16000, 32000, 52000])}


def run(plan, fns, tr, interrupts=(), on_lock=None, before=None, py=False):
    """fns: list of callables(tid).  Returns the list of exceptions that ended a thread (or None)."""
    n = len(fns)
    sc = plan["sched"]
    ch = plan.get("choices")
    env.sched_begin(n, sc["seed"], sc["pol"], sc["psw"], LIMIT, bytes(ch) if ch else None, -1 if ch is None else len(ch))
    err = [None] * n
    acq = [0] * n
    cut = {(t, k) for t, k in interrupts}
    fired = [0]

    def want(t, where):
        # an interruption is aimed at the k-th lock acquisition of a thread; it strikes when the wait begins or, if somebody holds the lock, after a while
        if where == 0:
            acq[t] += 1
            if before is not None:
                before(t)
            if (t, acq[t]) in cut and acq[t] % 2:
                fired[0] += 1
                return True
            return False
        if (t, acq[t]) in cut:
            fired[0] += 1
            return True
        return False

    def body(t):
        env.np_install()  # numpy keeps its data allocator per thread
        env.thread_enter(t)
        try:
            if py:
                sys.setprofile(python_calls(PYCODE if py is True else py))
            fns[t](t)
        except BaseException as e:
            err[t] = e
        finally:
            if py:
                sys.setprofile(None)
        env.thread_exit()

    env.SimLock.plan = want if cut or before else None
    env.SimLock.events = on_lock
    ths = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(n)]
    try:
        for t in ths:
            t.start()
        env.sched_run()
        for t in ths:
            t.join()
    finally:
        env.SimLock.plan = env.SimLock.events = None
    st = env.sched_stats()
    tr.choices = env.choices()
    tr.steps += st["steps"]
    tr.sh(st["hash"])
    tr.ev("schedule", st["steps"], st["switches"], st["hash"])
    tr.fault("preemption", st["switches"])
    tr.fault("preempted while holding the interpreter lock", st["restricted"])
    tr.fault("wait for the lock interrupted", fired[0])
    if st["deadlock"]:
        raise Violation("deadlock", f"all threads are blocked: {[repr(e) for e in err]}")
    if st["overrun"]:
        raise Violation(f"no end within {LIMIT} scheduling steps", "")
    return err
