"""Another node: a second process running the library, driven by request and reply over pipes.

It has its own interpreter, hash seed and (simulated) CPU.  Requests are handled one at a time, so it adds
no nondeterminism.
"""
import importlib, os, pickle, struct, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_peers = {}


class PeerDied(Exception):
    pass


class Peer:
    def __init__(self, cpu, portable):
        e = dict(os.environ)
        e["PYTHONHASHSEED"] = str(1000 + sum(cpu) % 997)
        if any(cpu):
            e["SIM_CPU"] = ",".join(map(str, cpu))
        if portable:
            e["SIM_PORTABLE"] = "1"
        self.p = subprocess.Popen([sys.executable, os.path.abspath(__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=e, cwd="/")
        self.pid = os.getpid()

    def call(self, fn, *args):
        """fn: a function of this module, or "module:function" """
        b = pickle.dumps((fn, args))
        try:
            self.p.stdin.write(struct.pack("<Q", len(b)) + b)
            self.p.stdin.flush()
            h = self.p.stdout.read(8)
            if len(h) < 8:
                raise PeerDied(f"the peer process died with {self.p.wait()}")
            r = pickle.loads(self.p.stdout.read(struct.unpack("<Q", h)[0]))
        except (BrokenPipeError, OSError) as e:
            raise PeerDied(str(e))
        if r[0] == "err":
            return ("err", r[1])
        return r[1]


def get(mode=0, clr_ecx=0, clr_edx=0, portable=False):
    k = (mode, clr_ecx, clr_edx, portable, os.getpid())  # never share pipes across fork
    if k not in _peers or _peers[k].p.poll() is not None:
        _peers[k] = Peer((mode, clr_ecx, clr_edx), portable)
    return _peers[k]


# ------------------------------------------------------------ in the peer
def resume(cfg, method, blob, target_seed, ops):
    """restore a checkpoint and perform operations -> frozen results"""
    from sim import gens, store
    node = store.restore(cfg, method, blob, None, target_seed, None)
    return [gens.freeze(node.do(op)) for op in ops]


def resume_save(cfg, method, blob, target_seed, ops, method2):
    """restore, perform operations, checkpoint again"""
    from sim import gens, store
    node = store.restore(cfg, method, blob, None, target_seed, None)
    r = [gens.freeze(node.do(op)) for op in ops]
    return r, store.save(node, method2)


def main():
    sys.path.insert(0, VERIF)
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    from sim import env  # noqa: F401
    inp = os.fdopen(0, "rb", closefd=False)
    while True:
        h = inp.read(8)
        if len(h) < 8:
            os._exit(0)
        fn, args = pickle.loads(inp.read(struct.unpack("<Q", h)[0]))
        try:
            if ":" in fn:
                m, f = fn.split(":")
                f = getattr(importlib.import_module(m), f)
            else:
                f = globals()[fn]
            r = ("ok", f(*args))
        except Exception as e:
            r = ("err", f"{type(e).__name__}: {e}")
        b = pickle.dumps(r)
        out.write(struct.pack("<Q", len(b)) + b)
        out.flush()


if __name__ == "__main__":
    main()
