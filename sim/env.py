"""Loads the verification build under the simulator.  Import this first, before numpy and randomgen."""
import ctypes as C, os, sys, threading, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
lib = C.CDLL(os.path.join(BUILD, "libsimseam.so"), mode=C.RTLD_GLOBAL)
pylib = C.PyDLL(os.path.join(BUILD, "libsimseam.so"), mode=C.RTLD_GLOBAL)
u64, i64, p = C.c_uint64, C.c_int64, C.c_void_p


class Rec(C.Structure):
    _fields_ = [("val", u64), ("tid", C.c_int32), ("bgid", C.c_int16), ("kind", C.c_int16), ("op", C.c_int32), ("pad", C.c_int32)]


class RdRec(C.Structure):
    _fields_ = [("tid", C.c_int32), ("op", C.c_int32), ("ok", C.c_int32), ("pad", C.c_int32), ("step", u64), ("val", u64)]


class EntRec(C.Structure):
    _fields_ = [("ev", C.c_int32), ("err", C.c_int32), ("a", i64), ("b", i64)]


class Bitgen(C.Structure):
    _fields_ = [("state", p), ("n64", p), ("n32", p), ("nd", p), ("nraw", p)]


def _sig(name, res, *args):
    f = getattr(lib, name)
    f.restype, f.argtypes = res, list(args)
    return f


sched_begin = _sig("sim_sched_begin", None, C.c_int, u64, C.c_int, C.c_uint32, u64, C.c_char_p, i64)
thread_enter = _sig("sim_thread_enter", None, C.c_int)
thread_exit = _sig("sim_thread_exit", None)
sched_run = _sig("sim_sched_run", None)
sim_yield = _sig("sim_yield", None)
block = _sig("sim_block", C.c_int, C.c_int)
wake = _sig("sim_wake", None, C.c_int)
sim_tid = _sig("sim_tid", C.c_int)
_stats = _sig("sim_stats", None, C.POINTER(u64))
_choices = _sig("sim_choices", C.c_void_p)
tramp_install = _sig("sim_tramp_install", C.c_int, C.POINTER(Bitgen), C.c_int, C.c_int, C.c_int)
tramp_remove = _sig("sim_tramp_remove", None, C.POINTER(Bitgen))
tramp_free = _sig("sim_tramp_free", None)
ledger_reset = _sig("sim_ledger_reset", None)
_ledger = _sig("sim_ledger", C.c_void_p, C.POINTER(u64))
ledger_limit = _sig("sim_ledger_limit", None, u64)
ledger_over = _sig("sim_ledger_over", u64)
ledger_len = _sig("sim_ledger_len", u64)
set_op = _sig("sim_set_op", None, C.c_int)
draw_kinds = _sig("sim_draw_kinds", None, C.POINTER(Bitgen), C.c_char_p, i64, C.POINTER(u64))
skip_raw = _sig("sim_skip_raw", None, C.POINTER(Bitgen), i64)
odd_install = _sig("sim_odd_install", None, C.POINTER(Bitgen), C.c_int, u64, C.POINTER(u64), C.c_int)
tape_install = _sig("sim_tape_install", None, C.POINTER(Bitgen))
tape_config = _sig("sim_tape_config", None, C.c_int, C.c_int, C.c_int, C.c_int)
tape_load = _sig("sim_tape_load", None, C.c_char_p, C.POINTER(u64), i64)
tape_err = _sig("sim_tape_err", C.c_int)
tape_used = _sig("sim_tape_used", i64)
cpu = _sig("sim_cpu", None, C.c_int, C.c_uint, C.c_uint, C.c_uint)
cpuid_calls = _sig("sim_cpuid_calls", u64)
rdrand_begin = _sig("sim_rdrand_begin", None, u64, C.c_int, C.POINTER(u64), C.POINTER(u64), C.c_int, u64)
rdrand_end = _sig("sim_rdrand_end", None)
_rdrand_log = _sig("sim_rdrand_log", C.c_void_p, C.POINTER(u64))
_rdrand_stats = _sig("sim_rdrand_stats", None, C.POINTER(u64))
entropy_begin = _sig("sim_entropy_begin", None, u64, C.POINTER(i64), i64, u64, u64, C.c_int, u64)
entropy_end = _sig("sim_entropy_end", None)
entropy_clock = _sig("sim_entropy_clock", None, u64, u64, C.c_int)
_entropy_log = _sig("sim_entropy_log", C.c_void_p, C.POINTER(u64))
entropy_openfds = _sig("sim_entropy_openfds", C.c_int)
_entropy_fired = _sig("sim_entropy_fired", None, C.POINTER(u64))
alloc_live = _sig("sim_alloc_live", i64)
alloc_total = _sig("sim_alloc_total", i64)
alloc_poison = _sig("sim_alloc_poison", None, C.c_int)
# these must not release the GIL or allocate in between
alloc_arm = pylib.sim_alloc_arm
alloc_arm.restype, alloc_arm.argtypes = None, [C.c_int, u64]
alloc_disarm = pylib.sim_alloc_disarm
alloc_disarm.restype, alloc_disarm.argtypes = u64, [C.POINTER(u64)]
alloc_hook = pylib.sim_alloc_hook
alloc_unhook = pylib.sim_alloc_unhook
np_install = pylib.sim_np_install


def sched_stats():
    o = (u64 * 8)()
    _stats(o)
    return dict(zip(("steps", "switches", "hash", "deadlock", "overrun", "choices", "restricted"), list(o)))


def choices():
    n = sched_stats()["choices"]
    return list(C.string_at(_choices(), n)) if n else []


def ledger():
    n = u64()
    a = _ledger(C.byref(n))
    if not n.value:
        return []
    return [x[:5] for x in np.frombuffer(C.string_at(a, n.value * C.sizeof(Rec)), dtype="<u8,<i4,<i2,<i2,<i4,<i4").tolist()]


def rdrand_log():
    n = u64()
    a = _rdrand_log(C.byref(n))
    if not n.value:
        return []
    return [x[:3] + x[4:] for x in np.frombuffer(C.string_at(a, n.value * C.sizeof(RdRec)), dtype="<i4,<i4,<i4,<i4,<u8,<u8").tolist()]


def rdrand_stats():
    o = (u64 * 4)()
    _rdrand_stats(o)
    return list(o)


def entropy_log():
    n = u64()
    a = _entropy_log(C.byref(n))
    if not n.value:
        return []
    return np.frombuffer(C.string_at(a, n.value * C.sizeof(EntRec)), dtype="<i4,<i4,<i8,<i8").tolist()


def entropy_fired():
    o = (u64 * 16)()
    _entropy_fired(o)
    return list(o)


# this process stands for a node with another CPU
if os.environ.get("SIM_CPU"):
    cpu(*(int(x) for x in os.environ["SIM_CPU"].split(",")), 0)
if os.environ.get("SIM_PORTABLE"):
    # ... or for one where randomgen was built without SIMD
    import importlib.abc, importlib.util, glob  # noqa: E401

    class _Portable(importlib.abc.MetaPathFinder):
        def find_spec(self, name, path=None, target=None):
            if name.startswith("randomgen."):
                f = glob.glob(os.path.join(BUILD, "nosse", name.replace(".", "/") + ".*.so"))
                if f:
                    return importlib.util.spec_from_file_location(name, f[0])

    sys.meta_path.insert(0, _Portable())


# ----------------------------------------------------------------- locks
class SimDeadlock(BaseException):
    """All simulated threads are blocked."""


class SimInterrupt(KeyboardInterrupt):
    """Injected: a signal interrupts the wait for a lock."""


class SimLock:
    """Replaces threading.Lock.  Under the scheduler every operation is a yield point; otherwise a plain lock."""

    _n = 0
    plan = None  # callable(tid) -> bool: interrupt this acquisition?
    events = None  # callable(tid, id, what)

    def __init__(self):
        SimLock._n += 1
        self.id = SimLock._n
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        t = sim_tid()
        if t < 0:
            if self.owner is not None:
                if not blocking or timeout >= 0:
                    return False
                raise SimDeadlock(f"lock {self.id} acquired outside the scheduler while held by {self.owner}")
            self.owner = -1
            return True
        sim_yield()
        if SimLock.plan is not None and SimLock.plan(t, 0):
            raise SimInterrupt("interrupted before the lock was obtained")
        while self.owner is not None:
            if not blocking:
                return False
            if block(self.id) != 0:
                raise SimDeadlock(f"thread {t} waits for lock {self.id} held by {self.owner}")
            if SimLock.plan is not None and SimLock.plan(t, 1):
                raise SimInterrupt("interrupted while waiting for the lock")
            if timeout >= 0 and self.owner is not None:
                return False
        self.owner = t
        if SimLock.events is not None:
            SimLock.events(t, self.id, "acq")
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.owner = None
        if sim_tid() >= 0:
            if SimLock.events is not None:
                SimLock.events(sim_tid(), self.id, "rel")
            wake(self.id)
            sim_yield()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.owner = None


class SimRLock(SimLock):
    def __init__(self):
        super().__init__()
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        t = sim_tid()
        if self.owner is not None and self.owner == t and self.depth:
            self.depth += 1
            return True
        r = super().acquire(blocking, timeout)
        if r:
            self.depth = 1
        return r

    def release(self):
        self.depth -= 1
        if self.depth == 0:
            super().release()


_real = {k: getattr(threading, k) for k in ("Lock", "RLock")}
sys.path.insert(0, os.path.join(BUILD, "tree"))
import numpy as np  # noqa: E402
import numpy.random  # noqa: E402
import numpy.random.bit_generator as _nbg  # noqa: E402

_nbg.Lock = SimLock
# the modules of randomgen take Lock from threading when they are imported
threading.Lock, threading.RLock = SimLock, SimRLock
import randomgen  # noqa: E402
import randomgen._pickle, randomgen.entropy, randomgen.wrapper, randomgen.squares, randomgen.rdrand  # noqa: E402,E401
_STDLIB = {"threading.py", "queue.py", "subprocess.py", "tempfile.py", "logging/__init__.py"}


def _factory(kind, sim):
    """threading.Lock for everybody else: real locks for the interpreter's own threads, simulated ones for the library"""
    def make(*a):
        code = sys._getframe(1).f_code
        f = code.co_filename
        # locks that modules of the standard library or of NumPy make while they are imported belong to them
        if f.endswith(tuple(_STDLIB)) or "concurrent" in f or (code.co_name == "<module>" and not f.startswith(BUILD)):
            return _real[kind](*a)
        return sim()
    return make


threading.Lock, threading.RLock = _factory("Lock", SimLock), _factory("RLock", SimRLock)

assert randomgen.__file__.startswith(os.path.join(BUILD, "tree")), randomgen.__file__
if np_install() != 0:
    raise RuntimeError("numpy data allocator seam not installed")
alloc_poison(0xA5)

# NumPy's operating-system entropy (SeedSequence(None)) becomes a function of the run
_os_words = [0, 0]


def reset_os_entropy(seed=0):
    _os_words[0], _os_words[1] = seed, 0


_os_const = [None]


def os_constant(v):
    """every request for OS entropy returns the same value until os_constant(None)"""
    _os_const[0] = v


def _randbits(k):
    if _os_const[0] is not None:
        return int.from_bytes(hashlib.sha256(f"osc/{_os_const[0]}".encode()).digest(), "big") % (1 << k)
    _os_words[1] += 1
    h = hashlib.sha256(f"os/{_os_words[0]}/{_os_words[1]}".encode()).digest()
    return int.from_bytes(h, "big") % (1 << k)


_nbg.randbits = _randbits


def bitgen_of(bg):
    """the live bitgen_t of a bit generator, through its capsule"""
    f = C.pythonapi.PyCapsule_GetPointer
    f.restype, f.argtypes = C.c_void_p, [C.py_object, C.c_char_p]
    return C.cast(f(bg.capsule, b"BitGenerator"), C.POINTER(Bitgen))


def draw(bg, kinds):
    """draw through the C interface: kinds is a bytes object of 0=u64 1=u32 2=double(bits) 3=raw"""
    n = len(kinds)
    out = (u64 * n)()
    draw_kinds(bitgen_of(bg), kinds, n, out)
    return list(out)


def skip(bg, n):
    skip_raw(bitgen_of(bg), n)


K64, K32, KD, KRAW = 0, 1, 2, 3
# CPUID bits of leaf 1
ECX_SSSE3, ECX_SSE41, ECX_AES, ECX_RDRND = 1 << 9, 1 << 19, 1 << 25, 1 << 30
EDX_SSE2 = 1 << 26
