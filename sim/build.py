"""Builds the verification build of randomgen from /repo's current working tree.

/repo is only read.  Its sources are synced by content into /verif/build/tree and
compiled there by its own setup.py, with the simulator's seams added by compiler
and linker flags.  Nothing outside /verif/build is written.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
BUILD = Path(os.environ.get("VERIF_BUILD", str(VERIF / "build")))
TREE = BUILD / "tree"
PY = "/opt/randomgen-env/venv/bin/python"
PORTABLE = ("aes", "chacha", "speck128", "dsfmt", "sfmt")
EMULATED = ("pcg64", "philox")  # built there without a 128-bit integer type, as setup.py does on Windows and 32-bit systems
EMUL_DEFS = " -DPCG_FORCE_EMULATED_128BIT_MATH=1 -DR123_USE_GNU_UINT128=0 -DR123_USE_MULHILO64_C99=1 -DR123_USE_MULHILO64_ASM=0"
WRAP = ["open", "open64", "openat", "read", "close", "getrandom", "getentropy", "fopen", "gettimeofday", "time",
        "clock_gettime", "clock", "getpid", "malloc", "calloc", "realloc", "posix_memalign", "aligned_alloc",
        "PyMem_Malloc", "PyMem_Calloc", "PyMem_Realloc", "PyMem_RawMalloc", "PyObject_Malloc",
        "free", "PyMem_Free", "PyMem_RawFree", "PyObject_Free"]


class BuildError(Exception):
    pass


def wanted():
    """relative path -> absolute source path of everything that goes into the build"""
    out = {}
    for top in ("setup.py", "README.md"):
        if (REPO / top).exists():
            out[top] = REPO / top
    pkg = REPO / "randomgen"
    for d, dirs, files in os.walk(pkg):
        rel = Path(d).relative_to(REPO)
        dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "tests", "examples"))
        in_src = len(rel.parts) > 1 and rel.parts[1] == "src"
        names = set(files)
        for f in sorted(files):
            p = Path(d) / f
            if f.endswith((".so", ".html", ".pyc", ".o")):
                continue
            if not in_src and f.endswith((".c", ".cpp")) and (f.rsplit(".", 1)[0] + ".pyx") in names:
                continue  # generated by Cython
            if f + ".in" in names:
                continue  # generated from a template
            if f == "_version.py":
                continue
            out[str(rel / f)] = p
    return out


def sync():
    want = wanted()
    TREE.mkdir(parents=True, exist_ok=True)
    changed = []
    for rel, src in want.items():
        dst = TREE / rel
        data = src.read_bytes()
        if dst.exists() and dst.read_bytes() == data:
            continue
        dst.parent.mkdir(parents=True, exist_ok=True)
        dst.write_bytes(data)
        changed.append(rel)
    ver = TREE / "randomgen/_version.py"
    if not ver.exists():
        ver.write_text("__version__ = version = '2.1.0'\n__version_tuple__ = version_tuple = (2, 1, 0)\n")
    generated = {r[:-3] for r in want if r.endswith(".in")}
    for d, dirs, files in os.walk(TREE / "randomgen"):
        for f in files:
            p = Path(d) / f
            rel = str(p.relative_to(TREE))
            if rel in want or f == "_version.py" or rel in generated:
                continue
            if f.endswith((".so", ".html")):
                continue
            if f.endswith((".c", ".cpp")) and p.with_suffix(".pyx").exists() and str(p.with_suffix(".pyx").relative_to(TREE)) in want:
                continue
            p.unlink()
            changed.append("-" + rel)
    return changed


SETUP_RUNNER = r'''
import copy, functools, os, runpy, sys
JOBS = os.cpu_count() or 4
import Cython.Build
from setuptools.command.build_ext import build_ext
orig = Cython.Build.cythonize
def cyth(exts, **kw):
    only = os.environ.get("SIM_ONLY")
    exts = [e for e in exts if ".tests." not in e.name and (not only or e.name in only.split(","))]
    kw["nthreads"] = JOBS
    return orig(exts, **kw)
Cython.Build.cythonize = cyth
be = build_ext.build_extension
def isolated(self, ext):
    clone = copy.copy(self)
    clone.build_temp = os.path.join(self.build_temp, ext.name)
    be(clone, ext)
build_ext.build_extension = isolated
if os.environ.get("SIM_ONLY"):
    out = os.path.join(os.path.dirname(os.getcwd()), "nosse")
    sys.argv = ["setup.py", "build_ext", "--force", f"--parallel={JOBS}", "--build-lib", out, "--build-temp", out + "/tmp"]
else:
    sys.argv = ["setup.py", "build_ext", "--inplace", "--force", f"--parallel={JOBS}"]
sys.path.insert(0, os.getcwd())
if __name__ == "__main__":
    import Cython.Compiler.Options as O
    runpy.run_path("setup.py", run_name="__main__")
'''


def digest():
    h = hashlib.sha256()
    want = wanted()
    for rel in sorted(want):
        h.update(rel.encode() + b"\0" + hashlib.sha256(want[rel].read_bytes()).digest())
    for f in ("seam.h", "simseam.c", "build.py"):
        h.update((VERIF / "sim" / f).read_bytes())
    return h.hexdigest()


def env():
    e = {k: v for k, v in os.environ.items() if k not in ("CFLAGS", "CPPFLAGS", "LDFLAGS", "RANDOMGEN_NO_SSE2", "RANDOMGEN_DEBUG",
                                                          "RANDOMGEN_CYTHON_COVERAGE", "PYTHONPATH", "PYTHONHOME")}
    e["PATH"] = "/opt/randomgen-env/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["OPENBLAS_NUM_THREADS"] = e["OMP_NUM_THREADS"] = "1"
    e["PYTHONHASHSEED"] = "0"
    return e


def build(verbose=False):
    BUILD.mkdir(parents=True, exist_ok=True)
    lock = open(BUILD / "lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    dg = digest()
    stamp = BUILD / "stamp"
    if stamp.exists() and stamp.read_text() == dg and (BUILD / "libsimseam.so").exists():
        return dg, time.time() - t0
    stamp.unlink(missing_ok=True)
    e = env()
    ccache = shutil.which("ccache", path=e["PATH"])
    cc = "ccache gcc" if ccache else "gcc"
    e["CCACHE_DIR"] = str(BUILD / "ccache")
    e["CCACHE_MAXSIZE"] = "1G"
    inc = subprocess.check_output([PY, "-c", "import sysconfig,numpy;print(sysconfig.get_path('include'));print(numpy.get_include())"], env=e, text=True, cwd="/").split()
    tmp = BUILD / "libsimseam.tmp.so"
    subprocess.run(["gcc", "-shared", "-fPIC", "-O2", "-g0", "-pthread", f"-I{inc[0]}", f"-I{inc[1]}", str(VERIF / "sim/simseam.c"), "-o", str(tmp)], check=True, env=e, cwd="/")
    os.replace(tmp, BUILD / "libsimseam.so")
    sync()
    for so in (TREE / "randomgen").glob("*.so"):
        so.unlink()
    # Cython decides by modification time: touch every input so that it always looks
    # (ccache keeps this fast when the generated C is unchanged)
    e["CC"] = cc
    e["CXX"] = "ccache g++" if ccache else "g++"
    e["CFLAGS"] = f"-include {VERIF}/sim/seam.h -g0 -U_FORTIFY_SOURCE -Wno-unused-function"
    e["LDFLAGS"] = " ".join(f"-Wl,--wrap={w}" for w in WRAP)
    e["SETUPTOOLS_SCM_PRETEND_VERSION"] = "2.1.0"
    # changed inputs were rewritten by sync() and so are newer than their .c; a changed
    # .pxd or header-like include may feed several modules, so touch all on any such change
    state = BUILD / "inputs"
    pxd = hashlib.sha256(b"".join(p.read_bytes() for p in sorted((TREE / "randomgen").rglob("*.p[xy][di]"))) + (TREE / "setup.py").read_bytes()).hexdigest()
    if not state.exists() or state.read_text() != pxd:
        for c in (TREE / "randomgen").glob("*.pyx"):
            c.with_suffix(".c").unlink(missing_ok=True)
    state.write_text(pxd)
    runner = BUILD / "run_setup.py"
    runner.write_text(SETUP_RUNNER)
    p = subprocess.run([PY, str(runner)], cwd=TREE, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    (BUILD / "build.log").write_text(p.stdout)
    if p.returncode:
        raise BuildError("build failed:\n" + p.stdout[-4000:])
    # the portable node of C08: the vectorised modules built without SIMD
    e["RANDOMGEN_NO_SSE2"] = "1"
    plain = e["CFLAGS"]
    for mods, cflags in ((PORTABLE + EMULATED, plain + EMUL_DEFS), (PORTABLE, plain)):
        # (a tree whose emulation does not compile is still checked with the other modules)
        shutil.rmtree(BUILD / "nosse", ignore_errors=True)
        e["CFLAGS"] = cflags
        e["SIM_ONLY"] = ",".join("randomgen." + m for m in mods)
        p = subprocess.run([PY, str(runner)], cwd=TREE, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        (BUILD / "build-nosse.log").write_text(p.stdout)
        if not p.returncode:
            break
    if p.returncode:
        raise BuildError("portable build failed:\n" + p.stdout[-4000:])
    stamp.write_text(dg)
    return dg, time.time() - t0


if __name__ == "__main__":
    try:
        d, t = build()
        print(f"verification build {d[:12]} ready in {t:.1f}s")
    except BuildError as ex:
        print(ex, file=sys.stderr)
        sys.exit(2)
