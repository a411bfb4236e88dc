"""Builds the code under test from /repo's current working tree, into /verif/build (ignored by git).

Every product is keyed by a hash of the sources and the flags, so a product is never stale, and a
second call with an unchanged tree costs nothing.  Nothing is written under /repo.
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, sysconfig
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QDD_REPO", "/repo")
BUILD = os.environ.get("QDD_VERIF_BUILD", os.path.join(VERIF, "build"))
PY = "/opt/vp/venv/bin/python"
PYBIND = "/opt/vp/deps/pybind11-2.10.3/pybind11/include"
EIGEN = "/usr/include/eigen3"

COMMON = ["-std=gnu++17", "-DEIGEN_DONT_VECTORIZE", "-w", "-fPIC",
          f"-I{REPO}/include", f"-I{EIGEN}", f"-I{VERIF}/cpp"]
TINY = ["-DQDD_VERIF", "-DQDD_VERIF_NBUCKETS=13", "-DQDD_VERIF_ALLOC=4"]
SMALL = ["-DQDD_VERIF", "-DQDD_VERIF_NBUCKETS=4096", "-DQDD_VERIF_ALLOC=64"]
STD = ["-DQDD_VERIF"]
MTDEF = ["-DisMT"]
MPIDEF = ["-DisMPI"]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g1"]
TSAN = ["-fsanitize=thread", "-g1", "-fno-omit-frame-pointer"]

# name -> (compiler, flags, link flags, repo sources)
VARIANTS = {
    # NDEBUG off: the engine's own assertions are monitors too.
    "tiny":  ("g++", ["-O2", "-D_GLIBCXX_ASSERTIONS"] + TINY, [], ["src/dd.cpp"]),
    "small": ("g++", ["-O2", "-D_GLIBCXX_ASSERTIONS"] + SMALL, [], ["src/dd.cpp"]),
    "std":   ("g++", ["-O3", "-DNDEBUG"] + STD, [], ["src/dd.cpp"]),
    "asan":  ("g++", ["-O1", "-D_GLIBCXX_ASSERTIONS"] + ASAN + SMALL, ASAN, ["src/dd.cpp"]),
    "asantiny": ("g++", ["-O1", "-D_GLIBCXX_ASSERTIONS"] + ASAN + TINY, ASAN, ["src/dd.cpp"]),
    "memcheck": ("g++", ["-O1", "-g1"] + SMALL, [], ["src/dd.cpp"]),      # run under valgrind: uninitialised memory
    "mt":    ("g++", ["-O2"] + SMALL + MTDEF, ["-lboost_fiber", "-lboost_context", "-ltbb", "-lpthread"],
              ["src/dd.cpp", "src/task.cpp"]),
    "mttiny": ("g++", ["-O2"] + TINY + MTDEF, ["-lboost_fiber", "-lboost_context", "-ltbb", "-lpthread"],
              ["src/dd.cpp", "src/task.cpp"]),
    "mpi":   ("mpicxx", ["-O2"] + SMALL + MPIDEF, ["-lboost_mpi", "-lboost_serialization"], ["src/dd.cpp"]),
    "mpiasan": ("mpicxx", ["-O1"] + ASAN + SMALL + MPIDEF, ASAN + ["-lboost_mpi", "-lboost_serialization"], ["src/dd.cpp"]),
    # more levels split into fibers; and none at all, so that plain threads may apply operators
    "mtdeep": ("g++", ["-O2", "-DQDD_VERIF_FIBER_LEVELS=11"] + SMALL + MTDEF, ["-lboost_fiber", "-lboost_context", "-ltbb", "-lpthread"],
               ["src/dd.cpp", "src/task.cpp"]),
    "mtplain": ("g++", ["-O2", "-DQDD_VERIF_FIBER_LEVELS=-1000"] + TINY + MTDEF, ["-lboost_fiber", "-lboost_context", "-ltbb", "-lpthread"],
                ["src/dd.cpp", "src/task.cpp"]),
    "asanmt": ("g++", ["-O1", "-DQDD_VERIF_FIBER_LEVELS=-1000", "-D_GLIBCXX_ASSERTIONS"] + ASAN + TINY + MTDEF,
               ASAN + ["-lboost_fiber", "-lboost_context", "-ltbb", "-lpthread"], ["src/dd.cpp", "src/task.cpp"]),
    "tsan":  ("g++", ["-O1", "-DQDD_VERIF_FIBER_LEVELS=-1000"] + TSAN + SMALL + MTDEF,
              TSAN + ["-lboost_fiber", "-lboost_context", "-ltbb", "-lpthread"], ["src/dd.cpp", "src/task.cpp"]),
}


class BuildError(Exception):
    pass


def _sources(srcs):
    """The variant's sources, and any source file a change may have added beside them."""
    known = {"dd.cpp", "task.cpp", "epoch.cpp"}
    extra = [os.path.relpath(f, REPO) for f in sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))
             if os.path.basename(f) not in known]
    return list(srcs) + extra


def _sources_hash():
    h = hashlib.sha256()
    for pat in ("include/**/*", "src/**/*", "qdd/bindings.cpp"):
        for f in sorted(glob.glob(os.path.join(REPO, pat), recursive=True)):
            if os.path.isfile(f):
                h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))


def _compile(cxx, flags, src, outdir):
    """object file for src, shared between programs with the same flags."""
    obj = os.path.join(outdir, os.path.basename(src).replace(".cpp", "") + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".tmp%d" % os.getpid()
        _run([cxx] + flags + ["-c", src, "-o", tmp])
        os.replace(tmp, obj)
    return obj


class _Lock:
    def __init__(self, path):
        self.path = path
    def __enter__(self):
        os.makedirs(os.path.dirname(self.path), exist_ok=True)
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN); self.f.close()


def _dir(variant, extra=()):
    cxx, flags, link, srcs = VARIANTS[variant]
    h = hashlib.sha256((_sources_hash() + repr((cxx, flags, link, srcs, COMMON, extra))).encode()).hexdigest()[:20]
    d = os.path.join(BUILD, f"{variant}-{h}")
    os.makedirs(d, exist_ok=True)
    return d


def engine_objects(variant):
    cxx, flags, link, srcs = VARIANTS[variant]
    d = _dir(variant)
    with _Lock(os.path.join(d, ".lock")):
        with ThreadPoolExecutor(4) as ex:
            objs = list(ex.map(lambda s: _compile(cxx, COMMON + flags, os.path.join(REPO, s), d), _sources(srcs)))
    return d, objs


def program(variant, harness):
    """Builds /verif/cpp/<harness>.cpp against the engine variant; returns the executable."""
    cxx, flags, link, srcs = VARIANTS[variant]
    d, _ = None, None
    hsrc = os.path.join(VERIF, "cpp", harness + ".cpp")
    hh = hashlib.sha256(b"".join(open(f, "rb").read() for f in
                                 sorted(glob.glob(os.path.join(VERIF, "cpp", "*.hpp"))) + [hsrc])).hexdigest()[:12]
    d = _dir(variant)
    exe = os.path.join(d, f"{harness}-{hh}")
    if os.path.exists(exe):
        return exe
    hd = os.path.join(d, "h-" + hh)
    os.makedirs(hd, exist_ok=True)
    with ThreadPoolExecutor(2) as ex:
        f1 = ex.submit(engine_objects, variant)
        f2 = ex.submit(_compile, cxx, COMMON + flags, hsrc, hd)
        _, objs = f1.result()
        ho = f2.result()
    tmp = exe + ".tmp%d" % os.getpid()
    _run([cxx] + flags + [ho] + objs + link + ["-o", tmp])
    os.replace(tmp, exe)
    return exe


def python_package(variant="small"):
    """An overlay package directory <dir>/qdd: links to /repo/qdd/*.py and a pyQDD built from /repo."""
    cxx, flags, link, srcs = VARIANTS[variant]
    d, objs = engine_objects(variant)
    pkg = os.path.join(d, "pkg")
    inc = subprocess.run([PY, "-c", "import sysconfig;print(sysconfig.get_paths()['include']);print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                         stdout=subprocess.PIPE, text=True, check=True).stdout.split()
    so = os.path.join(pkg, "qdd", "pyQDD" + inc[1])
    with _Lock(os.path.join(d, ".pylock")):
        os.makedirs(os.path.join(pkg, "qdd"), exist_ok=True)
        if not os.path.exists(so):
            bo = _compile(cxx, COMMON + flags + ["-fvisibility=hidden", f"-I{PYBIND}", f"-I{inc[0]}"],
                          os.path.join(REPO, "qdd/bindings.cpp"), d)
            tmp = so + ".tmp"
            _run([cxx, "-shared"] + flags + [bo] + objs + link + ["-o", tmp])
            os.replace(tmp, so)
        want = {os.path.basename(f): f for f in glob.glob(os.path.join(REPO, "qdd", "*.py"))}
        for name, f in want.items():
            l = os.path.join(pkg, "qdd", name)
            if not os.path.islink(l) or os.readlink(l) != f:
                if os.path.lexists(l):
                    os.unlink(l)
                os.symlink(f, l)
        for l in glob.glob(os.path.join(pkg, "qdd", "*.py")):
            if os.path.basename(l) not in want:
                os.unlink(l)
    return pkg


def prune(keep=24):
    """Drop old build directories (development only grows them)."""
    ds = sorted((d for d in glob.glob(os.path.join(BUILD, "*-*")) if os.path.isdir(d)), key=os.path.getmtime)
    for d in ds[:-keep]:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    for a in sys.argv[1:]:
        v, _, h = a.partition(":")
        print(python_package(v) if h == "py" else program(v, h) if h else engine_objects(v)[0])
