"""Builds /repo (current working tree) with a chosen instrumentation flavour.

The build directory is named after a digest of every source file of /repo, of
the flavour's flags and of this framework's own native sources, so it is never
reused for a different tree; objects come from a content-addressed cache.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ALTA_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
JOBS = str(os.cpu_count() or 4)

COMMON = "-O1 -g1 -fno-omit-frame-pointer -Wno-deprecated-declarations -w"
ASAN = (COMMON + " -fsanitize=address,undefined -fno-sanitize=vptr,function"
        " -fno-sanitize-recover=undefined -D_GLIBCXX_ASSERTIONS"
        " -ftrivial-auto-var-init=pattern")
FLAVORS = {
    # memory + undefined behaviour, uninitialised stack filled with a pattern
    "asan": dict(cxx=ASAN.replace("-fno-sanitize=vptr,function", "-fno-sanitize=vptr"), link="-fsanitize=address,undefined"),
    # data races (with our own instrumented OpenMP runtime, see src/gomp_shim)
    "tsan": dict(cxx=COMMON + " -fopenmp -fsanitize=thread", link="-fopenmp -fsanitize=thread"),
    # uninstrumented, uninitialised stack filled with zeros (the opposite of the pattern above)
    "plain": dict(cxx="-O1 -g -w -fno-omit-frame-pointer -ftrivial-auto-var-init=zero", link=""),
}

FUNCTIONS = ["nonlinear_function_" + s for s in
             "abc beckmann blinn diffuse lafortune sgd spherical_gaussian ward "
             "retrobeckmann retroblinn retroyoo".split()]
FRESNELS = ["nonlinear_fresnel_" + s for s in "schlick normalized_schlick retroschlick".split()]
SHADOWINGS = ["nonlinear_shadowing_" + s for s in "schlick smith walter_smith".split()]
RATIONALS = ["rational_function_" + s for s in "legendre chebychev cosine".split()]
DATAS = ["data_" + s for s in "astm merl utia brdf_slice grid rbf".split()]
RFITTERS = ["rational_fitter_" + s for s in "eigen leastsquare quadprog parallel".split()]
NFITTERS = ["nonlinear_fitter_" + s for s in "eigen ceres nlopt".split()]
SOFTS = "brdf2brdf brdf2data brdf2gnuplot brdf2stats data2data data2brdf data2stats data2moments".split()
NL = FUNCTIONS + FRESNELS + SHADOWINGS


class BuildError(Exception):
    pass


def _digest(extra):
    h = hashlib.sha256(extra.encode())
    def add(root, skip):
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in skip)
            for f in sorted(files):
                p = os.path.join(d, f)
                if os.path.islink(p) or not os.path.isfile(p):
                    continue
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    for sub in ("sources/core", "sources/plugins", "sources/softs", "sources/python", "external", "configs"):
        if os.path.isdir(os.path.join(REPO, sub)):
            add(os.path.join(REPO, sub), {".git", "__pycache__"})
    for f in ("CMakeLists.txt",):
        h.update(open(os.path.join(REPO, f), "rb").read())
    add(os.path.join(VERIF, "src"), set())
    return h.hexdigest()[:20]


def _run(cmd, log, **kw):
    with open(log, "ab") as fh:
        fh.write((" ".join(cmd) + "\n").encode())
        fh.flush()
        return subprocess.call(cmd, stdout=fh, stderr=subprocess.STDOUT, **kw)


def _prune(keep):
    """Keep at most six build trees."""
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, d))]
    except OSError:
        return
    ds = [d for d in ds if d != keep]
    ds.sort(key=os.path.getmtime)
    for d in ds[:-5]:
        lock = open(d + ".lock", "w")
        try:
            fcntl.flock(lock, fcntl.LOCK_EX | fcntl.LOCK_NB)
        except OSError:
            continue
        shutil.rmtree(d, ignore_errors=True)
        lock.close()


class Tree:
    def __init__(self, flavor, path):
        self.flavor, self.path = flavor, path
        self.plugins = os.path.join(path, "plugins")
        self.softs = os.path.join(path, "softs")
        self.python = os.path.join(path, "python")
        self.driver = os.path.join(path, "driver")
        self.gomp = os.path.join(path, "libgomp-verif.so")

    def soft(self, n):
        return os.path.join(self.softs, n)


def ensure(flavor, targets=(), driver=False, extra=()):
    """Return a Tree in which the given cmake targets (and driver) are built."""
    t0 = time.time()
    fl = FLAVORS[flavor]
    os.makedirs(BUILD, exist_ok=True)
    dg = _digest(flavor + repr(fl) + REPO)
    path = os.path.join(BUILD, flavor + "-" + dg)
    _prune(path)
    lock = open(path + ".lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        os.makedirs(path, exist_ok=True)
        log = os.path.join(path, "verif-build.log")
        env = dict(os.environ)
        for k in ("CXXFLAGS", "LDFLAGS", "CFLAGS", "ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS", "LD_PRELOAD"):
            env.pop(k, None)
        env["ALTA_OBJ_CACHE"] = os.path.join(VERIF, ".cache", "obj")
        # tools run at build time must not stop on leaks
        env["ASAN_OPTIONS"] = "detect_leaks=0"
        cc = os.path.join(VERIF, "lib", "cxxcache.py")
        if not os.path.exists(os.path.join(path, "build.ninja")):
            r = _run(["cmake", "-S", REPO, "-B", path, "-G", "Ninja", "-Wno-dev",
                      "-DCMAKE_CXX_COMPILER=/usr/bin/g++",
                      "-DCMAKE_CXX_COMPILER_LAUNCHER=" + cc,
                      "-DCMAKE_BUILD_TYPE=VERIF",
                      "-DCMAKE_CXX_FLAGS_VERIF=" + fl["cxx"],
                      "-DCMAKE_EXE_LINKER_FLAGS_VERIF=" + fl["link"],
                      "-DCMAKE_SHARED_LINKER_FLAGS_VERIF=" + fl["link"],
                      "-DCMAKE_EXPORT_COMPILE_COMMANDS=OFF",
                      "-DPYTHON_EXECUTABLE=/usr/bin/python3.12",
                      "-DCMAKE_CXX_STANDARD_INCLUDE_DIRECTORIES=/opt/vp/include",
                      "-DCMAKE_CXX_STANDARD_LIBRARIES=-lz -llz4"], log, env=env)
            if r != 0:
                raise BuildError("cmake failed, see " + log)
        tg = list(dict.fromkeys(targets))
        if driver:
            tg = ["core", "quadprog"] + [t for t in tg if t not in ("core", "quadprog")]
        tree = Tree(flavor, path)
        dthread, drc = None, [0]
        obj = os.path.join(path, "driver.o")
        if driver and not os.path.exists(tree.driver):
            inc = ["-I" + os.path.join(REPO, "sources"), "-I" + os.path.join(REPO, "external"),
                   "-I" + os.path.join(REPO, "external", "quadprog++"), "-I/usr/include/eigen3"]
            cmd = ([cc, "g++", "-std=gnu++11", "-fopenmp", "-fPIC"] + fl["cxx"].replace("-O1", "-O0").split() + inc +
                   ["-c", os.path.join(VERIF, "src", "driver.cpp"), "-o", obj])
            def comp():
                drc[0] = _run(cmd, log, env=env)
            dthread = threading.Thread(target=comp)
            dthread.start()
        r = _run(["ninja", "-C", path, "-j", JOBS] + tg, log, env=env) if tg else 0
        if dthread:
            dthread.join()
            if r == 0 and drc[0] == 0:
                drc[0] = _run(["g++"] + fl["link"].split() + ["-fopenmp", obj, os.path.join(path, "lib", "libcore.a"),
                              os.path.join(path, "lib", "libquadprog.a"), "-ldl", "-o", tree.driver + ".tmp"], log, env=env)
        if r != 0 or drc[0] != 0:
            sys.stderr.write("".join(open(log, errors="replace").readlines()[-40:]))
            raise BuildError("build failed, see " + log)
        if dthread:
            os.rename(tree.driver + ".tmp", tree.driver)
        if flavor == "tsan" and not os.path.exists(tree.gomp):
            if _run([cc, "g++", "-std=gnu++17", "-O1", "-g", "-fPIC", "-pthread", "-c", os.path.join(VERIF, "src", "gomp_shim", "gomp.cpp"), "-o", tree.gomp + ".o"], log, env=env) or \
               _run(["g++", "-shared", "-pthread", tree.gomp + ".o", "-o", tree.gomp + ".tmp"], log, env=env):
                raise BuildError("build of the OpenMP runtime failed, see " + log)
            os.rename(tree.gomp + ".tmp", tree.gomp)
        os.utime(path)
        tree.seconds = time.time() - t0
        return tree
    finally:
        lock.close()


if __name__ == "__main__":
    t = ensure(sys.argv[1], sys.argv[2:], driver=True)
    print(t.path, round(t.seconds, 1))
