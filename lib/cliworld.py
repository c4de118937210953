"""Sound uses of the command-line tools: input files, options, expected outputs."""
import math, os, resource, shutil, signal, struct, subprocess, sys, tempfile
import build, dirs, driver, exr, models, shapes
from gen import *

FIT_FUNCS = ["nonlinear_function_diffuse", "nonlinear_function_beckmann", "nonlinear_function_blinn", "nonlinear_function_ward"]


class Job:
    """One sound way to use a tool.  OPTS: option -> list of value tokens; OUT: name of the file it writes."""
    def __init__(self, name, tool, opts, must, files, plugins=(), kind="data", rows=None, cols=None, words=(), heavy=False):
        self.name, self.tool, self.opts, self.must, self.files, self.plugins = name, tool, opts, must, files, plugins
        self.kind, self.rows, self.cols, self.words, self.heavy = kind, rows, cols, words, heavy

    def argv(self, opts):
        out = []
        for k, v in opts.items():
            out += ["--" + k] + list(v)
        return out


def nums(s):
    try:
        return [float(x) for x in s.split()]
    except ValueError:
        return None


def complete(job, path):
    """Why the output is not a complete one (None: it is)."""
    try:
        b = open(path, "rb").read()
    except OSError as e:
        return "not written: %s" % e
    if job.kind == "exr":
        return None if b[:4] == struct.pack("<i", 20000630) and len(b) > 300 else "no image"
    if job.kind == "binary":
        k = b.find(b"#BEGIN_STREAM\n")
        head = dict(l.split(None, 1) for l in b[:max(k, 0)].decode("latin-1").split("\n") if len(l.split(None, 1)) == 2)
        cols = job.cols + int(head.get("#VS", "0")) * int(head.get("#DIM", "0 0").split()[1])
        return None if k >= 0 and len(b) - k - 14 == 8 * job.rows * cols + len(b"\n#END_STREAM\n") else "binary stream of %d bytes" % (len(b) - k - 14)
    s = b.decode("latin-1")
    if job.kind == "data":
        ls = [l for l in s.split("\n") if l.strip() and not l.startswith("#")]
        if "#DIM" not in s and job.tool != "brdf2gnuplot":
            return "no header"
        if len(ls) != job.rows:
            return "%d rows instead of %d" % (len(ls), job.rows)
        bad = [l for l in ls if nums(l) is None or len(nums(l)) != job.cols]
        return "row %r" % bad[0] if bad else None
    if job.kind == "words":
        miss = [w for w in job.words if w not in s]
        return "no %s" % miss if miss or not s.endswith("\n") else None
    raise ValueError(job.kind)


def smooth(r, dy, x):
    s = sum((i + 1) * v for i, v in enumerate(x))
    return [1.0 / (1.2 + s * s * .1) + .1 * k for k in range(dy)]


def table(r, pin, dy, n, pout="INV_STERADIAN", extra="", angles=True):
    rows = []
    for i in range(n):
        if pin == "COS_TH":
            x = [i / (n - 1.0)]
        else:
            V, L = dirs.sph(r.uniform(.05, 1.4), r.uniform(-3, 3)), dirs.sph(r.uniform(.05, 1.4), r.uniform(-3, 3))
            x = dirs.coords(V, L, pin)
        rows.append(list(x) + smooth(r, dy, x))
    return ("#DIM %d %d\n#PARAM_IN %s\n#PARAM_OUT %s\n%s" % (NAMED[pin], dy, FILE[pin], pout, extra)
            + "".join(" ".join(repr(v) for v in row) + "\n" for row in rows)).encode(), rows


def binary_table(pin, dy, rows):
    w = NAMED[pin] + dy
    return ("#DIM %d %d\n#PARAM_IN  %s\n#PARAM_OUT INV_STERADIAN\n#FORMAT binary\n#VERSION 0\n#PRECISION ieee754-double\n#SAMPLE_COUNT %d\n#VS 0\n#ENDIAN little\n#BEGIN_STREAM\n" % (
        NAMED[pin], dy, FILE[pin], len(rows))).encode() + b"".join(struct.pack("<%dd" % w, *row) for row in rows) + b"\n#END_STREAM\n"


def world(c, t):
    """Sound input files: name -> (kind, bytes); and the jobs on them."""
    r = c.rng
    w = os.path.join(c.tmp(), "world")
    os.makedirs(w)
    F = {}

    def put(name, kind, b):
        F[name] = kind
        open(os.path.join(w, name), "wb").write(b)

    N = 24
    b, rows1 = table(r, "COS_TH", 1, 40)
    put("one.alta", "text", b)
    b, rows6 = table(r, "CARTESIAN", 3, N)
    put("six.alta", "text", b)
    b, rows4 = table(r, "SPHERICAL_TL_PL_TV_PV", 3, N)
    put("four.alta", "text", b)
    put("four.bin", "binary", binary_table("SPHERICAL_TL_PL_TV_PV", 3, rows4))
    b, rows1c = table(r, "CARTESIAN", 1, N)
    put("six1.alta", "text", b)
    gs = [4, 5]
    g = "#ALTA GRID\n"
    grid = ("#DIM 2 3\n#PARAM_IN RUSIN_TH_TD\n#PARAM_OUT INV_STERADIAN\n#grid-size [4,5]\n").encode()
    for j in range(gs[1]):
        for i in range(gs[0]):
            x = [1.5 * i / (gs[0] - 1), 1.5 * j / (gs[1] - 1)]
            grid += (" ".join(repr(v) for v in x + smooth(r, 3, x)) + "\n").encode()
    put("grid.alta", "grid", grid)
    put("slice.exr", "exr", exr.write(8, 8, {q: [r.random() for _ in range(64)] for q in "RGB"}))
    # function files, written by the library itself
    S = driver.Script()
    fs = {"rat": shapes.random_rat(r, "rational_function", 1)}
    while fs["rat"].pin != "COS_TH":
        fs["rat"] = shapes.random_rat(r, "rational_function", 1)
    fs["leg"] = shapes.random_rat(r, "rational_function_legendre", 3)
    bm = [m for m in models.LOBES if m.name == "nonlinear_function_beckmann"][0]
    fr = [m for m in models.FACTORS if m.name == "nonlinear_fresnel_schlick"][0]
    fs["bec"] = shapes.random_fn(r, 3, single=bm, factor=False, given="CARTESIAN", fixed=False)
    fs["pro"] = shapes.random_fn(r, 3, single=bm, factor=fr, given="CARTESIAN", fixed=False)
    while "sum" not in fs or any("sgd" in leaf.m.name for leaf in fs["sum"].leaves):
        fs["sum"] = shapes.random_fn(r, 3, given="CARTESIAN", nsum=3, fixed=False, factor=False)
    for m in models.LOBES + models.FACTORS:
        nm = m.name.split("_", 1)[1]
        fs["m_" + nm] = shapes.random_fn(r, 3, single=m, factor=False, fixed=False)
    for k, f in fs.items():
        S.case(k, shapes.build_cmds("F", f) + ["fsave F %s A" % driver.q(os.path.join(w, k + ".func"))])
    R, err = driver.run(t, S, os.path.join(c.tmp(), "mk"))
    for k, f in fs.items():
        if not R[k].done or any(not R[k].ok(i) for i in range(len(R[k].cmds))):
            raise RuntimeError("cannot make %s: %s %s" % (k, R[k].end, [v for v in R[k].res.values() if v[0] != "OK"][:1]))
        F[k + ".func"] = "func"
    jobs = []

    def J(*a, **k):
        jobs.append(Job(*a, **k))

    IO = ["input", "output"]
    for src, pin, n, dy in (("one.alta", "COS_TH", 40, 1), ("six.alta", "CARTESIAN", N, 3), ("four.bin", "SPHERICAL_TL_PL_TV_PV", N, 3)):
        to = {"COS_TH": "COS_TH"}.get(pin, r.choice(["RUSIN_TH_PH_TD_PD", "RUSIN_TH_TD", "COS_TH_TD", "ISOTROPIC_TV_TL_DPHI"]))
        J("data2data:" + src, "data2data", {"input": [src], "output": ["OUT"], "param": [to]}, IO, {"input": src}, kind="data", rows=n, cols=NAMED[to] + dy)
        J("data2data-bin:" + src, "data2data", {"input": [src], "out-data": ["alta-binary"], "output": ["OUT"]}, IO, {"input": src}, kind="binary", rows=n, cols=NAMED[pin] + dy, plugins=["out-data"])
    J("data2data:grid", "data2data", {"input": ["grid.alta"], "in-data": ["data_grid"], "output": ["OUT"]}, IO, {"input": "grid.alta"}, ["in-data"], rows=20, cols=5)
    J("data2data:rbf", "data2data", {"input": ["four.alta"], "in-data": ["data_rbf"], "output": ["OUT"]}, IO, {"input": "four.alta"}, ["in-data"], rows=N, cols=7)
    J("data2data:exr", "data2data", {"input": ["slice.exr"], "in-data": ["data_brdf_slice"], "param": ["STARK_2D"], "output": ["OUT"], "all-values": []}, IO, {"input": "slice.exr"}, ["in-data"], rows=64, cols=5)
    J("data2data:grid-exr", "data2data", {"input": ["grid.alta"], "in-data": ["data_grid"], "out-data": ["data_brdf_slice"], "output": ["OUT"], "param": ["STARK_2D"]}, IO, {"input": "grid.alta"}, ["in-data", "out-data"], kind="exr", heavy=True)
    for fit in build.RFITTERS:
        o = {"input": ["one.alta"], "output": ["OUT"], "fitter": [fit]}
        o.update({"np": ["3"], "nq": ["3"]} if fit in ("rational_fitter_eigen", "rational_fitter_leastsquare") else {"min-np": ["2"], "np": ["6"], "min-nq": ["2"], "nq": ["6"], "dt": ["0.2"]})
        J("data2brdf:" + fit, "data2brdf", o, IO + ["fitter"], {"input": "one.alta"}, ["fitter"], kind="words", words=["#ALTA FUNC HEADER", "#DIM 1 1", "#CMD", "#FUNC", "#NP", "#NQ"])
    J("data2brdf:legendre", "data2brdf", {"input": ["one.alta"], "output": ["OUT"], "fitter": ["rational_fitter_leastsquare"], "np": ["3"], "nq": ["3"], "func": ["rational_function_legendre"]}, IO + ["fitter"], {"input": "one.alta"}, ["fitter", "func"], kind="words", words=["#ALTA FUNC HEADER", "#FUNC", "#NP", "#NQ"])
    for fit in build.NFITTERS:
        fn = "nonlinear_function_diffuse"
        J("data2brdf:" + fit, "data2brdf", {"input": ["six.alta"], "output": ["OUT"], "fitter": [fit], "func": [fn]}, IO + ["fitter"], {"input": "six.alta"}, ["fitter", "func"], kind="words", words=["#ALTA FUNC HEADER", "#DIM", "#CMD", "#FUNC"])
    for ex, words in (("alta", ["#ALTA FUNC HEADER", "#FUNC"]), ("matlab", ["function res = brdf(x)", "end"]), ("explorer", ["::begin shader", "::end shader"]), ("C++", ["vec brdf(const vec& x)", "return res;\n}"]), ("shader", ["vec3 BRDF(", "return res;\n}"])):
        for fn in r.sample(["bec", "pro", "sum"] + (["rat", "leg"] if ex not in ("explorer", "shader") else []), 2):
            o = {"input": [fn + ".func"], "output": ["OUT"]}
            if ex != "alta" or r.random() < .5:
                o["export"] = [ex]
            J("brdf2brdf:%s:%s" % (ex, fn), "brdf2brdf", o, IO, {"input": fn + ".func"}, kind="words", words=words)
    for fn in fs:
        if fn.startswith("m_"):
            J("brdf2brdf:%s" % fn, "brdf2brdf", {"input": [fn + ".func"], "output": ["OUT"]}, IO, {"input": fn + ".func"}, kind="words", words=["#ALTA FUNC HEADER", "#FUNC"])
    for fn, dat, n, w_ in (("bec", "four.alta", N, 7), ("pro", "six.alta", N, 9), ("sum", "four.bin", N, 7), ("rat", "one.alta", 40, 2)):
        J("brdf2data:" + fn, "brdf2data", {"input": [fn + ".func"], "output": ["OUT"], "data-file": [dat]}, IO + ["data-file"], {"input": fn + ".func", "data-file": dat}, rows=n, cols=w_)
        o = {"input": [fn + ".func"], "output": ["OUT"], "data-file": [dat]}
        if r.random() < .5:
            o[r.choice(["cos-plot", "error"])] = []
        J("brdf2gnuplot:" + fn, "brdf2gnuplot", o, IO, {"input": fn + ".func", "data-file": dat}, rows=n, cols=w_)
    J("brdf2data:slice", "brdf2data", {"input": ["bec.func"], "output": ["OUT"], "data": ["data_brdf_slice"], "param": ["STARK_2D"]}, IO, {"input": "bec.func"}, ["data"], kind="exr", heavy=True)
    J("brdf2gnuplot:grid", "brdf2gnuplot", {"input": ["bec.func"], "output": ["OUT"], "data-file": ["grid.alta"], "data": ["data_grid"]}, IO, {"input": "bec.func", "data-file": "grid.alta"}, ["data"], rows=20, cols=5)
    J("brdf2gnuplot:polar", "brdf2gnuplot", {"input": ["bec.func"], "output": ["OUT"], "polar-plot": [], "inc-angle": ["0.5"], "samples": ["40"]}, IO, {"input": "bec.func"}, rows=40, cols=4)
    STATS = ["L1 :", "L2 :", "L3 :", "LINF :", "MSE :", "RMSE :"]
    J("brdf2stats:bec", "brdf2stats", {"brdf": ["bec.func"], "input": ["six.alta"], "output": ["OUT"]}, ["brdf", "input"], {"brdf": "bec.func", "input": "six.alta"}, kind="words", words=STATS + ["cos(theta_view)"])
    J("brdf2stats:pro", "brdf2stats", {"brdf": ["pro.func"], "input": ["four.alta"], "output": ["OUT"]}, ["brdf", "input"], {"brdf": "pro.func", "input": "four.alta"}, kind="words", words=STATS + ["cos(theta_view)"])
    J("data2stats:grid", "data2stats", {"input": ["grid.alta"], "in-data": ["data_grid"], "ref": ["six.alta"], "output": ["OUT"]}, ["input", "ref"], {"input": "grid.alta", "ref": "six.alta"}, ["in-data"], kind="words", words=STATS)
    J("data2stats:rbf", "data2stats", {"input": ["four.alta"], "in-data": ["data_rbf"], "ref": ["grid.alta"], "ref-data": ["data_grid"], "output": ["OUT"]}, ["input", "ref"], {"input": "four.alta", "ref": "grid.alta"}, ["in-data", "ref-data"], kind="words", words=STATS)
    MU = ["\\mu_0 =", "\\mu_x =", "\\mu_{xy} =", "\\mu_{yyy} ="]
    J("data2moments:grid", "data2moments", {"input": ["grid.alta"], "data": ["data_grid"], "samples": ["[6,7]"], "output": ["OUT"]}, IO + ["data"], {"input": "grid.alta"}, ["data"], kind="words", words=MU)
    J("data2moments:rbf", "data2moments", {"input": ["four.alta"], "data": ["data_rbf"], "samples": ["[3,4,3,2]"], "dim": ["[0,2]"], "output": ["OUT"]}, IO + ["data"], {"input": "four.alta"}, ["data"], kind="words", words=MU)
    return w, F, jobs


def spawn(t, job, opts, cwd, limit=None, timeout=120):
    def pre():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if limit is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    try:
        p = subprocess.run([t.soft(job.tool)] + job.argv(opts), cwd=cwd, env=driver.san_env(t), stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=pre)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return None, "", ""
