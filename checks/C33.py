"""C33: what the fitting tool writes describes the fit it made."""
import math, os, re, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, dirs, driver, models, shapes
from gen import *

RAT = ["rational_function", "rational_function_legendre", "rational_function_chebychev", "rational_function_cosine"]
PRECIOUS = "a file that was here before\n"


def text(pin, dy, pout, rows, vs, dim=None):
    h = "#DIM %d %d\n#PARAM_IN %s\n#PARAM_OUT %s\n" % (dim or NAMED[pin], dy, FILE.get(pin, pin), pout)
    if vs:
        h += "#VS %s\n" % " ".join([str(vs)] * dy)
    return h + "".join(" ".join(map(repr, q)) + "\n" for q in rows)


def rational_job(r):
    """(fitter, options, data text, dims, parametrization)"""
    fitter = r.choice(["rational_fitter_eigen", "rational_fitter_leastsquare", "rational_fitter_quadprog", "rational_fitter_parallel"])
    plugin = r.choice(RAT)
    pin = r.choice(["COS_TH", "RUSIN_TH_TD", "COS_TH_TD", "RUSIN_TH_TD_PD", "UNKNOWN_INPUT"])
    dim = NAMED.get(pin) or 1
    if plugin == "rational_function_cosine":
        pin, dim = r.choice([("RUSIN_TH_TD_PD", 3), ("ISOTROPIC_TV_TL_DPHI", 3)])
    if pin == "UNKNOWN_INPUT":
        dim = r.choice([1, 2])
    if plugin in ("rational_function_legendre", "rational_function_chebychev") and pin == "COS_TH_TD":
        pin = "RUSIN_TH_TD"
    dy = r.choice([1, 1, 2, 3])
    n = r.choice([1, 4, 12, 25, 40]) if r.random() < .95 else r.choice([129, 260])
    k = r.choice(["exact", "smooth", "noisy", "wild", "constant"])
    co = [[r.uniform(-.5, .5) for _ in range(dim + 1)] for _ in range(dy)]
    vs = r.choice([0, 0, 1, 2, 2])
    rows = []
    for i in range(n):
        x = [r.uniform(.05, 1.0) for _ in range(dim)]
        y = []
        for q in range(dy):
            s = 1 + co[q][dim] + sum(a * b for a, b in zip(co[q], x))
            y.append({"exact": s / (2.5 + x[0]), "smooth": math.exp(-x[0] * s), "noisy": s + r.gauss(0, .2), "wild": r.uniform(-10, 10), "constant": .5}[k])
        w = [r.choice([.02, .2]) for _ in y]
        rows.append(x + y + (w if vs == 1 else [a for v in w for a in (v, v)] if vs == 2 else []))
    o = []
    if plugin != "rational_function" or r.random() < .5:
        o += ["--func", plugin]
    if fitter == "rational_fitter_eigen":
        o += ["--np", str(r.randrange(1, 7)), "--nq", str(r.randrange(1, 5))]
    elif fitter == "rational_fitter_leastsquare":
        o += ["--np", str(r.randrange(1, 7)), "--nq", str(r.randrange(1, 5))]
        if r.random() < .4:
            o += ["--max-iter", str(r.choice([2, 5]))]
    elif fitter == "rational_fitter_quadprog":
        a, b = r.randrange(1, 7), r.randrange(1, 5)
        o += ["--np", str(a), "--nq", str(b)]
        if r.random() < .6:
            o += ["--min-np", str(r.randrange(1, a + 1)), "--min-nq", str(r.randrange(1, b + 1))]
        if r.random() < .3:
            o += ["--scheduling-mode", r.choice(["SlidingWindows", "WorstSetFirst", "WorstFirst"])]
    else:
        a = r.randrange(2, 6)
        o += ["--min-np", str(a), "--np", str(a + r.randrange(0, 4)), "--nb-starting-points", str(r.choice([1, 10, 100]))]
        o += r.choice([[], ["--nb-cores", "1"], ["--nb-cores", "3"], ["--use_delta"]])
    if r.random() < .25:
        o += ["--dt", r.choice(["0.05", "0.3"])]
        if r.random() < .5:
            o.append("--dt-relative")
    if r.random() < .2:
        b = r.uniform(.3, .6)
        o += ["--max", "[%s]" % ", ".join(["%r" % b] + ["2"] * (dim - 1))] if dim > 1 else ["--max", "[%r]" % b]
    return fitter, o, text(pin, dy, "INV_STERADIAN", rows, vs, dim), dim, dy, pin, "INV_STERADIAN", "%s:%s" % (fitter[16:], k), plugin


def nonlinear_job(r):
    ft = r.choice(["eigen", "ceres", "nlopt"])
    dy = r.choice([1, 1, 2, 3])
    f = shapes.random_fn(r, dy, given=r.choice(["CARTESIAN", "CARTESIAN", "RUSIN_TH_PH_TD_PD", "SPHERICAL_TL_PL_TV_PV"]) if r.random() < .8 else None)
    dpin = f.given[1]
    change = False
    if dpin in shapes.FULL and r.random() < .4:
        dpin = r.choice(shapes.FULL)
        change = dpin != f.given[1]
    # the tool asks for the function with the parametrization of the data
    n = r.choice([3, 12, 30])
    noise = r.choice([0, .01, .3])
    rows = []
    while len(rows) < n:
        a, u = r.uniform(.03, 1.3), r.uniform(-3, 3)
        b, v = (a + r.gauss(0, .1), u + math.pi + r.gauss(0, .2)) if r.random() < .5 else (r.uniform(.03, 1.3), r.uniform(-3, 3))
        V, L = dirs.sph(a, u), dirs.sph(min(1.4, max(.02, b)), v)
        try:
            x, y = dirs.coords(V, L, dpin), f.value(V, L)
        except (ZeroDivisionError, OverflowError, ValueError):
            continue
        if x is None or not all(math.isfinite(v) for v in list(x) + y) or max(map(abs, y)) > 1e6:
            continue
        rows.append(list(x) + [abs(v * (1 + noise * r.gauss(0, 1))) for v in y])
    if r.random() < .05:
        rows[r.randrange(n)][-1] = math.nan
    o = list(f.toks)
    if ft == "ceres":
        o += ["--ceres-max-num-iterations", str(r.choice([1, 20, 60]))]
        if r.random() < .2:
            o.append("--log-fit")
    elif ft == "nlopt":
        o += r.choice([[], ["--nlopt-optimizer", r.choice(["local-sqp", "local-spblx", "local-Nelder-Mead", "local-mma"])]]) + ["--nlop-max-num-iterations", str(r.choice([2, 100]))]
    elif r.random() < .2:
        o.append("--fit-with-cosine")
    if change or r.random() < .1:
        o.append("--change-param")
    if r.random() < .1:
        o += ["--bootstrap"] + ("[" + ", ".join(repr(v) for v in shapes.free_params(f)) + "]").split() if shapes.free_params(f) else []
    if r.random() < .15:
        o += ["--export", r.choice(["matlab", "C++", "alta"])] if not any("sgd" in l.m.name for l in f.leaves) else []
    plug = []
    if r.random() < .1 and not any(math.isnan(v) for q in rows for v in q):
        plug = ["--data", "data_rbf"]
    return "nonlinear_fitter_" + ft, o + plug, text(dpin, dy, f.pout, rows, 0), NAMED[dpin], dy, dpin, f.pout, "%s:%s" % (ft, "change" if change else "same"), "data_rbf" if plug else ""


def failing_jobs(r):
    """Uses that cannot produce a function, whatever the library makes of them on the way."""
    one = text("COS_TH", 1, "INV_STERADIAN", [[.1, 1.0], [.5, 2.0], [.9, .5]], 0)
    iv = text("COS_TH", 1, "INV_STERADIAN", [[.1, 1.0, .01, .01], [.5, 2.0, .01, .01], [.9, .5, .01, .01]], 2)
    q = "rational_fitter_quadprog"
    return [(q, ["--func", "rational_function_legendre", "--np", "1", "--nq", "1"], iv, "infeasible"),
            ("rational_fitter_parallel", ["--func", "rational_function_legendre", "--min-np", "2", "--np", "2"], iv, "infeasible"),
            ("rational_fitter_eigen", ["--func", "nonlinear_function_beckmann"], one, "kind"),
            ("nonlinear_fitter_eigen", ["--func", "rational_function_legendre"], one, "kind"),
            ("nonlinear_fitter_ceres", [], one, "kind"),
            ("nonlinear_fitter_nlopt", ["--func", "rational_function"], one, "kind"),
            ("nonlinear_fitter_eigen", ["--func", "nonlinear_function_none"], one, "function"),
            ("nonlinear_fitter_eigen", ["--func", "[]"], one, "function"),
            ("nonlinear_fitter_none", ["--func", "nonlinear_function_diffuse"], one, "fitter"),
            ("nonlinear_function_diffuse", ["--func", "nonlinear_function_diffuse"], one, "fitter"),
            ("nonlinear_fitter_eigen", ["--func", "nonlinear_function_diffuse", "--data", "data_none"], one, "data"),
            ("nonlinear_fitter_eigen", ["--func", "nonlinear_function_diffuse"], "#DIM 1 1\n#PARAM_IN COS_TH\n#PARAM_OUT INV_STERADIAN\n", "empty"),
            ("rational_fitter_eigen", [], "#DIM 1 1\n#PARAM_IN COS_TH\n#PARAM_OUT INV_STERADIAN\n", "empty"),
            ("rational_fitter_eigen", ["--min", "[3]"], one, "empty"),
            ("nonlinear_fitter_eigen", ["--func", "nonlinear_function_diffuse"], None, "missing")]


def nums(T):
    q = []
    while T.more():
        q.append(T.f())
    return q


def g6(x):
    return "%.6g" % x


def main(c):
    t = build.ensure("asan", build.NL + build.NFITTERS + build.RATIONALS + build.RFITTERS + ["data_rbf", "data2brdf"], driver=True)
    r = c.rng
    tool = t.soft("data2brdf")
    w = os.path.join(c.tmp(), "w")
    os.makedirs(w)
    jobs = []
    for i in range(c.scale(700, 4000)):
        fitter, o, body, dim, dy, pin, pout, tag, plugin = rational_job(r) if i % 2 else nonlinear_job(r)
        jobs.append(dict(fitter=fitter, opts=o, body=body, dim=dim, dy=dy, pin=pin, pout=pout, tag=tag, plugin=plugin, fails=None))
    for fitter, o, body, why in failing_jobs(r) * c.scale(1, 3):
        jobs.append(dict(fitter=fitter, opts=o, body=body, dim=1, dy=1, pin="COS_TH", pout="INV_STERADIAN", tag="fails:" + why, plugin="", fails=why))
    env = driver.san_env(t)

    def go(j):
        i, j = j
        d = tempfile.mkdtemp(dir=w)
        j["dir"], j["inp"], j["out"] = d, os.path.join(d, "in.alta"), os.path.join(d, "out.func")
        if j["body"] is not None:
            open(j["inp"], "w").write(j["body"])
        j["had"] = i % 3 == 0
        if j["had"]:
            open(j["out"], "w").write(PRECIOUS)
        # options in any order: each starts at a token with two dashes
        j["argv"] = ["--input", j["inp"], "--fitter", j["fitter"]] + j["opts"] + ["--output", j["out"]]
        if i % 5 == 0:
            j["argv"] = ["--output", j["out"]] + j["opts"] + ["--fitter", j["fitter"], "--input", j["inp"]]
        j["rc"], j["so"], j["se"] = driver.sh([tool] + j["argv"], d, env, timeout=c.scale(60, 200))
        return j
    jobs = driver.pmap(go, list(enumerate(jobs)))

    # --- what the library itself makes of the same data and options
    S = driver.Script()
    for i, j in enumerate(jobs):
        if j["fails"]:
            continue
        m = dict(re.findall(r"<<INFO>> (L2|Linf) +distance to data = (\S+)", j["so"]))
        j["L2"], j["Linf"] = m.get("L2"), m.get("Linf")
        plug = "data_rbf" if "data_rbf" in j["opts"] else "%01"
        ref = os.path.join(j["dir"], "ref.func")
        j["at"] = {}
        cmds = []

        def do(name, x):
            j["at"][name] = len(cmds)
            cmds.append(x)
        do("args", "args A %s %s" % (driver.q(tool), " ".join(map(driver.q, j["argv"]))))
        do("load", "dload D %s %s A" % (plug, driver.q(j["inp"])) if plug != "%01" else "dload D %%01 %s A" % driver.q(j["inp"]))
        do("rows0", "drows D")
        do("info", "dinfo D")
        j["empty"] = "no data loaded" in j["se"]
        if j["empty"]:
            S.case("j%d" % i, cmds, cpu=20)
            continue
        do("get", "fget F A %d %d %s %s" % (j["dim"], j["dy"], j["pin"], j["pout"]))
        do("compat", "compat D F A")
        do("fit", "fit %s D F A" % j["fitter"])
        do("fl2", "fl2 F D")
        do("finfo", "finfo F")
        if j["L2"]:
            do("u1", "argsupd A L2 " + driver.q(j["L2"]))
            do("u2", "argsupd A Linf " + driver.q(j["Linf"]))
        do("save", "fsave F %s A" % driver.q(ref))
        if j["rc"] == 0 and "--export" not in j["opts"]:
            do("reload", "fload G %s" % driver.q(j["out"]))
            do("ginfo", "finfo G")
            do("gfl2", "fl2 G D")
        S.case("j%d" % i, cmds, cpu=c.scale(60, 200))
    res, err = driver.run(t, S, os.path.join(c.tmp(), "drv"))
    for e in err:
        c.fail("driver", error=e)

    # --- positions of the samples in the function's coordinates, and the stored function there
    S2 = driver.Script()
    for i, j in enumerate(jobs):
        if j["fails"]:
            if j["rc"] in (None,):
                c.unsure("tool ran out of time: %s" % j["tag"])
                continue
            c.seen("fail", i, j["tag"])
            what = dict(fitter=j["fitter"], options=j["opts"], data=j["body"], stdout=j["so"][-600:], stderr=j["se"][-600:])
            if j["rc"] == 0:
                c.fail("success:" + j["tag"], **what)
            elif j["rc"] < 0 or "Sanitizer" in j["se"] or "runtime error" in j["se"] or "Assertion" in j["se"]:
                c.fail("crash:" + j["tag"], rc=j["rc"], **what)
            got = open(j["out"]).read() if os.path.exists(j["out"]) else None
            if got != (PRECIOUS if j["had"] else None):
                c.fail("file-after-failure:" + j["tag"], got=got and got[:300], **what)
            else:
                c.count("failures that left no file or the one that was there")
            continue
        R = res["j%d" % i]
        tag = j["tag"]
        if j["rc"] is None:
            c.unsure("tool ran out of time: %s %s" % (j["fitter"], " ".join(j["opts"])))
            continue
        what = dict(fitter=j["fitter"], options=j["opts"], data=j["body"][:3000], stdout=j["so"][-600:], stderr=j["se"][-800:], rc=j["rc"], script=R.cmds)
        if j["rc"] < 0 or "Sanitizer" in j["se"] or "runtime error" in j["se"] or "Assertion" in j["se"]:
            c.fail("crash:" + tag, **what)
            continue
        if not c.judge_death(R, tag + ":"):
            continue
        at = j["at"]
        if j["empty"]:
            got = open(j["out"]).read() if os.path.exists(j["out"]) else None
            c.seen(tag, i, "empty")
            if j["rc"] == 0 or R.toks(at["rows0"]).int() or got != (PRECIOUS if j["had"] else None):
                c.fail("empty:" + tag, got=got and got[:300], rows=R.res[at["rows0"]], **what)
            else:
                c.count("data sets of which nothing was kept")
            continue
        steps = [R.ok(at[k]) for k in ("load", "get", "compat", "fit")]
        good = all(steps) and R.res[at["load"]][1] != "null" and R.toks(at["fit"]).raw() == "1" and R.ok(at["fl2"])
        j["good"] = good
        sched = j["fitter"] == "rational_fitter_parallel"
        if (j["rc"] == 0) != good:
            if sched and all(steps):
                c.count("parallel fits that ended differently")     # judged by C19 and C23
            c.fail("exit-code:" + tag, library=[R.res.get(at[k]) for k in ("load", "get", "compat", "fit", "fl2")], **what)
            continue
        got = open(j["out"], errors="replace").read() if os.path.exists(j["out"]) else None
        c.seen(tag, i, good)
        if not good:
            c.count("failed fits")
            if got != (PRECIOUS if j["had"] else None):
                c.fail("file-after-failure:" + tag, got=got and got[:300], **what)
            continue
        c.count("successful fits: " + j["fitter"])
        if not j["L2"] or not j["Linf"]:
            c.fail("no-distance:" + tag, **what)
            continue
        l2, linf = R.toks(at["fl2"]).f(), None
        T = R.toks(at["fl2"])
        l2, linf = T.f(), T.f()
        if not sched:
            ok = all(a == g6(b) or abs(float(a) - b) <= 1e-5 * abs(b) or a.strip("-") == g6(b).strip("-") for a, b in ((j["L2"], l2), (j["Linf"], linf)))
            if not ok:
                c.fail("distance:" + tag, got=[j["L2"], j["Linf"]], want=[l2, linf], **what)
                continue
            if not R.ok(at["save"]):
                c.fail("save:" + tag, got=R.res[at["save"]], **what)
                continue
            want = open(os.path.join(j["dir"], "ref.func"), errors="replace").read()
            if got != want:
                a, b = (got or "").split("\n"), want.split("\n")
                k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
                c.fail("file:" + tag, line=k, got=a[k:k + 2], want=b[k:k + 2], **what)
                continue
            c.count("files that are the library's own for the same fit")
        if "--export" in j["opts"]:
            continue
        T = R.toks(at["info"])
        if not R.ok(at["reload"]) or R.res[at["reload"]][1].split()[:1] == ["null"] or not R.ok(at["ginfo"]):
            c.fail("reload:" + tag, got=R.res[at["reload"]], file=(got or "")[:800], **what)
            continue
        G = R.toks(at["ginfo"])
        gx, gy, gp = G.int(), G.int(), G.raw()
        F = R.toks(at["finfo"])
        fx, fy, fp = F.int(), F.int(), F.raw()
        head = dict(l[1:].split(None, 1) for l in got.split("#ALTA HEADER END")[0].split("\n") if len(l.split(None, 1)) == 2)
        if head.get("DIM", "").split() != [str(fx), str(fy)] or head.get("PARAM_IN", "").strip() != FILE.get(fp, fp) or (gx, gy, gp) != (fx, fy, fp):
            c.fail("header:" + tag, header=head, function=[fx, fy, fp], loaded=[gx, gy, gp], **what)
            continue
        cm = head.get("CMD", "")
        if "--L2 %s" % j["L2"] not in cm or "--Linf %s" % j["Linf"] not in cm:
            c.fail("command-line:" + tag, cmd=cm, **what)
        T = R.toks(at["rows0"])
        j["rows"] = [T.vec() for _ in range(T.int())]
        j["fp"], j["fx"] = fp, fx
        cmds = []
        for q in j["rows"]:
            if fp in ("UNKNOWN_INPUT",) or fp == j["pin"]:
                cmds.append("pinfo UNKNOWN_INPUT")
            else:
                cmds.append("pconv %s %s %s" % (j["pin"], fp, driver.fv(q[:j["dim"]])))
        S2.case("j%d" % i, cmds)
    res2, err = driver.run(t, S2, os.path.join(c.tmp(), "drv2"))
    for e in err:
        c.fail("driver", error=e)
    S3 = driver.Script()
    for i, j in enumerate(jobs):
        R = res2.get("j%d" % i)
        if R is None or not R.done or any(not R.ok(k) for k in range(len(R.cmds))):
            continue
        xs = [nums(R.toks(k))[:j["fx"]] if R.cmds[k].startswith("pconv") else q[:j["fx"]] for k, q in enumerate(j["rows"])]
        S3.case("j%d" % i, ["fload G %s" % driver.q(j["out"]), "fvals G %d %s" % (len(xs), " ".join(map(driver.fv, xs)))])
    res3, err = driver.run(t, S3, os.path.join(c.tmp(), "drv3"))
    for e in err:
        c.fail("driver", error=e)
    def distances(j, vals):
        s = m = big = 0.
        for q, v in zip(j["rows"], vals):
            y = q[j["dim"]:j["dim"] + j["dy"]]
            e = [a - b for a, b in zip(y, v)]
            s += sum(a * a for a in e)
            m = max([m] + [abs(a) for a in e])
            big = max([big] + [abs(a) for a in list(y) + list(v)])
        return math.sqrt(s / len(j["rows"])), m, big

    S4, doubt = driver.Script(), {}
    for i, j in enumerate(jobs):
        R = res3.get("j%d" % i)
        if R is None or not c.judge_death(R, "distances:"):
            continue
        if not R.ok(1):
            c.fail("stored-function:" + j["tag"], got=R.res[1], options=j["opts"])
            continue
        T = R.toks(1)
        s, m, big = distances(j, [T.vec() for _ in range(T.int())])
        if not math.isfinite(s):
            c.count("stored functions without finite values at the data")
            continue
        tol = 1e-5 * max(s, m) + 1e-6 * big
        a, b = float(j["L2"]), float(j["Linf"])
        if not math.isfinite(a):
            c.count("fitted functions without finite values at the data")
            continue
        gap = max(abs(a - s), abs(b - m))
        j["err"] = gap / (tol or 1)
        if gap <= tol:
            c.count("distances announced that the stored function has")
            continue
        # a function that changes as much with the last printed digit says nothing
        head, body = open(j["out"]).read().split("#ALTA HEADER END", 1)
        near = []
        for k in range(4):
            p = os.path.join(j["dir"], "near%d.func" % k)
            open(p, "w").write(head + "#ALTA HEADER END" + re.sub(r"-?\d+\.\d+(e[-+]?\d+)?", lambda q: "%.17e" % (float(q.group(0)) * (1 + 1e-10 * r.uniform(-1, 1))), body))
            near += ["fload G %s" % driver.q(p), R.cmds[1]]
        S4.case("j%d" % i, near)
        doubt[i] = (s, m, big, gap)
    res4, err = driver.run(t, S4, os.path.join(c.tmp(), "drv4")) if doubt else ({}, [])
    for i, (s, m, big, gap) in doubt.items():
        j, R = jobs[i], res4["j%d" % i]
        moved = 0.
        for k in range(1, 8, 2):
            if R.ok(k):
                T = R.toks(k)
                s2, m2, _ = distances(j, [T.vec() for _ in range(T.int())])
                moved = max(moved, abs(s2 - s), abs(m2 - m)) if math.isfinite(s2) else math.inf
        size = sum(int(j["opts"][j["opts"].index(k) + 1]) for k in ("--np", "--nq") if k in j["opts"])
        if moved > .05 * gap or len(j["rows"]) < size:
            c.count("stored functions that the printed digits do not determine")
            continue
        c.fail("stored-distance:" + j["tag"], reported=[j["L2"], j["Linf"]], measured=[s, m], largest=big, fitter=j["fitter"], options=j["opts"], data=j["body"][:3000], file=open(j["out"]).read()[:1500])
    c.sample(dict(worst=sorted(((j.get("err", 0), j["tag"]) for j in jobs), reverse=True)[:8]))


check.main("C33", main,
           "One evaluation per run of the tool: exit code, standard output, output file and the function stored in it against the same fit made through the library "
           "and against distances summed from the definition.",
           ["fits by the scheduling dependent parallel fitter are compared with what the tool itself stored, not with another run",
            "stored functions are compared to the printed precision of their file"])
