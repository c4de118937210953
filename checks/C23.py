"""C23: parallel execution is race-free and independent of scheduling."""
import hashlib, math, os, re, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, driver, exr
from gen import *

RAT = ["rational_function_legendre", "rational_function_chebychev", "rational_function"]


def races(c, log, what, **info):
    """Report what ThreadSanitizer saw in the library."""
    n = 0
    for blk in log.split("WARNING: ThreadSanitizer: ")[1:]:
        blk = blk.split("==================")[0]
        kind = blk.split(" (pid")[0].split("\n")[0]
        own = []
        for m in re.finditer(r"#\d+ (.+?) (/\S+?):(\d+)", blk):
            if "/sources/" in m.group(2) or "/external/" in m.group(2):
                own.append("%s:%s" % (os.path.basename(m.group(2)), re.sub(r"[(<].*", "", m.group(1))))
        if not own:
            c.count("reports without a frame of the library")
            continue
        n += 1
        c.fail("%s:%s:%s" % (re.sub(r"\W+", "-", kind)[:40], what, own[0]), frames=own[:12], report=blk[:3500], **info)
    return n


def regions(path):
    """Parallel regions that a run went through: (threads, chunks, order, threads that got work)."""
    try:
        ls = open(path).read().split("\n")
    except OSError:
        return []
    out = []
    for l in ls:
        if " | " in l:
            a, b = l.split(" | ")
            h, busy = b.split()
            t, n = a.split()[:2]
            out.append((int(t), int(n), h, int(busy)))
    return out


def fit_case(r):
    dx, dy = r.choice([1, 1, 2]), r.choice([1, 1, 2, 3])
    plugin = r.choice(RAT)
    n = r.choice([1, 3, 10, 25, 60])
    kind = r.choice(["smooth", "smooth", "zero", "constant", "noisy", "noisy"])
    co = [[r.uniform(-1, 1) for _ in range(dx + 1)] for _ in range(dy)]
    v = []
    for i in range(n):
        x = [r.uniform(-1, 1) for _ in range(dx)]
        y = []
        for k in range(dy):
            s = co[k][dx] + sum(a * b for a, b in zip(co[k], x))
            y.append({"smooth": s / (2.5 + x[0]), "zero": 0.0, "constant": co[k][0], "noisy": s + r.gauss(0, .3)}[kind])
        w = [r.choice([.05, .3]) for _ in y] if kind != "zero" else [.1] * dy
        v += x + y + [a - b for a, b in zip(y, w)] + [a + b for a, b in zip(y, w)]
    lo = r.randrange(2, 6)
    a = ["--min-np", str(lo), "--np", str(lo + r.randrange(0, 5))]
    if r.random() < .3:
        a.append("--use_delta")
    if r.random() < .3:
        a += ["--nb-starting-points", str(r.choice([1, 3, 10]))]
    q = "%d %d UNKNOWN_INPUT INV_STERADIAN" % (dx, dy)
    cmds = ["args A alta --func %s %s" % (plugin, " ".join(a)), "fget F A " + q, "dnew X 2 %s %d %s" % (q, n, driver.fv(v)),
            "fit rational_fitter_parallel X F A"]
    cmds += ["rcoef F %d" % k for k in range(dy)] + ["finfo F", "fl2 F X", "drows X"]
    return kind, cmds


def main(c):
    t = build.ensure("tsan", build.RATIONALS + build.DATAS + ["rational_fitter_parallel", "data2data"], driver=True)
    r = c.rng
    # --- the parallel fitter
    S, kinds = driver.Script(), {}
    for i in range(c.scale(70, 600)):
        k, cmds = fit_case(r)
        kinds["p%d" % i] = k
        S.case("p%d" % i, cmds, cpu=120)
    for n in (1, 2, 3, 5):
        k, cmds = fit_case(r)
        cmds[0] = "args A alta --func rational_function_legendre --min-np 6 --np 6 --nb-cores %d" % n
        kinds["n%d" % n] = "cores"
        S.case("n%d" % n, cmds, cpu=120)
    plans = [(1, 0)] + [(k, r.randrange(1, 10 ** 6)) for k in [2, 3, 4, 8] * c.scale(2, 8)]
    base = None
    orders, shared = set(), 0
    for th, seed in plans:
        w = c.tmp()
        lg = os.path.join(w, "regions-%d-%d.log" % (th, seed))
        res, err = driver.run(t, S, w, env=driver.san_env(t, extra=dict(LD_PRELOAD=t.gomp, VERIF_GOMP_SEED=str(seed), VERIF_GOMP_LOG=lg,
                                                                         OMP_NUM_THREADS=str(th), VERIF_GOMP_THREADS=str(th))))
        for e in err:
            c.fail("driver", error=e)
        reg = regions(lg)
        if not reg:
            c.fail("no-parallel-region", threads=th)
        for q in reg:
            orders.add(q[:3])
            shared += q[3] > 1
            c.seen("fit", *q[:3])
        c.count("parallel regions of the fitter", len(reg))
        for cid in kinds:
            R = res[cid]
            races(c, R.log(400000), "fitter", case=cid, threads=th, seed=seed, script=R.cmds)
            if not c.judge_death(R, "fitter:"):
                continue
            if th == 1:
                continue
            B = base[cid]
            c.count("fits compared")
            if not B.done:
                continue
            d = [k for k in range(len(R.cmds)) if R.res[k] != B.res[k]]
            if d:
                c.fail("depends-on-schedule:%s:%s" % (kinds[cid], R.cmds[d[0]].split()[0]), case=cid, threads=th, seed=seed, got=R.res[d[0]], alone=B.res[d[0]], script=R.cmds)
            elif R.ok(3) and R.toks(3).int():
                c.count("successful fits that did not depend on the schedule")
        if th == 1:
            base = res
    # the number of threads asked for is the number of threads used
    for n in (1, 2, 3, 5):
        w = c.tmp()
        lg = os.path.join(w, "cores-%d.log" % n)
        one = driver.Script()
        one.cases = [q for q in S.cases if q[0] == "n%d" % n]
        driver.run(t, one, w, env=driver.san_env(t, extra=dict(LD_PRELOAD=t.gomp, VERIF_GOMP_SEED="5", VERIF_GOMP_LOG=lg, OMP_NUM_THREADS="4")))
        for q in regions(lg):
            c.count("regions whose thread count was requested")
            if q[0] != n:
                c.fail("thread-count", asked=n, used=q[0])
    c.count("parallel regions in which several threads got work", shared)
    c.count("distinct schedules of the fitter", len(orders))

    # --- the parallel conversion
    w = c.tmp()

    def alta(name, pin, dy, rows, extra=""):
        p = os.path.join(w, name)
        with open(p, "w") as f:
            f.write("#ALTA HEADER BEGIN\n#DIM %d %d\n#PARAM_IN %s\n#PARAM_OUT RGB_COLOR\n%s#ALTA HEADER END\n" % (NAMED[pin], dy, pin, extra))
            for q in rows:
                f.write(" ".join(map(repr, q)) + "\n")
        return p
    H = math.pi / 2
    rows = [[r.uniform(0, H), r.uniform(0, H), r.uniform(0, 2 * H)] + [r.uniform(0, 2) for _ in range(3)] for _ in range(60)]
    ins = [("data_rbf", alta("rbf.alta", "RUSIN_TH_TD_PD", 3, rows))]
    g = [4, 5]
    ins.append(("data_grid", alta("grid.alta", "RUSIN_TH_TD", 3, [[H * i / 3, H * j / 4] + [r.uniform(0, 2) for _ in range(3)] for i in range(4) for j in range(5)],
                                  "#grid-size [4, 5]\n")))
    p = os.path.join(w, "utia.bin")
    with open(p, "wb") as f:
        vals = [r.random() for _ in range(997)]
        f.write(struct.pack("<%dd" % (288 * 288 * 3), *(vals[i % 997] for i in range(288 * 288 * 3))))
    ins.append(("data_utia", p))
    p = os.path.join(w, "slice.exr")
    exr_bytes = exr.write(16, 16, {k: [r.random() for _ in range(256)] for k in "RGB"})
    open(p, "wb").write(exr_bytes)
    ins.append(("data_brdf_slice", p))
    if c.thorough:
        p = os.path.join(w, "merl.binary")
        with open(p, "wb") as f:
            f.write(struct.pack("<3i", 90, 90, 180))
            f.write(struct.pack("<%dd" % (90 * 90 * 180), *(vals[i % 997] for i in range(90 * 90 * 180))) * 3)
        ins.append(("data_merl", p))
    outs = [("data_brdf_slice", ["--param", "STARK_2D"], "exr"), ("data_brdf_slice", ["--param", "ISOTROPIC_TV_PROJ_DPHI"], "exr"), ("data_utia", [], "exr")]
    jobs = []
    for di, pi in ins:
        for do, extra, ext in (outs if c.thorough else [r.choice(outs[:2]), outs[2]]):
            for th, seed in [(1, 0)] + [(k, r.randrange(1, 10 ** 6)) for k in ([2, 3, 4, 8] if c.thorough else [r.choice([2, 3]), r.choice([4, 6])])]:
                jobs.append((di, pi, do, extra, ext, th, seed))
    if c.thorough:
        jobs += [("data_merl", pi, "data_merl", ["--param", "RUSIN_TH_TD_PD"], "binary", th, s) for th, s in ((1, 0), (4, 7), (8, 3))]

    def go(k):
        di, pi, do, extra, ext, th, seed = jobs[k]
        lg = os.path.join(w, "reg%d" % k)
        out = os.path.join(w, "out%d.%s" % (k, ext))
        cmd = [t.soft("data2data"), "--input", pi, "--in-data", di, "--output", out, "--out-data", do] + extra
        rc, so, se = driver.sh(cmd, w, driver.san_env(t, extra=dict(LD_PRELOAD=t.gomp, VERIF_GOMP_SEED=str(seed), VERIF_GOMP_LOG=lg, OMP_NUM_THREADS=str(th),
                                                                       VERIF_GOMP_THREADS=str(th))), timeout=600)
        h = None
        if os.path.exists(out):
            h = hashlib.sha256(open(out, "rb").read()).hexdigest()
            os.unlink(out)
        return rc, so, se, h, regions(lg), cmd
    done = driver.pmap(go, range(len(jobs)), 4)
    ref = {}
    for (di, pi, do, extra, ext, th, seed), (rc, so, se, h, reg, cmd) in zip(jobs, done):
        key = (di, do, tuple(extra))
        info = dict(threads=th, seed=seed, command=cmd)
        if races(c, se, "conversion", **info):
            rc = rc if rc != 66 else 0
        if rc is None:
            c.unsure("conversion ran out of time")
            continue
        if rc != 0 or h is None:
            c.fail("conversion-failed:%s:%s" % (di, do), rc=rc, err=se[-1500:], **info)
            continue
        n = re.search(r"incorrect configuration: (\d+) / (\d+)", se)
        got = (h, n.group(0) if n else None)
        for q in reg:
            c.seen("conversion", di, do, q[0], seed)
            c.count("parallel regions of the conversion")
        if th > 1 and not any(q[0] == th for q in reg):
            c.fail("no-parallel-conversion", regions=reg, **info)
        if th == 1:
            ref[key] = got
        elif key in ref:
            c.count("conversions compared")
            if got != ref[key]:
                c.fail("conversion-depends-on-schedule:%s:%s" % (di, do), got=got, alone=ref[key], **info)
    c.sample(dict(schedules=c.stats))


check.main("C23", main,
           "One evaluation per distinct schedule: the threads of a parallel region together with the order in which they took its iterations (fitter), or the "
           "threads and seed of a conversion.",
           ["the OpenMP runtime is replaced by one whose synchronisation ThreadSanitizer understands; the library's own code is the real one, compiled with -fopenmp",
            "races inside system libraries that are not instrumented are not visible"])
