"""C22: nonlinear fits never make things worse and respect bounds."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, dirs, driver, models, shapes
from gen import *

LOCAL = ["local-COBYLA", "local-BOBYQA", "local-NEWUOA", "local-PRAXIS", "local-Nelder-Mead", "local-spblx", "local-mma", "local-sqp", ""]
GLOBAL = ["global-crs", "global-stogo", "global-isres"]


def isfree(f):
    return any(l.free and l.p for l in f.leaves)


def plain(m):
    """Parts whose first guess can be given as numbers: nothing but the parameters matters."""
    return not m.opts and not m.name.endswith(("_abc", "_diffuse"))


def options(r, fitter, kind):
    o = []
    if fitter == "eigen":
        if kind in ("noisy", "start", "close") and r.random() < .25:
            o = ["--fit-with-cosine"]
    elif fitter == "ceres":
        if kind in ("noisy", "start", "close") and r.random() < .25:
            o += ["--log-fit"]
        if r.random() < .3:
            o += ["--ceres-factorization", "normal-cholesky"]
        if kind in ("noisy", "start") and r.random() < .2:
            o += ["--ceres-max-num-iterations", str(r.choice([0, 1, 3, 100]))]
        elif kind == "close":
            o += ["--ceres-max-num-iterations", "200"]
        if kind in ("noisy", "start") and r.random() < .2:
            o += ["--ceres-%s-tolerance" % r.choice(["function", "parameter"]), r.choice(["1e-3", "1e-12"])]
    else:
        if kind in ("noisy", "start") and r.random() < .25:
            o += ["--nlopt-optimizer", r.choice(GLOBAL), "--nlop-max-num-iterations", str(r.choice([1, 20, 300]))]
        else:
            m = r.choice(LOCAL) if r.random() < .6 else "local-sqp"
            o += ["--nlopt-optimizer", m] if m else []
            if kind != "close" and r.random() < .3:
                o += ["--nlop-max-num-iterations", str(r.choice([1, 5, 200]))]
            else:
                o += ["--nlop-max-num-iterations", "3000"]
        if kind in ("noisy", "start") and r.random() < .2:
            o += ["--nlop-%s-function-tolerance" % r.choice(["relative", "abs"]), r.choice(["1e-2", "1e-9"])]
    return o


def pairs(r, n):
    out = []
    for _ in range(n):
        a, b = r.uniform(.03, 1.3), r.uniform(.03, 1.3)
        u = r.uniform(-3.1, 3.1)
        s = r.random()
        if s < .35:                        # near the mirror direction, where lobes live
            b, v = max(.02, a + r.gauss(0, .1)), u + math.pi + r.gauss(0, .15)
        elif s < .5:                       # near the retro direction
            b, v = max(.02, a + r.gauss(0, .1)), u + r.gauss(0, .15)
        else:
            v = r.uniform(-3.1, 3.1)
        out.append((dirs.sph(a, u), dirs.sph(min(b, 1.4), v)))
    return out


def make(r, c, kind, fitter, i):
    dy = r.choice([1, 1, 2, 3])
    lobes = [m for m in models.LOBES if plain(m)]
    while True:
        if kind == "nofree":
            if r.random() < .2:
                f = shapes.random_fn(r, dy, single=[m for m in models.LOBES if m.name.endswith("_diffuse")][0], factor=False, nsum=1)
            else:
                f = shapes.random_fn(r, dy, nsum=r.choice([2, 3]), fixed="all")
        elif kind in ("close", "outside", "frozen"):
            f = shapes.random_fn(r, dy, given="CARTESIAN", nsum=2 if r.random() < .6 else 1, factor=None if r.random() < .5 else True, fixed=False)
            if f.tree[0] == "leaf" and not f.leaves[0].m.name.endswith("_beckmann"):
                continue
            if not all(plain(l.m) for l in f.leaves):
                continue
            if f.pin != "CARTESIAN":
                continue
            if kind == "close" and any(abs(v) < 1e-3 for l in f.leaves for v in l.p) or any(v > .9 for l in f.leaves if l.m.kind == "fresnel" for v in l.p):
                continue                       # minima on the border of the domain stop these methods
        else:
            f = shapes.random_fn(r, dy, given=r.choice(["CARTESIAN", "CARTESIAN", "RUSIN_TH_PH_TD_PD"]) if r.random() < .9 else None)
            if not isfree(f):
                continue
        break
    np = sum(len(l.p) for l in f.leaves if l.free)
    n = max(10, min(60, 3 * np)) if kind != "nofree" else 10
    dpin = f.pin
    if f.pin == "CARTESIAN":
        dpin = r.choice(["CARTESIAN", "CARTESIAN", "SPHERICAL_TL_PL_TV_PV", "RUSIN_TH_PH_TD_PD"])
    elif f.pin in shapes.FULL:
        dpin = r.choice(shapes.FULL)
    rows, pts = [], []
    noise = 0 if kind == "close" else r.choice([0, .01, .1, .5])
    while len(rows) < n:
        for V, L in pairs(r, n - len(rows)):
            try:
                x, xf = dirs.coords(V, L, dpin), dirs.coords(V, L, f.pin)
                if f.pin != dpin and any(l.m.pin == "given" for l in f.leaves):
                    pass
                y = f.value(V, L)
            except (ZeroDivisionError, OverflowError, ValueError):
                continue
            if x is None or xf is None or not all(math.isfinite(v) for v in list(x) + list(xf) + y) or max(map(abs, y)) > 1e8:
                continue
            rows.append(list(x) + [v * (1 + noise * r.gauss(0, 1)) + noise * .1 * r.gauss(0, 1) for v in y])
            if "log" in kind:
                rows[-1][-dy:] = [abs(v) for v in rows[-1][-dy:]]
            pts.append((V, L, list(xf)))
    start = None
    if kind in ("close", "frozen"):
        start = [v * (1 + r.choice([.003, .01, .03]) * r.choice([-1, 1])) for v in shapes.free_params(f)]
    return f, dy, dpin, rows, pts, start, noise


def resid(rows, vals, dy, w, log):
    s = 0.
    for d, v, k in zip(rows, vals, w):
        for a, b in zip(d[-dy:], v):
            e = math.log(1 + a) - math.log(1 + b) if log else a - k * b
            s += e * e
    return s


def main(c):
    t = build.ensure("asan", build.NL + build.NFITTERS + build.RATIONALS, driver=True)
    r = c.rng
    S, want = driver.Script(), {}
    todo = []
    for ft in ("eigen", "ceres", "nlopt"):
        todo += [(ft, k) for k, n in (("start", 30), ("noisy", 30), ("close", 40), ("outside", 10), ("nan", 6), ("nofree", 8), ("frozen", 6 if ft == "ceres" else 0))
                 for _ in range(c.scale(n, 12 * n))]
    for ft, kind in todo:
        f, dy, dpin, rows, pts, start, noise = make(r, c, kind, ft, len(want))
        opts = options(r, ft, kind)
        if dpin not in shapes.FULL:
            opts = [o for o in opts if o != "--fit-with-cosine"]
        log = "--log-fit" in opts
        if "--fit-with-cosine" in opts and kind == "close":
            for q, (V, L, x) in zip(rows, pts):
                q[-dy:] = [v * L[2] for v in q[-dy:]]
        if log:
            for q in rows:
                q[-dy:] = [abs(v) for v in q[-dy:]]
        if kind == "outside":
            start = [v * 1.01 for v in shapes.free_params(f)]
            for j in range(len(start)):
                if r.random() < .5 or j == 0:
                    start[j] = r.choice([-1e3, -5.0, -1e-3])
        if kind == "frozen":
            opts += ["--ceres-gradient-tolerance", "1e300"]
        if kind == "nan":
            j = r.randrange(len(rows))
            rows[j][-r.randrange(1, dy + 1)] = r.choice([math.nan, math.inf])
        toks = list(f.toks) + opts
        if start is not None:
            toks += ["--bootstrap"] + ("[" + ", ".join(repr(v) for v in start) + "]").split()
        dx, given = f.given
        cmds = ["args A alta %s" % " ".join(map(driver.q, toks)),
                "fget F A %d %d %s %s" % (dx, dy, given, f.pout), "fget S A %d %d %s %s" % (dx, dy, given, f.pout),
                "dnew X 0 %d %d %s %s %d %s" % (NAMED[dpin], dy, dpin, f.pout, len(rows), driver.fv([v for q in rows for v in q])),
                "fboot S X A"]
        fs = "fvals %%s %d %s" % (len(pts), " ".join(driver.fv(q[2]) for q in pts))
        at = dict(s=len(cmds))
        cmds += ["fpar S", "fpmin S", "fpmax S", fs % "S", "finfo S"]
        subs, seen = [], {(): ""}
        for l in f.leaves:
            for j in range(len(l.path)):
                k = l.path[:j + 1]
                if k not in seen:
                    for n in "SF":
                        seen[k] = seen[l.path[:j]] + "_%d" % k[-1]
                        cmds.append("fsub %s%s %s%s %d" % (n, seen[k], n, seen[l.path[:j]], k[-1]))
            subs.append(seen[l.path])
        at["sl"] = len(cmds)
        cmds += ["fpar S%s" % n for n in subs]
        at["fit"] = len(cmds)
        cmds += ["fit nonlinear_fitter_%s X F A" % ft, "fpar F", "fpmin F", "fpmax F", fs % "F", "finfo F", "drows X"]
        at["fl"] = len(cmds)
        cmds += ["fpar F%s" % n for n in subs]
        at["jac"] = len(cmds)
        if kind == "noisy":
            cmds += ["fjac F %s" % driver.fv(q[2]) for q in pts]
        at["end"] = len(cmds)
        cid = "%s%s%d" % (ft, kind, len(want))
        S.case(cid, cmds, cpu=c.scale(25, 60))
        want[cid] = (f, dy, ft, kind, opts, rows, pts, start, noise, at, log)
    for ft in ("eigen", "ceres", "nlopt"):
        S.case("kind" + ft, ["args A alta --func rational_function_legendre", "fget F A 2 1 RUSIN_TH_TD INV_STERADIAN", "rsize F 2 1", "rset F 0 2 0.5 0.25 1 1",
                             "dnew X 0 2 1 RUSIN_TH_TD INV_STERADIAN 2 6 .1 .2 .3 .4 .5 .6", "fit nonlinear_fitter_%s X F A" % ft, "rcoef F 0", "drows X"], cpu=20)
    res, err = driver.run(t, S, c.tmp())
    for e in err:
        c.fail("driver", error=e)
    reach, still, tried = {}, {}, {}
    for ft in ("eigen", "ceres", "nlopt"):
        R = res["kind" + ft]
        if c.judge_death(R, ft + ":kind:"):
            if not R.ok(5) or R.toks(5).int():
                c.fail("fits-another-kind-of-function:" + ft, got=R.res[5], script=R.cmds)
            c.count("functions of another kind refused")
    for cid, (f, dy, ft, kind, opts, rows, pts, start, noise, at, log) in want.items():
        R = res[cid]
        method = opts[opts.index("--nlopt-optimizer") + 1] if "--nlopt-optimizer" in opts else "local-sqp" if ft == "nlopt" else ft
        g = "%s:%s" % (method if ft == "nlopt" else ft, kind)
        if not c.judge_death(R, g + ":"):
            continue
        what = dict(case=cid, args=f.toks, options=opts, start=start, dimY=dy, truth=shapes.free_params(f), parts=f.names(), script=R.cmds)
        bad = [j for j in range(len(R.cmds)) if not R.ok(j)]
        if bad:
            c.fail("exception:%s:%s" % (g, R.cmds[bad[0]].split()[0]), got=R.res[bad[0]], **what)
            continue

        def vals(k):
            T = R.toks(k)
            T.int()
            return [T.vec() for _ in pts]
        p0, lo0, hi0, v0 = R.toks(at["s"]).vec(), R.toks(at["s"] + 1).vec(), R.toks(at["s"] + 2).vec(), vals(at["s"] + 3)
        good = R.toks(at["fit"]).int()
        p1, lo, hi, v1 = R.toks(at["fit"] + 1).vec(), R.toks(at["fit"] + 2).vec(), R.toks(at["fit"] + 3).vec(), vals(at["fit"] + 4)
        c.count("fits: %s" % g)
        if good:
            c.count("successful fits: %s" % g)
        T = R.toks(at["fit"] + 6)
        n = T.int()
        after = [T.vec() for _ in range(n)]
        if n != len(rows) or not all(sames(a, b) for a, b in zip(after, rows)):
            c.fail("data-changed:" + g, got=after, want=rows, **what)
        fx = [(j, l) for j, l in enumerate(f.leaves) if not l.free or not l.p]
        for j, l in fx:
            a, b = R.toks(at["sl"] + j).vec(), R.toks(at["fl"] + j).vec()
            c.count("fixed parts watched")
            if not sames(a, b):
                c.fail("fixed-part-changed:" + g, part=l.m.name, before=a, after=b, **what)
        if len(p1) != len(p0) or not sames(lo, lo0) or not sames(hi, hi0):
            c.fail("shape-changed:" + g, got=[p1, lo, hi], want=[p0, lo0, hi0], **what)
            continue
        c.seen(g, f.names(), tuple(p0), tuple(p1), len(rows))
        if not p0:
            if not good or not all(map(sames, v0, v1)):
                c.fail("nothing-to-fit:" + g, good=good, got=v1, want=v0, **what)
            else:
                c.count("fits without free parameters that left the function alone")
            continue
        if kind == "nofree":
            c.fail("free-parameters:" + g, got=p0, **what)
            continue
        if not good:
            c.count("failed fits: %s" % g)
            if kind in ("close", "start", "noisy") and ft in ("eigen", "ceres") and all(a <= p <= b for a, p, b in zip(lo, p0, hi)) and all(math.isfinite(v) for q in v0 for v in q):
                c.count("fits given up: %s" % g)
                tried.setdefault(ft, [0, 0])[1] += kind == "close"
            continue
        if kind == "close":
            tried.setdefault(ft, [0, 0])[0] += 1
            tried[ft][1] += 1
        if not all(map(math.isfinite, p1)):
            c.fail("not-finite:" + g, got=p1, **what)
            continue
        out = [j for j in range(len(p1)) if not lo[j] <= p1[j] <= hi[j]]
        if out:
            c.fail("out-of-bounds:" + g, parameter=out[0], got=p1, lower=lo, upper=hi, **what)
            continue
        c.count("successful fits within their bounds")
        if any(math.isfinite(b) for b in lo + hi):
            c.count("successful fits with bounds")
        if kind == "nan":
            continue
        w = [q[1][2] if "--fit-with-cosine" in opts else 1. for q in pts]
        try:
            r0, r1 = resid(rows, v0, dy, w, log), resid(rows, v1, dy, w, log)
        except ValueError:
            c.count("logarithm of a value below -1")
            continue
        if not math.isfinite(r0):
            c.count("start without a finite residual")
            continue
        inside = all(lo[j] <= p0[j] <= hi[j] for j in range(len(p0)))
        scale = resid(rows, [[0] * dy] * len(rows), dy, w, log) + 1e-300
        if not inside:
            c.count("start out of bounds")
        elif not r1 <= r0 * (1 + 1e-9) + 1e-18 * scale:
            c.fail("residual-grew:" + g, before=r0, after=r1, p0=p0, p1=p1, **what)
        else:
            c.count("residuals compared")
        if kind == "frozen":
            if not sames(p0, p1):
                c.fail("gradient-tolerance:" + g, before=p0, after=p1, **what)
            continue
        ft2 = ft + ("-log" if log else "") if ft != "nlopt" else "nlopt-" + method.split("-", 1)[1]
        if kind == "close" and inside:
            if r0 > 1e-20 * scale:
                reach.setdefault(ft2, []).append((r1 / r0, cid, f.names()))
        if kind == "noisy":
            J = [R.toks(at["jac"] + k).vec() for k in range(len(pts))]
            nb = len(p1)
            worst = 0
            for j in range(nb):
                gsum = jn = rn = 0
                for k in range(len(pts)):
                    for ch in range(dy):
                        e, d = rows[k][-dy + ch] - w[k] * v1[k][ch], w[k] * J[k][ch * nb + j]
                        if log:
                            e, d = math.log(1 + rows[k][-dy + ch]) - math.log(1 + v1[k][ch]), d / (1 + v1[k][ch])
                        gsum += e * d
                        jn += d * d
                        rn += e * e
                if jn and rn and math.isfinite(jn) and lo[j] < p1[j] < hi[j]:
                    worst = max(worst, abs(gsum) / math.sqrt(jn * rn))
            if r1 > 1e-12 * scale and not any("tolerance" in o or "iterations" in o for o in opts if ft == "ceres"):
                still.setdefault(ft2, []).append((worst, cid, f.names()))
    # how often a fit that starts near the truth has to get there: well below what the methods do
    for k, need, least in (("eigen", .85, 12), ("ceres", .7, 12), ("ceres-log", .6, 4), ("nlopt-sqp", .4, 12)):
        l = reach.get(k, [])
        n = sum(q[0] <= .05 for q in l)
        c.count("fits of exact data that started near: " + k, len(l))
        c.count("of them at most a twentieth of the residual left: " + k, n)
        if len(l) >= least and n < need * len(l):
            c.fail("does-not-recover:" + k, recovered=n, of=len(l), left=[(q[0], q[1], q[2]) for q in l if q[0] > .05][:10])
    n, l = tried.get("eigen", [0, 0])
    if l >= 12 and n < .4 * l:
        c.fail("gives-up:eigen", succeeded=n, of=l)
    for k in ("eigen",):
        l = still.get(k, [])
        n = sum(q[0] <= .01 for q in l)
        c.count("noisy fits whose gradient was looked at: " + k, len(l))
        if len(l) >= 4 and n < .6 * len(l):
            c.fail("not-a-minimum:" + k, at_minimum=n, of=len(l), gradients=[(q[0], q[1], q[2]) for q in l][:10])
    c.sample(dict(fits={k: v for k, v in c.stats.items()}))


check.main("C22", main,
           "One evaluation per distinct fit (fitter, options, function, data): success, parameters, bounds, residual and fixed parts against a twin "
           "that was only bootstrapped.",
           ["a fit that reports failure makes no promise about the function",
            "recovery is required of a share of the fits that start near a truth away from the bounds (eigen, ceres, SLSQP), not of each one: these are local methods",
            "fits that exceed their CPU allowance are not judged (NLopt's NEWUOA can loop on non finite residuals)"])
