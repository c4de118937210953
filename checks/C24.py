"""C24: error metrics equal their mathematical definition."""
import math, os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, dirs, driver, exr, shapes
from gen import *

H = math.pi / 2
NAMES = ["L1", "L2", "L3", "LInf", "MSE", "RMSE"]
GRIDS = ["COS_TH", "COS_TK", "COS_TH_TD", "RUSIN_TH_TD", "RUSIN_TH_TD_PD", "ISOTROPIC_TV_PROJ_DPHI", "STARK_2D", "COS_TLV"]
REFS = [p for p in NAMED if p not in ("STEREOGRAPHIC",)]
ROUND = ["COS_TH", "COS_TLV", "COS_TK"]             # every node has one configuration


def norms(diff):
    """Definitions of the six metrics, channel by channel; DIFF: rows of differences."""
    out = {k: [] for k in NAMES}
    n = len(diff)
    for d in zip(*diff):
        a = [abs(v) for v in d]
        s2 = math.fsum(v * v for v in a)
        out["L1"].append(math.fsum(a))
        out["L2"].append(math.sqrt(s2))
        out["L3"].append(math.fsum(v ** 3 for v in a) ** (1 / 3.0))
        out["LInf"].append(max(a))
        out["MSE"].append(s2 / n)
        out["RMSE"].append(math.sqrt(s2 / n))
    return out


def value(r, mag):
    k = r.random()
    if k < .1:
        return 0.0
    v = r.uniform(-1, 1) * mag
    return v * 10 ** r.uniform(-4, 0) if k < .3 else v


def pair(r, low=False):
    k = r.random()
    if k < .12:
        V = L = dirs.sph(r.uniform(0, 1.5), r.uniform(-3.1, 3.1))
    else:
        V, L = dirs.sph(r.uniform(.01, 1.55), r.uniform(-3.1, 3.1)), dirs.sph(r.uniform(.01, 1.55), r.uniform(-3.1, 3.1))
    if low and k > .85 and V[2] < L[2]:                # one of the two below the horizon
        V = [V[0], V[1], -V[2]]
    return (V, L) if r.random() < .5 else (L, V)


def source(r, c, cid, files):
    """Commands that build an interpolant I; its parametrization and number of channels."""
    k = r.random()
    dy = r.choice([1, 1, 2, 3, 3, 4]) if r.random() < .95 else r.choice([5, 8])
    mag = 10 ** r.choice([0, 0, 0, 3, -6, 20])
    out = {1: "INV_STERADIAN", 3: "RGB_COLOR"}.get(dy, "UNKNOWN_OUTPUT")
    if k < .55:
        p = r.choice(GRIDS)
        d = NAMED[p]
        size = [r.choice([2, 3, 5, 9]) if d < 3 else r.choice([2, 3, 4]) for _ in range(d)]
        n = 1
        for s in size:
            n *= s
        cmds = ["args A x --grid-size " + driver.q("[%s]" % ",".join(map(str, size))), "dget I data_grid %d %d %d %s %s A" % (n, d, dy, p, out), "drows I"]
        return "grid", p, dy, mag, cmds, n
    if k < .8:
        p = r.choice(["RUSIN_TH_TD_PD", "RUSIN_TH_TD", "COS_TH", "SPHERICAL_TL_PL_TV_PV", "CARTESIAN"])
        n = r.choice([5, 12, 40]) if r.random() < .95 else r.choice([129, 300])
        f = os.path.join(files, cid + ".alta")
        with open(f, "w") as o:
            o.write("#DIM %d %d\n#PARAM_IN %s\n#PARAM_OUT %s\n#ALTA HEADER END\n" % (NAMED[p], dy, FILE[p], out))
            for _ in range(n):
                o.write(" ".join(repr(v) for v in dirs.coords(*pair(r), p) + [value(r, mag) for _ in range(dy)]) + "\n")
        return "rbf", p, dy, mag, ["args A x", "dload I data_rbf %s A" % driver.q(f), "dinfo I"], n
    if k < .93:
        return "slice", r.choice(["STARK_2D", "ISOTROPIC_TV_PROJ_DPHI"]), 3, 1.0, None, 0
    return "utia", "SPHERICAL_TL_PL_TV_PV", 3, 1.0, ["args A x", "dload I data_utia %s A" % driver.q(os.path.join(files, "u.bin")), "dinfo I"], 0


def metric_cases(c, t):
    r = c.rng
    w = c.tmp()
    with open(os.path.join(w, "u.bin"), "wb") as f:
        f.write(struct.pack("<%dd" % (288 * 288 * 3), *[r.random() for _ in range(288 * 288 * 3)]))
    plans, S1 = [], driver.Script()
    for i in range(c.scale(900, 5000)):
        cid = "m%d" % i
        kind, p, dy, mag, cmds, n = source(r, c, cid, w)
        if kind == "slice":
            f = os.path.join(w, cid + ".exr")
            open(f, "wb").write(exr.write(8, 8, {q: [r.random() for _ in range(64)] for q in "RGB"}))
            cmds = ["args A x --param " + p, "dload I data_brdf_slice %s A" % driver.q(f), "dinfo I"]
        same = kind == "grid" and r.random() < .25
        pr = p if r.random() < .25 or same else r.choice(REFS)
        m = many(r, [1, 2, 3, 7, 20, 60], 1100)
        xs = [dirs.coords(*pair(r, True), pr) for _ in range(m)]
        if same:
            xs = None
        pl = dict(cid=cid, kind=kind, p=p, dy=dy, mag=mag, cmds=cmds, n=n, pr=pr, xs=xs, same=same)
        if xs:
            S1.case(cid, ["pconv %s CARTESIAN %s" % (pr, driver.fv(x)) for x in xs])
        plans.append(pl)
    res, err = driver.run(t, S1, w, env=driver.san_env(t))
    S2 = driver.Script()
    for pl in plans:
        if pl["xs"] is None:
            continue
        R = res[pl["cid"]]
        if not R.done:
            c.judge_death(R, "convert:")
            pl["cart"] = None
            continue
        cart = []
        for k in range(len(pl["xs"])):
            tk = R.toks(k)
            cart.append([tk.f() for _ in range(6)])
        # keep the configurations of reflection: at least one of the directions is above the surface
        keep = [k for k in range(len(cart)) if (cart[k][2] >= 0 or cart[k][5] >= 0) and all(math.isfinite(v) for v in cart[k])]
        pl["xs"], pl["cart"] = [pl["xs"][k] for k in keep], [cart[k] for k in keep]
        if keep:
            S2.case(pl["cid"], ["pconv CARTESIAN %s %s" % (pl["p"], driver.fv(x)) for x in pl["cart"]])
    res, err2 = driver.run(t, S2, w, env=driver.san_env(t))
    S3 = driver.Script()
    for pl in plans:
        cid, dy, p = pl["cid"], pl["dy"], pl["p"]
        cmds = list(pl["cmds"])
        if pl["kind"] == "grid":
            pl["nodes"] = [[value(r, pl["mag"]) for _ in range(dy)] for _ in range(pl["n"])]
        pl["case"] = cmds
        if pl["same"]:
            continue
        if not pl.get("xs") or not pl.get("cart"):
            pl["case"] = None
            continue
        R = res[cid]
        if not R.done:
            c.judge_death(R, "convert:")
            pl["case"] = None
            continue
        q = []
        for k in range(len(pl["xs"])):
            tk = R.toks(k)
            q.append([tk.f() for _ in range(NAMED[p])])
        ok = [k for k in range(len(q)) if all(math.isfinite(v) for v in q[k])]
        pl["xs"], q = [pl["xs"][k] for k in ok], [q[k] for k in ok]
        if not q:
            pl["case"] = None
            continue
        pl["q"] = q
        pl["ref"] = [[value(r, pl["mag"]) for _ in range(dy)] for _ in q]
    # grids need their abscissas to be filled in: read them first
    S0 = driver.Script()
    for pl in plans:
        if pl["case"] and pl["kind"] == "grid":
            S0.case(pl["cid"], pl["case"])
    rows, err0 = driver.run(t, S0, w, env=driver.san_env(t))
    for pl in plans:
        if not pl["case"]:
            continue
        cid, dy, p = pl["cid"], pl["dy"], pl["p"]
        cmds = list(pl["case"])
        pout = {1: "INV_STERADIAN", 3: "RGB_COLOR"}.get(dy, "UNKNOWN_OUTPUT")
        if pl["kind"] == "grid":
            R = rows[cid]
            if not R.done:
                c.judge_death(R, "grid:")
                continue
            tk = R.toks(2)
            nrow = tk.int()
            ab = [tk.vec()[:NAMED[p]] for _ in range(nrow)]
            for k in range(nrow):
                cmds.append("dset I %d %s" % (k, driver.fv(ab[k] + pl["nodes"][k])))
        if pl["same"]:
            pl["at"] = len(cmds)
            cmds.append("metrics I I -")
            S3.case(cid, cmds)
            continue
        n = len(pl["q"])
        ci = r.choice([0, 0, 1, 2])
        body = []
        for x, y in zip(pl["xs"], pl["ref"]):
            body += x + y + ([] if ci == 0 else [abs(v) * .1 for v in y] if ci == 1 else [v - 1 for v in y] + [v + 1 for v in y])
        cmds.append("dnew R %d %d %d %s %s %d %s" % (ci, NAMED[pl["pr"]], dy, pl["pr"], pout, n, driver.fv(body)))
        style = r.choice(["none", "none", "some", "some", "all", "one", "zero"])
        mask = None
        if style != "none":
            nm = r.choice([1, 1, 2])
            sel = {"some": [r.random() < .5 for _ in range(n)], "all": [True] * n, "one": [False] * n, "zero": [False] * n}[style]
            if style == "one":
                sel[r.randrange(n)] = True
            mask = sel
            mb = []
            for k in range(n):
                mb += [r.uniform(-1, 1)] + [r.choice([0.0, 5.0]) for _ in range(nm - 1)] + [r.choice([1.0, .5, -2.0, 1e-300]) if sel[k] else r.choice([0.0, -0.0])]
            cmds.append("dnew M 0 1 %d COS_TH UNKNOWN_OUTPUT %d %s" % (nm, n, driver.fv(mb)))
        pl["mask"], pl["at"] = mask, len(cmds)
        cmds.append("dvals I %d %s" % (n, " ".join(driver.fv(x) for x in pl["q"])))
        cmds.append("metrics I R %s" % ("M" if mask else "-"))
        # the same reference in another order, and with the selected entries only
        if mask and any(mask):
            b2 = []
            per = len(body) // n
            for k in range(n):
                if mask[k]:
                    b2 += body[k * per:(k + 1) * per]
            cmds.append("dnew R2 %d %d %d %s %s %d %s" % (ci, NAMED[pl["pr"]], dy, pl["pr"], pout, sum(mask), driver.fv(b2)))
            cmds.append("metrics I R2 -")
        S3.case(cid, cmds)
    res, err3 = driver.run(t, S3, w, env=driver.san_env(t))
    for e in err + err2 + err0 + err3:
        c.fail("driver", error=e)

    def read(R, k):
        tk = R.toks(k)
        d = {}
        for _ in range(tk.int()):
            q = tk.s().decode()
            d[q] = tk.vec()
        return d
    S4 = driver.Script()
    for pl in plans:
        cid = pl["cid"]
        if cid not in res:
            continue
        R = res[cid]
        if not c.judge_death(R, "metrics:%s:" % pl["kind"]):
            continue
        a = pl["at"]
        info = dict(case=cid, source=pl["kind"], param=pl["p"], ref_param=pl["pr"], script=R.cmds)
        if pl["same"]:
            if not R.ok(a):
                c.fail("metrics-refused", got=R.res.get(a), **info)
                continue
            d = read(R, a)
            c.seen("self", pl["p"], pl["n"])
            if pl["p"] in ROUND:
                c.count("data compared with itself")
                for k in NAMES:
                    if not all(v <= 1e-6 * pl["mag"] for v in d[k]):
                        c.fail("nonzero-for-identical-data:%s" % k, got=d[k], **info)
            continue
        if not R.ok(a) or not R.ok(a + 1):
            c.fail("metrics-refused:" + pl["kind"], got=[R.res.get(a), R.res.get(a + 1)], **info)
            continue
        tk = R.toks(a)
        vals = [tk.vec() for _ in range(tk.int())]
        got = read(R, a + 1)
        mask = pl["mask"]
        diff = [[u - v for u, v in zip(y, z)] for y, z, k in zip(vals, pl["ref"], range(len(vals))) if not mask or mask[k]]
        c.seen(pl["kind"], pl["p"], pl["pr"], len(vals), pl["dy"], tuple(mask) if mask else None)
        if sorted(got) != sorted(NAMES) or any(len(got[k]) != pl["dy"] for k in NAMES):
            c.fail("metrics-form", got=got, **info)
            continue
        if not diff:
            c.count("empty selections")
            for k in NAMES:
                if not all(v == 0 or v != v for v in got[k]):
                    c.fail("empty-selection", metric=k, got=got[k], **info)
            continue
        c.count("metric computations with a mask" if mask else "metric computations")
        if any(not math.isfinite(v) for q in diff for v in q):
            c.count("skipped: non-finite interpolants")
            continue
        want = norms(diff)
        # the library may round the abscissas of discontinuous interpolants differently: they are given exactly here
        for k in NAMES:
            for ch in range(pl["dy"]):
                g, e = got[k][ch], want[k][ch]
                if not (abs(g - e) <= 1e-10 * abs(e) + 1e-280):
                    c.fail("metric:%s%s" % (k, ":masked" if mask else ""), channel=ch, got=g, expected=e, selected=mask, **info)
        body = []
        for x, v in zip(pl["xs"], vals):
            body += x + v
        S4.case(cid, R.cmds[:a - (2 if mask else 1)] + ["dnew R 0 %d %d %s %s %d %s" % (NAMED[pl["pr"]], pl["dy"], pl["pr"], {1: "INV_STERADIAN", 3: "RGB_COLOR"}.get(pl["dy"], "UNKNOWN_OUTPUT"), len(vals), driver.fv(body)), "metrics I R -"])
        if a + 3 in R.res and R.ok(a + 3):
            d2 = read(R, a + 3)
            c.count("masked metrics compared with those of the selected entries alone")
            for k in NAMES:
                for ch in range(pl["dy"]):
                    if not abs(d2[k][ch] - got[k][ch]) <= 1e-9 * abs(d2[k][ch]) + 1e-280:
                        c.fail("mask-is-not-a-restriction:%s" % k, got=got[k][ch], alone=d2[k][ch], **info)
    res, err = driver.run(t, S4, w, env=driver.san_env(t))
    for e in err:
        c.fail("driver", error=e)
    for cid, R in res.items():
        if not c.judge_death(R, "metrics:"):
            continue
        d = read(R, len(R.cmds) - 1)
        c.count("references made of the interpolant's own values")
        for k in NAMES:
            if any(v != 0 for v in d[k]):
                c.fail("nonzero-for-own-values:%s" % k, got=d[k], script=R.cmds)


def distance_cases(c, t):
    r = c.rng
    S, meta = driver.Script(), {}
    for i in range(c.scale(800, 5000)):
        if r.random() < .3:
            f = shapes.random_rat(r)
        else:
            f = shapes.random_fn(r)
        cid = "d%d" % i
        cmds = shapes.build_cmds("F", f)
        cmds += shapes.set_cmds("F", f) if f.kind == "nl" else []
        n = r.choice([1, 2, 5, 20])
        pd = f.pin if r.random() < .4 else r.choice(["CARTESIAN", "SPHERICAL_TL_PL_TV_PV", "RUSIN_TH_PH_TD_PD"])
        pts = [pair(r) for _ in range(n)]
        meta[cid] = dict(f=f, n=n, pd=pd, xs=[dirs.coords(V, L, pd) for V, L in pts], ys=[[value(r, 1) for _ in range(f.dy)] for _ in range(n)], cmds=cmds)
    S1 = driver.Script()
    for cid, m in meta.items():
        S1.case(cid, ["pconv %s %s %s" % (m["pd"], m["f"].pin, driver.fv(x)) for x in m["xs"]])
    conv, e1 = driver.run(t, S1, c.tmp(), env=driver.san_env(t))
    for cid, m in meta.items():
        R = conv[cid]
        if not R.done:
            c.judge_death(R, "convert:")
            continue
        q = []
        for k in range(m["n"]):
            tk = R.toks(k)
            q.append([tk.f() for _ in range(m["f"].dx)])
        f, n = m["f"], m["n"]
        ci = r.choice([0, 1, 2])
        body = []
        for x, y in zip(m["xs"], m["ys"]):
            body += x + y + ([] if ci == 0 else [abs(v) * .1 for v in y] if ci == 1 else [v - 1 for v in y] + [v + 1 for v in y])
        cmds = m["cmds"]
        m["at"] = len(cmds)
        cmds.append("fvals F %d %s" % (n, " ".join(driver.fv(x) for x in q)))
        cmds.append("dnew D %d %d %d %s %s %d %s" % (ci, NAMED[m["pd"]], f.dy, m["pd"], f.pout, n, driver.fv(body)))
        cmds.append("fl2 F D")
        S.case(cid, cmds)
    res, err = driver.run(t, S, c.tmp(), env=driver.san_env(t))
    for e in e1 + err:
        c.fail("driver", error=e)
    S2 = driver.Script()
    for cid, m in meta.items():
        if cid not in res:
            continue
        R, f, a = res[cid], m["f"], m["at"]
        if not c.judge_death(R, "distance:"):
            continue
        if not (R.ok(a) and R.ok(a + 2)):
            c.fail("distance-refused", got=[R.res.get(k) for k in range(a, a + 3)], script=R.cmds)
            continue
        tk = R.toks(a)
        vals = [tk.vec() for _ in range(tk.int())]
        tk = R.toks(a + 2)
        l2, linf = tk.f(), tk.f()
        d = [[u - v for u, v in zip(y, z)] for y, z in zip(vals, m["ys"])]
        c.seen("distance", f.kind, f.pin, m["pd"], f.dy, m["n"])
        if any(not math.isfinite(v) for q in d for v in q):
            c.count("skipped: non-finite functions")
            continue
        c.count("distances of functions")
        e2 = math.sqrt(math.fsum(v * v for q in d for v in q) / m["n"])
        ei = max(abs(v) for q in d for v in q)
        if not abs(l2 - e2) <= 1e-10 * e2 + 1e-280:
            c.fail("L2_distance", got=l2, expected=e2, script=R.cmds)
        if not abs(linf - ei) <= 1e-12 * ei + 1e-280:
            c.fail("Linf_distance", got=linf, expected=ei, script=R.cmds)
        # data made of the function's own values
        cmds = R.cmds[:a]
        body = []
        for x, y in zip(m["xs"], vals):
            body += x + y
        cmds += ["dnew D 0 %d %d %s %s %d %s" % (NAMED[m["pd"]], f.dy, m["pd"], f.pout, m["n"], driver.fv(body)), "fl2 F D"]
        S2.case(cid, cmds)
    res, err = driver.run(t, S2, c.tmp(), env=driver.san_env(t))
    for cid, R in res.items():
        if not c.judge_death(R, "distance:"):
            continue
        tk = R.toks(len(R.cmds) - 1)
        l2, linf = tk.f(), tk.f()
        c.count("distances to the function's own values")
        if l2 != 0 or linf != 0:
            c.fail("nonzero-distance-to-own-values", l2=l2, linf=linf, script=R.cmds)


def tool_cases(c, t):
    r = c.rng
    w = c.tmp()

    def alta(name, p, dy, rows, extra=""):
        f = os.path.join(w, name)
        with open(f, "w") as o:
            o.write("#ALTA HEADER BEGIN\n#DIM %d %d\n#PARAM_IN %s\n#PARAM_OUT %s\n%s#ALTA HEADER END\n" % (NAMED[p], dy, FILE[p], {1: "INV_STERADIAN", 3: "RGB_COLOR"}.get(dy, "UNKNOWN_OUTPUT"), extra))
            for q in rows:
                o.write(" ".join(map(repr, q)) + "\n")
        return f
    jobs, S = [], driver.Script()
    for k in range(c.scale(40, 200)):
        dy = r.choice([1, 2, 3])
        if r.random() < .5:
            typ, p = "data_grid", r.choice(["COS_TH", "COS_TH_TD", "RUSIN_TH_TD"])
            size = [r.choice([2, 3, 5]) for _ in range(NAMED[p])]
            import itertools
            dom = {"COS_TH": 1, "COS_TH_TD": 1, "RUSIN_TH_TD": H}[p]
            rows = [[dom * i / (s - 1) for i, s in zip(ix, size)] + [value(r, 1) for _ in range(dy)] for ix in itertools.product(*[range(s) for s in size])]
            fin = alta("in%d" % k, p, dy, rows, "#grid-size [%s]\n" % ", ".join(map(str, size)))
        else:
            typ, p = "data_rbf", r.choice(["COS_TH", "RUSIN_TH_TD_PD"])
            fin = alta("in%d" % k, p, dy, [dirs.coords(*pair(r), p) + [value(r, 1) for _ in range(dy)] for _ in range(r.choice([4, 10]))])
        pr = r.choice(["CARTESIAN", "SPHERICAL_TL_PL_TV_PV", "RUSIN_TH_TD_PD"])
        xs = [dirs.coords(*pair(r), pr) for _ in range(r.choice([1, 4, 30]))]
        ys = [[value(r, 1) for _ in range(dy)] for _ in xs]
        fr = alta("ref%d" % k, pr, dy, [a + b for a, b in zip(xs, ys)])
        jobs.append((fin, typ, fr))
        S.case("t%d" % k, ["args A x", "dload I %s %s A" % (typ, driver.q(fin)), "dload R vertical_segment %s A" % driver.q(fr), "metrics I R -"])
    res, err = driver.run(t, S, w, env=driver.san_env(t))

    def go(k):
        out = os.path.join(w, "stats%d" % k)
        cmd = [t.soft("data2stats"), "--input", jobs[k][0], "--in-data", jobs[k][1], "--ref", jobs[k][2], "--output", out]
        if k % 3 == 0:
            cmd += ["--ref-data", "vertical_segment"]
        rc, so = driver.sh(cmd, w, driver.san_env(t), 120)[:2]
        return rc, so, open(out).read() if os.path.exists(out) else None, cmd
    for k, (rc, so, txt, cmd) in enumerate(driver.pmap(go, range(len(jobs)))):
        R = res["t%d" % k]
        if not c.judge_death(R, "tool:") or not R.ok(3):
            continue
        info = dict(command=cmd)
        if rc != 0 or txt is None:
            c.fail("data2stats-failed", rc=rc, out=so[-1500:], **info)
            continue
        tk = R.toks(3)
        want = {}
        for _ in range(tk.int()):
            q = tk.s().decode()
            want[q] = tk.vec()
        got, cur = {}, None
        for l in txt.split("\n"):
            if l.startswith("#") or not l.strip():
                continue
            if ":" in l:
                cur = l.split(":")[0].strip()
                got[cur] = []
                l = l.split(":")[1]
            got[cur] += [float(v) for v in l.replace("[", " ").replace("]", " ").replace(",", " ").split()]
        c.count("statistics files checked")
        c.seen("tool", jobs[k][1], k)
        for m, name in (("L1", "L1"), ("L2", "L2"), ("L3", "L3"), ("LInf", "LINF"), ("MSE", "MSE"), ("RMSE", "RMSE")):
            g = got.get(name, [])
            if len(g) != len(want[m]) or any(not abs(a - b) <= 2e-5 * abs(b) + 1e-300 for a, b in zip(g, want[m])):
                c.fail("data2stats:%s" % name, got=g, expected=want[m], text=txt, **info)


def main(c):
    t = build.ensure("asan", build.FUNCTIONS + build.FRESNELS + build.SHADOWINGS + build.RATIONALS + build.DATAS + ["data2stats"], driver=True)
    metric_cases(c, t)
    distance_cases(c, t)
    tool_cases(c, t)


check.main("C24", main, "One evaluation per distinct combination of interpolant, its parametrization, the reference's parametrization and size, the number of channels and the mask.",
           ["reference configurations have at least one direction above the surface (the others are not reflectances and count as zero by documentation)",
            "at most 60 reference samples, magnitudes up to 1e20"])
