"""C28: the tools that sample, plot, assess and re-export a function output what the function is."""
import math, os, re, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, dirs, driver, exr, models, shapes
from dirs import DIM
from gen import *

SRC = [p for p in NAMED if p != "STEREOGRAPHIC"]
HALF_PI = math.pi / 2
EPS = 1e-11


def short(v):
    return float("%.10g" % v)


def rows_of(path):
    out = []
    for l in open(path, encoding="latin-1"):
        if not l.startswith("#") and l.strip():
            out.append([float(v) for v in l.split()])
    return out


def make_functions(c, t, w, n):
    r = c.rng
    fs = []
    for m in models.LOBES:
        fs.append(shapes.random_fn(r, dy=r.choice([1, 3]), single=m, factor=r.random() < .2, nsum=1))
    for m in models.FACTORS:
        fs.append(shapes.random_fn(r, dy=r.choice([1, 3]), factor=m, nsum=1, single=r.choice([q for q in models.LOBES if q.pin == "CARTESIAN"]), given="CARTESIAN"))
    for p in ("rational_function", "rational_function_legendre", "rational_function_chebychev", "rational_function_cosine"):
        for _ in range(2):
            fs.append(shapes.random_rat(r, p))
    f = shapes.random_rat(r, "rational_function")
    f.pin = "UNKNOWN_INPUT"
    fs.append(f)
    while len(fs) < n:
        fs.append(shapes.random_fn(r, dy=r.choice([1, 1, 2, 3, 3])))
    S = driver.Script()
    for k, f in enumerate(fs):
        f.file = os.path.join(w, "f%d.func" % k)
        S.case("f%d" % k, shapes.build_cmds("F", f) + ["fsave F %s A" % driver.q(f.file), "fload G %s" % driver.q(f.file), "finfo G"])
    res, err = driver.run(t, S, w, env=driver.san_env(t))
    for e in err:
        c.fail("driver", error=e)
    out = []
    for k, f in enumerate(fs):
        R = res["f%d" % k]
        if not c.judge_death(R):
            continue
        n = len(R.cmds)
        if any(not R.ok(j) for j in range(n)) or R.res[n - 2][1] == "null":
            c.fail("function-file", got=[v for v in R.res.values() if v[0] != "OK"][:2], script=R.cmds)
            continue
        f.name = f.names() if f.kind == "nl" else f.plugin
        out.append(f)
    return out


def good(V, L):
    H = [a + b for a, b in zip(V, L)]
    return dirs.norm(H) > .1 and min(V[2], L[2]) > 1e-3


def pair(r):
    while True:
        V, L = dirs.sph(r.uniform(0.03, 1.55), r.uniform(-3.1, 3.1)), dirs.sph(r.uniform(0.03, 1.55), r.uniform(-3.1, 3.1))
        if good(V, L):
            return V, L


def table(r, path, p, dy, n, below=False, away=False):
    rows, pout = [], {1: "INV_STERADIAN", 3: "RGB_COLOR"}.get(dy, "UNKNOWN_OUTPUT")
    for i in range(n):
        while True:
            V, L = pair(r)
            if below and r.random() < .25:
                L = [L[0], L[1], -L[2]] if r.random() < .5 else L
                V = [V[0], V[1], -V[2]] if L[2] > 0 or r.random() < .3 else V
            try:
                x = dirs.coords(V, L, p)
            except (ZeroDivisionError, ValueError):
                continue
            if x is not None and all(v is not None and math.isfinite(v) for v in x):
                break
        y = [r.choice([r.uniform(.1, 2), 10 ** r.uniform(-5, 5), r.uniform(-2, -.1)]) for _ in range(dy)]
        if not away and r.random() < .1:
            y[0] = 0.0
        rows.append(x + y)
    with open(path, "w") as f:
        f.write("#DIM %d %d\n#PARAM_IN %s\n#PARAM_OUT %s\n" % (NAMED[p], dy, FILE[p], pout))
        for q in rows:
            f.write(" ".join(map(repr, q)) + "\n")
    return rows, pout


def evaluate(c, t, w, asks):
    """ASKS: list of (function, parametrization of the points, points) -> per point (cosines, half vector z, values nearby) or None.
    The values are those of the library; the neighbours tell how much rounding may change them."""
    r = c.rng
    S = driver.Script()
    for k, (f, p, xs) in enumerate(asks):
        cmds = []
        for x in xs:
            d = len(x)
            pts = [x] + [[v + r.choice((-EPS, EPS)) for v in x] for _ in range(3)]
            cmds.append("pconv %s CARTESIAN %s" % (p, driver.fv(x)) if p != "UNKNOWN_INPUT" else "stat .")
            if f.pin != "UNKNOWN_INPUT":
                cmds += ["pconv %s %s %s" % (p, f.pin, driver.fv(q)) for q in pts]
            else:
                cmds += ["stat ."] * 4
        S.case("c%d" % k, cmds)
    res, err = driver.run(t, S, w, env=driver.san_env(t))
    S = driver.Script()
    plans = []
    for k, (f, p, xs) in enumerate(asks):
        R = res["c%d" % k]
        at, pts, cs = [], [], []
        for i, x in enumerate(xs):
            T = R.toks(5 * i) if R.ok(5 * i) and p != "UNKNOWN_INPUT" else None
            cart = [T.f() for _ in range(6)] if T else None
            cs.append((cart[2], cart[5]) if cart else None)
            here = []
            for e in range(4):
                if f.pin == "UNKNOWN_INPUT":
                    here.append(len(pts))
                    pts.append([v + (r.choice((-EPS, EPS)) if e else 0) for v in x[:f.dx]])
                elif R.ok(5 * i + 1 + e):
                    T = R.toks(5 * i + 1 + e)
                    here.append(len(pts))
                    y = [T.f() for _ in range(f.dx)]
                    pts.append(y)
                    if e:                          # the conversion itself rounds, an arc-cosine near zero most
                        here.append(len(pts))
                        pts.append([v + r.choice((-1, 1)) * (3e-8 if abs(v) < 1e-5 and p != f.pin else EPS) for v in y])
                elif e == 0:
                    break
            at.append(here)
        plans.append((at, pts, cs))
        S.case("v%d" % k, ["fload F %s" % driver.q(f.file)] + (["fvals F %d %s" % (len(pts), " ".join(map(driver.fv, pts)))] if pts else []))
    res, err = driver.run(t, S, w, env=driver.san_env(t))
    for e in err:
        c.fail("driver", error=e)
    out = []
    for k, (at, pts, cs) in enumerate(plans):
        R = res["v%d" % k]
        c.judge_death(R)
        vs = []
        if pts and R.ok(1):
            T = R.toks(1)
            T.int()
            vs = [T.vec() for _ in pts]
        out.append([(cs[i], [vs[j] for j in here]) if here and vs else (cs[i], None) for i, here in enumerate(at)])
    return out


def close(got, near, digits, scale=1.0, base=None, ch=None):
    """Does GOT equal the first of the values NEAR, up to rounding?  (BASE: a number it was subtracted from.)"""
    want = near[0]
    if got != got or want != want:
        return got != got and want != want
    if math.isinf(want) or math.isinf(got):
        return got == want or any(abs(v) > 1e300 for v in near)
    spread = max(abs(v - want) for v in near if v == v) if any(v == v for v in near) else 0
    return abs(got - want) <= 10 ** -digits * max(abs(want), abs(got), 0) + 4 * spread + 1e-12 * (abs(base) if base else 0) + 1e-300


def run_tools(c, t, w, jobs, timeout=300):
    done = driver.pmap(lambda j: driver.sh([t.soft(j["tool"])] + j["argv"], w, driver.san_env(t), timeout=timeout), jobs, 8)
    live = []
    for j, (rc, so, se) in zip(jobs, done):
        j["so"] = so
        if rc is None:
            c.unsure("tool ran out of time")
        elif rc != 0:
            c.fail("%s:%s" % (j["tool"], "refused" if rc == 1 else "died"), rc=rc, err=se[-1500:], argv=j["argv"], function=j["f"].name, text=open(j["f"].file).read()[:2500])
        else:
            live.append(j)
    return live


def sampling(c, t, w, fs):
    """brdf2data over the abscissae of lists and of grids."""
    r = c.rng
    jobs = []
    for k in range(c.scale(120, 1500)):
        f = fs[k] if k < len(fs) else r.choice(fs)
        out = os.path.join(w, "s%d.out" % k)
        argv = ["--input", f.file, "--output", out]
        diff = r.random() < .35
        if f.pin == "UNKNOWN_INPUT":
            p = r.choice([q for q in SRC if NAMED[q] >= f.dx])
        else:
            p = r.choice(SRC)
        j = dict(tool="brdf2data", f=f, out=out, argv=argv, p=p, diff=False)
        if r.random() < .75:
            inp = os.path.join(w, "s%d.in" % k)
            j["rows"], j["pout"] = table(r, inp, p, f.dy, r.choice([1, 2, 9, 30]) if r.random() < .95 else r.choice([129, 300]), below=p in dirs.FULL)
            argv += ["--data-file", inp] + (["--data", "vertical_segment"] if r.random() < .3 else [])
            if diff:
                argv.append("--export-diff")
                j["diff"] = True
        else:
            ps = ["COS_TH", "COS_TK", "COS_TLV", "COS_TH_TD", "RUSIN_TH_TD", "ISOTROPIC_TV_PROJ_DPHI", "STARK_2D", "RUSIN_TH_TD_PD", "STARK_3D"]
            j["p"] = p = r.choice([q for q in ps if f.pin != "UNKNOWN_INPUT" or NAMED[q] >= f.dx])
            g = [r.randrange(2, 7) for _ in range(NAMED[p])]
            if f.dy not in (1, 3) or diff or r.random() < .4:
                inp = os.path.join(w, "s%d.in" % k)
                n = 1
                for a in g:
                    n *= a
                j["given"] = [[r.uniform(.1, 2) for _ in range(f.dy)] for _ in range(n)]
                j["grid"] = (g, n, inp)
                argv += ["--data-file", inp, "--data", "data_grid"]
                if diff:
                    argv.append("--export-diff")
                    j["diff"] = True
            else:
                argv += ["--data", "data_grid", "--param", FILE[p], "--PARAM_OUT", "INV_STERADIAN" if f.dy == 1 else "RGB_COLOR", "--grid-size", "[%s]" % ", ".join(map(str, g))]
                j["n"] = math.prod(g)
        jobs.append(j)
    # files of grids hold the nodes the plugin has
    S = driver.Script()
    for k, j in enumerate(jobs):
        if "grid" in j:
            g, n, inp = j["grid"]
            S.case("g%d" % k, ["args A x --param %s --grid-size %s" % (FILE[j["p"]], driver.q("[%s]" % ",".join(map(str, g)))),
                               "dget I data_grid %d %d %d %s UNKNOWN_OUTPUT A" % (n, NAMED[j["p"]], j["f"].dy, j["p"])] + ["drow I %d" % i for i in range(n)])
    res, err = driver.run(t, S, w, env=driver.san_env(t))
    for k, j in enumerate(jobs):
        if "grid" in j:
            g, n, inp = j["grid"]
            R, d = res["g%d" % k], NAMED[j["p"]]
            j["rows"] = [R.toks(2 + i).vec()[:d] + j["given"][i] for i in range(n)]
            with open(inp, "w") as o:
                o.write("#DIM %d %d\n#PARAM_IN %s\n#PARAM_OUT UNKNOWN_OUTPUT\n#grid-size [%s]\n" % (d, j["f"].dy, FILE[j["p"]], ",".join(map(str, g))))
                for q in j["rows"]:
                    o.write(" ".join(map(repr, q)) + "\n")
    live = run_tools(c, t, w, jobs)
    for j in live:
        j["got"] = rows_of(j["out"])
        if "rows" not in j:
            if len(j["got"]) != j["n"]:
                c.fail("brdf2data:rows", got=len(j["got"]), want=j["n"], argv=j["argv"], function=j["f"].name)
                j["got"] = []
            j["rows"] = [list(q) for q in j["got"]]        # nothing is said about the abscissae but by the plugin
    asks = [(j["f"], j["p"], [q[:NAMED[j["p"]]] for q in j["rows"]]) for j in live]
    for j, ev in zip(live, evaluate(c, t, w, asks)):
        f, d = j["f"], NAMED[j["p"]]
        info = dict(argv=j["argv"], function=f.name, file=open(f.file).read()[:2500])
        c.seen("sampled", f.name, j["p"], tuple(j["argv"][4:]))
        c.count("sampled: %s" % ("grid" if "data_grid" in j["argv"] else "list"))
        if len(j["got"]) != len(j["rows"]) or any(len(q) != d + f.dy for q in j["got"]):
            c.fail("brdf2data:rows", got=j["got"][:3], want=len(j["rows"]), **info)
            continue
        for i, (row, got, (cs, near)) in enumerate(zip(j["rows"], j["got"], ev)):
            if any(abs(a - b) > 1e-14 * abs(b) + 1e-300 for a, b in zip(got[:d], row)):
                c.fail("brdf2data:abscissa", row=i, got=got, want=row, **info)
                break
            if cs and cs[0] + cs[1] < -1e-9:
                c.count("samples without a half vector")
                if any(got[d:]):
                    c.fail("brdf2data:below-horizon", row=i, got=got, want=row, **info)
                    break
                continue
            if cs and abs(cs[0] + cs[1]) < 1e-5 or near is None:
                c.count("samples not comparable")
                continue
            c.count("samples compared")
            for ch in range(f.dy):
                b = row[d + ch] if j["diff"] else 0.0
                if not close(got[d + ch], [b - v[ch] if j["diff"] else v[ch] for v in near], 13, base=b):
                    c.fail("brdf2data:%s" % ("difference" if j["diff"] else "value"), row=i, channel=ch, got=got, data=row, want=[v[ch] for v in near], **info)
                    break
            else:
                continue
            break
        os.unlink(j["out"])


def images(c, t, w, fs):
    """brdf2data over the tables of the binary formats."""
    r = c.rng
    rgb = [f for f in fs if f.dy == 3 and f.pin != "UNKNOWN_INPUT"]
    jobs = []
    kinds = ["data_brdf_slice", "data_utia", "data_brdf_slice", "data_merl"] if not c.thorough else ["data_brdf_slice", "data_utia", "data_merl"] * 8
    for k, plug in enumerate(kinds):
        f = r.choice([q for q in rgb if plug != "data_merl" or q.kind != "nl" or len(q.leaves) == 1])
        p = {"data_utia": "SPHERICAL_TL_PL_TV_PV", "data_merl": "RUSIN_TH_TD_PD"}.get(plug) or r.choice(["STARK_2D", "ISOTROPIC_TV_PROJ_DPHI", "RUSIN_TH_TD"])
        out = os.path.join(w, "i%d%s" % (k, ".binary" if plug == "data_merl" else ".exr"))
        argv = ["--input", f.file, "--output", out, "--data", plug] + (["--param", p] if plug == "data_brdf_slice" else [])
        jobs.append(dict(tool="brdf2data", f=f, out=out, argv=argv, p=p, plug=plug, size={"data_merl": 90 * 90 * 180, "data_utia": 288 * 288, "data_brdf_slice": 512 * 512}[plug]))
    live = run_tools(c, t, w, jobs, 600)
    S = driver.Script()
    for k, j in enumerate(live):
        # images are rounded to half or single precision; a new table has the abscissae
        n = j["size"]
        j["ids"] = sorted(set([0, n - 1]) | set(r.randrange(n) for _ in range(c.scale(250, 1500))))
        S.case("i%d" % k, ["args A x%s" % (" --param " + j["p"] if j["plug"] == "data_brdf_slice" else ""), "dload I %s %s A" % (j["plug"], driver.q(j["out"]))]
               + ["drow I %d" % i for i in j["ids"]])
    res, err = driver.run(t, S, w, env=driver.san_env(t))
    for e in err:
        c.fail("driver", error=e)
    asks = []
    for k, j in enumerate(live):
        R = res["i%d" % k]
        c.judge_death(R)
        j["rows"] = [R.toks(2 + i).vec() for i in range(len(j["ids"])) if R.ok(2 + i)]
        if len(j["rows"]) != len(j["ids"]):
            c.fail("brdf2data:table-unreadable:" + j["plug"], argv=j["argv"], got=[R.res.get(i) for i in (1, 2, 3)])
        asks.append((j["f"], j["p"], [q[:NAMED[j["p"]]] for q in j["rows"]]))
    for j, ev in zip(live, evaluate(c, t, w, asks)):
        d = NAMED[j["p"]]
        info = dict(argv=j["argv"], function=j["f"].name, file=open(j["f"].file).read()[:2500])
        digits = 13 if j["plug"] == "data_merl" else 6
        c.seen("image", j["plug"], j["f"].name, j["p"])
        for i, row, (cs, near) in zip(j["ids"], j["rows"], ev):
            if cs is None or abs(cs[0] + cs[1]) < 1e-5:
                continue
            if cs[0] + cs[1] < 0:
                if any(row[d:]):
                    c.fail("brdf2data:table-below-horizon:" + j["plug"], node=i, row=row, **info)
                    break
                continue
            if near is None:
                continue
            c.count("table nodes compared: " + j["plug"])
            for ch in range(3):
                v = [q[ch] for q in near]
                if digits == 6 and (v[0] != v[0] or abs(v[0]) > 1e37 or max(abs(q - v[0]) for q in v if q == q) > 1e-3 * abs(v[0])):
                    continue
                if j["plug"] == "data_merl" and not v[0] >= 0:
                    continue                     # marks a cell without measurement
                if abs(row[d + ch] - v[0]) < 1e-37:
                    continue
                if not close(row[d + ch], v, digits):
                    c.fail("brdf2data:table-value:" + j["plug"], node=i, row=row, want=v, **info)
                    break
            else:
                continue
            break
        os.unlink(j["out"])


def plots(c, t, w, fs):
    r = c.rng
    jobs = []
    for k in range(c.scale(140, 1500)):
        f = fs[k] if k < len(fs) else r.choice(fs)
        p = r.choice([q for q in SRC if f.pin != "UNKNOWN_INPUT" or NAMED[q] >= f.dx])
        inp, out = os.path.join(w, "p%d.in" % k), os.path.join(w, "p%d.out" % k)
        rows, pout = table(r, inp, p, f.dy, r.choice([1, 2, 9, 30]), away=True)
        mode = r.choice(["", "", "--error", "--linear_error"])
        cos = r.random() < .35
        argv = ["--input", f.file, "--output", out, "--data-file", inp] + ([mode] if mode else []) + (["--cos-plot"] if cos else []) + \
               (["--data", "vertical_segment"] if r.random() < .2 else [])
        jobs.append(dict(tool="brdf2gnuplot", f=f, out=out, argv=argv, p=p, rows=rows, mode=mode, cos=cos and f.pin != "UNKNOWN_INPUT"))
    live = run_tools(c, t, w, jobs)
    asks = [(j["f"], j["p"], [q[:NAMED[j["p"]]] for q in j["rows"]]) for j in live]
    for j, ev in zip(live, evaluate(c, t, w, asks)):
        f, d = j["f"], NAMED[j["p"]]
        got = rows_of(j["out"])
        info = dict(argv=j["argv"], function=f.name, file=open(f.file).read()[:2500])
        c.seen("plot", f.name, j["p"], j["mode"], j["cos"], tuple(j["rows"][0]))
        lead = 1 if j["mode"] == "--linear_error" else d
        if len(got) != len(j["rows"]) or any(len(q) != lead + f.dy for q in got):
            c.fail("brdf2gnuplot:rows", got=got[:3], want=len(j["rows"]), **info)
            continue
        ok = all(near for cs, near in ev)
        diffs = [[near[0][ch] - row[d + ch] for ch in range(f.dy)] for row, (cs, near) in zip(j["rows"], ev) if near]
        for i, (row, g, (cs, near)) in enumerate(zip(j["rows"], got, ev)):
            if near is None:
                continue
            if j["mode"] == "--linear_error" and g[0] != i or j["mode"] != "--linear_error" and any(abs(a - b) > 1e-9 * abs(b) for a, b in zip(g, row[:d])):
                c.fail("brdf2gnuplot:abscissa", row=i, got=g, want=row, **info)
                break
            c.count("plotted rows compared%s%s" % (": " + j["mode"][2:] if j["mode"] else "", " with cosines" if j["cos"] else ""))
            m = cs[0] * cs[1] if j["cos"] else 1.0
            for ch in range(f.dy):
                y = row[d + ch]
                vs = [m * v[ch] for v in near]
                if j["mode"] == "--error":
                    vs = [y - v for v in vs]
                elif j["mode"] == "--linear_error":
                    vs = [(y - v) / y for v in vs]
                if not close(g[lead + ch], vs, 9, base=(y if j["mode"] == "--error" else 1.0) if j["mode"] else 0.0):
                    c.fail("brdf2gnuplot:%s%s" % (j["mode"][2:] or "value", ":cosine" if j["cos"] else ""), row=i, got=g, data=row, want=vs, cosines=cs, **info)
                    break
            else:
                continue
            break
        # the distances announced
        said = dict(re.findall(r"(L2|Linf)\s+distance to data = (\S+)", j["so"]))
        if ok and diffs and all(math.isfinite(v) and abs(v) < 1e100 for q in diffs for v in q) and all(max(abs(v[ch] - near[0][ch]) for v in near) <= 1e-7 * abs(near[0][ch]) for cs, near in ev for ch in range(f.dy)):
            l2 = math.sqrt(math.fsum(v * v for q in diffs for v in q) / len(diffs))
            try:
                s = float(said["L2"])
            except (KeyError, ValueError):
                s = math.nan
            c.count("announced distances compared")
            if not abs(s - l2) <= 1e-5 * l2:
                c.fail("brdf2gnuplot:announced-L2", said=said, want=l2, **info)
        os.unlink(j["out"])


def polar(c, t, w, fs):
    r = c.rng
    jobs = []
    for k in range(c.scale(70, 700)):
        f = r.choice([q for q in fs if q.pin != "UNKNOWN_INPUT"])
        out = os.path.join(w, "q%d.out" % k)
        n = r.choice([None, 2, 7, 10, 31, 100])
        inc = r.choice([None, 0.0, r.randrange(1, 100) / 64.0, r.randrange(1, 100) / 64.0])      # exact in single precision
        cos = r.random() < .3
        argv = ["--input", f.file, "--output", out, "--polar-plot"] + (["--samples", str(n)] if n else []) + (["--inc-angle", repr(inc)] if inc is not None else []) + (["--cos-plot"] if cos else [])
        jobs.append(dict(tool="brdf2gnuplot", f=f, out=out, argv=argv, n=n or 100, inc=inc or 0.0, cos=cos))
    live = run_tools(c, t, w, jobs)
    asks = []
    for j in live:
        j["got"] = rows_of(j["out"])
        N = j["n"] // 2
        asks.append((j["f"], "SPHERICAL_TL_PL_TV_PV", [[j["inc"], math.pi, HALF_PI * (i % N) / N, math.pi if i < N else 0.0] for i in range(2 * N)]))
    for j, ev in zip(live, evaluate(c, t, w, asks)):
        f = j["f"]
        got = j["got"]
        info = dict(argv=j["argv"], function=f.name, file=open(f.file).read()[:2500])
        c.seen("polar", f.name, *j["argv"][4:])
        N = j["n"] // 2
        if len(got) != 2 * N or any(len(g) != 1 + f.dy for g in got):
            c.fail("brdf2gnuplot:polar-rows", got=len(got), want=j["n"], **info)
            continue
        for i, (g, (cs, near)) in enumerate(zip(got, ev)):
            th = HALF_PI * (i % N) / N
            if abs(g[0] - (-th if i < N else th)) > 1e-9:
                c.fail("brdf2gnuplot:polar-angle", row=i, got=g, want=th, **info)
                break
            if near is None:
                c.count("polar rows not comparable")
                continue
            c.count("polar rows compared")
            m = math.cos(j["inc"]) * math.cos(th) if j["cos"] else 1.0
            # the angle is printed with ten digits
            for ch in range(f.dy):
                vs = [m * v[ch] for v in near]
                sp = max(abs(v - vs[0]) for v in vs) if all(v == v for v in vs) else math.inf
                if sp > 1e-4 * abs(vs[0]) + 1e-12:
                    c.count("polar rows at steps")
                    continue
                if not (close(g[1 + ch], vs, 8) or abs(g[1 + ch] - vs[0]) <= 1e3 * sp):
                    c.fail("brdf2gnuplot:polar-value%s" % (":cosine" if j["cos"] else ""), row=i, got=g, want=vs, **info)
                    break
            else:
                continue
            break
        os.unlink(j["out"])


def exports(c, t, w, fs):
    r = c.rng
    jobs = []
    S = driver.Script()
    for k in range(c.scale(160, 1200)):
        f = fs[k % len(fs)]
        kind = r.choice([None, "alta", "alta", "matlab", "C++", "explorer", "shader"])
        sgd = f.kind == "nl" and any("sgd" in l.m.name for l in f.leaves)
        if kind in ("matlab", "C++", "shader", "explorer") and sgd or kind in ("explorer", "shader") and f.kind == "rational":
            kind = "alta"
        out, ref = os.path.join(w, "e%d.out" % k), os.path.join(w, "e%d.ref" % k)
        argv = ["--input", f.file, "--output", out] + (["--export", kind] if kind else [])
        jobs.append(dict(tool="brdf2brdf", f=f, out=out, argv=argv, kind=kind, ref=ref, k=k))
    live = run_tools(c, t, w, jobs)
    pts = {}
    for j in live:
        f = j["f"]
        if f.pin == "UNKNOWN_INPUT":
            xs = [[r.uniform(a, b) for a, b in zip(f.lo, f.hi)] for _ in range(8)]
        else:
            xs = []
            while len(xs) < 8:
                x = dirs.coords(*pair(r), f.pin)
                if x and all(v is not None for v in x):
                    xs.append(x)
        j["xs"] = xs
        ev = "%d %s" % (len(xs), " ".join(map(driver.fv, xs)))
        S.case("e%d" % j["k"], ["fload F %s" % driver.q(f.file), "args A x%s" % (" --export " + driver.q(j["kind"]) if j["kind"] else ""), "fsave F %s A" % driver.q(j["ref"]), "fvals F " + ev]
               + (["fload G %s" % driver.q(j["out"]), "fvals G " + ev, "finfo F", "finfo G"] if j["kind"] in (None, "alta") else []))
    res, err = driver.run(t, S, w, env=driver.san_env(t))
    for e in err:
        c.fail("driver", error=e)

    def lines(path):
        return [l for l in open(path, encoding="latin-1").read().split("\n") if "CMD" not in l]
    for j in live:
        R = res["e%d" % j["k"]]
        info = dict(argv=j["argv"], function=j["f"].name, file=open(j["f"].file).read()[:2500])
        if not c.judge_death(R):
            continue
        if any(not R.ok(i) for i in range(len(R.cmds))):
            c.fail("brdf2brdf:unusable:%s" % j["kind"], got=[v for v in R.res.values() if v[0] != "OK"][:2], **info)
            continue
        c.seen("export", j["kind"], j["f"].name, j["k"])
        c.count("exports compared: %s" % (j["kind"] or "default"))
        if j["kind"] in (None, "alta"):
            def vals(k):
                T = R.toks(k)
                T.int()
                return [T.vec() for _ in j["xs"]]
            a, b = vals(3), vals(5)
            if R.res[6][1].split()[:3] != R.res[7][1].split()[:3]:
                c.fail("brdf2brdf:dimensions", first=R.res[6][1], second=R.res[7][1], **info)
            for x, u, v in zip(j["xs"], a, b):
                if len(u) != len(v) or any(not (p == q or p != p and q != q or abs(p - q) <= 1e-6 * max(abs(p), abs(q))) for p, q in zip(u, v)):
                    c.fail("brdf2brdf:value", x=x, first=u, second=v, **info)
                    break
        elif lines(j["out"]) != lines(j["ref"]):
            c.fail("brdf2brdf:text:%s" % j["kind"], got=open(j["out"]).read()[:1500], want=open(j["ref"]).read()[:1500], **info)
        os.unlink(j["out"])


def stats(c, t, w, fs):
    r = c.rng
    jobs = []
    for k in range(c.scale(120, 1200)):
        f = r.choice([q for q in fs if q.pin != "UNKNOWN_INPUT"])
        p = r.choice(SRC)
        inp, out = os.path.join(w, "t%d.in" % k), os.path.join(w, "t%d.out" % k)
        rows, pout = table(r, inp, p, f.dy, r.choice([1, 2, 9, 40]) if r.random() < .95 else r.choice([129, 300]))
        jobs.append(dict(tool="brdf2stats", f=f, out=out, argv=["--brdf", f.file, "--input", inp, "--output", out], p=p, rows=rows))
    live = run_tools(c, t, w, jobs)
    asks = [(j["f"], j["p"], [q[:NAMED[j["p"]]] for q in j["rows"]]) for j in live]
    evs = evaluate(c, t, w, asks)
    for j, ev in zip(live, evs):
        f, d = j["f"], NAMED[j["p"]]
        info = dict(argv=j["argv"], function=f.name, file=open(f.file).read()[:2500], rows=j["rows"][:5])
        c.seen("stats", f.name, j["p"], tuple(j["rows"][0]))
        if any(near is None for cs, near in ev):
            c.count("statistics not comparable")
            continue
        diff = [[near[0][ch] - q[d + ch] for ch in range(f.dy)] for q, (cs, near) in zip(j["rows"], ev)]
        steep = any(not (max(abs(v[ch] - near[0][ch]) for v in near) <= 1e-7 * abs(near[0][ch]) + 1e-300) for cs, near in ev for ch in range(f.dy))
        if steep or not all(math.isfinite(v) and abs(v) < 1e100 for q in diff for v in q):
            c.count("statistics of steep or unbounded values")
            continue
        n = len(diff)
        # the tool converts the samples to what the function is defined on, and weighs them there
        want = {}
        for name, ws in (("", None), ("light", 1), ("view", 2)):
            mse = []
            for ch in range(f.dy):
                mse.append(math.fsum((diff[i][ch] * (1 if ws is None else j_w(ev[i][0], ws))) ** 2 for i in range(n)) / n)
            want[name] = mse
        col = list(zip(*diff))
        exp = {"L1": [math.fsum(map(abs, q)) for q in col], "L2": [math.sqrt(math.fsum(v * v for v in q)) for q in col],
               "L3": [math.fsum(abs(v) ** 3 for v in q) ** (1 / 3.0) for q in col], "LINF": [max(map(abs, q)) for q in col],
               "MSE": want[""], "RMSE": [math.sqrt(v) for v in want[""]]}
        if f.pin in dirs.FULL or f.pin == j["p"]:
            # elsewhere the cosines are those of a representative
            exp.update({"MSE * cos(theta_light)": want["light"], "RMSE * cos(theta_light)": [math.sqrt(v) for v in want["light"]],
                        "MSE * cos(theta_light) * cos(theta_view)": want["view"], "RMSE * cos(theta_light) cos(theta_view)": [math.sqrt(v) for v in want["view"]]})
        txt = open(j["out"]).read()
        got = {}
        for l in txt.split("\n"):
            if not l.startswith("#") and " :" in l:
                a, b = l.rsplit(":", 1)
                got[a.strip()] = [float(v) for v in re.findall(r"[-+0-9.einfa]+", b)]
        for a, v in exp.items():
            c.count("statistics compared")
            if a not in got or len(got[a]) != len(v) or any(not abs(x - y) <= 2e-5 * abs(y) for x, y in zip(got[a], v)):
                c.fail("brdf2stats:%s" % a, got=got.get(a), want=v, **info)
        m = re.search(r"#DIM (\d+) (\d+)", txt)
        if not m or [int(m.group(1)), int(m.group(2))] != [f.dx, f.dy]:
            c.fail("brdf2stats:dimensions", got=txt[:300], **info)
        l2 = math.sqrt(math.fsum(v * v for q in diff for v in q) / n)
        m = re.search(r"L2, \(computed from function\)\s+distance to data = (\S+)", j["so"])
        if not m or not abs(float(m.group(1)) - l2) <= 2e-5 * l2:
            c.fail("brdf2stats:announced-L2", got=m and m.group(1), want=l2, **info)
        os.unlink(j["out"])


def j_w(cs, k):
    return cs[1] if k == 1 else cs[0] * cs[1]


def main(c):
    t = build.ensure("asan", ["brdf2data", "brdf2gnuplot", "brdf2brdf", "brdf2stats"] + build.DATAS + build.NL + build.RATIONALS, driver=True)
    w = c.tmp()
    fs = make_functions(c, t, w, c.scale(60, 300))
    sampling(c, t, w, fs)
    images(c, t, w, fs)
    plots(c, t, w, fs)
    polar(c, t, w, fs)
    exports(c, t, w, fs)
    stats(c, t, w, fs)


check.main("C28", main,
           "One evaluation per distinct tool run (function, parametrization of the samples, options); each compares every row the tool wrote "
           "with the value that the library gives at the abscissa of the row.",
           ["conversions between parametrizations and evaluation itself are those of the library, which C01, C02, C13 and C18 decide"])
