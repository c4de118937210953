"""Commands that exercise each plugin, for comparing its answers under different circumstances."""
import math, os, struct
import build, dirs, driver, exr, models, shapes
from gen import *


class Part:
    """Commands that exercise one plugin, on variables of their own."""
    def __init__(self, plugin, name, cmds):
        self.plugin, self.name, self.cmds = plugin, name, cmds


def parts(c, t, w):
    r = c.rng
    out = []

    def V(n, f):
        return "%s%d" % (n, len(out))

    def fn(f, plugin):
        i = len(out)
        F, A = "F%d" % i, "A%d" % i
        pts = []
        if getattr(f, "plugin", None) in ("rational_function", "rational_function_legendre", "rational_function_chebychev"):
            pts = [[r.uniform(a, b) for a, b in zip(f.lo, f.hi)] for _ in range(6)]
        else:
            for k, V, L in dirs.pairs(r, 8):
                try:
                    x = dirs.coords(V, L, f.pin)
                except ZeroDivisionError:
                    continue
                if x and all(v is not None and math.isfinite(v) for v in x):
                    pts.append(x)
        cmds = shapes.build_cmds(F, f, A, "FD%d" % i)
        cmds += ["finfo " + F, "fkind " + F]
        if f.kind == "nl":
            cmds += ["fnb " + F, "fpar " + F, "fpmin " + F, "fpmax " + F]
        cmds.append("fvals %s %d %s" % (F, len(pts), " ".join(map(driver.fv, pts))))
        if f.kind == "nl":
            cmds += ["fjac %s %s" % (F, driver.fv(x)) for x in pts[:3]]
        for e in ("alta", "matlab", "C++", "explorer"):
            cmds += ["args A%dx alta %s --export %s" % (i, " ".join(map(driver.q, f.toks)), driver.q(e)), "fsave %s o%d.%s A%dx" % (F, i, e, i), "cat o%d.%s" % (i, e)]
        cmds += ["fload G%d o%d.alta" % (i, i), "fvals G%d %d %s" % (i, len(pts), " ".join(map(driver.fv, pts)))]
        out.append(Part(plugin, plugin + (" " + " ".join(f.toks[2:]) if f.kind == "nl" else ""), cmds))

    for m in models.LOBES + models.FACTORS:
        fn(shapes.random_fn(r, single=m, factor=False, nsum=1), m.name)
    for p in ("rational_function", "rational_function_legendre", "rational_function_chebychev", "rational_function_cosine"):
        fn(shapes.random_rat(r, p, 2), p)
    for _ in range(4):
        f = shapes.random_fn(r)
        fn(f, "composition")
    # data
    ub, sl, ml = os.path.join(w, "u.bin"), os.path.join(w, "s.exr"), os.path.join(w, "as.astm")
    v = [r.random() for _ in range(997)]
    with open(ub, "wb") as f:
        f.write(struct.pack("<%dd" % (288 * 288 * 3), *(v[i % 997] for i in range(288 * 288 * 3))))
    open(sl, "wb").write(exr.write(8, 8, {q: [r.random() for _ in range(64)] for q in "RGB"}))
    mb = os.path.join(w, "m.binary")
    with open(mb, "wb") as f:
        v = struct.pack("<9973d", *(r.random() * 1500 for _ in range(9973)))
        one = (v * 147)[:90 * 90 * 180 * 8]
        f.write(struct.pack("<3i", 90, 90, 180) + one * 3)
    rb, gr = os.path.join(w, "r.alta"), os.path.join(w, "g.alta")
    with open(rb, "w") as o:
        o.write("#DIM 3 3\n#PARAM_IN RUSIN_TH_TD_PD\n#PARAM_OUT RGB_COLOR\n")
        for _ in range(40):
            o.write(" ".join(repr(r.uniform(.1, 1)) for _ in range(6)) + "\n")
    with open(gr, "w") as o:
        o.write("#DIM 2 2\n#PARAM_IN COS_TH_TD\n#PARAM_OUT UNKNOWN_OUTPUT\n#grid-size [4,3]\n")
        for i in range(4):
            for j in range(3):
                o.write(" ".join(repr(q) for q in (i / 3.0, j / 2.0, r.random(), r.random())) + "\n")
    with open(ml, "w") as o:
        o.write('NUM_POINTS 12\nVARS "theta_i","phi_i","theta_s","phi_s","Red","Green","Blue"\n')
        for _ in range(12):
            o.write(",".join(repr(q) for q in [r.uniform(.1, 1.4) for _ in range(4)] + [r.random() for _ in range(3)]) + "\n")
    for plug, path, d, lo, hi in (("data_utia", ub, 4, .1, 1.2), ("data_brdf_slice", sl, 2, .05, .6), ("data_merl", mb, 3, .1, 1.4), ("data_rbf", rb, 3, .1, 1), ("data_grid", gr, 2, .05, .95)):
        i = len(out)
        pts = [[r.uniform(lo, hi) for _ in range(d)] for _ in range(10)]
        cmds = ["args A%d x" % i, "dload D%d %s %s A%d" % (i, plug, driver.q(path), i), "dinfo D%d" % i] + ["drow D%d %d" % (i, q) for q in (0, 3, 7)] + \
               ["dvals D%d %d %s" % (i, len(pts), " ".join(map(driver.fv, pts)))]
        if plug in ("data_rbf", "data_grid", "data_brdf_slice"):
            cmds += ["dsave D%d d%d.out" % (i, i), "cat d%d.out" % i]
        out.append(Part(plug, plug, cmds))
    i = len(out)
    out.append(Part("data_astm", "data_astm", ["args A%d x" % i, "dload D%d data_astm %s A%d" % (i, driver.q(ml), i), "dinfo D%d" % i, "drows D%d" % i]))
    # fitters
    n = 30
    xs = [[j / (n - 1.0)] for j in range(n)]
    rows = [x + [1 / (1 + 2 * x[0] + x[0] ** 2) + .3] for x in xs]
    for ft in build.RFITTERS:
        i = len(out)
        out.append(Part(ft, ft, [
            "args A%d x --np 3 --nq 2 --min-np 3 --min-nq 2 --nb-cores 1 --dt 0.2" % i,
            "dnew D%d 2 1 1 COS_TH INV_STERADIAN %d %s" % (i, n, driver.fv([v for q in rows for v in q + [q[1] - .05, q[1] + .05]])),
            "args B%d x" % i, "fget F%d B%d 1 1 COS_TH INV_STERADIAN" % (i, i), "fit %s D%d F%d A%d" % (ft, i, i, i), "fvals F%d %d %s" % (i, n, " ".join(map(driver.fv, xs)))]))
    for ft in build.NFITTERS:
        i = len(out)
        crow = []
        for _ in range(20):
            V, L = dirs.sph(r.uniform(.1, 1.3), r.uniform(-3, 3)), dirs.sph(r.uniform(.1, 1.3), r.uniform(-3, 3))
            h = dirs.unit([a + b for a, b in zip(V, L)])
            crow.append(V + L + [.2 + .7 * h[2] ** 12])
        out.append(Part(ft, ft, [
            "args A%d x --func nonlinear_function_blinn" % i, "dnew D%d 0 6 1 CARTESIAN INV_STERADIAN 20 %s" % (i, driver.fv([v for q in crow for v in q])),
            "fget F%d A%d 6 1 CARTESIAN INV_STERADIAN" % (i, i), "fboot F%d D%d A%d" % (i, i, i), "fsetp F%d 2 0x1p-1 0x1p+3" % i, "fit %s D%d F%d A%d" % (ft, i, i, i), "fpar F%d" % i, "fl2 F%d D%d" % (i, i)]))
    return out
