"""C14: parameter derivatives match the function."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, dirs, driver, models, shapes
from gen import *


def tag(f):
    def one(l):
        return l.m.name.split("_", 1)[1] + (":" + l.m.opts[1] if l.m.opts[:1] == ("--sg-type",) else ":retro" if l.m.opts == ("--retro",) else "")
    if len(f.leaves) == 1:
        return one(f.leaves[0])
    return "sum" if f.tree[0] == "sum" else "product"


def slot(o, dy):
    """Which parameter of the model it is."""
    l, n = o
    return n // dy if l.m.name.endswith("_sgd") else n % max(1, len(l.p) // dy)


def main(c):
    t = build.ensure("asan", build.NL, driver=True)
    r = c.rng
    S, want = driver.Script(), {}
    todo = [("single", m) for m in models.LOBES + models.FACTORS] * c.scale(4, 40)
    todo += [("product", m) for m in models.FACTORS] * c.scale(5, 40) + [("mix", None)] * c.scale(60, 700) + [("built", None)] * c.scale(60, 700)
    for kind, m in todo:
        dy = r.choice([1, 2, 3, 3])
        given = None
        if kind == "single":
            if m.pin == "given":
                given = r.choice(shapes.FULL)
            f = shapes.random_fn(r, dy, single=m, factor=False, given=given, nsum=1)
        elif kind == "product":
            f = shapes.random_fn(r, dy, factor=m, nsum=1)
        elif kind == "built":
            f = shapes.built(r, dy)
        else:
            f = shapes.random_fn(r, dy)
        pin = f.pin
        if kind == "single" and m.pin == "given":
            pin = given
        pts, graze = [], []
        for k, V, L in dirs.pairs(r, c.scale(9, 14)):
            try:
                x = dirs.coords(V, L, pin)
            except ZeroDivisionError:
                continue
            if x is not None and all(v is not None and math.isfinite(v) for v in x):
                pts.append((k, x))
                graze.append(min(abs(V[2]), abs(L[2])))
        p = shapes.free_params(f)
        cmds = shapes.build_cmds("F", f)
        at = dict(top=len(cmds))
        ev = "fvals F %d %s" % (len(pts), " ".join(driver.fv(q[1]) for q in pts))
        cmds += ["fnb F", "fpar F", "fsetp F %s" % driver.fv(p), ev] if p else ["fnb F", "fpar F", "fnb F", ev]
        at["jac"] = len(cmds)
        cmds += ["fjac F %s" % driver.fv(q[1]) for q in pts]
        at["again"] = len(cmds)
        cmds += ["fpar F", ev]
        at["d"] = len(cmds)
        hs = []
        for i in range(len(p)):
            h = 1e-3 * max(abs(p[i]), .05)
            hs.append([])
            for s in (-2, -1, 1, 2):
                q = list(p)
                q[i] = p[i] + s * h
                hs[-1].append(q[i])
                cmds += ["fsetp F %s" % driver.fv(q), ev]
        cid = "j%d" % len(want)
        S.case(cid, cmds)
        want[cid] = (f, pts, p, at, hs, graze)
    res, err = driver.run(t, S, c.tmp())
    for e in err:
        c.fail("driver", error=e)
    for cid, (f, pts, p, at, hs, graze) in want.items():
        R = res[cid]
        g = tag(f)
        if not c.judge_death(R, g + ":"):
            continue
        what = dict(case=cid, args=f.toks, dimY=f.dy, parts=f.names(), parameters=p, script=R.cmds)
        bad = [j for j in range(len(R.cmds)) if not R.ok(j)]
        if bad:
            c.fail("exception:%s:%s" % (g, R.cmds[bad[0]].split()[0]), got=R.res[bad[0]], **what)
            continue
        nb = R.toks(at["top"]).int()
        if nb != len(p):
            c.fail("number-of-parameters:" + g, got=nb, want=len(p), **what)
            continue
        def vals(k):
            T = R.toks(k)
            T.int()
            return [T.vec() for _ in pts]
        par, v0 = R.toks(at["top"] + 1).vec(), vals(at["top"] + 3)
        if par != p or R.toks(at["again"]).vec() != p or not all(map(sames, vals(at["again"] + 1), v0)):
            c.fail("derivative-changes-function:" + g, before=[par, v0], after=[R.res[at["again"]], R.res[at["again"] + 1]], **what)
        J = [R.toks(at["jac"] + k).vec() for k in range(len(pts))]
        if any(len(j) != nb * f.dy for j in J):
            c.fail("size:" + g, got=[len(j) for j in J], want=nb * f.dy, **what)
            continue
        noise = 1e-8 if any(l.m.name.endswith("_sgd") for l in f.leaves) else 1e-14
        owner = [(l, n) for l in f.leaves if l.free for n in range(len(l.p))]
        for i in range(nb):
            y = [vals(at["d"] + 8 * i + 2 * s + 1) for s in range(4)]
            a, b, d, e = hs[i]
            for k, (kind, x) in enumerate(pts):
                for ch in range(f.dy):
                    w = [y[s][k][ch] for s in range(4)] + [v0[k][ch]]
                    got = J[k][ch * nb + i]
                    if not all(map(math.isfinite, w)):
                        c.count("undefined values skipped")
                        continue
                    h1, h2 = (w[2] - w[1]) / (d - b), (w[3] - w[0]) / (e - a)
                    if graze[k] < 1e-3 and owner[i][0].m.name.endswith("shadowing_schlick"):
                        c.count("kinks and steps skipped")     # all of the shadowing happens within one step
                        continue
                    D = (4 * h1 - h2) / 3
                    big = max(map(abs, w))
                    # one-sided slopes reveal kinks, steps and clamps
                    l1, r1 = (w[4] - w[1]) / (p[i] - b), (w[2] - w[4]) / (d - p[i])
                    tol = 1e-6 * abs(D) + .2 * abs(h1 - h2) + 20 * noise * big / (d - b) + 1e-30
                    rough = 20 * noise * big / (d - b)
                    if abs(h1 - h2) > 1e-3 * max(abs(h1), abs(h2)) + rough or abs(l1 - r1) > .05 * max(abs(l1), abs(r1)) + 4 * rough:
                        c.count("kinks and steps skipped")
                        continue
                    c.seen(g, f.names(), i, tuple(x), ch, p[i])
                    c.count("derivatives compared")
                    c.count("derivatives compared: " + g)
                    if D:
                        c.count("derivatives compared that are not zero")
                    if not abs(got - D) <= tol:
                        c.fail("derivative:%s:%s" % (g, owner[i][0].m.name.split("_", 1)[1] + ":%d" % (slot(owner[i], f.dy)) if g in ("sum", "product") else slot(owner[i], f.dy)),
                               kind=kind, x=x, parameter=i, channel=ch, got=got, want=D, tolerance=tol, values=w, **what)
    c.sample(dict(derivatives={k: v for k, v in c.stats.items()}))


check.main("C14", main,
           "One evaluation per distinct function, point, parameter and channel: the library's derivative against central differences of "
           "the library's own values at two step sizes around the parameter.",
           ["a derivative is compared only where the two step sizes and the two one-sided slopes agree, i.e. away from kinks and clamps",
            "derivatives of the SGD model are compared to about six digits, because its values cancel"])
