"""C15: a saved function loads back as the same function."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, dirs, driver, models, shapes
from gen import *

EXTRA = [["--input", "measured.dat"], ["--output", "fit.brdf"], ["--fitter", "nonlinear_fitter_eigen"], ["--min-np", "3"], ["--bootstrap"], ["--cos-fit"],
         ["--export-append", "#L2 0.25"], ["--param", "RUSIN_TH_TD"], ["--data-correct-cosine"], ["--dt", "-0.5"], ["--dt-relative"], ["--bootstrap", "[1.0, 2.0]"]]


def short(v):
    return float("%.10g" % v)


def tag(f):
    if f.kind == "rational":
        return f.plugin
    def one(l):
        return l.m.name.split("_", 1)[1] + (":" + l.m.opts[1] if l.m.opts[:1] == ("--sg-type",) else ":retro" if l.m.opts == ("--retro",) else "")
    if len(f.leaves) == 1:
        return one(f.leaves[0])
    if f.tree[0] == "mul":
        return "product:" + "*".join(one(l) for l in f.leaves)
    return "sum"


def main(c):
    t = build.ensure("asan", build.NL + build.RATIONALS, driver=True)
    r = c.rng
    S, want = driver.Script(), {}
    fs = []
    for _ in range(c.scale(3, 25)):
        for m in models.LOBES + models.FACTORS:
            fs.append(shapes.random_fn(r, single=m, factor=False, nsum=1))
        for m in models.FACTORS:
            fs.append(shapes.random_fn(r, factor=m, nsum=1))
        for p in ("rational_function", "rational_function_legendre", "rational_function_chebychev", "rational_function_cosine"):
            fs.append(shapes.random_rat(r, p))
        fs += [shapes.random_fn(r) for _ in range(22)]
    for f in fs:
        exact = r.random() < .8
        if f.kind == "rational":
            if f.plugin == "rational_function" and r.random() < .3:
                f.pin = "UNKNOWN_INPUT"
            if exact:
                f.p, f.q = [[short(v) for v in l] for l in f.p], [[short(v) for v in l] for l in f.q]
                f.lo, f.hi = [short(v) for v in f.lo], [short(v) for v in f.hi]
            else:
                f.q = [[(1 + r.random()) * v for v in l] for l in f.q]
            pts = [[r.uniform(a, b) for a, b in zip(f.lo, f.hi)] for _ in range(12)] if f.plugin != "rational_function_cosine" else \
                  [[abs(v) for v in dirs.coords(*q[1:], f.pin)] for q in dirs.pairs(r, 12) if q[0] == "random" or True]
        else:
            if exact:
                f.kd[:] = [short(v) for v in f.kd]
                for l in f.leaves:
                    l.p = [short(v) for v in l.p]
                    if r.random() < .15 and l.p:
                        # extreme values are printed and read back like any other
                        l.p[r.randrange(len(l.p))] = r.choice([0.0, 1e-15, 1.5e-300, 123456789.5, 2.5e200, -0.25])
            pts = []
            for k, V, L in dirs.pairs(r, 12):
                try:
                    x = dirs.coords(V, L, f.pin)
                except ZeroDivisionError:
                    continue
                if x is not None and all(v is not None and math.isfinite(v) for v in x):
                    pts.append(x)
        extra = [x for o in r.sample(EXTRA, r.choice([0, 0, 1, 3])) for x in o]
        if f.kind == "nl" and len(f.leaves) == 1 and f.leaves[0].m.name.endswith("abc"):
            extra = [e for e in extra if e != "--param" and e != "RUSIN_TH_TD"]
        if f.kind != "rational":          # these would change the first guess, which fixes what is not a parameter
            extra = [x for o in [e for e in EXTRA if e[0] not in ("--bootstrap", "--param", "--cos-fit")] if r.random() < .2 for x in o]
        if r.random() < .5:
            f.toks = f.toks + extra
        elif f.toks[:1] == ["--func"] or not f.toks:
            f.toks = extra + f.toks
        ev = " %d %s" % (len(pts), " ".join(map(driver.fv, pts)))
        cmds = shapes.build_cmds("F", f)
        at = len(cmds)
        par = "fpar %s" if f.kind == "nl" else "finfo %s"
        cmds += ["finfo F", "fkind F", par % "F", "fvals F" + ev, "fsave F one.brdf A", "fload G one.brdf", "finfo G", "fkind G", par % "G", "fvals G" + ev,
                 "fsave G two.brdf A", "fload H two.brdf", "fvals H" + ev, "cat one.brdf", "cat two.brdf"]
        cid = "s%d" % len(want)
        S.case(cid, cmds)
        want[cid] = (f, exact, pts, at)
    res, err = driver.run(t, S, c.tmp())
    for e in err:
        c.fail("driver", error=e)
    for cid, (f, exact, pts, at) in want.items():
        R = res[cid]
        g = tag(f)
        if not c.judge_death(R, g + ":"):
            continue
        what = dict(case=cid, args=f.toks, dimY=f.dy, parts=f.names() if f.kind == "nl" else f.plugin, exact=exact, script=R.cmds)
        bad = [j for j in range(len(R.cmds)) if not R.ok(j)]
        if len(bad) and R.ok(at + 5) and R.res[at + 5][1] == "null":
            c.fail("does-not-load:" + g, log=R.log()[-800:], file=driver.unq(R.res[at + 13][1]).decode(), **what)
            continue
        if bad:
            c.fail("exception:%s:%s" % (g, R.cmds[bad[0]].split()[0]), got=R.res[bad[0]], log=R.log()[-600:], **what)
            continue
        def vals(k):
            T = R.toks(at + k)
            T.int()
            return [T.vec() for _ in pts]
        one, two = driver.unq(R.res[at + 13][1]).decode(), driver.unq(R.res[at + 14][1]).decode()
        what["file"] = one
        a, b = R.res[at][1].split(), R.res[at + 6][1].split()
        if a[:3] != b[:3]:
            c.fail("dimensions:" + g, saved=a[:4], loaded=b[:4], **what)
            continue
        if R.res[at + 1][1] != R.res[at + 7][1]:
            c.fail("kind:" + g, saved=R.res[at + 1][1], loaded=R.res[at + 7][1], **what)
            continue
        if f.kind == "nl":
            p, q = R.toks(at + 2).vec(), R.toks(at + 8).vec()
            if len(p) != len(q) or any(u != v if exact else not abs(u - v) <= 1e-9 * abs(u) for u, v in zip(p, q)):
                c.fail("parameters:" + g, saved=p, loaded=q, **what)
                continue
        v, w, z = vals(3), vals(9), vals(12)
        for x, y1, y2, y3 in zip(pts, v, w, z):
            c.seen(g, tuple(f.toks), tuple(x), f.dy, R.res[at + 2][1])
            c.count("values compared after one round trip")
            if exact and (f.kind == "rational" or f.given[1] == f.pin):
                ok = sames(y1, y2)
            else:
                # rounding to ten digits, or evaluating a factor in another parametrization, may be amplified by steep functions
                ok = len(y1) == len(y2) and all(same(p, q) or abs(p - q) <= 1e-4 * max(abs(p), abs(q)) + 1e-12 for p, q in zip(y1, y2))
            if not ok:
                c.fail("values:" + g, x=x, saved=y1, loaded=y2, **what)
                break
            if not (sames(y2, y3) or f.kind == "rational" and all(same(p, q) or abs(p - q) <= 1e-6 * max(abs(p), abs(q)) for p, q in zip(y2, y3))):
                c.fail("values-second-round-trip:" + g, x=x, first=y2, second=y3, second_file=two, **what)
                break
        strip = lambda s: [l for l in s.split("\n") if not l.startswith("#CMD")]
        if strip(one) != strip(two) and f.kind != "rational":
            c.fail("file-changes:" + g, second_file=two, **what)
        c.count("functions: " + g)


check.main("C15", main,
           "One evaluation per distinct function, parameter vector and point: the value after saving and loading against the value before. "
           "Most parameter vectors have at most ten digits, for which the printed file is exact and equality is required bit by bit.",
           ["the output parametrization is not part of the native format and is not compared"])
