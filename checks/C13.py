"""C13: analytic models evaluate to their published formulas."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, dirs, driver, models, oracle, shapes
from gen import *


def points(r, n, below):
    """Directions above the horizon, singular ones, and ones below it."""
    out = [(k, V, L) for k, V, L in dirs.pairs(r, n)]
    for _ in range(below):
        V, L = dirs.rand_dir(r), dirs.rand_dir(r)
        k = r.randrange(3)
        if k != 1:
            V = [V[0], V[1], -V[2]]
        if k != 0:
            L = [L[0], L[1], -L[2]]
        if V[2] + L[2] > 1e-3 and dirs.norm([a + b for a, b in zip(V, L)]) > 1e-3:
            out.append(("below", V, L))
        elif k != 2:
            continue
    return out


def main(c):
    t = build.ensure("asan", build.NL, driver=True)
    r = c.rng
    S, want = driver.Script(), {}
    n = c.scale(7, 60)
    for m in models.LOBES + models.FACTORS:
        for k in range(n):
            dy = r.choice([1, 2, 3, 3, 4])
            given = None
            if m.pin == "given":
                given = r.choice(shapes.FULL + dirs.ISO)
            elif m.pin == "CARTESIAN" and k % 2:
                given = r.choice(["CARTESIAN", "RUSIN_TH_PH_TD_PD", "RUSIN_TH_TD_PD", "ISOTROPIC_TV_TL_DPHI", "COS_TH"])
            f = shapes.random_fn(r, dy, single=m, factor=False, given=given, nsum=1)
            l = f.leaves[0]
            pin = l.pin if m.pin != "given" else given or f.pin
            one = hasattr(m, "f1") and pin != "CARTESIAN"
            pts = []
            if one:
                xs = [0.0, 1.0, .5] + [r.random() for _ in range(20)] + [1 - 10 ** r.uniform(-9, -1) for _ in range(8)] + [-r.random(), 1 + r.random()]
                pts = [("x", [x]) for x in xs]
            else:
                for kind, V, L in points(r, 30, 12):
                    x = dirs.coords(V, L, pin) if pin in ("CARTESIAN",) or kind != "below" else None
                    if x is not None and all(v is not None and math.isfinite(v) for v in x):
                        pts.append((kind, x, V, L))
            p2 = m.rand(r, dy)
            cmds = shapes.build_cmds("F", f)
            nb = len(cmds)
            ev = "fvals F %d %s" % (len(pts), " ".join(driver.fv(p[1]) for p in pts))
            cmds += ["fnb F", "fpar F", "fpmin F", "fpmax F", ev, "fsetp F %s" % driver.fv(p2), "fpar F", ev, "fsetp F %s" % driver.fv(l.p), "finfo F", ev]
            cid = "v%d" % len(want)
            S.case(cid, cmds)
            want[cid] = (m, f, pin, one, pts, p2, nb)
    res, err = driver.run(t, S, c.tmp())
    for e in err:
        c.fail("driver", error=e)
    for cid, (m, f, pin, one, pts, p2, nb) in want.items():
        R = res[cid]
        tag = m.name.split("_", 1)[1] + (":" + m.opts[1] if m.opts[:1] == ("--sg-type",) else ":retro" if m.opts == ("--retro",) else "")
        if not c.judge_death(R, tag + ":"):
            continue
        what = dict(case=cid, args=f.toks, dimY=f.dy, parameters=f.leaves[0].p, script=R.cmds)
        bad = [j for j in range(len(R.cmds)) if not R.ok(j)]
        if bad:
            c.fail("exception:%s:%s" % (tag, R.cmds[bad[0]].split()[0]), got=R.res[bad[0]], **what)
            continue
        p = f.leaves[0].p
        k = R.toks(nb).int()
        if k != m.nb(f.dy):
            c.fail("number-of-parameters:" + tag, got=k, want=m.nb(f.dy), **what)
            continue
        got, lo, hi, got2 = R.toks(nb + 1).vec(), R.toks(nb + 2).vec(), R.toks(nb + 3).vec(), R.toks(nb + 6).vec()
        if got != p or got2 != p2:
            c.fail("parameters-read-back:" + tag, got=[got, got2], want=[p, p2], **what)
        if len(lo) != k or len(hi) != k or any(not a <= b for a, b in zip(lo, hi)):
            c.fail("bounds:" + tag, lower=lo, upper=hi, **what)
        else:
            # every parameter vector of the model is admissible
            for q in (p, p2):
                if any(v < a - 1e-12 or v > b + 1e-12 for v, a, b in zip(q, lo, hi)):
                    c.fail("bounds-exclude:" + tag, lower=lo, upper=hi, vector=q, **what)
        I = R.toks(nb + 9)
        if (I.int(), I.int()) != (NAMED[pin], f.dy):
            c.fail("dimensions:" + tag, got=R.res[nb + 9][1], want=[NAMED[pin], f.dy, pin], **what)
        A, B, C = R.toks(nb + 4), R.toks(nb + 7), R.toks(nb + 10)
        A.int(), B.int(), C.int()
        yoo = 0
        for pt in pts:
            ya, yb, yc = A.vec(), B.vec(), C.vec()
            c.seen(tag, f.dy, pt[0], tuple(pt[1]), tuple(p))
            if not all(a == b or (a != a and b != b) for a, b in zip(ya, yc)) or len(ya) != len(yc):
                c.fail("not-reproducible:" + tag, x=pt[1], first=ya, again=yc, **what)
            if len(ya) != f.dy:
                c.fail("channels:" + tag, got=len(ya), **what)
                continue
            for y, q in ((ya, p), (yb, p2)):
                if pt[0] == "below" and tag == "shadowing_smith":
                    continue                      # its denominator cancels there
                if one:
                    x = pt[1][0]
                    try:
                        w = [m.f1(a, x) for a in m.split(q, f.dy)]
                    except (ZeroDivisionError, ValueError, OverflowError):
                        continue
                    tol = [1e-10 * abs(v) + 1e-30 for v in w]
                else:
                    V, L = (pt[1][:3], pt[1][3:]) if pin == "CARTESIAN" else pt[2:]
                    b = oracle.band(r, lambda V, L: m.value(q, f.dy, V, L, dict(kd=f.kd)), V, L)
                    if b is None:
                        c.count("points where the closed form is undefined or jumps")
                        continue
                    w, tol = b
                    if tag == "function_sgd":
                        tol = [max(a, 1e-8 * (abs(v) + abs(q[9 * f.dy + i] * q[7 * f.dy + i]) * 10)) for i, (a, v) in enumerate(zip(tol, w))]
                c.count("values compared")
                c.count("values compared: " + tag)
                if any(not abs(a - v) <= e for a, v, e in zip(y, w, tol)):
                    c.fail("value:" + tag + (":" + pt[0] if pt[0] == "below" else ""), kind=pt[0], x=pt[1], q=q, got=y, want=w, tolerance=tol, **what)
                if "yoo" in m.tags and not one:
                    pub = oracle.closed(lambda V, L: [m.published(a, V, L) for a in m.split(q, f.dy)], V, L)
                    if pub and any(abs(a - v) > 1e-6 * abs(v) for a, v in zip(y, pub)):
                        c.fail("retroyoo-departs-from-publication", x=pt[1], got=y, want=pub, **what)
    c.sample(dict(values={k: v for k, v in c.stats.items() if k.startswith("values compared: ")}))


check.main("C13", main,
           "One evaluation per distinct point, model and parameter vector: the library's value against an independent closed form, with "
           "parameters set, read back, changed and set again in the same object.",
           ["values are compared where the closed form does not jump within rounding of the direction pair",
            "the isotropic Lafortune plugin is not built by CMake and is not covered"])
