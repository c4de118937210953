"""C05: text loading honours filters and confidence-interval options."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, driver
from gen import *


def num(r, grid):
    """A number as text; often on a coarse grid so that bounds are hit exactly."""
    if grid:
        return r.choice(["%d", "%.1f", "%g", "%.3f", "%e"]) % (r.randrange(-30, 31) / 10.0)
    return r.choice(["%.17g", "%.6g", "%.3e", "%+.5f"]) % (r.uniform(-4, 4) if r.random() < .8 else 10 ** r.uniform(-9, 9))


COS = {  # cosine of the light's times cosine of the view's elevation, and their smallest
    "SPHERICAL_TL_PL_TV_PV": (4, lambda x: (math.cos(x[0]), math.cos(x[2]))),
    "ISOTROPIC_TV_TL_DPHI": (3, lambda x: (math.cos(x[0]), math.cos(x[1]))),
    "CARTESIAN": (6, lambda x: (x[2], x[5])),
    "STARK_2D": (2, lambda x: (math.sqrt(1 - x[0] * x[0] - x[1] * x[1]),) * 2 if x[0] * x[0] + x[1] * x[1] <= 1 else (-1, -1)),
    "COS_TLV": (1, lambda x: (1.0, x[0]))}


def coords(r, p):
    """Text of coordinates of one configuration of parametrization P, often below the surface."""
    if p == "CARTESIAN":
        v = []
        for _ in range(2):
            d = [r.gauss(0, 1) for _ in range(3)]
            n = math.sqrt(sum(a * a for a in d))
            d = [a / n for a in d]
            if r.random() < .8:
                d[2] = abs(d[2])
            v += d
        if v[2] + v[5] < 0:
            v[2], v[5] = -v[2], -v[5]
        return [repr(a) for a in v]
    hi = {"SPHERICAL_TL_PL_TV_PV": 1.9, "ISOTROPIC_TV_TL_DPHI": 1.9, "STARK_2D": .75, "COS_TLV": 1}[p]
    return ["%.6f" % (r.uniform(0 if p != "COS_TLV" else -.3, hi) if r.random() < .9 else 0) for _ in range(COS[p][0])]


def main(c):
    t = build.ensure("asan", driver=True)
    r = c.rng
    S = driver.Script()
    meta = {}
    W = c.tmp()
    for i in range(c.scale(700, 9000)):
        dx, dy = r.randrange(1, 5) if r.random() < .9 else r.randrange(5, 13), r.choice([1, 1, 2, 3]) if r.random() < .9 else r.randrange(4, 13)
        vs = r.choice([None, 0, 0, 1, 1, 2, 2])
        pin = "UNKNOWN"
        cosine = r.random() < .2
        if cosine:
            pin = r.choice(sorted(COS))
            dx = COS[pin][0]
        grid = r.random() < 0.7
        n = many(r, [0, 1, 3, 20, 60])
        head = ["#DIM %d %d" % (dx, dy), "#PARAM_IN " + pin, "#PARAM_OUT UNKNOWN"]
        if vs is not None:
            head.append("#VS %d" % vs)
        if r.random() < .3:
            head.insert(r.randrange(len(head) + 1), "# a remark: DIM 7 7")
        if r.random() < .2:
            head.insert(0, "#ALTA HEADER BEGIN")
            head.append(r.choice(["#ALTA END HEADER"]))
        rows, lines = [], []
        for _ in range(n):
            x = [num(r, grid) for _ in range(dx)] if not cosine else coords(r, pin)
            y = [num(r, grid) for _ in range(dy)]
            ci = ["%.4g" % (r.random() * r.choice([.1, 1, 10])) for _ in range({1: 1, 2: 2}.get(vs, 0))]
            rows.append(([float(a) for a in x], [float(a) for a in y], [float(a) for a in ci]))
            lines.append(r.choice([" ", "\t", "  "]).join(x + y + ci))
            if r.random() < .1:
                lines[-1] = r.choice([" ", "\t"]) + lines[-1]
            if r.random() < .2:
                lines[-1] += r.choice([" ", "\t", "  "])
            while r.random() < .12:
                lines.append(r.choice(["", " ", "\t ", "# remark 1 2 3", "#1 2 3 4 5 6", " # indented remark", "#"]))
        eol = r.choice(["\n", "\n", "\r\n"])
        text = eol.join(head + lines) + (eol if r.random() < .8 else "")
        args, box, o = [], {}, {}
        for k, d in (("min", dx), ("max", dx), ("ymin", dy), ("ymax", dy)):
            if r.random() < .35:
                s = -1 if k.endswith("min") else 1
                v = [(s * r.randrange(-5, 30) / 10.0) for _ in range(d)]
                if r.random() < .5:
                    v = [v[0]] * d
                    a = [r.choice(["%g", "%.2f"]) % v[0]]
                else:
                    a = ["[" + r.choice([",", ", ", " ,"]).join("%g" % w for w in v) + "]"]
                box[k] = v
                args += ["--" + k] + (a[0].split(" ") if r.random() < .5 else a)
        mode = r.choice(["abs", "abs", "relative", "max"])
        dt = 0.1
        if r.random() < .6:
            dt = r.choice([0.0, 0.05, 0.1, 0.5, 1.0, 0.3333333333333333])
            args += ["--dt", repr(dt)]
        if mode != "abs":
            args += ["--dt-" + mode]
        pos = r.random() < .3
        if pos:
            args += [r.choice(["--dt-positive", "--data-positive"])]
        if cosine:
            args += ["--data-correct-cosine"]
        want = []
        for x, y, ci in rows:
            l, u, yy = [], [], []
            ambiguous = False
            for j, v in enumerate(y):
                lo, hi = (ci[0], ci[0]) if j == 0 and vs == 1 else (ci[0], ci[1]) if j == 0 and vs == 2 else (dt, dt)
                if mode == "relative":
                    lo, hi = abs(v) * lo, abs(v) * hi
                elif mode == "max":
                    lo, hi = max(lo, abs(v) * lo), max(hi, abs(v) * hi)
                a, b, w = v - lo, v + hi, v
                if pos:
                    a, b, w = max(a, 0.0), max(b, 0.0), max(v, 0.0)
                l.append(a), u.append(b), yy.append(w)

            def inside(v, lo, hi):
                return all(p >= q for p, q in zip(v, box.get(lo, v))) and all(p <= q for p, q in zip(v, box.get(hi, v)))
            keep = inside(x, "min", "max")
            k1, k2 = keep and inside(y, "ymin", "ymax"), keep and inside(yy, "ymin", "ymax")
            if cosine:
                # divided by the product of the cosines; nothing to keep where it is not positive
                a, b = COS[pin][1](x)
                if min(a, b) < 1e-6:
                    k1, k2 = (False, False) if min(a, b) < -1e-6 else (k1, not k1)
                l, u, yy = ([v / (a * b) if a * b else 0 for v in w] for w in (l, u, yy))
                c.count("samples corrected by the cosines")
            want.append((x, yy, l, u, k1, k2))
        cid = "x%d" % i
        f = os.path.join(W, cid)
        with open(f, "w", newline="") as fh:
            fh.write(text)
        cmds = ["args A %s" % " ".join(map(driver.q, args)),
                r.choice(["dload X %%01 %s A" % f, "dload X vertical_segment %s A" % f, "dloads X vertical_segment %s A" % driver.q(text)]),
                "drows X", "dvsrows X", "dinfo X"]
        S.case(cid, cmds)
        meta[cid] = (dx, dy, want, args, text, vs, cosine)
    res, err = driver.run(t, S, W)
    for e in err:
        c.fail("driver", error=e)
    tol = lambda a, b: abs(a - b) <= 1e-12 * max(abs(a), abs(b), 1e-300)
    ctol = lambda a, b: abs(a - b) <= 1e-8 * max(abs(a), abs(b), 1e-12)      # the cosine is ill-conditioned at grazing angles
    for cid, (dx, dy, want, args, text, vs, cosine) in meta.items():
        R = res[cid]
        what = dict(case=cid, args=args, text=text[:600])
        if not c.judge_death(R):
            continue
        c.seen(tuple(args), text)
        if any(not R.ok(k) for k in range(5)) or R.res[1][1] == "null":
            c.fail("refused", got=[x for x in R.res.values() if x[0] != "OK"][:2], **what)
            continue
        T = R.toks(2)
        m = T.int()
        got = [T.vec() for _ in range(m)]
        T = R.toks(3)
        m2 = T.int()
        seg = [(T.vec(), T.vec(), T.vec()) for _ in range(m2)]
        # samples whose clamped and written ordinates differ in status may be kept or not
        gi = 0
        bad = None
        for x, y, l, u, k1, k2 in want:
            match = gi < m and (got[gi] == x + y if not cosine else got[gi][:dx] == x and all(map(ctol, got[gi][dx:], y)))
            if k1 and k2 and not match:
                bad = ("missing-or-altered", x + y, got[gi] if gi < m else None)
                break
            if not k1 and not k2:
                continue
            if k1 != k2 and not match:
                continue
            sx, sl, su = seg[gi]
            if sx != x or not all(map(ctol if cosine else tol, sl, l)) or not all(map(ctol if cosine else tol, su, u)):
                bad = ("interval:vs%s:%s" % (vs, [a for a in args if a.startswith("--dt-")]), dict(x=x, y=y, lower=l, upper=u), seg[gi])
                break
            gi += 1
            c.count("intervals compared", dy)
        if not bad and (gi != m or m2 != m):
            bad = ("extra", gi, dict(rows=m, segments=m2, row=got[gi] if gi < m else None))
        c.count("samples offered", len(want))
        c.count("samples kept", m)
        if bad:
            c.fail(bad[0], want=bad[1], got=bad[2], **what)
    c.sample(dict(args=args, text=text[:300]))


check.main("C05", main,
           "One evaluation per generated text file and option set: 1-4 x 1-3 dimensions, interval columns none/radius/min-max, box "
           "filters hit exactly on their bounds, --dt/--dt-relative/--dt-max/--dt-positive/--data-positive/--data-correct-cosine, comments, blank lines, tabs, CRLF, missing "
           "final newline, scalars and (spaced) vectors. Kept rows and intervals are compared with an independent reading of the file.",
           ["when --dt-positive moves an ordinate across a y bound, either reading of the filter is accepted",
            "--dt-relative and --dt-max are not combined; interval columns concern the first channel as implemented"])
