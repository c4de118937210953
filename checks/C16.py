"""C16: sums and products of functions behave as algebra."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, dirs, driver, models, shapes
from gen import *


def tag(f):
    return ("sum" if f.tree[0] == "sum" else "product") + ("" if all(l.free for l in f.leaves) else ":fixed")


def combine(f, t, v, j, free):
    """(value, derivative rows per channel) of a node from its leaves' values and derivatives."""
    if t[0] == "leaf":
        l = t[1]
        n = len(l.p)
        y, d = v[l.var], j[l.var]
        return list(y), [d[c * n:(c + 1) * n] if free(l) else [] for c in range(f.dy)], [abs(a) for a in y]
    if t[0] == "mul":
        (a, da, _), (b, db, _) = combine(f, t[1], v, j, free), combine(f, t[2], v, j, free)
        return [p * q for p, q in zip(a, b)], [[x * b[c] for x in da[c]] + [x * a[c] for x in db[c]] for c in range(f.dy)], [abs(p * q) for p, q in zip(a, b)]
    ys, js, ms = [0.0] * f.dy, [[] for _ in range(f.dy)], [0.0] * f.dy
    for s in t[1]:
        y, d, m = combine(f, s, v, j, free)
        for c in range(f.dy):
            ys[c] += y[c]
            js[c] += d[c]
            ms[c] += m[c]
    return ys, js, ms


def main(c):
    t = build.ensure("asan", build.NL, driver=True)
    r = c.rng
    S, want = driver.Script(), {}
    for k in range(c.scale(150, 1500)):
        f = None
        while f is None or len(f.leaves) < 2:
            f = shapes.built(r) if k % 4 == 3 else shapes.random_fn(r, factor=None if k % 3 else r.choice([True, False]), nsum=r.choice([1, 2, 2, 3, 4, 5]) if r.random() < .95 else r.choice([7, 9]))
        pts = []
        for _, V, L in dirs.pairs(r, 14):
            try:
                x = dirs.coords(V, L, f.pin)
            except ZeroDivisionError:
                continue
            if x is not None and all(v is not None and math.isfinite(v) for v in x):
                pts.append(x)
        cmds = shapes.build_cmds("F", f)
        ev = " %d %s" % (len(pts), " ".join(map(driver.fv, pts)))
        top = len(cmds)
        cmds += ["finfo F", "fkind F", "fsize F" if f.tree[0] == "sum" else "fnb F"]
        at = []                                   # (position, parameters expected in every leaf)
        now = {l.var: list(l.p) for l in f.leaves}
        def chain(l):
            names = ["F"]
            for j in range(len(l.path)):
                names.append("F_" + "_".join(map(str, l.path[:j + 1])))
            return names[::-1]
        for step in range(4):
            at.append((len(cmds), {k: list(v) for k, v in now.items()}))
            cmds += ["fnb F", "fpar F", "fpmin F", "fpmax F", "fvals F" + ev] + ["fjac F " + driver.fv(x) for x in pts]
            for l in f.leaves:
                cmds += ["fnb " + l.var, "fpar " + l.var, "fpmin " + l.var, "fpmax " + l.var, "fvalc %d %s" % (len(l.path) + 1, " ".join(chain(l))) + ev]
            if step % 2 == 0 and sum(len(l.p) for l in f.leaves if l.free):
                new = []
                for l in f.leaves:
                    if l.free:
                        q = list(now[l.var])
                        for j, v in enumerate(l.m.rand(r, f.dy) if not l.m.name.endswith("lafortune") else q):
                            if j < len(q) and r.random() < .7:
                                q[j] = v
                        now[l.var] = q
                        new += q
                cmds.append("fsetp F " + driver.fv(new))
            else:
                l = r.choice(f.leaves)            # a part is changed on its own, fixed or not
                if l.p:
                    q = list(now[l.var])
                    for j, v in enumerate(l.m.rand(r, f.dy) if not l.m.name.endswith("lafortune") else [x * 1.25 for x in q]):
                        if j < len(q):
                            q[j] = v
                    now[l.var] = q
                    cmds.append("fsetp %s %s" % (l.var, driver.fv(q)))
                else:
                    cmds.append("fnb F")
        cid = "a%d" % len(want)
        S.case(cid, cmds)
        want[cid] = (f, pts, at, top)
    res, err = driver.run(t, S, c.tmp())
    for e in err:
        c.fail("driver", error=e)
    for cid, (f, pts, at, top) in want.items():
        R = res[cid]
        g = tag(f)
        if not c.judge_death(R, g + ":"):
            continue
        what = dict(case=cid, args=f.toks, dimY=f.dy, parts=f.names(), script=R.cmds)
        bad = [j for j in range(len(R.cmds)) if not R.ok(j)]
        if bad:
            c.fail("exception:%s:%s" % (g, R.cmds[bad[0]].split()[0]), got=R.res[bad[0]], log=R.log()[-600:], **what)
            continue
        kind = R.res[top + 1][1].split()
        shape = R.res[top][1].split()[:4] + kind[1:3]
        w = [str(f.dx), str(f.dy), f.pin, f.pout, str(int(f.tree[0] == "sum")), str(int(f.tree[0] == "mul"))]
        if shape != w or f.tree[0] == "sum" and R.toks(top + 2).int() != len(f.tree[1]):
            c.fail("structure:" + g, got=[shape, R.res[top + 2][1]], want=w, **what)
            continue
        for step, (k, now) in enumerate(at):
            nb, par, lo, hi = R.toks(k).int(), R.toks(k + 1).vec(), R.toks(k + 2).vec(), R.toks(k + 3).vec()
            T = R.toks(k + 4)
            T.int()
            Y = [T.vec() for _ in pts]
            J = [R.toks(k + 5 + i).vec() for i in range(len(pts))]
            k += 5 + len(pts)
            wp, wlo, whi, V, D = [], [], [], [{} for _ in pts], [{} for _ in pts]
            ok = True
            for l in f.leaves:
                n, p, a, b = R.toks(k).int(), R.toks(k + 1).vec(), R.toks(k + 2).vec(), R.toks(k + 3).vec()
                T = R.toks(k + 4)
                T.int()
                for i in range(len(pts)):
                    V[i][l.var] = T.vec()
                    D[i][l.var] = T.vec()
                k += 5
                c.count("parts read")
                if p != now[l.var] or n != len(p):
                    c.fail(("fixed-part-changes:" if not l.free else "slice:") + g, step=step, part=l.m.name, got=p, want=now[l.var], **what)
                    ok = False
                if l.free:
                    wp, wlo, whi = wp + p, wlo + a, whi + b
            if not ok:
                break
            for name, got, w in (("parameters", par, wp), ("lower-bounds", lo, wlo), ("upper-bounds", hi, whi)):
                if nb != len(w) or not sames(got, w):
                    c.fail("%s:%s" % (name, g), step=step, nb=nb, got=got, want=w, **what)
                    ok = False
            if not ok:
                break
            for i, x in enumerate(pts):
                c.seen(g, f.names(), tuple(x), tuple(par), step)
                y, d, m = combine(f, f.tree, V[i], D[i], lambda l: l.free)
                c.count("values compared")
                if len(Y[i]) != f.dy or any(not same(a, b) and not abs(a - b) <= 1e-14 * s for a, b, s in zip(Y[i], y, m)):
                    if all(map(math.isfinite, Y[i])) or any(math.isfinite(a) != math.isfinite(b) for a, b in zip(Y[i], y)):
                        c.fail("value:" + g, step=step, x=x, got=Y[i], want=y, parts_values=V[i], **what)
                        break
                w = [v for row in d for v in row]
                c.count("derivatives compared", len(w))
                if len(J[i]) != len(w) or any(not same(a, b) and not abs(a - b) <= 1e-14 * (abs(a) + abs(b)) and (math.isfinite(a) or math.isfinite(b)) for a, b in zip(J[i], w)):
                    c.fail("derivative:" + g, step=step, x=x, got=J[i], want=w, **what)
                    break


check.main("C16", main,
           "One evaluation per distinct expression, point and state of its parameters: values, derivatives, parameters and bounds of the sum or "
           "product against its parts read one by one, through a history of changes to the whole and to single parts.",
           ["the parts are evaluated by the library itself, at the same point converted step by step; their own correctness is C01, C13 and C14"])
