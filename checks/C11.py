"""C11: interpolating data reproduces its samples and stays within their range."""
import itertools, math, os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, driver, exr
from gen import *

H = math.pi / 2
DOM = {"COS_TH": [(0, 1)], "COS_TK": [(0, 1)], "COS_TLV": [(-1, 1)], "COS_TLR": [(-1, 1)], "COS_TH_TD": [(0, 1)] * 2,
       "RUSIN_TH_TD": [(0, H)] * 2, "ISOTROPIC_TV_PROJ_DPHI": [(-H, H)] * 2, "STARK_2D": [(0, 1)] * 2,
       "RUSIN_TH_TD_PD": [(0, H), (0, H), (0, 4 * H)], "STARK_3D": [(0, 1), (0, 1), (0, 4 * H)]}
REV = ["ISOTROPIC_TL_TV_PROJ_DPHI", "SCHLICK_TL_TK_PROJ_DPHI", "RETRO_TL_TVL_PROJ_DPHI"]


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


def multilinear(x, dom, size, nodes):
    """Exact interpolation in the cell of X; nodes in row-major order."""
    ax = []
    for v, (a, b), n in zip(x, dom, size):
        u = (v - a) / (b - a) * (n - 1)
        k = min(max(int(math.floor(u)), 0), max(n - 2, 0))
        ax.append([(k, 1 - (u - k)), (k + 1, u - k)] if n > 1 else [(0, 1.0)])
    res, used = None, []
    for cs in itertools.product(*ax):
        i, w = 0, 1.0
        for (k, q), n in zip(cs, size):
            i, w = i * n + k, w * q
        y = nodes[i]
        used.append(y)
        res = [w * v for v in y] if res is None else [a + w * v for a, v in zip(res, y)]
    return res, used


def grids(c, S, plan):
    r = c.rng
    for k in range(c.scale(120, 900)):
        p = r.choice(list(DOM))
        d = NAMED[p]
        size = [r.choice([2, 2, 3, 5, 8, 10, 17, 1]) for _ in range(d)]
        if d == 3:
            size = [min(s, 8) for s in size]
        if r.random() < .06:
            size = [r.choice([33, 64, 65, 128, 200])] if d == 1 else [r.choice([31, 40]), r.choice([2, 21])] + [2] * (d - 2)
        dy = r.choice([1, 1, 3, 3, 2]) if r.random() < .93 else r.choice([4, 5, 9, 17])
        if r.random() < .15:
            size, arg = [10] * d, ""
        else:
            arg = " --grid-size [%s]" % r.choice([", ", ","]).join(map(str, size))
        n = 1
        for s in size:
            n *= s
        out = {1: "INV_STERADIAN", 3: "RGB_COLOR"}.get(dy, "UNKNOWN_OUTPUT")
        how = r.random() < .5
        toks = (["--param", p] if how else []) + (arg.split() if arg else [])
        cmds = ["args A x " + " ".join(map(driver.q, toks)),
                "dget G data_grid %d %d %d %s %s A" % (r.choice([1, n, n + 7]), d, dy, "CARTESIAN" if how else p, out), "dinfo G", "drows G"]
        st = [("nop",), ("gnew", p, dy, out, n), ("ginfo", p), ("gnodes", p, size)]
        nodes = [[finite(r, 6) for _ in range(dy)] for _ in range(n)]
        absc = []
        for i in range(n):
            ks, q = [], i
            for s in reversed(size):
                ks.append(q % s)
                q //= s
            ks.reverse()
            x = [a + (b - a) * kk / max(s - 1, 1) for kk, s, (a, b) in zip(ks, size, DOM[p])]
            absc.append(x)
            cmds.append("dset G %d %s" % (i, driver.fv(x + nodes[i])))
            st.append(("nop",))
        pts = [("node", i, absc[i]) for i in r.sample(range(n), min(n, 30))]
        for cs in itertools.product(*DOM[p]):
            pts.append(("corner", None, list(cs)))
        for _ in range(c.scale(60, 150)):
            x = [r.uniform(a, b) for a, b in DOM[p]]
            if r.random() < .4:
                j = r.randrange(d)
                x[j] = r.choice(DOM[p][j])
            if r.random() < .3:
                j = r.randrange(d)
                a, b = DOM[p][j]
                x[j] = min(max(a + (b - a) * r.randrange(size[j]) / max(size[j] - 1, 1) + r.choice([0, 1e-15, -1e-15, 1e-9, -1e-9]), a), b)
            pts.append(("in", None, x))
        cmds.append("dvals G %d %s" % (len(pts), " ".join(driver.fv(x) for _, _, x in pts)))
        st.append(("gvals", p, size, nodes, pts))
        cmds += ["dsave G g.txt", "dload H data_grid g.txt -", "drows H"]
        st += [("nop",), ("gload", p, dy, n), ("gback", absc, nodes)]
        plan["g%d" % k] = st
        S.case("g%d" % k, cmds)


def slices(c, S, plan):
    r = c.rng
    W = c.tmp()
    for k in range(c.scale(40, 300)):
        p = r.choice(["STARK_2D", "COS_TH_TD", "RUSIN_TH_TD", "NEUMANN_2D", "RUSIN_TH_TD_PD", "STARK_3D"] + REV + [None])
        w, h = (r.choice([1, 2, 3, 8, 31, 64]), r.choice([1, 2, 5, 16, 33])) if r.random() < .93 else (r.choice([3, 100, 129]), r.choice([7, 90, 128]))
        big = k % 10 == 0
        if big:
            w = h = 512
        d = NAMED[p or "STARK_2D"]
        toks = ["--param", p] if p else []
        phi = 90.0
        if d == 3 and r.random() < .5:
            phi = r.choice([0.0, 30.0, 45.5, 180.0])
            toks += ["--phi", repr(phi)]
        cmds = ["args A x " + " ".join(map(driver.q, toks))]
        st = [("nop",)]
        pl = {ch: [f32(r.uniform(0, 4)) for _ in range(w * h)] for ch in "RGB"} if not big else {ch: [0.0] * (w * h) for ch in "RGB"}
        chans = "RGB" if big or r.random() < .8 else r.choice(["RG", "G", "B", "RGBA"])
        if not big:
            src = {ch: pl.get(ch) or [0.5] * (w * h) for ch in chans}
            half, comp = r.random() < .3, r.choice([0, 0, 2, 3])
            if half:
                for ch in src:
                    src[ch] = [struct.unpack("<e", struct.pack("<e", v))[0] for v in src[ch]]
            f = os.path.join(W, "s%d.exr" % k)
            open(f, "wb").write(exr.write(w, h, src, half, comp))
            pix = [[src[ch][i] if ch in src else 0.0 for ch in "RGB"] for i in range(w * h)]
            cmds.append("dload G data_brdf_slice %s A" % driver.q(f))
        else:
            pix = [[0.0] * 3 for _ in range(w * h)]
            cmds.append("dget G data_brdf_slice 1 2 3 STARK_2D RGB_COLOR A")
        st.append(("snew", d, p or "STARK_2D", w * h))
        lo, hi = (0, H) if p in ("RUSIN_TH_TD", "RUSIN_TH_TD_PD") else (-H, H) if p in REV else (0, 1)
        for _ in range(r.choice([0, 5])):
            i = r.randrange(w * h)
            y = [r.random() for _ in range(3)]
            cmds.append("dset G %d %s" % (i, driver.fv([0.0] * d + y)))
            st.append(("nop",))
            pix[i] = y
        ix = [r.randrange(w * h) for _ in range(30)] + [0, w * h - 1]
        if big:
            ix += [r.randrange(w * h) for _ in range(100)]
        cmds.append("drows G " + " ".join(map(str, ix)))
        st.append(("srows", ix, [list(pix[i]) for i in ix], w, h, lo, hi, p, phi))
        pts, want = [], []

        def put(u, v, cells):
            x = [u, v] + ([phi * math.pi / 180] if d == 3 else [])
            if p in REV:
                x.reverse()
            pts.append(x)
            want.append([pix[j * w + i] for i, j in cells])

        def cand(t, n):
            q = (t - lo) / (hi - lo) * n
            return {min(max(int(math.floor(q + e)), 0), n - 1) for e in (-1e-9, 0, 1e-9)}
        for i in ix:
            put(lo + (hi - lo) * (i % w + .5) / w, lo + (hi - lo) * (i // w + .5) / h, [(i % w, i // w)])
        for u, v in itertools.product([lo, hi, (lo + hi) / 2], repeat=2):
            put(u, v, list(itertools.product(cand(u, w), cand(v, h))))
        for _ in range(c.scale(60, 200)):
            u, v = r.uniform(lo, hi), r.uniform(lo, hi)
            if r.random() < .3:
                u = r.choice([lo, hi, lo + (hi - lo) * r.randrange(w + 1) / w])
            if r.random() < .3:
                v = r.choice([lo, hi, lo + (hi - lo) * r.randrange(h + 1) / h])
            put(u, v, list(itertools.product(cand(u, w), cand(v, h))))
        cmds.append("dvals G %d %s" % (len(pts), " ".join(driver.fv(x) for x in pts)))
        st.append(("svals", pts, want))
        cmds += ["dsave G out.exr", "dload B data_brdf_slice out.exr A", "drows B " + " ".join(map(str, ix))]
        st += [("nop",), ("snew", d, p or "STARK_2D", w * h), ("srows", ix, [[f32(v) for v in pix[i]] for i in ix], w, h, lo, hi, p, phi)]
        plan["s%d" % k] = st
        S.case("s%d" % k, cmds)


def scattered(c, S, plan):
    r = c.rng
    for k in range(c.scale(60, 500)):
        p = r.choice(["COS_TH", "RUSIN_TH_TD", "STARK_2D", "RUSIN_TH_TD_PD", "ISOTROPIC_TV_TL_DPHI", "SPHERICAL_TL_PL_TV_PV"])
        d = NAMED[p]
        dy = r.choice([1, 3, 2]) if r.random() < .93 else r.choice([4, 7])
        n = r.choice([1, 2, 3, 4, 10, 30, 100, 400]) if r.random() < .95 else r.choice([1000, 1025])
        if r.random() < .3:          # structured samples, many shared coordinates
            m = max(2, int(round(n ** (1.0 / d))))
            X = [[1.5 * i / m for i in ks] for ks in itertools.product(range(m), repeat=d)]
            r.shuffle(X)
        else:
            X = []
            while len(X) < n:
                x = [r.uniform(0, 1.5) for _ in range(d)]
                if all(sum((a - b) ** 2 for a, b in zip(x, z)) > (1e-6 if d == 1 else 1e-5) for z in X):
                    X.append(x)
        n = len(X)
        Y = [[r.uniform(-3, 3) if r.random() < .8 else finite(r, 5) for _ in range(dy)] for _ in X]
        txt = "#DIM %d %d\n#PARAM_IN %s\n#PARAM_OUT %s\n" % (d, dy, p, {1: "INV_STERADIAN", 3: "RGB_COLOR"}.get(dy, "UNKNOWN_OUTPUT"))
        txt += "".join(" ".join(repr(v) for v in x + y) + "\n" for x, y in zip(X, Y))
        Q = [r.choice(X) if r.random() < .4 else [r.uniform(-.1, 1.6) for _ in range(d)] for _ in range(60)]
        ix = [r.randrange(n) for _ in range(10)]
        cmds = ["write d.txt " + driver.q(txt), "dload G data_rbf d.txt -", "dinfo G", "dvals G %d %s" % (len(Q), " ".join(driver.fv(x) for x in Q)),
                "drows G " + " ".join(map(str, ix)), "dvals G %d %s" % (len(Q), " ".join(driver.fv(x) for x in Q))]
        st = [("nop",), ("rload", n, d, dy, p), ("rinfo", X), ("rvals", X, Y, Q), ("rrows", [X[i] + Y[i] for i in ix]), ("rvals", X, Y, Q)]
        plan["r%d" % k] = st
        S.case("r%d" % k, cmds)


def main(c):
    t = build.ensure("asan", ["data_grid", "data_rbf", "data_brdf_slice"], driver=True)
    S, plan = driver.Script(), {}
    grids(c, S, plan)
    slices(c, S, plan)
    scattered(c, S, plan)
    res, err = driver.run(t, S, c.tmp())
    for e in err:
        c.fail("driver", error=e)
    for cid, st in plan.items():
        R = res[cid]
        if not c.judge_death(R, {"g": "grid:", "s": "slice:", "r": "rbf:"}[cid[0]]):
            continue
        for j, s in enumerate(st):
            kind = s[0]
            if not R.ok(j):
                c.fail("exception:%s:%s" % (cid[0], kind), case=cid, got=driver.unq(R.res[j][1]).decode("latin-1"), command=R.cmds[j][:200], script=R.cmds[:3])
                break
            X = R.toks(j)
            what = dict(case=cid, setup=[x[:200] for x in R.cmds[:3]])
            if kind == "nop":
                continue
            c.seen(cid, j)
            if kind == "gnew":
                got = [X.int(), X.int(), X.int(), X.raw(), X.raw()]
                if got != [s[4], NAMED[s[1]], s[2], s[1], s[3]]:
                    c.fail("grid:parameters", got=got, **what)
            elif kind == "ginfo":
                for _ in range(5):
                    X.raw()
                if list(zip(X.vec(), X.vec())) != [(float(a), float(b)) for a, b in DOM[s[1]]]:
                    c.fail("grid:domain", **what)
            elif kind == "gnodes":
                n = X.int()
                dom, size = DOM[s[1]], s[2]
                for i in range(n):
                    x = X.vec()[:len(size)]
                    ks, q = [], i
                    for m in reversed(size):
                        ks.append(q % m)
                        q //= m
                    ks.reverse()
                    w = [a + (b - a) * kk / max(m - 1, 1) for kk, m, (a, b) in zip(ks, size, dom)]
                    if any(abs(a - b) > 1e-12 for a, b in zip(x, w)):
                        c.fail("grid:abscissa", index=i, got=x, want=w, **what)
                        break
            elif kind == "gvals":
                p, size, nodes, pts = s[1:]
                X.int()
                for tag, i, x in pts:
                    y = X.vec()
                    c.count("grid evaluations")
                    c.seen(cid, j, tuple(x))
                    want, used = multilinear(x, DOM[p], size, nodes)
                    tol = [1e-11 * max(abs(u[m]) for u in used) for m in range(len(y))]
                    if tag == "node":
                        want = nodes[i]
                        tol = [max(q, 1e-13 * max(abs(u[m]) for u in nodes)) for m, q in enumerate(tol)]
                    else:
                        # rounding may choose the neighbouring cell
                        tol = [max(q, 1e-13 * max(abs(u[m]) for u in nodes)) for m, q in enumerate(tol)]
                    if len(y) != len(want) or any(not abs(a - b) <= q for a, b, q in zip(y, want, tol)):
                        c.fail("grid:value:" + tag, at=x, got=y, want=want, size=size, **what)
                        break
                    if any(not min(u[m] for u in used) - q <= y[m] <= max(u[m] for u in used) + q for m, q in enumerate(tol)):
                        c.fail("grid:range", at=x, got=y, **what)
                        break
            elif kind == "gload":
                got = [X.int(), X.int(), X.int(), X.raw()]
                if got != [s[3], NAMED[s[1]], s[2], s[1]]:
                    c.fail("grid:reload-parameters", got=got, **what)
            elif kind == "gback":
                n = X.int()
                for i in range(n):
                    y = X.vec()
                    if any(abs(a - b) > 1e-13 * abs(b) for a, b in zip(y, s[1][i] + s[2][i])):
                        c.fail("grid:reload", index=i, got=y, want=s[1][i] + s[2][i], **what)
                        break
            elif kind == "snew":
                got = [X.int(), X.int(), X.int(), X.raw(), X.raw()]
                if got != [s[3], s[1], 3, s[2], "RGB_COLOR"]:
                    c.fail("slice:parameters", got=got, want=s[1:], **what)
            elif kind == "srows":
                ix, pix, w, h, lo, hi, p, phi = s[1:]
                X.int()
                for i, y in zip(ix, pix):
                    row = X.vec()
                    x, v = row[:-3], row[-3:]
                    u = [lo + (hi - lo) * (i % w + .5) / w, lo + (hi - lo) * (i // w + .5) / h] + ([phi * math.pi / 180] if len(x) == 3 else [])
                    if p in REV:
                        u.reverse()
                    c.count("pixels read")
                    if any(abs(a - b) > 1e-6 * (1 + abs(b)) for a, b in zip(x, u)):
                        c.fail("slice:coordinates", index=i, got=row, want=u, **what)
                        break
                    if v != y:
                        c.fail("slice:pixel", index=i, got=row, want=y, **what)
                        break
            elif kind == "svals":
                X.int()
                for x, w in zip(s[1], s[2]):
                    y = X.vec()
                    c.count("slice evaluations")
                    c.seen(cid, j, tuple(x))
                    if y not in w:
                        c.fail("slice:value", at=x, got=y, among=w[:4], **what)
                        break
            elif kind == "rload":
                got = [X.int(), X.int(), X.int(), X.raw()]
                if got != list(s[1:]):
                    c.fail("rbf:parameters", got=got, **what)
            elif kind == "rinfo":
                for _ in range(5):
                    X.raw()
                cols = list(zip(*s[1]))
                if X.vec() != [min(q) for q in cols] or X.vec() != [max(q) for q in cols]:
                    c.fail("rbf:domain", **what)
            elif kind == "rrows":
                X.int()
                for w in s[1]:
                    if X.vec() != w:
                        c.fail("rbf:sample", want=w, **what)
                        break
            elif kind == "rvals":
                A, Y, Q = s[1:]
                X.int()
                for x in Q:
                    y = X.vec()
                    c.count("scattered evaluations")
                    c.seen(cid, j, tuple(x))
                    ds = sorted((sum((a - b) ** 2 for a, b in zip(x, z)), i) for i, z in enumerate(A))
                    bad = None
                    # the three nearest samples explain the value; among equally near ones any choice will do
                    nn = min(3, len(A))
                    lim = ds[nn - 1][0]
                    sure = [q for q in ds[:nn] if q[0] < lim * (1 - 1e-9)]
                    tied = [q for q in ds if lim * (1 - 1e-9) <= q[0] <= lim * (1 + 1e-9)]
                    if ds[0][0] != 0 and len(tied) <= 12:
                        big = [max(abs(v[m]) for v in Y) for m in range(len(y))]
                        for sub in itertools.combinations(tied, nn - len(sure)):
                            ks = [(1 / (1e-10 + q), i) for q, i in sure + list(sub)]
                            tot = sum(q for q, _ in ks)
                            if all(abs(y[m] - sum(q * Y[i][m] for q, i in ks) / tot) <= 1e-9 * big[m] for m in range(len(y))):
                                break
                        else:
                            bad = "rbf:weights"
                    for m in range(len(y)):
                        lo, hi = min(v[m] for v in Y), max(v[m] for v in Y)
                        tol = 1e-12 * max(abs(lo), abs(hi))
                        if not lo - tol <= y[m] <= hi + tol:
                            bad = "rbf:range"
                        if ds[0][0] == 0:
                            near = ds[1][0] if len(ds) > 1 else 1
                            t2 = 4 * (1e-10 / (1e-10 + near)) * (hi - lo) + tol
                            if not abs(y[m] - Y[ds[0][1]][m]) <= t2:
                                bad = "rbf:sample-value"
                    if bad:
                        c.fail(bad, at=x, got=y, nearest=[(q, Y[i]) for q, i in ds[:4]], samples=len(A), **what)
                        break
    c.sample(dict(grids=sum(k[0] == "g" for k in plan), slices=sum(k[0] == "s" for k in plan), scattered=sum(k[0] == "r" for k in plan)))


check.main("C11", main,
           "One evaluation per observation: values at samples, cell nodes, edges, corners and random points of regular grids, image slices "
           "and scattered sample sets; reloaded containers; reported domains.",
           ["the scattered interpolant is documented to weigh its nearest samples with 1/(1e-10+d^2), which bounds how exactly a sample is reproduced",
            "a slice is piecewise constant: points within 1e-9 of a pixel border may use either pixel"])
