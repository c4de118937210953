"""C10: UTIA tables interpolate their samples and survive export."""
import array, itertools, math, os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, driver
from gen import *

NT, NP = 6, 48
N = NT * NP * NT * NP
D = math.pi / 180


def index(ti, pi, tv, pv):
    return ((ti * NP + pi) * NT + tv) * NP + pv


def axis_t(t):
    d = t / D / 15
    i = min(NT - 2, int(math.floor(d)))
    return [(i, i + 1 - d), (i + 1, d - i)]


def axis_p(p):
    d = (p / D / 7.5) % NP
    i = int(math.floor(d)) % NP
    return [(i, 1 - (d - math.floor(d))), ((i + 1) % NP, d - math.floor(d))]


def corners(x):
    for (a, wa), (b, wb), (e, we), (f, wf) in itertools.product(axis_t(x[0]), axis_p(x[1]), axis_t(x[2]), axis_p(x[3])):
        yield index(a, b, e, f), wa * wb * we * wf


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


def main(c):
    t = build.ensure("asan", ["data_utia"], driver=True)
    r = c.rng
    W = c.tmp()
    S = driver.Script()
    tabs, plan = {}, {}
    for k in range(c.scale(8, 40)):
        kind = k % 4
        if kind == 0:
            T = array.array("d", [r.random() for _ in range(3 * N)])
        elif kind == 1:
            T = array.array("d", [10 ** r.uniform(-6, 4) for _ in range(3 * N)])
        elif kind == 2:
            T = array.array("d", [r.uniform(-1, 1) for _ in range(3 * N)])
        else:
            T = array.array("d", [float(i % 5003) for i in range(3 * N)])
        f = os.path.join(W, "t%d.bin" % k)
        open(f, "wb").write(T.tobytes())
        tabs[k] = T
        cmds, st = ["dload T data_utia %s -" % driver.q(f), "dinfo T"], [("load",), ("info",)]
        cur = {}
        idx = [0, N - 1, NP, NP * NT] + [r.randrange(N) for _ in range(c.scale(300, 3000))]
        cmds.append("drows T " + " ".join(map(str, idx)))
        st.append(("rows", idx, dict(cur)))
        for _ in range(c.scale(3, 8)):
            pts = []
            for _ in range(c.scale(400, 3000)):
                q = r.random()
                if q < .3:      # stored configuration
                    p = [r.randrange(NT) * 15 * D, r.randrange(NP) * 7.5 * D, r.randrange(NT) * 15 * D, r.randrange(NP) * 7.5 * D]
                else:
                    p = [r.uniform(0, 90 * D), r.uniform(0, 2 * math.pi), r.uniform(0, 90 * D), r.uniform(0, 2 * math.pi)]
                    if r.random() < .5:
                        j = r.randrange(4)
                        p[j] = r.choice([0.0, math.pi / 2, 75 * D]) if j % 2 == 0 else r.choice([0.0, 2 * math.pi, 352.5 * D, math.pi])
                    if r.random() < .3:
                        j = r.randrange(4)
                        p[j] = min(max(round(p[j] / (7.5 * D)) * 7.5 * D + r.choice([-1, 1]) * 10 ** r.uniform(-9, -3), 0), 90 * D if j % 2 == 0 else 2 * math.pi)
                if r.random() < .2:
                    j = r.choice([1, 3])
                    if p[j] > 0:
                        p[j] -= 2 * math.pi
                pts.append(p)
            cmds.append("dvals T %d %s" % (len(pts), " ".join(driver.fv(p) for p in pts)))
            st.append(("vals", pts, dict(cur)))
            tgt = [r.randrange(N) for _ in range(30)]
            for i in tgt:
                y = [r.uniform(0, 5) for _ in range(3)]
                cmds.append("dset T %d %s" % (i, driver.fv([0, 0, 0, 0] + y)))
                st.append(("set",))
                cur[i] = y
            look = [j for i in tgt for j in (i, (i + 1) % N, (i + NP) % N, (i + NP * NT) % N)]
            cmds.append("drows T " + " ".join(map(str, look)))
            st.append(("rows", look, dict(cur)))
            at = []
            for i in tgt:
                at.append([i // (NP * NT * NP) * 15 * D, i // (NT * NP) % NP * 7.5 * D, i // NP % NT * 15 * D, i % NP * 7.5 * D])
            cmds.append("dvals T %d %s" % (len(at), " ".join(driver.fv(p) for p in at)))
            st.append(("vals", at, dict(cur)))
        smp = [r.randrange(N) for _ in range(200)] + list(cur)
        cmds += ["dsave T out.exr", "dload U data_utia out.exr -", "drows U " + " ".join(map(str, smp)),
                 "dsave T out.bin", "dload V data_utia out.bin -", "deq T V 0x0p+0"]
        st += [("save",), ("load",), ("exr", smp, dict(cur)), ("save",), ("load",), ("eq",)]
        if k == 0:
            cmds += ["dget Z data_utia 3 4 3 SPHERICAL_TL_PL_TV_PV RGB_COLOR -", "drows Z 0 5 %d" % (N - 1)]
            st += [("load",), ("zeros",)]
        S.case("u%d" % k, cmds, 300)
        plan["u%d" % k] = (k, st)
    res, err = driver.run(t, S, W)
    for e in err:
        c.fail("driver", error=e)
    for cid, (k, st) in plan.items():
        T = tabs[k]
        R = res[cid]
        if not c.judge_death(R):
            continue

        def stored(i, cur):
            return cur[i] if i in cur else [T[i + n * N] for n in range(3)]
        for j, s in enumerate(st):
            if not R.ok(j):
                c.fail("exception:" + s[0], case=cid, got=R.res[j], command=R.cmds[j][:200])
                break
            X = R.toks(j)
            if s[0] == "load":
                c.seen(cid, j)
                got = [X.int(), X.int(), X.int(), X.raw(), X.raw()]
                if got != [N, 4, 3, "SPHERICAL_TL_PL_TV_PV", "RGB_COLOR"]:
                    c.fail("parameters", got=got)
            elif s[0] == "info":
                for _ in range(5):
                    X.raw()
                lo, hi = X.vec(), X.vec()
                w = [math.pi / 2, 2 * math.pi] * 2
                if lo != [0] * 4 or any(abs(a - b) > 1e-12 for a, b in zip(hi, w)):
                    c.fail("domain", got=[lo, hi])
            elif s[0] in ("rows", "exr"):
                X.int()
                for i in s[1]:
                    row = X.vec()
                    c.seen(cid, j, i)
                    c.count("entries read")
                    w = [i // (NP * NT * NP) * 15 * D, i // (NT * NP) % NP * 7.5 * D, i // NP % NT * 15 * D, i % NP * 7.5 * D]
                    if len(row) != 7 or any(abs(a - b) > 1e-12 for a, b in zip(row, w)):
                        c.fail("entry-coordinates", index=i, got=row, want=w)
                        break
                    y = stored(i, s[2])
                    if s[0] == "exr":
                        y = [f32(v) for v in y]
                    if row[4:] != y:
                        c.fail("entry-value:" + s[0], index=i, got=row[4:], want=y)
                        break
            elif s[0] == "vals":
                X.int()
                for p in s[1]:
                    y = X.vec()
                    c.seen(cid, j, tuple(p))
                    c.count("evaluations")
                    cs = list(corners(p))
                    bad = False
                    for n in range(3):
                        vs = [stored(i, s[2])[n] for i, w in cs]
                        want = sum(w * v for (i, w), v in zip(cs, vs))
                        # weights are computed in single precision; the table's variation bounds their effect.
                        # Near a node of the azimuth or elevation axis either cell may be used: same value by continuity.
                        tol = 4e-5 * (max(map(abs, vs)) + max(map(abs, [stored(i, s[2])[n] for q in jitter(p) for i, w in corners(q)])))
                        if not abs(y[n] - want) <= tol:
                            bad = True
                        if p[0] <= 75 * D and p[2] <= 75 * D:
                            c.count("range checks")
                            if not min(vs) - tol <= y[n] <= max(vs) + tol:
                                c.fail("out-of-range", at=p, got=y[n], among=[min(vs), max(vs)])
                    if bad:
                        c.fail("value", at=p, got=y, want=[sum(w * stored(i, s[2])[n] for i, w in cs) for n in range(3)])
                        break
            elif s[0] == "eq":
                c.seen(cid, "eq")
                if X.int() != 1:
                    c.fail("binary-reload-differs", case=cid)
            elif s[0] == "zeros":
                for _ in range(X.int()):
                    if X.vec()[4:] != [0, 0, 0]:
                        c.fail("new-table-not-black")
    c.sample(dict(tables=len(tabs), entries=N, points=pts[:2]))


def jitter(p):
    e = 1e-4
    return [[min(max(a + s * e, 0), math.pi / 2) if i % 2 == 0 else a + s * e for i, a in enumerate(p)] for s in (-1, 1)]


check.main("C10", main,
           "One evaluation per entry read, configuration evaluated or reloaded table; random tables, stored configurations, axis nodes, "
           "wrap-around azimuths, domain corners, interleaved with writes.",
           ["beyond the last stored elevation (75 degrees) evaluation is the linear extrapolation of the format's reference code, "
            "so the range claim is checked up to it", "interpolation weights are single precision"])
