"""C01: direction parametrizations round-trip."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, driver
from dirs import *

EPS = math.ulp(1.0)


def indomain(r, p):
    """Random coordinates of the domain of parametrization P (both directions above the horizon)."""
    q = math.pi / 2
    while True:
        if p in ("COS_TH", "COS_TK", "COS_TLV", "COS_TLR"):
            return [r.choice([r.random(), 1.0, 0.0, 1 - 10 ** r.uniform(-12, -2), 10 ** r.uniform(-12, -2)])]
        if p in ("STARK_2D", "NEUMANN_2D", "STARK_3D", "NEUMANN_3D"):
            a, b = r.random(), r.random()
            if a * a + b * b >= 0.999:
                continue
            x = [a, b]
            if p.endswith("3D"):
                x.append(r.uniform(0, 2 * math.pi))
                V, L = pairs(r, 1)[-1][1:]          # a realisable pair keeps the coordinates in the domain
                H = [(u + w) / 2 for u, w in zip(V, L)]
                B = [(w - u) / 2 for u, w in zip(V, L)]
                if math.hypot(H[0], H[1]) < 1e-3 or math.hypot(B[0], B[1]) < 1e-3 or H[2] < 1e-3:
                    continue
                x = coords(V, L, p)
            return x
        V, L = pairs(r, 10)[-r.randrange(1, 10)][1:]
        if V[2] < 1e-6 or L[2] < 1e-6:
            continue
        x = coords(V, L, p)
        return [clamp(z) for z in x] if p == "COS_TH_TD" else x


def cond(p, V, L):
    """Is the pair away from the singularities of P (where coordinates lose precision or are undefined)?"""
    if norm([a + b for a, b in zip(V, L)]) < 1e-3:
        return False
    if p == "RETRO_TL_TVL_PROJ_DPHI":
        return el(L) > 1e-3
    if p == "SCHLICK_TL_TK_PROJ_DPHI":
        return norm([V[0] - L[0], V[1] - L[1], V[2] + L[2]]) > 1e-3
    if p in ("NEUMANN_3D",):          # both z are recovered by a square root
        H = [(u + w) / 2 for u, w in zip(V, L)]
        return V[2] > 1e-2 and L[2] > 1e-2 and math.hypot(H[0], H[1]) > 1e-3 and math.hypot(V[0] - L[0], V[1] - L[1]) > 1e-3
    if p == "STARK_3D":
        H = [(u + w) / 2 for u, w in zip(V, L)]
        return H[2] > 1e-2 and math.hypot(H[0], H[1]) > 1e-3 and math.hypot(V[0] - L[0], V[1] - L[1]) > 1e-3
    return True


def main(c):
    t = build.ensure("asan", driver=True)
    S = driver.Script()
    r = c.rng
    n = c.scale(900, 12000)
    ps = pairs(r, n)
    fw, meta = [], {}
    chunk = 150
    ways = [p for p in FULL + ISO]
    for ci in range(0, len(ps), chunk):
        cmds, m = [], []
        for kind, V, L in ps[ci:ci + chunk]:
            for p in DIM:
                cmds.append("pconv CARTESIAN %s %s" % (p, driver.fv(V + L)))
                m.append((kind, V, L, p))
        cid = "fw%d" % ci
        S.case(cid, cmds)
        meta[cid] = m
    res, err = driver.run(t, S, c.tmp())
    S2 = driver.Script()
    meta2 = {}
    cmds, m = [], []

    def flush():
        if cmds:
            cid = "bw%d" % len(meta2)
            S2.case(cid, list(cmds))
            meta2[cid] = list(m)
            del cmds[:], m[:]
    for cid, mm in meta.items():
        R = res[cid]
        if not c.judge_death(R):
            continue
        for k, (kind, V, L, p) in enumerate(mm):
            if not R.ok(k):
                c.fail("exception:%s" % p, V=V, L=L, got=R.res[k])
                continue
            x = [driver.pf(z) for z in R.res[k][1].split(" ")]
            d = DIM[p]
            c.seen(p, kind, tuple(V), tuple(L))
            c.count("forward conversions")
            c.count("configurations " + kind, 1)
            if any(z != z or abs(z) == math.inf for z in x[:d]):
                c.fail("nan:%s:%s" % (p, kind), V=V, L=L, coordinates=x[:d])
                continue
            cmds.append("pconv %s CARTESIAN %s" % (p, driver.fv(x[:d])))
            m.append((kind, V, L, p, x[:d]))
            if len(cmds) >= 2000:
                flush()
    # in-domain coordinates -> directions -> coordinates
    for p in DIM:
        for _ in range(c.scale(60, 600)):
            x = indomain(r, p)
            cmds.append("pconv %s CARTESIAN %s" % (p, driver.fv(x)))
            m.append(("coords", None, None, p, x))
        flush()
    flush()
    res2, err2 = driver.run(t, S2, c.tmp())
    S3 = driver.Script()
    meta3 = {}
    for cid, mm in meta2.items():
        R = res2[cid]
        if not c.judge_death(R):
            continue
        cm, m3 = [], []
        for k, (kind, V, L, p, x) in enumerate(mm):
            if not R.ok(k):
                c.fail("exception:inverse:%s" % p, coordinates=x, got=R.res[k])
                continue
            y = [driver.pf(z) for z in R.res[k][1].split(" ")][:6]
            v, l = y[:3], y[3:]
            c.seen("inv", p, tuple(x))
            c.count("inverse conversions")
            if any(z != z or abs(z) == math.inf for z in y):
                c.fail("nan:inverse:%s:%s" % (p, kind), V=V, L=L, coordinates=x, back=y)
                continue
            ok = V is None or (p in ways and cond(p, V, L))
            if ok and (abs(norm(v) - 1) > 1e-9 or abs(norm(l) - 1) > 1e-9):
                c.fail("nonunit:%s" % p, coordinates=x, V=V, L=L, back=y, norms=[norm(v), norm(l)])
                continue
            if V is not None and ok:
                a, b, v2, l2 = V, L, v, l
                if p in ISO:
                    # align by the rotation about the normal that best matches both pairs
                    z = sum(complex(a_[0], a_[1]) * complex(b_[0], b_[1]).conjugate() for a_, b_ in ((V, v), (L, l)))
                    f = math.atan2(z.imag, z.real) if abs(z) > 0 else 0.0
                    v2, l2 = rotz(v, f), rotz(l, f)
                e = max(norm([s - u for s, u in zip(a, v2)]), norm([s - u for s, u in zip(b, l2)]))
                tol = 3e-7
                if p in ("NEUMANN_3D", "STARK_3D"):
                    tol = 1e-6
                c.count("round trips judged")
                if e > tol:
                    c.fail("roundtrip:%s" % p, V=V, L=L, kind=kind, coordinates=x, back=y, error=e)
            elif V is None:
                if v[2] < 0 or l[2] < 0:
                    continue
                cm.append("pconv CARTESIAN %s %s" % (p, driver.fv(y)))
                m3.append((p, x, y))
        cid3 = "c" + cid
        if cm:
            S3.case(cid3, cm)
            meta3[cid3] = m3
    res3, err3 = driver.run(t, S3, c.tmp())
    for cid, mm in meta3.items():
        R = res3[cid]
        if not c.judge_death(R):
            continue
        for k, (p, x, y) in enumerate(mm):
            if not R.ok(k):
                c.fail("exception:%s" % p, coordinates=x)
                continue
            z = [driver.pf(w) for w in R.res[k][1].split(" ")][:DIM[p]]
            v, l = y[:3], y[3:]
            c.count("coordinate round trips judged")
            e = 0
            for i in range(DIM[p]):
                d = z[i] - x[i]
                if i in ANGLES.get(p, ()):
                    d = wrap(d)
                    # an azimuth only matters where its elevation does
                    lev = dict(RUSIN_TH_TD_PD={2: x[1]}, RUSIN_TH_PH_TD_PD={1: x[0], 3: x[2]},
                               SPHERICAL_TL_PL_TV_PV={1: x[0], 3: x[2]}).get(p, {}).get(i, 1.0)
                    if p == "ISOTROPIC_TV_TL_DPHI":
                        lev = min(x[0], x[1])
                    if p in ("STARK_3D", "NEUMANN_3D"):
                        lev = min(x[0], x[1])
                    if p == "RUSIN_TH_PH_TD_PD" and i == 3 and x[0] < 1e-5:
                        lev = 0
                    if p == "RUSIN_TH_TD_PD" and x[0] < 1e-5:
                        lev = 0
                    d *= math.sin(min(lev, math.pi / 2))
                e = max(e, abs(d)) if d == d else math.nan
                if e != e:
                    break
            if not e <= 2e-6:
                if p == "RETRO_TL_TVL_PROJ_DPHI" and (x[0] < 1e-5 or math.hypot(x[1], x[2]) > math.pi - 1e-3):
                    continue                      # nearly opposite directions: the angle is ill conditioned
                if p in ("ISOTROPIC_TL_TV_PROJ_DPHI", "SCHLICK_TL_TK_PROJ_DPHI") and x[0] < 1e-5:
                    continue                      # light at the pole: only the radius is defined
                c.fail("coords:%s" % p, coordinates=x, directions=y, back=z)
    for e in err + err2 + err3:
        c.fail("driver", error=e)
    # coordinates of no pair of directions: STARK_2D and NEUMANN_3D say so with directions below the horizon
    S4, bad = driver.Script(), []
    while len(bad) < c.scale(200, 4000):
        p = r.choice(["STARK_2D", "NEUMANN_3D"])
        a, b, f = r.choice([0.0, r.uniform(0, 1.6), 1 - 10 ** r.uniform(-6, -1)]), r.choice([0.0, r.uniform(0, 1.6), 1.0]), r.choice([0.0, r.uniform(-math.pi, math.pi)])
        far = a * a + b * b if p == "STARK_2D" else max((a - b * math.cos(f)) ** 2, (a + b * math.cos(f)) ** 2) + (b * math.sin(f)) ** 2
        if abs(far - 1) > 1e-9:
            bad.append((p, [a, b] + ([f] if p == "NEUMANN_3D" else []), far > 1))
    for k in range(0, len(bad), 50):
        S4.case("o%d" % k, ["pconv %s CARTESIAN %s" % (p, driver.fv(x)) for p, x, _ in bad[k:k + 50]])
    res4, err4 = driver.run(t, S4, c.tmp())
    for k in range(0, len(bad), 50):
        R = res4["o%d" % k]
        if not c.judge_death(R):
            continue
        for i, (p, x, out) in enumerate(bad[k:k + 50]):
            y = [driver.pf(w) for w in R.res[i][1].split(" ")][:6] if R.ok(i) else None
            c.count("coordinates of no pair" if out else "coordinates of a pair")
            if y is None or (y[2] >= 0 and y[5] >= 0) == out:
                c.fail("%s:%s" % ("no-pair" if out else "pair", p), coordinates=x, got=y)
    for e in err4:
        c.fail("driver", error=e)
    c.sample(dict(V=ps[20][1], L=ps[20][2], kind=ps[20][0]))
    c.sample(dict(V=ps[15][1], L=ps[15][2], kind=ps[15][0]))


check.main("C01", main,
           "One evaluation per conversion: direction pairs (uniform, near grazing, near normal, retro, near retro, mirror, "
           "in-plane, one direction on the normal, 9 fixed singular pairs) through every parametrization and back, plus random in-domain "
           "coordinates to directions and back. Non-trivial: the (parametrization, pair) is distinct; round trips are judged away "
           "from coordinate singularities, finiteness and memory safety everywhere.",
           ["directions are unit to rounding with z <= 1", "tolerance 3e-7 covers the arc-cosines the parametrizations are defined by"])
