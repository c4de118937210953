"""C18: rational functions evaluate the documented ratio of polynomials."""
import itertools, math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, dirs, driver
from gen import *
from rational import poly1, cosines, widen

BASES = ["rational_function", "rational_function_legendre", "rational_function_chebychev", "rational_function_cosine"]
PARAMS = {1: ["COS_TH", "COS_TK", "UNKNOWN_INPUT"], 2: ["RUSIN_TH_TD", "COS_TH_TD", "STARK_2D", "UNKNOWN_INPUT"],
          3: ["RUSIN_TH_TD_PD", "ISOTROPIC_TV_TL_DPHI", "UNKNOWN_INPUT"], 4: ["RUSIN_TH_PH_TD_PD", "SPHERICAL_TL_PL_TV_PV", "UNKNOWN_INPUT"],
          5: ["UNKNOWN_INPUT"], 6: ["CARTESIAN", "UNKNOWN_INPUT"]}


def total_order(c, plugin, dx, degs):
    """The enumeration lists every multi-degree once, by total degree, constant first."""
    if any(v != 0 for v in degs[0]):
        c.fail("enumeration:first:" + plugin, dims=dx, first=degs[0])
        return
    seen, last = set(), 0
    for i, d in enumerate(degs):
        if len(d) != dx or any(v < 0 or v != int(v) for v in d):
            c.fail("enumeration:degree:%s:%d" % (plugin, dx), index=i, degrees=d)
            return
        t = sum(d)
        if t < last:
            c.fail("enumeration:order:%s:%d" % (plugin, dx), index=i, degrees=d, previous=degs[i - 1])
            return
        if tuple(d) in seen:
            c.fail("enumeration:twice:%s:%d" % (plugin, dx), index=i, degrees=d)
            return
        if t > last:
            n = math.comb(last + dx, dx)
            if i != n or t != last + 1:
                c.fail("enumeration:missing:%s:%d" % (plugin, dx), index=i, degrees=d, expected=n)
                return
        last = t
        seen.add(tuple(d))
        c.seen("degree", dx, tuple(d))
    c.count("multi_degrees_listed", len(degs))


class Rf:
    """Model of the function: per channel domain and coefficients."""
    def __init__(self, plugin, dx, dy, pin):
        self.plugin, self.dx, self.dy, self.pin = plugin, dx, dy, pin
        self.lo, self.hi, self.ch = [0.0] * dx, [0.0] * dx, [None] * dy


def coef(r, n):
    k = r.random()
    if k < .1:
        return [r.choice([0.0, 1.0, -1.0]) for _ in range(n)]
    s = 10 ** r.uniform(-3, 3) if k < .3 else 1.0
    return [s * r.uniform(-1, 1) for _ in range(n)]


def denom(r, n):
    q = [r.uniform(-.5, .5) / n for _ in range(n)]
    q[0] = r.choice([1.0, 1.0, 2.5, -3.0, 1e-3, 1e5])
    q = [q[0]] + [v * abs(q[0]) for v in q[1:]]
    if r.random() < .08:
        q[0] = r.choice([0.0, 1e-17, -5e-17])     # too small to divide by
        q[1:] = [r.choice([.5, -.25, 1.0]) for _ in q[1:]]
    return q


def expect(m, ch, x, deg):
    """[(basis p, mag)], [(basis q, mag)] of a channel at X."""
    lo, hi = ch["dom"]
    u = [2.0 * ((a - l) / (h - l) - 0.5) for a, l, h in zip(x, lo, hi)]
    out = []
    for part in (0, 1):
        v = []
        for d in deg:
            t, w = 1.0, 1.0
            for k in range(m.dx):
                a, b = poly1(m.plugin, u[k], d[k])
                # the scaled coordinate itself carries rounding that the degree multiplies
                t *= a
                w *= max(abs(a), b) * (1 + d[k])
            if part == 0 and m.plugin.endswith("cosine"):
                cc = cosines(m.pin, x)
                t, w = t * cc, w * (abs(cc) + 1e-3)
            v.append((t, w))
        out.append(v)
    return out


def main(c):
    t = build.ensure("asan", build.RATIONALS, driver=True)
    r = c.rng
    S, enum, want = driver.Script(), {}, {}
    for plugin in BASES:
        for dx in range(1, 7):
            n = {1: 60, 2: 400, 3: 600, 4: 715, 5: 500, 6: 470}[dx] * c.scale(1, 3)
            S.case("e-%s-%d" % (plugin, dx), ["args A alta --func " + plugin, "fget F A %d 1 UNKNOWN_INPUT INV_STERADIAN" % dx,
                                               "fdomain F %s %s" % (driver.fv([0.0] * dx), driver.fv([1.0] * dx)), "rdeg F 0 %d" % n], cpu=60)
            enum["e-%s-%d" % (plugin, dx)] = (plugin, dx)
    for i in range(c.scale(260, 2600)):
        plugin = BASES[i % 4]
        dx = r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6])
        dy = r.choice([1, 1, 2, 3, 4]) if r.random() < .95 else r.choice([5, 8])
        pin = r.choice([p for p in PARAMS[dx] if plugin != "rational_function_cosine" or cosines(p, [.1] * dx) is not None] or ["UNKNOWN_INPUT"])
        m = Rf(plugin, dx, dy, pin)
        if r.random() < .85:
            m.lo = [r.uniform(-2, 1) for _ in range(dx)]
            m.hi = [a + 10 ** r.uniform(-2, 1) for a in m.lo]
            if r.random() < .15:
                k = r.randrange(dx)
                m.hi[k] = m.lo[k]
        else:
            m.lo, m.hi = [0.0] * dx, [1.0] * dx
        cap = {1: 14, 2: 24, 3: 35, 4: 35, 5: 25, 6: 29}[dx]
        cmds = ["args A alta --func " + plugin, "fget F A %d %d %s INV_STERADIAN" % (dx, dy, pin), "rsize F %d %d" % (r.randrange(1, 5), r.randrange(1, 5)),
                "fdomain F %s %s" % (driver.fv(m.lo), driver.fv(m.hi))]
        dom = widen(plugin, m.lo, m.hi)
        cmds += ["fget G A %d %d %s INV_STERADIAN" % (dx, dy, pin), "fdomain G %s %s" % (driver.fv([0.0] * dx), driver.fv([1.0] * dx))]
        other = [None] * dy
        checks = []
        for step in range(r.randrange(2, 6)):
            for k in range(dy):
                if m.ch[k] is not None and r.random() < .4:
                    continue
                np, nq = r.randrange(1, cap), r.randrange(1, max(2, cap // 2))
                p, q = coef(r, np), denom(r, nq)
                if m.ch[k] is not None and r.random() < .15:
                    other_p, other_q = coef(r, np), denom(r, nq)
                    cmds += ["rset G %d %s %s" % (k, driver.fv(other_p), driver.fv(other_q)), "rcopyk F %d G %d" % (k, k)]
                    p, q = other_p, other_q
                else:
                    cmds.append("%s F %d %s %s" % (r.choice(["rset", "rupd"]), k, driver.fv(p), driver.fv(q)))
                m.ch[k] = dict(m.ch[k] or dict(dom=dom), p=p, q=q)
            if r.random() < .2:
                k = r.randrange(dy)
                lo = [r.uniform(-2, 1) for _ in range(dx)]
                d2 = (lo, [a + r.uniform(.1, 3) for a in lo])
                cmds.append("rdomk F %d %s %s" % (k, driver.fv(d2[0]), driver.fv(d2[1])))
                m.ch[k] = dict(m.ch[k], dom=d2)
            pts = []
            for _ in range(4):
                D = m.ch[r.randrange(dy)]["dom"]
                e = r.choice([0, 0, 0, .5])
                x = [r.choice([a, b, (a + b) / 2, r.uniform(a - e * (b - a), b + e * (b - a)), r.uniform(a, b)]) for a, b in zip(*D)]
                if pin in ("RUSIN_TH_TD_PD", "RUSIN_TH_PH_TD_PD", "ISOTROPIC_TV_TL_DPHI", "SPHERICAL_TL_PL_TV_PV", "CARTESIAN") and plugin.endswith("cosine"):
                    _, V, L = r.choice(dirs.pairs(r, 12))
                    try:
                        x = dirs.coords(V, L, pin)
                    except ZeroDivisionError:
                        continue
                    if x is None or any(v is None for v in x):
                        continue
                pts.append(list(x))
            at = len(cmds)
            cmds += ["rcoef F %d" % k for k in range(dy)]
            n = max(max(len(ch["p"]), len(ch["q"])) for ch in m.ch)
            cmds.append("rdeg F 0 %d" % n)
            if pts:
                cmds.append("fvals F %d %s" % (len(pts), " ".join(map(driver.fv, pts))))
                for x in pts:
                    for k in range(dy):
                        cmds += ["rbasis F %d %d %d %s" % (k, len(m.ch[k]["p"]), len(m.ch[k]["q"]), driver.fv(x)), "rval1 F %d %s" % (k, driver.fv(x))]
            checks.append((at, [dict(ch) for ch in m.ch], pts))
        S.case("v%d" % i, cmds)
        want["v%d" % i] = (m, checks)
    res, err = driver.run(t, S, c.tmp())
    for cid, (plugin, dx) in enum.items():
        R = res[cid]
        if not c.judge_death(R):
            continue
        if not R.ok(3):
            c.fail("refused:rdeg", answer=R.res[3])
            continue
        T = R.toks(3)
        total_order(c, plugin, dx, [[int(v) for v in T.vec()] for _ in range(T.int())])
    for cid, (m, checks) in want.items():
        R = res[cid]
        if not c.judge_death(R):
            continue
        bad = [k for k in range(len(R.cmds)) if not R.ok(k)]
        if bad:
            c.fail("refused:%s:%s" % (R.cmds[bad[0]].split(" ")[0], m.plugin), answer=R.res[bad[0]], script=[x[:300] for x in R.cmds[:bad[0] + 1]])
            continue
        judge(c, m, checks, R)
    c.sample("enumerations of up to %d multi-degrees in one to six dimensions" % c.scale(715, 2145))


def judge(c, m, checks, R):
    info = dict(case=R.id, plugin=m.plugin, pin=m.pin)
    for at, chs, pts in checks:
        j = at
        for k, ch in enumerate(chs):
            T = R.toks(j)
            p, q = T.vec(), T.vec()
            b0 = ch["q"][0] if abs(ch["q"][0]) > 1e-16 else 1.0
            for name, got, src in (("numerator", p, ch["p"]), ("denominator", q, ch["q"])):
                if len(got) != len(src) or any(not abs(a - b / b0) <= 4e-16 * abs(b / b0) for a, b in zip(got, src)):
                    # any common factor is allowed
                    z = [a / (b / b0) for a, b in zip(p + q, ch["p"] + ch["q"]) if b] if len(p) == len(ch["p"]) and len(q) == len(ch["q"]) else []
                    if not z or max(z) - min(z) > 1e-12 * abs(z[0]) or any(a != 0 for a, b in zip(p + q, ch["p"] + ch["q"]) if b == 0):
                        c.fail("update:%s:%s" % (name, m.plugin), channel=k, set_to=src, got=got, **info)
                        return
            j += 1
        T = R.toks(j)
        deg = [[int(v) for v in T.vec()] for _ in range(T.int())]
        j += 1
        if not pts:
            continue
        T = R.toks(j)
        T.int()
        vals = [T.vec() for _ in pts]
        j += 1
        for x, y in zip(pts, vals):
            for k, ch in enumerate(chs):
                T = R.toks(j)
                gp, gq = T.vec(), T.vec()
                one = R.toks(j + 1).vec()
                j += 2
                ep, eq = expect(m, ch, x, deg)
                for name, got, ref in (("p", gp, ep), ("q", gq, eq)):
                    for n, (a, (b, w)) in enumerate(zip(got, ref)):
                        if not abs(a - b) <= 3e-13 * w + 1e-300:
                            c.fail("basis:%s:%s" % (name, m.plugin), index=n, degrees=deg[n], x=x, domain=ch["dom"], got=a, expected=b, **info)
                            return
                num = sum(a * b[0] for a, b in zip(ch["p"], ep))
                den = sum(a * b[0] for a, b in zip(ch["q"], eq))
                en = 1e-12 * sum(abs(a) * b[1] for a, b in zip(ch["p"], ep))
                ed = 1e-12 * sum(abs(a) * b[1] for a, b in zip(ch["q"], eq))
                if abs(den) <= 1e3 * ed or not math.isfinite(num / den):
                    c.count("points_near_poles")
                    continue
                v = num / den
                tol = 2 * (en / abs(den) + ed * abs(v) / abs(den))
                for name, got in (("value", y[k]), ("channel-value", one[0])):
                    if not abs(got - v) <= tol + 1e-300:
                        c.fail("%s:%s" % (name, m.plugin), x=x, channel=k, got=got, expected=v, tolerance=tol, p=ch["p"], q=ch["q"], **info)
                        return
                c.seen(m.plugin, m.dx, len(ch["p"]), len(ch["q"]), round(v, 9))
                c.count("values_compared")


check.main("C18", main, "one (basis, dimension, numbers of coefficients, value) per evaluation compared with independently summed polynomials, plus one per listed multi-degree",
           ["points within rounding of a pole of the function are not judged", "the cosine-weighted basis is judged where the two cosines follow from the coordinates"])
