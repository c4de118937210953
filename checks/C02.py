"""C02: coordinates are the documented quantities; names, dimensions, value conversion."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, driver
from dirs import *

NAMES = {k: k for k in DIM}
NAMES["SCHLICK_VK"] = "SCHLICK_VH"
OUT = ["INV_STERADIAN", "INV_STERADIAN_COSINE_FACTOR", "ENERGY", "RGB_COLOR", "XYZ_COLOR"]
ODIM = dict(INV_STERADIAN=1, INV_STERADIAN_COSINE_FACTOR=1, ENERGY=1, RGB_COLOR=3, XYZ_COLOR=3)


def defined(p, V, L):
    """Where the documented quantities are well defined (not at a pole of the parametrization)."""
    s = norm([a + b for a, b in zip(V, L)])
    if s < 1e-3:
        return False
    if p in ("COS_TK", "SCHLICK_VK", "SCHLICK_TL_TK_PROJ_DPHI"):
        return norm([V[0] - L[0], V[1] - L[1], V[2] + L[2]]) > 1e-3
    return True


def main(c):
    t = build.ensure("asan", driver=True)
    r = c.rng
    S = driver.Script()
    meta = {}
    ps = pairs(r, c.scale(700, 12000))
    names = list(DIM)
    for ci in range(0, len(ps), 60):
        cmds, m = [], []
        for kind, V, L in ps[ci:ci + 60]:
            for p in names:
                cmds.append("pconv CARTESIAN %s %s" % (p, driver.fv(V + L)))
                m.append(("doc", p, kind, V, L))
            # between parametrizations: directly, and through directions
            p, q = r.choice(names), r.choice(names)
            x = coords(V, L, p) if defined(p, V, L) else [math.nan]
            if p.startswith("COS"):
                x = [clamp(w) for w in x]
            if V[2] > 1e-3 and L[2] > 1e-3 and all(w == w and w is not None for w in x):
                cmds.append("pconv %s %s %s" % (p, q, driver.fv(x)))
                m.append(("direct", p, q, x, None))
                cmds.append("pconv %s CARTESIAN %s" % (p, driver.fv(x)))
                m.append(("via", p, q, x, None))
                cmds.append("pconva %s %s %s" % (p, q, driver.fv(x)))
                m.append(("alloc", p, q, x, None))
        cid = "d%d" % ci
        S.case(cid, cmds)
        meta[cid] = m
    # names and dimensions
    cmds, m = [], []
    for p in names:
        cmds.append("pinfo %s" % p)
        m.append(("name", p, None, None, None))
    for bad in ["", "UNKNOWN_INPUT", "COS_T", "COS_TH_", "cos_th", " COS_TH", "COS_TH ", "RUSIN_TH_TD_PD_", "SCHLICK_VK", "CARTESIAN\t"]:
        cmds.append("pparse %s" % driver.q(bad))
        m.append(("unknown", bad, None, None, None))
    for o in OUT:
        cmds.append("poinfo %s" % o)
        m.append(("oname", o, None, None, None))
        cmds.append("podim %s" % o)
        m.append(("odim", o, None, None, None))
    for bad in ["", "UNKNOWN_OUTPUT", "RGB", "rgb_color", "ENERGY "]:
        cmds.append("poparse %s" % driver.q(bad))
        m.append(("ounknown", bad, None, None, None))
    # value vectors
    for _ in range(c.scale(300, 3000)):
        n = r.randrange(1, 7)
        k = r.choice(["same", "spread", "mean"])
        i, o = {"same": (n, n), "spread": (1, n), "mean": (n, 1)}[k]
        x = [r.choice([r.uniform(-10, 10), 10 ** r.uniform(-30, 30), 0.0]) for _ in range(i)]
        fill = r.choice([0.0, 7.0, -1e10, math.nan, math.inf])
        cmds.append("oconv %s %d %s %d %s %s" % (r.choice(OUT), i, r.choice(OUT), o, repr(fill), driver.fv(x)))
        m.append(("vals", o, x, fill, None))
    # rotations about the normal and the binormal
    for _ in range(c.scale(200, 2000)):
        v = sph(r.uniform(0, math.pi), r.uniform(-4, 4))
        a = r.uniform(-7, 7)
        k = r.choice("nb")
        cmds.append("rot %s %s %s" % (k, repr(a), driver.fv(v)))
        m.append(("rot", k, a, v, None))
    S.case("tables", cmds)
    meta["tables"] = m
    res, err = driver.run(t, S, c.tmp())
    for e in err:
        c.fail("driver", error=e)
    follow, fm = [], []
    for cid, mm in meta.items():
        R = res[cid]
        c.judge_death(R)
        direct = {}
        for k, (what, a, b, x, y) in enumerate(mm):
            if k not in R.res:
                break
            if not R.ok(k):
                c.fail("exception:%s:%s" % (what, a), cmd=R.cmds[k], got=R.res[k])
                continue
            T = R.toks(k)
            if what == "doc":
                p, kind, V, L = a, b, x, y
                got = [T.f() for _ in range(8)]
                d = DIM[p]
                c.seen(p, tuple(V), tuple(L))
                c.count("coordinates compared with their definition", d)
                if any(g != 12345.0 for g in got[d:]):
                    c.fail("overrun:%s" % p, V=V, L=L, got=got)
                if not defined(p, V, L):
                    c.count("at a singularity")
                    continue
                want = coords(V, L, p)
                w = weights(p, V, L)
                for i in range(d):
                    e = got[i] - want[i]
                    if i in ANGLES.get(p, ()):
                        e = wrap(e) if e == e and abs(e) < 1e6 else e
                    if not abs(e) * w[i] <= 1e-6:
                        c.fail("meaning:%s:%d" % (p, i), V=V, L=L, kind=kind, got=got[:d], want=want)
                        break
            elif what in ("direct", "via", "alloc"):
                if what == "direct":
                    direct[k + 1] = direct[k + 2] = [T.f() for _ in range(8)]
                    c.seen(a, b, tuple(x))
                    continue
                d = DIM[b]
                one = direct[k][:d]
                if what == "alloc":
                    n = T.int()
                    got = [T.f() for _ in range(n)]
                    if a == b:
                        # the allocating variant always goes through directions
                        c.count("allocating conversions")
                        if n != d:
                            c.fail("alloc:%s:%s" % (a, b), x=x, got=got)
                        continue
                    c.count("allocating conversions")
                    if n != d or any(u != v and not (u != u and v != v) for u, v in zip(got, one)):
                        c.fail("alloc:%s:%s" % (a, b), x=x, got=got, want=one)
                else:
                    cart = [T.f() for _ in range(6)]
                    if a == b:
                        if any(u != v for u, v in zip(one, x)):
                            c.fail("identity:%s" % a, x=x, got=one)
                        continue
                    if b == "CARTESIAN":
                        if any(u != v for u, v in zip(one, cart)):
                            c.fail("identity:%s" % a, x=x, got=one)
                        continue
                    if min(cart[2], cart[5]) < -1e-9 or any(u != u for u in cart):
                        continue            # under-determined start: directions below the horizon
                    follow.append("pconv CARTESIAN %s %s" % (b, driver.fv(cart)))
                    fm.append((a, b, x, one, cart))
            elif what == "name":
                dim, name, back = T.int(), T.s().decode(), T.raw()
                c.seen("name", a)
                if dim != DIM[a] or name != NAMES[a] or back != a:
                    c.fail("name:%s" % a, dim=dim, name=name, parsed=back)
            elif what == "unknown":
                c.seen("unknown", a)
                if T.raw() != "UNKNOWN_INPUT":
                    c.fail("unknown-name", name=a, got=R.res[k][1])
            elif what == "oname":
                name, back, cosw = T.s().decode(), T.raw(), T.int()
                c.seen("oname", a)
                if name != a or back != a or cosw != (a == "INV_STERADIAN_COSINE_FACTOR"):
                    c.fail("output-name:%s" % a, got=R.res[k][1])
            elif what == "odim":
                c.seen("odim", a)
                if T.int() != ODIM[a]:
                    c.fail("output-dimension:%s" % a, got=R.res[k][1])
            elif what == "ounknown":
                c.seen("ounknown", a)
                if T.raw() != "UNKNOWN_OUTPUT":
                    c.fail("unknown-output-name", name=a, got=R.res[k][1])
            elif what == "vals":
                got, o, fill = T.vec(), a, x
                xs = b
                c.seen("vals", tuple(xs), o)
                want = list(xs) if len(xs) == o else [xs[0]] * o if len(xs) == 1 else [sum(xs) / len(xs)]
                tol = 1e-12 * (max(map(abs, xs)))
                if any(not abs(g - w) <= tol for g, w in zip(got, want)):
                    c.fail("value-conversion", values=xs, channels=o, fill=fill, got=got)
                elif any(g != fill and not (fill != fill and g != g) for g in got[o:]):
                    c.fail("value-overrun", values=xs, channels=o, fill=fill, got=got)
            elif what == "rot":
                got, v, ang_ = T.vec(), x, b
                c.seen("rot", a, ang_, tuple(v))
                cs, sn = math.cos(ang_), math.sin(ang_)
                want = ([v[0] * cs - v[1] * sn, v[0] * sn + v[1] * cs, v[2]] if a == "n" else
                        [cs * v[0] + sn * v[2], v[1], -sn * v[0] + cs * v[2]])
                if max(abs(g - w) for g, w in zip(got, want)) > 1e-12:
                    c.fail("rotation:%s" % a, v=v, angle=ang_, got=got, want=want)
    S = driver.Script()
    for i in range(0, len(follow), 400):
        S.case("f%d" % i, follow[i:i + 400])
    res, err = driver.run(t, S, c.tmp())
    for i in range(0, len(follow), 400):
        R = res["f%d" % i]
        c.judge_death(R)
        for k, (a, b, x, one, cart) in enumerate(fm[i:i + 400]):
            if not R.ok(k):
                break
            T = R.toks(k)
            got = [T.f() for _ in range(DIM[b])]
            c.count("compositions compared")
            if any(not abs(u - v) <= 1e-12 and not (u != u and v != v) for u, v in zip(got, one)):
                c.fail("composition:%s:%s" % (a, b), x=x, directions=cart, direct=one, through=got)
    c.sample(dict(V=ps[12][1], L=ps[12][2]))
    c.sample(dict(tables=[m[0] for m in meta["tables"][:40]]))


check.main("C02", main,
           "One evaluation per coordinate vector compared with an independent definition from the two directions, per "
           "conversion between two parametrizations compared with the way through directions, per table entry, per value-vector "
           "conversion (with stale output contents) and per rotation. Distinct by inputs; azimuths count only away from their pole.",
           ["where the documentation and all users disagree on a sign (back vector), the users' convention is the definition",
            "unnamed parametrizations (dimension -1) are not supported"])
