"""C09: MERL tables address, evaluate, save and load consistently."""
import array, math, os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, driver
from gen import *

NH, ND, NP = 90, 90, 180
N = NH * ND * NP
SC = [1.0 / 1500, 1.15 / 1500, 1.66 / 1500]
H = math.pi / 2


def cell(th, td, pd):
    """Cell containing the coordinates, independently written."""
    h = min(NH - 1, int(math.floor(NH * math.sqrt(max(th, 0) / H))))
    d = min(ND - 1, int(math.floor(ND * td / H)))
    p = min(NP - 1, int(math.floor(NP * pd / math.pi)))
    return (h * ND + d) * NP + p


def around(th, td, pd):
    """Cells that contain the point up to rounding."""
    e = 1e-12
    cl = lambda x, m: min(max(x, 0.0), m)
    return {cell(cl(th + a, H), cl(td + b, H), cl(pd + g, math.pi)) for a in (-e, 0, e) for b in (-e, 0, e) for g in (-e, 0, e)}


def fold(pd):
    """Azimuths of the stored half circle that an azimuth may stand for: mirror symmetry, or reciprocity."""
    if 0 <= pd <= math.pi:
        return [pd]
    return [abs(math.remainder(pd, 2 * math.pi)), pd % math.pi]


def near(a, b):
    return a == b or abs(a - b) <= 4e-16 * max(abs(a), abs(b)) * 2 or (a != a and b != b)


def coordinate(r, m, n, quad):
    k = r.random()
    if k < .6:
        return r.uniform(0, m)
    if k < .7:
        return r.choice([0.0, m])
    i = r.randrange(n + 1)
    x = m * (i / n) ** (2 if quad else 1)
    return min(max(x + r.choice([0, 1, -1]) * 10 ** r.uniform(-15, -3), 0.0), m)


def main(c):
    t = build.ensure("asan", ["data_merl"], driver=True)
    r = c.rng
    W = c.tmp()
    S = driver.Script()
    tables, plan = {}, {}
    for k in range(c.scale(6, 30)):
        a, b = r.randrange(1, 10 ** 6) * 2 + 1, r.randrange(10 ** 6)
        off = r.choice([0, 0, 3000])        # some tables have negative cells
        sc = 10 ** r.uniform(-4, 4)
        T = array.array("d", [(((i * a + b) % 1000003) - off) * sc for i in range(3 * N)])
        f = os.path.join(W, "t%d.binary" % k)
        with open(f, "wb") as fh:
            fh.write(struct.pack("<3i", NH, ND, NP))
            fh.write(T.tobytes())
        tables[k] = (T, f)
        cmds, st = ["dload T data_merl %s -" % driver.q(f), "dinfo T"], [("load",), ("info",)]
        cur = {}
        # indexed reads
        idx = [0, 1, NP - 1, NP, N - 1, N - NP, ND * NP - 1, ND * NP] + [r.randrange(N) for _ in range(c.scale(300, 3000))]
        cmds.append("drows T " + " ".join(map(str, idx)))
        st.append(("rows", idx, dict(cur)))
        for _ in range(c.scale(3, 8)):
            pts = []
            for _ in range(c.scale(250, 2000)):
                pd = coordinate(r, math.pi, NP, False)
                q = r.random()
                pd = -pd if q < .1 else pd + math.pi if q < .2 else pd
                pts.append([coordinate(r, H, NH, True), coordinate(r, H, ND, False), pd])
            cmds.append("dvals T %d %s" % (len(pts), " ".join(driver.fv(p) for p in pts)))
            st.append(("vals", pts, dict(cur)))
            tgt = [r.randrange(N) for _ in range(20)]
            for i in tgt:
                y = [r.uniform(0, 5), r.uniform(0, 5) * r.choice([1, 1e-6, 1e6]), r.uniform(0, 5)]
                cmds.append("dset T %d %s" % (i, driver.fv([0, 0, 0] + y)))
                st.append(("set",))
                cur[i] = y
            look = [j for i in tgt for j in (i, (i + 1) % N, (i - 1) % N, (i + NP) % N, (i + N // 3) % N)]
            cmds.append("drows T " + " ".join(map(str, look)))
            st.append(("rows", look, dict(cur)))
        cmds += ["dsave T out.binary", "dload U data_merl out.binary -", "deq T U 0x0p+0"]
        st += [("save", dict(cur)), ("reload",), ("eq",)]
        if k == 0:
            cmds += ["dget Z data_merl 7 3 3 RUSIN_TH_TD_PD RGB_COLOR -", "drows Z 0 5 %d" % (N - 1), "dvals Z 1 3 0x1p-1 0x1p-1 0x1p+0"]
            st += [("new",), ("zeros",), ("zeroval",)]
        S.case("m%d" % k, cmds, 300)
        plan["m%d" % k] = (k, st)
    res, err = driver.run(t, S, W, jobs=6)
    for e in err:
        c.fail("driver", error=e)
    for cid, (k, st) in plan.items():
        T, src = tables[k]
        R = res[cid]
        if not c.judge_death(R):
            continue

        def stored(i, cur):
            return cur[i] if i in cur else [T[i + n * N] * SC[n] for n in range(3)]
        for j, s in enumerate(st):
            if not R.ok(j):
                c.fail("exception:" + s[0], case=cid, got=R.res[j], command=R.cmds[j][:200])
                break
            X = R.toks(j)
            if s[0] in ("load", "reload", "new"):
                got = [X.int(), X.int(), X.int(), X.raw(), X.raw()]
                c.seen(cid, s[0])
                if got != [N, 3, 3, "RUSIN_TH_TD_PD", "RGB_COLOR"]:
                    c.fail("parameters", got=got)
            elif s[0] == "info":
                for _ in range(5):
                    X.raw()
                lo, hi = X.vec(), X.vec()
                c.seen(cid, "info")
                if lo != [0, 0, 0] or abs(hi[0] - H) > 1e-12 or abs(hi[1] - H) > 1e-12 or hi[2] < math.pi:
                    c.fail("domain", got=[lo, hi])
            elif s[0] == "rows":
                n = X.int()
                for i in s[1]:
                    row = X.vec()
                    c.seen(cid, j, i)
                    c.count("cells read")
                    if len(row) != 6 or not (0 <= row[0] <= H and 0 <= row[1] <= H and 0 <= row[2] <= math.pi) or cell(*row[:3]) != i \
                            or around(*row[:3]) != {i}:
                        c.fail("cell-coordinates", index=i, got=row, cell=cell(*row[:3]))
                        break
                    if not all(near(p, q) for p, q in zip(row[3:], stored(i, s[2]))):
                        c.fail("cell-value" + (":written" if i in s[2] else ""), index=i, got=row, want=stored(i, s[2]))
                        break
            elif s[0] == "vals":
                n = X.int()
                for p in s[1]:
                    y = X.vec()
                    c.seen(cid, j, tuple(p))
                    c.count("evaluations")
                    ok = False
                    for pd in fold(p[2]):
                        for i in around(p[0], p[1], pd):
                            w = stored(i, s[2])
                            if min(w) >= 0:
                                ok |= all(near(a, b) for a, b in zip(y, w))
                            else:
                                c.count("negative cells evaluated")
                                ok |= all(a == 0 if b < 0 else (a == 0 or near(a, b)) for a, b in zip(y, w))
                    if not ok:
                        c.fail("value", at=p, got=y, want=[stored(cell(p[0], p[1], q), s[2]) for q in fold(p[2])])
                        break
            elif s[0] == "save":
                b = open(os.path.join(R.dir, "out.binary"), "rb").read()
                c.seen(cid, "save")
                c.count("bytes compared", len(b))
                if len(b) != 12 + 24 * N or b[:12] != struct.pack("<3i", NH, ND, NP):
                    c.fail("saved-size", got=len(b))
                    continue
                G = array.array("d", b[12:])
                if not s[1]:
                    if G.tobytes() != T.tobytes():
                        c.fail("saved-bits", case=cid)
                else:
                    E = array.array("d", T)
                    for i, y in s[1].items():
                        for n in range(3):
                            if not near(G[i + n * N], y[n] / SC[n]):
                                c.fail("saved-written-cell", index=i, got=G[i + n * N], want=y[n] / SC[n])
                            E[i + n * N] = G[i + n * N]
                    if E.tobytes() != G.tobytes():
                        c.fail("saved-bits", case=cid)
                os.unlink(os.path.join(R.dir, "out.binary"))
            elif s[0] == "eq":
                c.seen(cid, "eq")
                if X.int() != 1:
                    c.fail("reload-differs", case=cid)
            elif s[0] == "zeros":
                n = X.int()
                for _ in range(n):
                    if X.vec()[3:] != [0, 0, 0]:
                        c.fail("new-table-not-black")
            elif s[0] == "zeroval":
                X.int()
                if X.vec() != [0, 0, 0]:
                    c.fail("new-table-not-black")
    c.sample(dict(tables=len(tables), cells=N, points=pts[:2]))


check.main("C09", main,
           "One evaluation per cell read, configuration evaluated, or file compared; random tables (with and without negative cells), "
           "configurations random, on cell borders and on the domain's border, interleaved with writes.",
           ["azimuths outside [0, pi] may be folded by mirror symmetry or by reciprocity", "points within 1e-12 of a cell border may use either cell"])
