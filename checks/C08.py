"""C08: data equality detects every difference."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, driver
from gen import *


def main(c):
    t = build.ensure("asan", driver=True)
    r = c.rng
    S = driver.Script()
    meta = {}
    W = c.tmp()
    new = lambda nm, k, s, rows: "dnew %s %d %d %d %s %s %d %s" % (nm, k, s[0], s[1], s[2], s[3], len(rows), driver.fv([x for l in rows for x in l]))
    for i in range(c.scale(900, 12000)):
        s = shape(r)
        dx, dy = s[0], s[1]
        kind = r.choice([NCI, ASYM])
        n = many(r, [0, 1, 2, 7, 30])
        special = r.random() < .15
        val = (lambda q: q.choice([finite(q, 5), math.inf, -math.inf, math.nan])) if special else (lambda q: finite(q, 4))
        rows = [row(r, dx, dy, kind, val) for _ in range(n)]
        eps = r.choice([None, None, None, 1e-14, 1e-6, 0.25, 0.0])
        e = 1e-14 if eps is None else eps
        what = r.choice(["same", "coord", "coord", "coord", "coord", "small", "in", "out", "size", "dims", "order"])
        s2, rows2, equal = s, [list(l) for l in rows], True
        if what == "coord" and n:
            a, b = r.choice([0, n - 1, r.randrange(n)]), r.choice([0, dx + dy - 1, r.randrange(dx + dy)])
            d = max(e * r.choice([1.5, 10, 1e3]), 1e-12 if eps != 0.0 else 0) or 5e-324
            old = rows2[a][b]
            if r.random() < .2:
                new_ = r.choice([math.nan, math.inf, -math.inf, old + 1.0, -1.0 - abs(old), 1e300])
            else:
                new_ = old + r.choice([-1, 1]) * max(d, abs(old) * 1e-11)
            if same(new_, old) or (abs(new_ - old) <= e * 1.2):
                what = "same"
            else:
                rows2[a][b], equal = new_, False
        elif what == "small" and n and e > 0:
            a, b = r.randrange(n), r.randrange(dx + dy)
            if math.isfinite(rows2[a][b]):
                rows2[a][b] += r.choice([-.5, .5]) * e
                if abs(rows2[a][b] - rows[a][b]) > e * .8:
                    rows2[a][b] = rows[a][b]
        elif what == "in":
            q = r.choice([z for z in list(NAMED) + ["UNKNOWN_INPUT"] if z != s[2]])
            s2, equal = (dx, dy, q, s[3]), False
        elif what == "out":
            q = r.choice([z for z in OUTS if z != s[3]])
            s2, equal = (dx, dy, s[2], q), False
        elif what == "size":
            rows2 = rows2 + [row(r, dx, dy, kind, val)] if r.random() < .5 or not n else rows2[:-1]
            equal = False
        elif what == "dims":
            # same total width, another split
            if dx > 1 and kind == NCI:
                s2, equal = (dx - 1, dy + 1, s[2], s[3]), False
        elif what == "order" and n > 1:
            a, b = 0, n - 1
            if all(abs(x - y) <= 1.5 * e for x, y in zip(rows[a][:dx + dy], rows[b][:dx + dy])):
                pass
            elif any(x != x or y != y or abs(x) == math.inf or abs(y) == math.inf for x, y in zip(rows[a], rows[b])):
                pass
            else:
                rows2[a], rows2[b], equal = rows2[b], rows2[a], False
        es = "" if eps is None else " " + repr(eps)
        cid = "e%d" % i
        S.case(cid, [new("A", kind, s, rows), new("B", kind, s2, rows2), "deq A B" + es, "deq B A" + es, "deq A A" + es, "deq B B" + es])
        meta[cid] = (what, equal, eps, s, s2, rows, rows2)
    res, err = driver.run(t, S, W)
    for e in err:
        c.fail("driver", error=e)
    for cid, (what, equal, eps, s, s2, rows, rows2) in meta.items():
        R = res[cid]
        if not c.judge_death(R):
            continue
        d = [(a, b, x, y) for a, (l, m) in enumerate(zip(rows, rows2)) for b, (x, y) in enumerate(zip(l, m)) if not same(x, y)]
        info = dict(case=cid, difference=what, tolerance=eps, shapes=[s, s2], sizes=[len(rows), len(rows2)], changed=d[:3])
        got = [R.res[k] for k in (2, 3, 4, 5)]
        c.seen(what, eps, s, tuple(map(tuple, rows[:2])), tuple(map(tuple, rows2[:2])))
        c.count("pairs: " + what)
        if any(g[0] != "OK" for g in got):
            c.fail("exception", got=got, **info)
            continue
        got = [g[1] for g in got]
        if got[2:] != ["1", "1"]:
            c.fail("reflexive", got=got, **info)
        if got[0] != got[1]:
            c.fail("symmetric", got=got, **info)
        if got[0] != str(int(equal)):
            c.fail("equality:%s" % what, got=got, want=equal, **info)
    c.sample(info)


check.main("C08", main,
           "One evaluation per pair of data sets: identical, or differing by one coordinate (by slightly more than the tolerance, much "
           "more, infinite or undefined), below the tolerance, by size, order, split of dimensions or parametrization; default and explicit "
           "tolerances; compared in both directions and with themselves.", ["differences within 20% of the tolerance are not judged"])
