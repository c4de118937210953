"""C07: vertical segments bracket their values and containers keep what is set."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, driver
from gen import *


def val(r):
    return finite(r, 8) if r.random() < .7 else r.uniform(-1, 1)


def main(c):
    t = build.ensure("asan", driver=True)
    r = c.rng
    S = driver.Script()
    meta = {}
    W = c.tmp()
    for i in range(c.scale(260, 4000)):
        dx, dy, p, o = shape(r)
        kind = r.choice([NCI, SYM, ASYM])
        n = many(r, [0, 1, 2, 3, 8, 25], 1100)
        w = width(dx, dy, kind)
        sized = r.random() < .2
        if sized:
            kind, w = ASYM, dx + 3 * dy
            rows = [[0.0] * w for _ in range(n)]
            cmds = ["dnewsz X %d %d %s %s %d" % (dx, dy, p, o, n)]
        else:
            rows = [row(r, dx, dy, kind, val) for _ in range(n)]
            cmds = ["dnew X %d %d %d %s %s %d %s" % (kind, dx, dy, p, o, n, driver.fv([x for l in rows for x in l]))]
        steps = [("new",)]
        cmds.append("dinfo X")
        steps.append(("info", [list(l) for l in rows]))
        model = [list(l) for l in rows]          # None entries: bounds chosen by the container
        for _ in range(r.randrange(4, 25)):
            if not n:
                break
            k = r.randrange(n)
            a = r.random()
            if a < .2:
                v = row(r, dx, dy, kind, val)
                cmds.append("dset X %d %s" % (k, driver.fv(v)))
                steps.append(("set",))
                model[k] = v
            elif a < .35:
                v = row(r, dx, dy, NCI, val)
                cmds.append("dset X %d %s" % (k, driver.fv(v)))
                steps.append(("set",))
                model[k] = v + [None] * (w - dx - dy)
            elif a < .45:
                m = r.choice([0, 1, dx, dx + dy - 1, dx + dy + 1, w - 1, w + 1, dx + 4 * dy])
                if m in (w, dx + dy) or m < 0:
                    continue
                cmds.append("dset X %d %s" % (k, driver.fv([val(r) for _ in range(m)])))
                steps.append(("refuse", m))
            elif a < .7:
                cmds.append("drows X")
                steps.append(("rows", [list(l) for l in model]))
            else:
                cmds.append("dvsrows X")
                steps.append(("segs", [list(l) for l in model]))
                cmds.append("dvsrow X %d" % k)
                steps.append(("seg", list(model[k])))
        cmds += ["drows X", "dvsrows X", "dvsmat X"]
        steps += [("rows", [list(l) for l in model]), ("segs", [list(l) for l in model]), ("mat", [list(l) for l in model])]
        cid = "v%d" % i
        S.case(cid, cmds)
        meta[cid] = (dx, dy, p, o, n, kind, steps)
    res, err = driver.run(t, S, W)
    for e in err:
        c.fail("driver", error=e)

    def segment(dx, dy, kind, m, x, l, u):
        y = m[dx:dx + dy]
        if x != m[:dx] or len(l) != dy or len(u) != dy:
            return "abscissa"
        if any(not a <= b for a, b in zip(l, y)):
            return "lower-above-value"
        if any(not a >= b for a, b in zip(u, y)):
            return "upper-below-value"
        rest = m[dx + dy:]
        if None in rest:
            return None
        want = {NCI: lambda: (None, None), SYM: lambda: ([a - b for a, b in zip(y, rest)], [a + b for a, b in zip(y, rest)]),
                ASYM: lambda: (rest[:dy], rest[dy:])}[kind]()
        if want[0] is not None and (l != want[0] or u != want[1]):
            return "bounds"
        return None

    for cid, (dx, dy, p, o, n, kind, steps) in meta.items():
        R = res[cid]
        if not c.judge_death(R):
            continue
        for k, st in enumerate(steps):
            what = dict(case=cid, dims=[dx, dy], kind=kind, samples=n, step=k, command=R.cmds[k][:300])
            if st[0] == "refuse":
                c.seen(cid, k)
                c.count("wrong sizes offered")
                if R.ok(k):
                    c.fail("wrong-size-accepted", entries=st[1], **what)
                continue
            if not R.ok(k):
                c.fail("exception:" + st[0], got=R.res[k], **what)
                break
            T = R.toks(k)
            if st[0] == "new" or st[0] == "set":
                c.count("writes" if st[0] == "set" else "containers")
                continue
            c.seen(cid, k, R.cmds[k])
            if st[0] == "info":
                info = [T.int(), T.int(), T.int(), T.raw(), T.raw()]
                lo, hi = T.vec(), T.vec()
                if info != [n, dx, dy, p, o]:
                    c.fail("info", got=info, **what)
                if n:
                    cols = list(zip(*[m[:dx] for m in st[1]]))
                    if lo != [min(q) for q in cols] or hi != [max(q) for q in cols]:
                        c.fail("bounding-box", got=[lo, hi], want=[[min(q) for q in cols], [max(q) for q in cols]], **what)
            elif st[0] == "rows":
                m = T.int()
                got = [T.vec() for _ in range(m)]
                c.count("rows read", m)
                if got != [x[:dx + dy] for x in st[1]]:
                    c.fail("rows", got=got[:3], want=[x[:dx + dy] for x in st[1]][:3], **what)
                    break
            elif st[0] == "segs":
                m = T.int()
                got = [(T.vec(), T.vec(), T.vec()) for _ in range(m)]
                c.count("segments read", m)
                bad = [(segment(dx, dy, kind, w, *g), g, w) for g, w in zip(got, st[1])]
                bad = [b for b in bad if b[0]]
                if m != n or bad:
                    c.fail("segment:%s:%d" % (bad[0][0] if bad else "count", kind), got=bad[:1], **what)
                    break
            elif st[0] == "seg":
                x, l, u, l2, u2 = (T.vec() for _ in range(5))
                b = segment(dx, dy, kind, st[1], x, l, u) or ("overloads" if (l, u) != (l2, u2) else None)
                if b:
                    c.fail("segment:%s:%d" % (b, kind), got=[x, l, u, l2, u2], want=st[1], **what)
                    break
            elif st[0] == "mat":
                nr, nc = T.int(), T.int()
                got = [[T.f() for _ in range(nc)] for _ in range(nr)]
                if nr != n or nc != width(dx, dy, kind) or any(
                        any(b is not None and a != b for a, b in zip(g, w)) for g, w in zip(got, st[1])):
                    c.fail("matrix", got=got[:2], want=st[1][:2], **what)
    c.sample(dict(dims=[dx, dy], kind=kind, samples=n, steps=[s[0] for s in steps]))


check.main("C07", main,
           "One evaluation per observation (rows, segments, box, refused write) in a random history of whole-segment, value-only and "
           "wrongly sized writes on containers of every interval kind, compared with a model of the container.",
           ["half-widths are non-negative; a value-only write leaves the choice of the interval to the container"])
