"""C04: text data files reproduce the data."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, driver
from gen import *


def close(a, b):
    return a == b or abs(a - b) <= 1e-14 * abs(b) + 1e-323


def main(c):
    t = build.ensure("asan", driver=True)
    r = c.rng
    S = driver.Script()
    W = c.tmp()
    meta = {}
    for i in range(c.scale(300, 4000)):
        dx, dy, p, o = shape(r)
        kind = r.choice([NCI, SYM, ASYM])
        n = many(r, [0, 1, 2, 5, 30, 200]) if i else 3000
        rows = [row(r, dx, dy, kind, lambda q: finite(q, 307)) for _ in range(n)]
        rows = [[max(-1e308, min(1e308, x)) for x in l] for l in rows]
        a, b = (os.path.join(W, "%d.%s" % (i, s)) for s in "ab")
        cmds = ["dnew X %d %d %d %s %s %d %s" % (kind, dx, dy, p, o, n, driver.fv([x for l in rows for x in l])),
                "%s X %s" % (r.choice(["dsave", "dsavet"]), a),
                "dload Y %s %s -" % (r.choice(["%01", "vertical_segment"]), a), "drows Y",
                "dsave Y " + b, "dload Z %%01 %s -" % b, "drows Z"]
        cid = "t%d" % i
        S.case(cid, cmds)
        meta[cid] = (dx, dy, p, o, n, kind, rows, a, b)
    res, err = driver.run(t, S, W)
    for e in err:
        c.fail("driver", error=e)
    for cid, (dx, dy, p, o, n, kind, rows, a, b) in meta.items():
        R = res[cid]
        what = dict(case=cid, dims=[dx, dy], param=p, out=o, samples=n, kind=kind)
        if not c.judge_death(R):
            continue
        c.seen(dx, dy, p, o, n, kind, tuple(rows[0]) if rows else ())
        c.count("data sets")
        c.count("values compared", n * (dx + dy))
        if any(not R.ok(k) for k in range(len(R.cmds))) or "null" in (R.res[2][1], R.res[5][1]):
            c.fail("refused", got=[x for x in R.res.values() if x[0] != "OK"][:2], **what)
            continue
        for step, (li, ro) in (("first", (2, 3)), ("second", (5, 6))):
            T = R.toks(li)
            info = [T.int(), T.int(), T.int(), T.raw(), T.raw()]
            if info != [n, dx, dy, p, o]:
                c.fail("header:" + step, got=info, **what)
                break
            T = R.toks(ro)
            m = T.int()
            got = [T.vec() for _ in range(m)]
            bad = [k for k in range(n) if len(got[k]) != dx + dy or not all(map(close, got[k], rows[k][:dx + dy]))]
            if bad:
                c.fail("values:" + step, row=bad[0], got=got[bad[0]], want=rows[bad[0]][:dx + dy], **what)
                break
        # the file itself: documented header and one line per sample
        lines = open(a, errors="replace").read().split("\n")
        body = [l for l in lines if l.strip() and not l.startswith("#")]
        head = {l[1:].split(None, 1)[0]: l[1:].split(None, 1)[-1].strip() for l in lines if l.startswith("#")}
        if head.get("DIM", "").split() != [str(dx), str(dy)] or head.get("PARAM_IN") != FILE[p] or head.get("PARAM_OUT") != o:
            c.fail("file-header", header=head, **what)
        if len(body) != n:
            c.fail("file-lines", lines=len(body), **what)
        else:
            for k, l in enumerate(body):
                v = [float(x) for x in l.split()]
                if len(v) != dx + dy or not all(map(close, v, rows[k][:dx + dy])):
                    c.fail("file-values", line=l, want=rows[k][:dx + dy], **what)
                    break
    c.sample(dict(what, first=rows[:1]))


check.main("C04", main,
           "One evaluation per data set saved as text and loaded back, twice. Dimensions 1-7, all parametrizations and interval "
           "kinds, 0 to 3000 samples, finite values of all magnitudes up to 1e308 including denormals and signed zeros; the written "
           "file is also parsed independently.", ["values above 1e308 are not generated (15 printed digits can round up to infinity)"])
