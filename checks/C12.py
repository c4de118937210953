"""C12: ASTM files load into the stated samples."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, driver
from gen import *


def number(r):
    v = r.choice([r.uniform(0, 90), r.uniform(-180, 180), r.uniform(0, 1), 0.0, float(r.randrange(-90, 90)), 10 ** r.uniform(-12, 6)])
    f = r.choice(["%.6f", "%r", "%.3e", "%g", "%.10g", "%+.4f"])
    s = f % v
    return s, float(s)


def main(c):
    t = build.ensure("asan", ["data_astm"], driver=True)
    r = c.rng
    S, want = driver.Script(), {}
    for k in range(c.scale(400, 6000)):
        ang = r.choice([["theta_i", "phi_i", "theta_s", "phi_s"]] * 2 + [["theta_i", "theta_s", "phi_s"]])
        ch, out = r.choice([(["R", "G", "B"], "RGB_COLOR"), (["Integrated Radiance"], "INV_STERADIAN"), (["Integrated"], "INV_STERADIAN"),
                            (["Integrated photopic BRDF"], "INV_STERADIAN"), (["X", "Y", "Z"], "UNKNOWN_OUTPUT"), (["Q"], "UNKNOWN_OUTPUT")])
        n = many(r, [0, 1, 2, 5, 20, 60])
        nl = r.choice(["\n", "\n", "\r\n"])
        head = []
        for _ in range(r.randrange(4)):
            head.append(r.choice(["COMMENT measured, somewhere", "DATE 1.2.2003", "SAMPLE red, glossy paint", "LAB cornell 12",
                                  "SOFTWARE v1,2,3", "NUM_LIGHTS 7", "RESPONSE Q,Z", "MATERIAL theta_i"]))
        head.insert(r.randrange(len(head) + 1), "NUM_POINTS %s%d" % (r.choice(["", " "]), n))
        head = [h for h in dict((x.split()[0], x) for x in head).values()]
        txt = nl.join(head) + nl + "VARS " + r.choice([",", ", "]).join(ang + ch) + nl
        rows = []
        for _ in range(n):
            cells = [number(r) for _ in range(len(ang) + len(ch))]
            rows.append([v for _, v in cells])
            txt += r.choice(["", "", "", nl]) + r.choice([",", ",", ", ", " , "]).join(s for s, _ in cells) + r.choice(["", "", " "]) + nl
        if n and r.random() < .3:
            txt = txt[:-len(nl)]
        if txt.endswith(nl) and r.random() < .2:
            txt += "1,2,3,4,5,6,7" + nl      # beyond the announced points
        cmds = ["write f.astm " + driver.q(txt), "dload D data_astm f.astm -", "drows D", "dinfo D",
                "dloads E data_astm %s -" % driver.q(txt), "deq D E 0x0p+0", "dset D 0 1 0x0p+0"]
        if n:
            cmds += ["dsave D copy.txt", "dload T vertical_segment copy.txt -", "drows T"]
        cid = "a%d" % k
        S.case(cid, cmds)
        want[cid] = (ang, ch, out, rows, txt)
    res, err = driver.run(t, S, c.tmp())
    for e in err:
        c.fail("driver", error=e)
    for cid, (ang, ch, out, rows, txt) in want.items():
        R = res[cid]
        if not c.judge_death(R):
            continue
        what = dict(case=cid, file=txt[:600])
        bad = [j for j in range(len(R.cmds)) if j != 6 and not R.ok(j)]
        if bad:
            c.fail("exception:" + R.cmds[bad[0]].split()[0], got=R.res[bad[0]], **what)
            continue
        X = R.toks(1)
        got = [X.int(), X.int(), X.int(), X.raw(), X.raw()]
        c.seen(cid, "info", txt)
        if got != [len(rows), len(ang), len(ch), "SPHERICAL_TL_PL_TV_PV" if len(ang) == 4 else "UNKNOWN_INPUT", out]:
            c.fail("parameters", got=got, **what)
            continue
        for j, tag in ((2, "rows"), (9, "reloaded")):
            if j >= len(R.cmds):
                continue
            X = R.toks(j)
            n = X.int()
            for i in range(n):
                y = X.vec()
                c.seen(cid, j, i)
                c.count("samples compared")
                if i >= len(rows) or (y != rows[i] if j == 2 else any(abs(a - b) > 1e-13 * abs(b) for a, b in zip(y, rows[i])) or len(y) != len(rows[i])):
                    c.fail(tag, index=i, got=y, want=rows[i:i + 1], **what)
                    break
            if n != len(rows):
                c.fail(tag + "-count", got=n, want=len(rows), **what)
        X = R.toks(3)
        for _ in range(5):
            X.raw()
        if rows:
            cols = list(zip(*rows))[:len(ang)]
            if X.vec() != [min(q) for q in cols] or X.vec() != [max(q) for q in cols]:
                c.fail("domain", **what)
        if R.toks(5).int() != 1:
            c.fail("stream-and-file-differ", **what)
        if R.ok(6) and rows:
            c.fail("wrong-size-accepted", **what)
    c.sample(dict(file=txt[:300]))


check.main("C12", main,
           "One evaluation per file and per sample; generated files vary variables, header entries and their order, number formats, "
           "separators, blank lines, line endings, missing final newline and trailing extra lines.",
           ["header keys other than NUM_POINTS and VARS are free text"])
