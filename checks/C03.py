"""C03: binary data files reproduce the data exactly."""
import os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, driver
from gen import *


def header(dx, dy, p, o, n, kind):
    return ("#DIM %d %d\n#PARAM_IN  %s\n#PARAM_OUT %s\n#FORMAT binary\n#VERSION 0\n#PRECISION ieee754-double\n"
            "#SAMPLE_COUNT %d\n#VS %d\n#ENDIAN little\n#BEGIN_STREAM\n" % (dx, dy, FILE[p], o, n, kind)).encode()


def main(c):
    t = build.ensure("asan", driver=True)
    r = c.rng
    S = driver.Script()
    W = c.tmp()
    meta = {}
    files = os.path.join(W, "files")
    os.makedirs(files)
    sizes = [0, 1, 2, 3, 10, 37, 150]
    for i in range(c.scale(260, 3000)):
        dx, dy, p, o = shape(r)
        kind = r.choice([NCI, SYM, ASYM])
        n = many(r, sizes, 999) if not (i < 3) else [60000, 2000, 20000][i]
        rows = [row(r, dx, dy, kind, any_double) for _ in range(min(n, 400))]
        while len(rows) < n:
            rows.append(rows[r.randrange(len(rows))])
        flat = [x for l in rows for x in l]
        how = r.choice(["api", "file"])
        a, b, e = (os.path.join(files, "%d.%s" % (i, s)) for s in "abe")
        payload = b"".join(map(bits, flat))
        if how == "api" and n < 1000:
            cmds = ["dnew X %d %d %d %s %s %d %s" % (kind, dx, dy, p, o, n, driver.fv(flat)),
                    "dsaveb X %s" % a, "dload Y %s %s -" % (r.choice(["%01", "vertical_segment"]), a)]
        else:
            how = "file"
            with open(a, "wb") as fh:
                fh.write(header(dx, dy, p, o, n, kind) + payload + b"\n#END_STREAM\n")
            cmds = ["stat " + a, "stat " + a, "dload Y %s %s -" % (r.choice(["%01", "vertical_segment"]), a)]
        cmds += ["dinfo Y", "dvsinfo Y", "dsaveb Y %s" % b, "dvsmat Y" if n < 1000 else "stat " + a]
        cmds += ["drows Y" if n < 1000 else "stat " + a]
        # short files
        cuts = []
        if n:
            for _ in range(2):
                cut = r.choice([1, 7, 8, r.randrange(1, len(payload) + 1), len(payload)])
                f = "%s%d" % (e, len(cuts))
                cuts.append((f, cut))
                cmds.append("dload Z%d %%01 %s -" % (len(cuts), f))
            for f, cut in cuts:
                with open(f, "wb") as fh:
                    fh.write(header(dx, dy, p, o, n, kind) + payload[:len(payload) - cut])
        cid = "b%d" % i
        S.case(cid, cmds)
        meta[cid] = (how, dx, dy, p, o, n, kind, rows, a, b, cuts, payload)
    res, err = driver.run(t, S, W)
    for e in err:
        c.fail("driver", error=e)
    for cid, (how, dx, dy, p, o, n, kind, rows, a, b, cuts, payload) in meta.items():
        R = res[cid]
        what = dict(case=cid, dims=[dx, dy], param=p, out=o, samples=n, kind=kind, origin=how, first=rows[:1])
        if not c.judge_death(R):
            continue
        c.seen(how, dx, dy, p, o, n, kind, payload[:64])
        c.count("data sets of kind %d" % kind)
        c.count("values compared", len(payload) // 8)
        if any(not R.ok(k) for k in range(8)):
            c.fail("refused:" + how, got=[R.res[k] for k in range(8) if not R.ok(k)][:2], **what)
            continue
        if R.res[2][1] == "null":
            c.fail("refused:" + how, **what)
            continue
        T = R.toks(2)
        info = [T.int(), T.int(), T.int(), T.raw(), T.raw()]
        if info != [n, dx, dy, p, o]:
            c.fail("header:" + how, got=info, **what)
        T = R.toks(4)
        if [T.int(), T.int()] != [kind, width(dx, dy, kind)]:
            c.fail("kind:" + how, got=R.res[4][1], **what)
        if n < 1000:
            T = R.toks(6)
            nr, nc = T.int(), T.int()
            got = [[T.f() for _ in range(nc)] for _ in range(nr)]
            bad = [k for k in range(min(nr, n)) if not sames(got[k], rows[k])]
            if nr != n or bad:
                c.fail("values:" + how, row=bad[:1], got=got[bad[0]] if bad else nr, want=rows[bad[0]] if bad else n, **what)
            T = R.toks(7)
            m = T.int()
            got = [T.vec() for _ in range(m)]
            if m != n or any(not sames(g, w[:dx + dy]) for g, w in zip(got, rows)):
                c.fail("rows:" + how, **what)
        # what is written: the documented layout, bit for bit, and stable
        fa, fb = open(a, "rb").read(), open(b, "rb").read()
        for f, name in ((fa, "first"), (fb, "resaved")):
            if how == "file" and name == "first":
                continue
            k = f.find(b"#BEGIN_STREAM\n")
            body = f[k + 14:k + 14 + len(payload)]
            nanfree = body == payload or (len(body) == len(payload) and how == "api" and sames(
                struct.unpack("<%dd" % (len(body) // 8), body), struct.unpack("<%dd" % (len(body) // 8), payload)))
            if k < 0 or not nanfree or f[k + 14 + len(payload):] != b"\n#END_STREAM\n":
                c.fail("bytes:%s:%s" % (how, name), **what)
        for k, (f, cut) in enumerate(cuts):
            c.seen("cut", cid, cut)
            c.count("truncated files")
            if R.ok(8 + k) and R.res[8 + k][1] != "null":
                c.fail("truncated-accepted", cut=cut, payload=len(payload), **what)
    c.sample({k: v for k, v in what.items()})


check.main("C03", main,
           "One evaluation per data set saved/loaded and per truncated file. Data sets vary dimensions 1-7, all parametrizations, "
           "all interval kinds, 0 to 60000 samples, values from all of binary64 (NaN, infinities, denormals, bytes that look like header "
           "text at the start of the stream). The stream bytes are compared with the values, after saving, after loading, after resaving.",
           ["little endian host"])
