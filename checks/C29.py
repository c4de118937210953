"""C29: the moment tool reports the moments of the data over the sampling it was asked for."""
import itertools, math, os, re, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, dirs, driver, exr
from gen import *

HALF_PI = math.pi / 2
GRIDS = ["COS_TH", "COS_TK", "COS_TLV", "COS_TH_TD", "RUSIN_TH_TD", "ISOTROPIC_TV_PROJ_DPHI", "STARK_2D", "RUSIN_TH_TD_PD", "STARK_3D"]
ORDERS = ["x", "y", "xx", "xy", "yy", "xxx", "xxy", "xyy", "yyy"]


def signal(r):
    """Data of many shapes: constant plus a peak, noise, separable, scaled."""
    k, mag, off = r.choice("pnsl"), 10 ** r.choice([0, 0, 3, -5]), r.choice([0, 0, 1, -3])
    a = [r.uniform(-2, 2) for _ in range(6)]

    def f(x):
        if k == "p":
            v = math.exp(-sum((u - b) ** 2 for u, b in zip(x, a)) * 3)
        elif k == "n":
            v = r.random()
        elif k == "s":
            v = math.cos(sum(u * b for u, b in zip(x, a))) + 1
        else:
            v = sum(u * b for u, b in zip(x, a))
        return mag * (v + off)
    return f


def sources(c, t, w):
    """(plugin, file, dimension, channels)"""
    r = c.rng
    out = []
    S = driver.Script()
    grids = []
    for k in range(c.scale(60, 500)):
        p = r.choice(GRIDS)
        g = [r.choice([2, 3, 4, 7]) if NAMED[p] > 2 or r.random() < .9 else r.choice([16, 33]) for _ in range(NAMED[p])]
        if r.random() < .06:
            g[r.randrange(len(g))] = 1
        grids.append((p, g, r.choice([1, 1, 2, 3]) if r.random() < .93 else r.choice([4, 5])))
        n = math.prod(g)
        S.case("g%d" % k, ["args A x --param %s --grid-size %s" % (FILE[p], driver.q("[%s]" % ",".join(map(str, g)))),
                           "dget I data_grid %d %d 1 %s UNKNOWN_OUTPUT A" % (n, NAMED[p], p)] + ["drow I %d" % i for i in range(n)])
    res, err = driver.run(t, S, w)
    for e in err:
        c.fail("driver", error=e)
    for k, (p, g, dy) in enumerate(grids):
        R, d, n = res["g%d" % k], NAMED[p], math.prod(g)
        if not R.done or any(not R.ok(2 + i) for i in range(n)):
            c.fail("grid", got=R.res.get(2))
            continue
        path = os.path.join(w, "g%d.alta" % k)
        fs = [signal(r) for _ in range(dy)]
        with open(path, "w") as o:
            o.write("#DIM %d %d\n#PARAM_IN %s\n#PARAM_OUT UNKNOWN_OUTPUT\n#grid-size [%s]\n" % (d, dy, FILE[p], ",".join(map(str, g))))
            for i in range(n):
                x = R.toks(2 + i).vec()[:d]
                o.write(" ".join(map(repr, x + [f(x) for f in fs])) + "\n")
        out.append(("data_grid", path, d, dy))
    for k in range(c.scale(16, 120)):
        p = r.choice(["RUSIN_TH_TD", "RUSIN_TH_TD_PD", "SPHERICAL_TL_PL_TV_PV", "COS_TH", "COS_TH_TD"])
        d, dy = NAMED[p], r.choice([1, 2, 3])
        path = os.path.join(w, "r%d.alta" % k)
        fs = [signal(r) for _ in range(dy)]
        box = [(r.uniform(0, .6), r.uniform(.7, 1)) for _ in range(d)]
        if r.random() < .15 and d > 1:
            q = r.randrange(d)
            box[q] = (box[q][0], box[q][0])                 # a dimension in which the data do not extend
        with open(path, "w") as o:
            o.write("#DIM %d %d\n#PARAM_IN %s\n#PARAM_OUT UNKNOWN_OUTPUT\n" % (d, dy, FILE[p]))
            for i in range(r.choice([6, 20, 50])):
                x = [r.uniform(*b) for b in box]
                o.write(" ".join(map(repr, x + [f(x) for f in fs])) + "\n")
        out.append(("data_rbf", path, d, dy))
    for k in range(c.scale(3, 20)):
        path = os.path.join(w, "s%d.exr" % k)
        open(path, "wb").write(exr.write(8, 8, {q: [r.random() for _ in range(64)] for q in "RGB"}))
        out.append(("data_brdf_slice", path, 2, 3))
    path = os.path.join(w, "u.bin")
    v = [r.random() for _ in range(997)]
    with open(path, "wb") as f:
        f.write(struct.pack("<%dd" % (288 * 288 * 3), *(v[i % 997] for i in range(288 * 288 * 3))))
    out += [("data_utia", path, 4, 3)] * c.scale(2, 10)
    path = os.path.join(w, "m.binary")
    with open(path, "wb") as f:
        v = struct.pack("<9973d", *(r.random() * 1500 for _ in range(9973)))
        one = (v * 147)[:90 * 90 * 180 * 8]
        f.write(struct.pack("<3i", 90, 90, 180) + one + one[8:] + one[:8] + one[16:] + one[:16])
    out += [("data_merl", path, 3, 3)] * c.scale(1, 6)
    return out


def main(c):
    t = build.ensure("asan", ["data2moments"] + build.DATAS, driver=True)
    r, w = c.rng, c.tmp()
    jobs = []
    for k, (plug, path, d, dy) in enumerate(sources(c, t, w)):
        n = [r.choice([1, 2, 3, 5, 8] + ([20] if d < 4 else [])) for _ in range(d)]
        full = d <= 2 and plug != "data_rbf" and r.random() < .1
        if full:
            n = [100] * d
        dim = [r.randrange(d), r.randrange(d)]
        argv = ["--input", path, "--data", plug, "--output", os.path.join(w, "o%d" % k)]
        if not full:
            argv += ["--samples", r.choice(["[%s]", "[ %s ]"]) % r.choice([",", ", "]).join(map(str, n))]
        if d == 1 or r.random() < .6:
            argv += ["--dim", "[%d, %d]" % tuple(dim)]
        else:
            dim = [0, 1]
        extra = ["--param", r.choice(["STARK_2D", "ISOTROPIC_TV_PROJ_DPHI"])] if plug == "data_brdf_slice" else []
        jobs.append(dict(k=k, plug=plug, path=path, d=d, dy=dy, n=n, dim=dim, argv=argv + extra, extra=extra))
    # more samples than can be counted
    small = [j for j in jobs if j["d"] >= 2 and j["plug"] == "data_grid" and not re.search(r"grid-size \[(.*,)?1[],]", open(j["path"]).read())]
    for k in range(c.scale(4, 12)):
        j = r.choice(small)
        n = [r.choice([2147483647, 70000, 65536, 1 << 20]) for _ in range(j["d"])]
        argv = j["argv"][:6] + ["--samples", "[%s]" % ",".join(map(str, n)), "--dim", "[0,1]"]
        rc, so, se = driver.sh([t.soft("data2moments")] + argv, w, driver.san_env(t), timeout=60)
        c.seen("too many", j["path"], tuple(n))
        c.count("samplings too large to count")
        if rc != 1 or "runtime error" in se:
            c.fail("too-many-samples", rc=rc, err=se[-1500:], argv=argv)
    done = driver.pmap(lambda j: driver.sh([t.soft("data2moments")] + j["argv"], w, driver.san_env(t), timeout=300), jobs, 8)
    S = driver.Script()
    for j, (rc, so, se) in zip(jobs, done):
        j["rc"], j["so"], j["se"] = rc, so, se
        S.case("i%d" % j["k"], ["args A x %s" % " ".join(j["extra"]), "dload D %s %s A" % (j["plug"], driver.q(j["path"])), "dinfo D"] + (["drows D"] if j["plug"] != "data_merl" else ["dmid D"]))
    res, err = driver.run(t, S, w)
    for e in err:
        c.fail("driver", error=e)
    S = driver.Script()
    for j in jobs:
        R = res["i%d" % j["k"]]
        info = dict(argv=j["argv"], file=open(j["path"], "rb").read(1500).decode("latin-1") if j["path"].endswith("alta") else j["plug"])
        j["info"] = info
        if not c.judge_death(R):
            continue
        if not R.ok(1) or not R.ok(2) or not R.ok(3):
            c.fail("data-unreadable", got=[R.res.get(i) for i in (1, 2, 3)], **info)
            continue
        d = j["d"]
        nums = R.res[2][1]
        m = re.search(r" %d (-?0x\S+(?: -?0x\S+){%d}) %d (-?0x\S+(?: -?0x\S+){%d})" % (d, d - 1, d, d - 1), nums)
        if not m:
            c.fail("domain", got=nums, **info)
            continue
        j["lo"] = [float.fromhex(v) for v in m.group(1).split()]
        j["hi"] = [float.fromhex(v) for v in m.group(2).split()]
        if j["plug"] == "data_merl":
            j["min"] = None
        else:
            T = R.toks(3)
            rows = []
            cnt = T.int()
            for _ in range(cnt):
                rows.append(T.vec())
            j["min"] = [min(q[d + ch] for q in rows) for ch in range(j["dy"])]
        n = [k if b > a else 1 for k, a, b in zip(j["n"], j["lo"], j["hi"])]
        j["pts"] = [[a + (b - a) * (i / float(k)) for i, k, a, b in zip(q, n, j["lo"], j["hi"])] for q in itertools.product(*map(range, n))]
        j["vol"] = math.prod(b - a for a, b in zip(j["lo"], j["hi"]) if b > a)
        S.case("v%d" % j["k"], ["args A x %s" % " ".join(j["extra"]), "dload D %s %s A" % (j["plug"], driver.q(j["path"])),
                                "dvals D %d %s" % (len(j["pts"]), " ".join(map(driver.fv, j["pts"])))])
    res, err = driver.run(t, S, w)
    for e in err:
        c.fail("driver", error=e)
    merl = None
    for j in jobs:
        if "pts" not in j:
            continue
        R, info, d, dy = res["v%d" % j["k"]], j["info"], j["d"], j["dy"]
        if not c.judge_death(R):
            continue
        if j["rc"] is None:
            c.unsure("tool ran out of time")
            continue
        if not R.ok(2):
            # nor can the tool
            c.count("data without a value at a sample")
            if j["rc"] == 0:
                c.fail("value", got=R.res.get(2), **info)
            continue
        if j["rc"] != 0:
            c.fail("refused" if j["rc"] == 1 else "died", rc=j["rc"], err=j["se"][-1500:], **info)
            continue
        if j["min"] is None:
            if merl is None:
                b = open(j["path"], "rb").read()
                sc = [1.0 / 1500, 1.15 / 1500, 1.66 / 1500]
                N = 90 * 90 * 180
                merl = [min(struct.unpack_from("<%dd" % N, b, 12 + 8 * N * ch)) * sc[ch] for ch in range(3)]
            j["min"] = merl
        T = R.toks(2)
        T.int()
        ys = [T.vec() for _ in j["pts"]]
        dt = j["vol"] / len(ys)
        want, mag = {}, {}
        a, b = j["dim"]
        for ch in range(dy):
            v = [(y[ch] - j["min"][ch]) * dt for y in ys]
            m0, s0 = math.fsum(v), math.fsum(map(abs, v)) + 1e-14 * abs(j["min"][ch]) * j["vol"]
            want.setdefault("0", []).append(m0)
            mag.setdefault("0", []).append(s0)
            for o in ORDERS:
                ws = [math.prod(x[a if q == "x" else b] for q in o) for x in j["pts"]]
                s = math.fsum(p * q for p, q in zip(v, ws))
                want.setdefault(o, []).append(s / m0 if m0 else math.nan)
                mag.setdefault(o, []).append((math.fsum(abs(p * q) for p, q in zip(v, ws)) + abs(s) * s0 / abs(m0) + 1e-14 * abs(j["min"][ch]) * dt * math.fsum(map(abs, ws))) / abs(m0) if m0 else math.inf)
        got = {}
        for l in open(os.path.join(w, "o%d" % j["k"])):
            m = re.match(r"\\mu_\{?([0xy]+)\}? = (.*)$", l.rstrip("\n"))
            if m:
                got[m.group(1)] = m.group(2)
        said = dict(re.findall(r"<<RESULT>> moment\s+([0xy]+): (.*)", j["so"]))
        c.seen(j["plug"], j["path"] if j["extra"] == [] else tuple(j["extra"]), tuple(j["n"]), tuple(j["dim"]))
        c.count("tables of moments: " + j["plug"])
        for o in ["0"] + ORDERS:
            for where, tab in (("file", got), ("terminal", said)):
                try:
                    vs = [float(v) for v in tab[o].strip().strip("[]").split(",")]
                except (KeyError, ValueError):
                    vs = None
                if vs is None or len(vs) != dy:
                    c.fail("missing:%s" % where, moment=o, got=tab.get(o), **info)
                    continue
                for ch, (g, u, q) in enumerate(zip(vs, want[o], mag[o])):
                    if not math.isfinite(u) or mag["0"][ch] > 1e4 * abs(want["0"][ch]):
                        c.count("moments of nothing")
                        continue
                    c.count("moments compared")
                    if not abs(g - u) <= 6e-6 * abs(u) + 1e-11 * q:
                        c.fail("moment:%s:%s" % (j["plug"], o), where=where, got=vs, want=want[o], samples=j["n"], dims=j["dim"], lo=j["lo"], hi=j["hi"], **info)
                        break


check.main("C29", main,
           "One evaluation per distinct data set, sampling and pair of dimensions; each compares the ten moments of every channel, in the file and on the terminal, "
           "with an independent summation of the values that the library gives at the same points.",
           ["the value of the data between its samples is that of the library, which C09, C10 and C11 decide",
            "moments are printed with six digits"])
