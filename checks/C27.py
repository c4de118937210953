"""C27: the conversion tool keeps the samples and changes their coordinates only; gridded targets get the interpolated source."""
import math, os, struct, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, driver, exr
from dirs import *

NAMES = {k: k for k in DIM}
NAMES["SCHLICK_VK"] = "SCHLICK_VH"
SRC = FULL + ISO                                 # parametrizations that tell both directions
OUTS = [("INV_STERADIAN", 1), ("INV_STERADIAN_COSINE_FACTOR", 1), ("ENERGY", 1), ("RGB_COLOR", 3), ("XYZ_COLOR", 3), ("UNKNOWN_OUTPUT", 2)]
HALF_PI = math.pi / 2
HORIZON = ["COS_TK", "COS_TLV", "COS_TLR"]       # zero is a cosine there


def clear(V, L):
    """Away from poles, horizon and singular pairs, so that every parametrization is well conditioned."""
    H = [a + b for a, b in zip(V, L)]
    if norm(H) < .2 or norm([V[0] - L[0], V[1] - L[1], V[2] + L[2]]) < .2:
        return False
    H = unit(H)
    K = [V[0] - L[0], V[1] - L[1], V[2] + L[2]]
    return (all(math.hypot(*v[:2]) > .05 for v in (V, L, H, K, diffvec(V, L)))
            and math.hypot(V[0] - L[0], V[1] - L[1]) > .05 and abs(V[2]) > 1e-3 and abs(L[2]) > 1e-3
            and V[2] > -.99 and L[2] > -.99)


def pair(r, below):
    while True:
        V, L = sph(r.uniform(0.03, HALF_PI), r.uniform(-3.1, 3.1)), sph(r.uniform(0.03, HALF_PI), r.uniform(-3.1, 3.1))
        if below:
            k = r.choice("VLB")
            if k in "VB":
                V[2] = -V[2]
            if k in "LB":
                L[2] = -L[2]
        if clear(V, L):
            return V, L


def full_inverse(p, x):
    """Directions from coordinates that define them fully."""
    if p == "CARTESIAN":
        return x[:3], x[3:]
    if p == "SPHERICAL_TL_PL_TV_PV":
        return sph(x[2], x[3]), sph(x[0], x[1])
    if p == "STEREOGRAPHIC":
        def one(a, b):
            s = 1 + a * a + b * b
            return [2 * a / s, 2 * b / s, (2 - s) / s]
        return one(x[0], x[1]), one(x[2], x[3])
    th, ph, td, pd = x
    d = sph(td, pd)
    c, s = math.cos(th), math.sin(th)
    V = rotz([c * d[0] + s * d[2], d[1], -s * d[0] + c * d[2]], ph)
    H = sph(th, ph)
    k = dot(V, H)
    return V, [2 * k * h - v for h, v in zip(H, V)]


def invariants(V, L):
    """What rotations about the normal leave."""
    return [V[2], L[2], dot(V, L), V[0] * L[1] - V[1] * L[0]]


def read_text(path):
    head, rows = {}, []
    for l in open(path):
        if l.startswith("#"):
            w = l[1:].split(None, 1)
            head[w[0] if w else ""] = w[1].strip() if len(w) > 1 else ""
        elif l.strip():
            rows.append([float(v) for v in l.split()])
    return head, rows


def read_binary(path):
    b = open(path, "rb").read()
    k = b.index(b"#BEGIN_STREAM\n") + 14
    head = {}
    for l in b[:k].decode("latin-1").split("\n"):
        w = l[1:].split(None, 1)
        if w:
            head[w[0]] = w[1].strip() if len(w) > 1 else ""
    n = int(head["SAMPLE_COUNT"])
    dx, dy = map(int, head["DIM"].split())
    wd = dx + dy * (1 + int(head["VS"]))
    body = b[k:k + n * wd * 8]
    if len(body) != n * wd * 8 or b[k + n * wd * 8:].strip() != b"#END_STREAM":
        raise ValueError("size of the stream")
    v = struct.unpack("<%dd" % (n * wd), body)
    return head, [list(v[i * wd:i * wd + dx + dy]) for i in range(n)]


def table(path, p, out, rows, extra=""):
    with open(path, "w") as f:
        f.write("#ALTA HEADER BEGIN\n#DIM %d %d\n#PARAM_IN %s\n#PARAM_OUT %s\n%s#ALTA HEADER END\n" % (DIM[p], len(rows[0]) - DIM[p] if rows else 1, NAMES[p], out, extra))
        for q in rows:
            f.write(" ".join(map(repr, q)) + "\n")
    return path


def binary_table(path, p, out, rows, dy):
    with open(path, "wb") as f:
        f.write(("#ALTA HEADER BEGIN\n#DIM %d %d\n#PARAM_IN %s\n#PARAM_OUT %s\n#FORMAT binary\n#VERSION 0\n#PRECISION ieee754-double\n#SAMPLE_COUNT %d\n"
                 "#VS 0\n#ENDIAN little\n#BEGIN_STREAM\n" % (DIM[p], dy, NAMES[p], out, len(rows))).encode())
        for q in rows:
            f.write(struct.pack("<%dd" % len(q), *q))
        f.write(b"\n#END_STREAM\n")
    return path


def close_row(p, q, src, x, V, L):
    """Why the coordinates x in q are not those of the pair (given in p), or None."""
    if len(x) != DIM[q]:
        return "dimension"
    if any(v != v for v in x):
        return "nan"
    if p == q:
        return None if all(abs(a - b) <= 1e-13 * max(1, abs(b)) for a, b in zip(x, src)) else "same parametrization"
    if q in FULL and p in ISO:
        v, l = full_inverse(q, x)
        a, b = invariants(v, l), invariants(V, L)
        return None if max(abs(i - j) for i, j in zip(a, b)) < 1e-6 else "directions up to a rotation"
    if q == "RUSIN_VH" and p in ISO:
        return None if abs(x[2] - coords(V, L, q)[2]) < 1e-6 else "half vector"
    if q == "SCHLICK_VK" and p in ISO:
        return None if abs(x[2] - coords(V, L, q)[2]) < 1e-6 else "back vector"
    want, w = coords(V, L, q), weights(q, V, L)
    for i in range(DIM[q]):
        e = x[i] - want[i]
        if i in ANGLES.get(q, ()):
            e = wrap(e)
        if abs(e) * w[i] > 1e-6:
            return "coordinate %d" % i
    return None


def lists(c, t, w):
    """From a list of samples to a list of samples."""
    r = c.rng
    jobs = []
    for k in range(c.scale(260, 2400)):
        p, q = r.choice(SRC), r.choice(list(DIM))
        if r.random() < .1:
            q = None                             # keeps the parametrization of the input
        out, dy = r.choice(OUTS)
        rows, meta = [], []
        for i in range(r.choice([1, 1, 2, 7, 30]) if r.random() < .96 else r.choice([129, 300, 1100])):
            # projections onto the surface do not tell the sides apart
            V, L = pair(r, r.random() < .2 and p in FULL + ["RUSIN_TH_TD_PD", "ISOTROPIC_TV_TL_DPHI"])
            x = coords(V, L, p)
            y = [r.choice([r.uniform(-1, 2), 10 ** r.uniform(-12, 12), 0.0]) for _ in range(dy)]
            y[0] = (i + 1) * (1 + r.random() * .3)            # ordinates tell the samples apart
            rows.append(x + y)
            meta.append((V, L))
        src = r.choice(["text", "text", "binary"])
        inp = os.path.join(w, "l%d.in" % k)
        if src == "text":
            table(inp, p, out, rows)
        else:
            binary_table(inp, p, out, rows, dy)
        opts = ["--input", inp, "--output", os.path.join(w, "l%d.out" % k)]
        if q:
            opts += ["--param", NAMES[q]]
        everything = r.random() < .4
        if everything:
            opts.append("--all-values")
        if r.random() < .2:
            opts.append("--verbose")
        o = r.choice(["", "", "alta-binary", "vertical_segment", "data_astm"])
        if o:
            opts += ["--out-data", o]
        if r.random() < .2:
            opts += ["--in-data", "vertical_segment"]
        elif src == "text" and q and r.random() < .15 and len(rows) > 7:
            opts += ["--in-data", "data_rbf"]
        keep = list(range(len(rows)))
        if src == "text" and "data_rbf" not in opts and r.random() < .2:
            lo = r.uniform(.5, len(rows) + 1)
            opts += [r.choice(["--ymin", "--ymax"]), "[%s]" % ", ".join([repr(lo)] + ["%s1e30" % ("-" if opts[-1] == "--ymin" else "")] * (dy - 1))]
            if opts[-2] == "--ymin":
                opts[-1] = "[%s]" % ", ".join([repr(lo)] + ["-1e30"] * (dy - 1))
                keep = [i for i in keep if rows[i][DIM[p]] >= lo]
            else:
                opts[-1] = "[%s]" % ", ".join([repr(lo)] + ["1e30"] * (dy - 1))
                keep = [i for i in keep if rows[i][DIM[p]] <= lo]
        jobs.append((k, p, q or p, out, dy, rows, meta, keep, everything, o, opts))

    def go(j):
        return driver.sh([t.soft("data2data")] + j[10], w, driver.san_env(t), timeout=120)
    for (k, p, q, out, dy, rows, meta, keep, everything, o, opts), (rc, so, se) in zip(jobs, driver.pmap(go, jobs)):
        info = dict(source=p, target=q, argv=opts, rows=rows[:40])
        c.seen("list", k, p, q)
        if rc is None:
            c.unsure("tool ran out of time")
            continue
        if rc != 0:
            c.fail("list:refused" if rc == 1 else "list:died", rc=rc, err=se[-1500:], **info)
            continue
        path = opts[opts.index("--output") + 1]
        try:
            head, got = (read_binary if o == "alta-binary" else read_text)(path)
        except (ValueError, KeyError, OSError) as e:
            c.fail("list:unreadable", why=str(e), **info)
            continue
        if (head.get("DIM", "").split() != [str(DIM[q]), str(dy)] or head.get("PARAM_IN") != NAMES[q] or head.get("PARAM_OUT") != out):
            c.fail("list:header", head=head, want=[DIM[q], dy, NAMES[q], out], **info)
        want = []
        for i in keep:
            V, L = meta[i]
            if V[2] > 0 and L[2] > 0:
                want.append((i, True))
            elif everything:
                # a half vector below the horizon has no coordinates in most parametrizations
                want.append((i, half(V, L)[2] > 1e-3 or p == q))
        n = 0
        for i, must in want:
            y = rows[i][DIM[p]:]
            there = n < len(got) and all(abs(a - b) <= 1e-14 * abs(b) for a, b in zip(got[n][DIM[q]:], y)) and len(got[n]) == DIM[q] + dy
            if not there and must:
                c.fail("list:sample-lost-or-changed", row=i, values=y, got=got[n] if n < len(got) else None, **info)
                break
            if there:
                V, L = meta[i]
                why = close_row(p, q, rows[i][:DIM[p]], got[n][:DIM[q]], V, L)
                c.count("samples compared")
                if why:
                    c.fail("list:coordinates:%s:%s" % (p, q), why=why, row=i, got=got[n], V=V, L=L, **info)
                n += 1
        else:
            if n != len(got):
                c.fail("list:too-many-samples", got=got[n:n + 3], **info)
        os.unlink(path)
    for j in jobs:
        os.unlink(os.path.join(w, "l%d.in" % j[0]))


def sources(r, w, thorough):
    """Data sets with a value everywhere: (plugin, file, input parametrization, channels)."""
    H = HALF_PI
    ins = []
    for n in range(2):
        p = r.choice(["RUSIN_TH_TD_PD", "SPHERICAL_TL_PL_TV_PV", "ISOTROPIC_TV_TL_DPHI"])
        rows = []
        for _ in range(40):
            V, L = pair(r, False)
            rows.append(coords(V, L, p) + [r.uniform(0, 2) for _ in range(3)])
        ins.append(("data_rbf", table(os.path.join(w, "rbf%d.alta" % n), p, "RGB_COLOR", rows), p))
    # the same value everywhere: no doubt about what any node gets
    v, p = [r.uniform(.5, 2) for _ in range(3)], r.choice(["CARTESIAN", "SPHERICAL_TL_PL_TV_PV"])
    ins.append(("data_rbf", table(os.path.join(w, "constant.alta"), p, "RGB_COLOR", [coords(*pair(r, False), p) + v for _ in range(40)]), p, v))
    g = [r.randrange(2, 7), r.randrange(2, 7)]
    ins.append(("data_grid", table(os.path.join(w, "g2.alta"), "RUSIN_TH_TD", "RGB_COLOR",
                                   [[H * i / (g[0] - 1), H * j / (g[1] - 1)] + [r.uniform(0, 2) for _ in range(3)] for i in range(g[0]) for j in range(g[1])],
                                   "#grid-size [%d, %d]\n" % tuple(g)), "RUSIN_TH_TD"))
    p = os.path.join(w, "utia.bin")
    with open(p, "wb") as f:
        v = [r.random() for _ in range(997)]
        f.write(struct.pack("<%dd" % (288 * 288 * 3), *(v[i % 997] for i in range(288 * 288 * 3))))
    ins.append(("data_utia", p, "SPHERICAL_TL_PL_TV_PV"))
    p = os.path.join(w, "slice.exr")
    n = r.choice([4, 9, 16])
    open(p, "wb").write(exr.write(n, n, {k: [r.random() for _ in range(n * n)] for k in "RGB"}))
    ins.append(("data_brdf_slice", p, "STARK_2D"))
    p = os.path.join(w, "merl.binary")
    with open(p, "wb") as f:
        v = struct.pack("<9973d", *(r.random() * 1500 for _ in range(9973)))
        one = (v * 147)[:90 * 90 * 180 * 8]
        f.write(struct.pack("<3i", 90, 90, 180) + one + one[8:] + one[:8] + one[16:] + one[:16])
    ins.append(("data_merl", p, "RUSIN_TH_TD_PD"))
    return ins


def gridded(c, t, w):
    r = c.rng
    ins = sources(r, w, c.thorough)
    size = {"data_merl": 90 * 90 * 180, "data_utia": 288 * 288, "data_brdf_slice": 512 * 512}
    jobs = []

    def job(i, o, extra, q, n, digits):
        # a slice is read in the parametrization asked for
        p = q if i[0] == "data_brdf_slice" and extra else i[2]
        jobs.append(dict(k=len(jobs), ins=i, p=p, out=o, opts=extra, q=q, n=n, tol=digits))
    for i in ins:
        for o in ["data_brdf_slice", "data_utia"] if c.thorough else [r.choice(["data_brdf_slice", "data_utia"])]:
            if o == "data_brdf_slice":
                for q in ["STARK_2D", "ISOTROPIC_TV_PROJ_DPHI", "RUSIN_TH_TD"] if c.thorough else [r.choice(["STARK_2D", "ISOTROPIC_TV_PROJ_DPHI", "RUSIN_TH_TD"])]:
                    job(i, o, ["--param", q], q, size[o], 1e-6)
            else:
                job(i, o, [], "SPHERICAL_TL_PL_TV_PV", size[o], 1e-6)
        for _ in range(c.scale(3, 8)):
            q = r.choice(["STARK_2D", "RUSIN_TH_TD", "RUSIN_TH_TD_PD", "STARK_3D", "COS_TH_TD", "ISOTROPIC_TV_PROJ_DPHI"])
            g = [r.randrange(2, 8) for _ in range(DIM[q])]
            n = 1
            for a in g:
                n *= a
            job(i, "data_grid", ["--param", q, "--grid-size", "[%s]" % ", ".join(map(str, g))], q, n, 1e-13)
        # one coordinate; nodes lie on the horizon exactly
        for q in [] if i[0] == "data_brdf_slice" else HORIZON if c.thorough or len(i) > 3 else [r.choice(HORIZON)]:
            n = r.randrange(2, 40)
            job(i, "data_grid", ["--param", q, "--grid-size", "[%d]" % n], q, n, 1e-13)
    for i in (ins if c.thorough else [r.choice(ins[:4])]):
        job(i, "data_merl", ["--param", "RUSIN_TH_TD_PD"], "RUSIN_TH_TD_PD", size["data_merl"], 1e-13)

    def go(j):
        out = os.path.join(w, "g%d" % j["k"] + {"data_brdf_slice": ".exr", "data_utia": ".exr"}.get(j["out"], ".out"))
        j["path"] = out
        j["argv"] = ["--input", j["ins"][1], "--in-data", j["ins"][0], "--output", out, "--out-data", j["out"]] + j["opts"]
        return driver.sh([t.soft("data2data")] + j["argv"], w, driver.san_env(t), timeout=600)
    done = driver.pmap(go, jobs, 8)
    live = []
    for j, (rc, so, se) in zip(jobs, done):
        info = dict(argv=j["argv"])
        c.seen("grid", j["ins"][0], j["out"], *j["opts"])
        if rc is None:
            c.unsure("tool ran out of time")
        elif rc != 0:
            c.fail("grid:refused" if rc == 1 else "grid:died", rc=rc, err=se[-1500:], **info)
        else:
            live.append(j)
    # the nodes of the targets
    S = driver.Script()
    for j in live:
        n = j["n"]
        ids = set([0, n - 1]) | set(r.randrange(n) for _ in range(c.scale(120, 900)))
        if n < 400:
            ids = range(n)
        j["ids"] = sorted(ids)
        # the abscissae of a new object: those in the file are rounded
        cmds = ["args LA %s" % " ".join(map(driver.q, j["opts"])), "dload O %s %s LA" % (j["out"], driver.q(j["path"])),
                "dget F %s %d %d 3 %s RGB_COLOR LA" % (j["out"], n, DIM[j["q"]], j["q"])]
        S.case("n%d" % j["k"], cmds + ["drow %s %d" % (o, i) for i in j["ids"] for o in "FO"])
    res, err = driver.run(t, S, w)
    for e in err:
        c.fail("driver", error=e)
    S = driver.Script()
    for j in live:
        R = res["n%d" % j["k"]]
        c.judge_death(R)
        j["nodes"] = []
        if not R.ok(1) or not R.ok(2):
            c.fail("grid:unreadable", argv=j["argv"], got=[R.res.get(1), R.res.get(2)])
            continue
        d = DIM[j["q"]]
        for k, i in enumerate(j["ids"]):
            if not R.ok(3 + 2 * k) or not R.ok(4 + 2 * k):
                c.fail("grid:size", argv=j["argv"], node=i, got=[R.res.get(3 + 2 * k), R.res.get(4 + 2 * k)])
                break
            new, row = R.toks(3 + 2 * k).vec(), R.toks(4 + 2 * k).vec()
            if any(abs(a - b) > 1e-12 for a, b in zip(new[:d], row[:d])):
                c.fail("grid:abscissa", argv=j["argv"], node=i, got=row[:d], want=new[:d])
                break
            j["nodes"].append((i, new[:d], row[d:]))
        S.case("c%d" % j["k"], ["pconv %s CARTESIAN %s" % (j["q"], driver.fv(x)) for _, x, _ in j["nodes"]])
    res, err = driver.run(t, S, w)
    S = driver.Script()
    for j in live:
        R = res.get("c%d" % j["k"])
        if R is None:
            continue
        j["cart"] = []
        cmds = []
        for k in range(len(j["nodes"])):
            T = R.toks(k) if R.ok(k) else None
            cart = [T.f() for _ in range(6)] if T else [math.nan] * 6
            j["cart"].append(cart)
            for e in range(5):                   # rounding moves the node that much
                cmds.append("pconv CARTESIAN %s %s" % (j["p"], driver.fv([v + (r.uniform(-1e-9, 1e-9) if e else 0) for v in cart])))
        S.case("i%d" % j["k"], cmds)
    res, err = driver.run(t, S, w)
    S = driver.Script()
    for j in live:
        R = res.get("i%d" % j["k"])
        if R is None:
            continue
        d = DIM[j["p"]]
        j["at"], j["ask"] = {}, []
        for k in range(len(j["nodes"])):
            if all(R.ok(5 * k + e) for e in range(5)) and all(v == v for v in j["cart"][k]):
                Ts = [R.toks(5 * k + e) for e in range(5)]
                xs = [[T.f() for _ in range(d)] for T in Ts]
                x = xs[0]
                if all(abs(v - u) < 1e-5 for q in xs for u, v in zip(q, x)):
                    # the point itself, then its close neighbourhood (tables may step there)
                    j["at"][k] = len(j["ask"])
                    j["ask"].append(x)
                    for a in range(d):
                        for e in (-1e-9, 1e-9):
                            j["ask"].append([v + (e if b == a else 0) for b, v in enumerate(x)])
                    for _ in range(4):
                        j["ask"].append([v + r.choice([-1e-9, 1e-9]) for v in x])
        S.case("v%d" % j["k"], ["args LA %s" % " ".join(map(driver.q, j["opts"])), "dload I %s %s LA" % (j["ins"][0], driver.q(j["ins"][1]))]
               + ["dval I %s" % driver.fv(x) for x in j["ask"]])
    res, err = driver.run(t, S, w)
    for e in err:
        c.fail("driver", error=e)
    for j in live:
        R = res.get("v%d" % j["k"])
        if R is None:
            continue
        c.judge_death(R)
        d = DIM[j["p"]]
        m = 1 + 2 * d + 4
        info = dict(argv=j["argv"])
        for k, (i, x, y) in enumerate(j["nodes"]):
            cart = j["cart"][k]
            z = min(cart[2], cart[5])
            if not z == z or abs(z) < 1e-9 and not (z == 0 and j["q"] in HORIZON):
                continue                         # at the horizon, up to rounding
            if z == 0:
                c.count("nodes on the horizon")
            if z < 0:
                c.count("nodes below the horizon")
                if any(v != 0 for v in y):
                    c.fail("grid:below-horizon:%s" % j["out"], node=i, x=x, y=y, **info)
                continue
            if len(j["ins"]) > 3:
                c.count("nodes of a constant")
                if any(not abs(v - u) <= max(1e-9, j["tol"]) * abs(u) for u, v in zip(j["ins"][3], y)):
                    c.fail("grid:constant:%s" % j["out"], node=i, x=x, y=y, want=j["ins"][3], cart=cart, **info)
                continue
            if k not in j["at"]:
                c.count("nodes at a singularity of the source")
                continue
            a = 2 + j["at"][k]
            near = [R.toks(a + b).vec() for b in range(m) if R.ok(a + b)]
            if not near:
                c.count("nodes the source has no value for")
                continue
            c.count("nodes compared")
            c.count("nodes compared: %s" % j["out"])
            want = near[0]
            for ch in range(len(y)):
                lo, hi = min(q[ch] for q in near), max(q[ch] for q in near)
                tol = j["tol"] * max(abs(lo), abs(hi)) + 1e-30 + (abs(hi - lo) if hi - lo < 1e-5 * abs(hi) else 0)
                steps = any(abs(y[ch] - q[ch]) <= tol for q in near)
                if not (steps or y[ch] != y[ch] and want[ch] != want[ch]):
                    c.fail("grid:value:%s:%s" % (j["ins"][0], j["out"]), node=i, x=x, y=y, want=want, cart=cart, **info)
                    break
        os.unlink(j["path"])


def from_tables(c, t, w):
    """Every sample of a table becomes a sample of a list."""
    r = c.rng
    jobs = []
    for di, pi, p in (s[:3] for s in sources(r, w, c.thorough)):
        if di == "data_merl" and not c.thorough:
            continue
        for q in ([p] + r.sample(["CARTESIAN", "SPHERICAL_TL_PL_TV_PV", "RUSIN_TH_TD_PD", "RUSIN_TH_TD", "STARK_2D", "COS_TH"], 2)):
            if di == "data_brdf_slice" and DIM[q] != 2:
                continue
            jobs.append((di, pi, q if di == "data_brdf_slice" else p, q, r.random() < .5))

    def go(k):
        di, pi, p, q, bin_ = jobs[k]
        out = os.path.join(w, "t%d.out" % k)
        return driver.sh([t.soft("data2data"), "--input", pi, "--in-data", di, "--output", out, "--param", NAMES[q]] + (["--out-data", "alta-binary"] if bin_ else []),
                         w, driver.san_env(t), timeout=600)
    done = driver.pmap(go, range(len(jobs)))
    S = driver.Script()
    for k, (di, pi, p, q, bin_) in enumerate(jobs):
        S.case("s%d" % k, ["args A --param %s" % q, "dload I %s %s A" % (di, driver.q(pi)), "dinfo I"] + (["drows I"] if di != "data_merl" else ["drow I 0"]))
    res, err = driver.run(t, S, w)
    for k, ((di, pi, p, q, bin_), (rc, so, se)) in enumerate(zip(jobs, done)):
        info = dict(source=di, param=q, binary=bin_)
        c.seen("table", di, q, bin_, k)
        out = os.path.join(w, "t%d.out" % k)
        if rc is None:
            c.unsure("tool ran out of time")
            continue
        if rc != 0:
            c.fail("table:refused" if rc == 1 else "table:died", rc=rc, err=se[-1500:], **info)
            continue
        R = res["s%d" % k]
        c.judge_death(R)
        if di == "data_merl" or not R.ok(3):
            if not R.ok(1):
                c.fail("table:source", got=R.res.get(1), **info)
            os.unlink(out)
            continue
        T = R.toks(3)
        n = T.int()
        rows = [T.vec() for _ in range(n)]
        head, got = (read_binary if bin_ else read_text)(out)
        os.unlink(out)
        if head.get("PARAM_IN") != NAMES[q] or head.get("DIM", "").split() != [str(DIM[q]), str(len(rows[0]) - DIM[p])]:
            c.fail("table:header", head=head, **info)
        m = 0
        for row in rows:
            x, y = row[:DIM[p]], row[DIM[p]:]
            there = m < len(got) and all(abs(a - b) <= 1e-14 * abs(b) or a != a and b != b for a, b in zip(got[m][DIM[q]:], y))
            if there and p == q:
                there = all(abs(a - b) <= 1e-13 * max(1, abs(b)) for a, b in zip(got[m][:DIM[q]], x))
            V = L = None
            if p in FULL:
                V, L = full_inverse(p, x)
            if not there:
                # samples may be left out only below the horizon, or where nothing tells
                if V is not None and min(V[2], L[2]) > 1e-6:
                    c.fail("table:sample-lost-or-changed", sample=row, got=got[m] if m < len(got) else None, **info)
                    break
                c.count("samples left out of a table")
                continue
            m += 1
            c.count("table samples compared")
            if V is not None and min(V[2], L[2]) > 1e-3 and clear(V, L):
                why = close_row(p, q, x, got[m - 1][:DIM[q]], V, L)
                c.count("table samples compared with their directions")
                if why:
                    c.fail("table:coordinates:%s" % q, why=why, sample=row, got=got[m - 1], **info)
        else:
            if m != len(got):
                c.fail("table:too-many-samples", got=got[m:m + 2], kept=m, **info)
            if m == 0 and rows:
                c.fail("table:empty", **info)


def main(c):
    t = build.ensure("asan", ["data2data"] + build.DATAS, driver=True)
    w = tempfile.mkdtemp(dir=c.tmp())
    lists(c, t, w)
    gridded(c, t, w)
    from_tables(c, t, w)
    c.sample(dict(c.stats))


if __name__ == "__main__":
    check.main("C27", main,
               "One evaluation per run of the conversion tool: a list of samples with its source and target parametrization, a gridded target with its options, or a "
               "table turned into a list.",
               ["directions within 0.05 of a pole of some parametrization are not generated for lists", "nodes within 1e-9 of the horizon are not judged, but for those where zero is a coordinate"])
