"""C31: the Python module answers as the C++ library does, and no sequence of calls corrupts memory."""
import math, os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, dirs, driver, exr, models, pyalta, shapes
from gen import *

PIN = ["CARTESIAN", "RUSIN_TH_PH_TD_PD", "RUSIN_TH_TD_PD", "RUSIN_TH_TD", "COS_TH_TD", "COS_TH", "SPHERICAL_TL_PL_TV_PV", "ISOTROPIC_TV_TL_DPHI", "STEREOGRAPHIC", "COS_TK"]
NONE = (None,)


def bits(x):
    return "nan" if x != x else x.hex()


def pyvec(v):
    return [bits(float.fromhex(x)) for x in v]


def drvec(t):
    return [bits(x) for x in t.vec()]


class Twin:
    """Steps for the Python module beside the commands that ask the C++ library the same."""
    def __init__(self, name, kind):
        self.name, self.kind, self.steps, self.cmds, self.pairs = name, kind, [], [], []

    def both(self, step, cmd, how, what=None):
        self.pairs.append((len(self.steps), len(self.cmds), how, what or step[0]))
        self.steps.append(step)
        self.cmds.append(cmd)

    def py(self, step, want=None, what=None):
        """WANT: 'ok', 'ex' or a function of the answer that says what is wrong."""
        if want:
            self.pairs.append((len(self.steps), None, want, what or step[0]))
        self.steps.append(step)
        return len(self.steps) - 1

    def dr(self, cmd):
        self.cmds.append(cmd)
        return len(self.cmds) - 1


def reading(how, R, k):
    t = R.toks(k)
    if how == "vec":
        return drvec(t)
    if how == "vecs":
        return [drvec(t) for _ in range(t.int())]
    if how == "text":
        return t.s().decode("latin-1")
    if how == "size":
        return None if R.res[k][1] == "null" else t.int()
    if how == "sizes":
        n = t.int()
        return [n, n]
    if how == "object":
        return R.res[k][1] != "null"
    if how == "bool":
        return bool(t.int())
    if how == "metrics":
        return {t.s().decode(): drvec(t) for _ in range(t.int())}
    if how == "done":
        return None
    raise ValueError(how)


def uncmd(s):
    """Files record the command line they were made with; calls have none."""
    return "\n".join(l for l in s.split("\n") if not l.startswith("#DATE"))


def pyreading(how, v):
    if how == "vec":
        return pyvec(v)
    if how == "vecs":
        return [pyvec(x) for x in v]
    if how == "object":
        return v is not None
    if how == "metrics":
        return {k: pyvec(x) for k, x in v.items()}
    if how == "text":
        return uncmd(v)
    return v


def judge(c, T, P, R):
    if not c.judge_death(P, "%s:" % T.kind):
        return
    if R is not None and not c.judge_death(R, "cxx:%s:" % T.kind):
        return
    for k, d, how, what in T.pairs:
        a = P.out[k]
        key = "%s:%s" % (T.kind, what)
        c.count("answers")
        if d is None:
            if how == "ok" or how == "ex":
                bad = None if a[0] == how else "%r" % (a,)
            else:
                bad = how(P)
            if bad:
                c.fail(key, case=T.name, step=T.steps[k], answer=str(bad)[:600], expected=how if isinstance(how, str) else "see answer", steps=T.steps[:k + 1][-6:])
            continue
        ok = R.ok(d)
        if isinstance(how, tuple):                        # the file that an earlier command made
            how, ok = how[0], R.ok(how[1]) and ok
        if (a[0] == "ok") != ok:
            c.fail(key + ":one-fails", case=T.name, step=T.steps[k], python=a, cxx=R.res.get(d), log=P.log(500), path=T.name)
            continue
        if not ok:
            c.count("both_fail")
            c.count("both_fail:" + key)
            continue
        if how == "done":
            c.seen(T.kind, what, "done")
            continue
        w, g = reading(how, R, d), pyreading(how, a[1])
        if how == "text":
            w = uncmd(w)
        c.seen(T.kind, what, str(w)[:3000])
        if g != w:
            c.fail(key, case=T.name, step=T.steps[k], python=str(g)[:500], cxx=str(w)[:500])


# --- what is asked of the library first: the arguments it reads, numbers of parameters, converted coordinates

class Pre:
    def __init__(self):
        self.cmds = []

    def ask(self, cmd):
        self.cmds.append(cmd)
        return len(self.cmds) - 1

    def run(self, t, work):
        S = driver.Script()
        S.case("p", self.cmds, cpu=200)
        R, err = driver.run(t, S, work)
        self.R = R["p"]
        assert not err and self.R.done, (err[:2], self.R.log())

    def toks(self, k):
        return self.R.toks(k) if self.R.ok(k) else None


def top(toks):
    """Options at the outer level of a command line."""
    d, out = 0, []
    for x in toks:
        if d == 0 and x.startswith("--"):
            out.append(x[2:])
        d += x.count("[") - x.count("]")
    return out


def hexes(v):
    return [float(x).hex() for x in v]


def points(r, pin, n):
    out = []
    for k, V, L in dirs.pairs(r, n):
        try:
            x = dirs.coords(V, L, pin)
        except ZeroDivisionError:
            continue
        if x is not None and all(v is not None and math.isfinite(v) for v in x):
            out.append(list(map(float, x)))
    return out


def asked(c, pre, toks):
    """Arguments as a dictionary: what the library reads from the same options."""
    i = len(pre.cmds)
    pre.ask("args A%d alta %s" % (i, " ".join(map(driver.q, toks))))
    return {k: pre.ask("aget A%d raw %s" % (i, driver.q(k))) for k in top(toks)}


def evs(pts):
    return "%d %s" % (len(pts), " ".join(map(driver.fv, pts)))


def fn_params(r, f, n):
    p = [x for l in f.leaves if l.free for x in l.p]
    return p if len(p) == n else [r.uniform(.1, .9) for _ in range(n)]


def main(c):
    t = build.ensure("asan", build.NL + build.RATIONALS + build.DATAS + build.RFITTERS + build.NFITTERS + ["alta"], driver=True)
    r = c.rng
    w = os.path.join(c.tmp(), "in")
    os.makedirs(w)
    outs = os.path.join(c.tmp(), "out")
    os.makedirs(outs)
    pre, later, T = Pre(), [], []

    def twin(kind):
        T.append(Twin("t%d" % len(T), kind))
        return T[-1]

    # --- functions
    fs = []
    for _ in range(c.scale(3, 20)):
        fs += [shapes.random_fn(r, single=m, factor=False, nsum=1) for m in models.LOBES + models.FACTORS]
        fs += [shapes.random_fn(r, factor=m, nsum=1) for m in models.FACTORS]
        fs += [shapes.random_fn(r) for _ in range(30)]
        fs += [shapes.random_rat(r) for _ in range(12)]
    for f in fs:
        f.ask = asked(c, pre, f.toks)
        if f.kind == "nl":
            dx, given = f.given
            i = len(pre.cmds)
            pre.ask("args B%d alta %s" % (i, " ".join(map(driver.q, f.toks))))
            pre.ask("fget F%d B%d %d %d %s %s" % (i, i, dx, f.dy, given, f.pout))
            f.nb = pre.ask("fnb F%d" % i)
            f.inf = pre.ask("finfo F%d" % i)
    # --- data
    sets = []
    for i in range(c.scale(60, 300)):
        pin = r.choice(PIN)
        dy = r.choice([1, 2, 3])
        pout = {1: r.choice(["INV_STERADIAN", "INV_STERADIAN_COSINE_FACTOR", "ENERGY"]), 2: "UNKNOWN_OUTPUT", 3: r.choice(["RGB_COLOR", "XYZ_COLOR", "INV_STERADIAN"])}[dy]
        rows = [x + [r.uniform(.01, 2) for _ in range(dy)] for x in points(r, pin, r.choice([1, 3, 9, 20]) if r.random() < .96 else 200)] or [[.2] * NAMED[pin] + [.5] * dy]
        vs = r.choice([0, 0, 1, 2])
        full = [row + [r.uniform(0, .1) for _ in range(vs * dy)] for row in rows]
        head = "#DIM %d %d\n#PARAM_IN %s\n#PARAM_OUT %s\n" % (NAMED[pin], dy, FILE[pin], pout)
        if vs:
            head += "#VS %s\n" % " ".join([str(vs)] * dy)
        path = os.path.join(w, "d%d.alta" % i)
        open(path, "w").write(head + "".join(" ".join(map(repr, row)) + "\n" for row in full))
        sets.append((path, pin, dy, pout, rows))
    convs = []
    for path, pin, dy, pout, rows in sets:
        for _ in range(2):
            to = r.choice(PIN)
            od, ot = (dy, pout) if r.random() < .5 else r.choice([(1, "INV_STERADIAN"), (3, "RGB_COLOR"), (3, "XYZ_COLOR"), (1, "ENERGY"), (2, "UNKNOWN_OUTPUT")])
            q = [(pre.ask("pconv %s %s %s" % (pin, to, driver.fv(row[:NAMED[pin]]))),
                  pre.ask("oconv %s %d %s %d 0x0p+0 %s" % (pout, dy, ot, od, driver.fv(row[NAMED[pin]:])))) for row in rows]
            convs.append((path, pin, dy, pout, rows, to, od, ot, q))
    # --- leaves for sums, products and histories
    P6 = "6 3 CARTESIAN RGB_COLOR"
    leaf = sorted({m.name for m in models.LOBES + models.FACTORS if m.pin in ("CARTESIAN", "given")})
    nbs = {}
    for i, n in enumerate(leaf):
        pre.ask("fgetp L%d %s %s" % (i, n, P6))
        nbs[n] = pre.ask("fnb L%d" % i)
    pre.run(t, os.path.join(c.tmp(), "pre"))
    nbs = {n: pre.toks(k).int() for n, k in nbs.items()}

    # A: creation, parameters, values, files
    for i, f in enumerate(fs):
        X = twin("function")
        d = {k: pre.toks(v).s().decode("latin-1") for k, v in f.ask.items()}
        base = os.path.join(outs, "f%d" % i)
        if f.kind == "rational":
            for x in shapes.build_cmds("F", f):
                X.dr(x)
            X.dr("fsave F %s A" % driver.q(base + ".brdf"))
            pts = [[r.uniform(a, b) for a, b in zip(f.lo, f.hi)] for _ in range(10)] if f.plugin != "rational_function_cosine" else points(r, f.pin, 10)
            X.both(["loadf", "G", base + ".brdf"], "fload G %s" % driver.q(base + ".brdf"), "object", "load_function")
            X.both(["fvals", "G", [hexes(x) for x in pts]], "fvals G " + evs(pts), "vecs", "value")
            k = X.dr("fsave G %s -" % driver.q(base + ".cc"))
            X.both(["fsave", "G", base + ".py"], "cat %s" % driver.q(base + ".cc"), ("text", k), "save")
            continue
        dx, given = f.given
        n = pre.toks(f.nb).int()
        p = fn_params(r, f, n)
        tk = pre.toks(f.inf)
        tk.int(), tk.int()
        pin = tk.raw()                                    # nothing gave it a first guess: abc still has the one it was made with
        pts = points(r, pin, 12)
        X.py(["args", "A", d] if r.random() < .6 else ["args", "A", None])
        if X.steps[-1][2] is None:
            for k, v in d.items():
                X.py(["argsup", "A", k, v], "ok")
        X.dr("args A alta " + " ".join(map(driver.q, f.toks)))
        for k in d:
            X.both(["argsget", "A", k], "aget A raw %s" % driver.q(k), "text", "arguments")
        X.py(["param", "P", dx, f.dy, given, f.pout], "ok")
        X.both(["getf", "F", "$A", "$P"], "fget F A %d %d %s %s" % (dx, f.dy, given, f.pout), "object", "get_function")
        X.both(["fgetp", "F"], "fpar F", "vec", "get")
        if r.random() < .3:
            X.both(["fvals", "F", [hexes(x) for x in pts[:3]]], "fvals F " + evs(pts[:3]), "vecs", "value")
        X.both(["fset", "F", hexes(p)], "fsetp F " + driver.fv(p), "done", "set")
        X.both(["fgetp", "F"], "fpar F", "vec", "get")
        if r.random() < .5:
            X.py(["fset", "F", hexes(p + [1.0])])
            X.both(["fgetp", "F"], "fpar F", "vec", "get-after-wrong-size")
        X.both(["fvals", "F", [hexes(x) for x in pts]], "fvals F " + evs(pts), "vecs", "value")
        X.py(["fvals", "F", [hexes(pts[0][:-1])]], "ex", "value-of-short-vector")
        k = X.dr("fsave F %s -" % driver.q(base + ".cc"))
        X.both(["fsave", "F", base + ".py"], "cat %s" % driver.q(base + ".cc"), ("text", k), "save")
        e = r.choice(["alta", "matlab", "C++", "alta"])
        X.py(["argsup", "A", "export", e])
        X.dr("argsupd A export %s" % driver.q(e))
        k = X.dr("fsave F %s A" % driver.q(base + ".cc2"))
        X.both(["fsave", "F", base + ".py2", "A"], "cat %s" % driver.q(base + ".cc2"), ("text", k), "save-with-arguments:" + e)
        if e == "alta":
            X.both(["loadf", "G", base + ".py2"], "fload G %s" % driver.q(base + ".cc2"), "object", "load_function")
            X.both(["fgetp", "G"], "fpar G", "vec", "get-after-load")
            X.both(["fvals", "G", [hexes(x) for x in pts]], "fvals G " + evs(pts), "vecs", "value-after-load")
        X.both(["loadf", "G", base + ".py"] + (["A"] if r.random() < .3 else []), "fload G %s" % driver.q(base + ".cc"), "object", "load_function")
        # what the library saved with its command line
        X.dr("args C alta " + " ".join(map(driver.q, f.toks)))
        X.dr("fsave F %s C" % driver.q(base + ".cc3"))
        X.both(["loadf", "G", base + ".cc3"] + (["A"] if r.random() < .3 else []), "fload G %s" % driver.q(base + ".cc3"), "object", "load_function")
        X.both(["fgetp", "G"], "fpar G", "vec", "get-after-load")
        X.both(["fvals", "G", [hexes(x) for x in pts]], "fvals G " + evs(pts), "vecs", "value-after-load")
        # parts of other parametrizations are met half way once the file is loaded
        if given == "CARTESIAN" and f.pin == given and not any(l.m.name.endswith("_abc") for l in f.leaves):
            X.py(["args", "B", d])
            X.py(["getf", "H", "$B", "$P"], "ok", "get_function")
            X.py(["fload", "H", base + ".cc3"] + (["A"] if r.random() < .3 else []), "ok", "load")
            X.both(["fgetp", "H"], "fpar G", "vec", "get-after-load-into")
            X.both(["fvals", "H", [hexes(x) for x in pts]], "fvals G " + evs(pts), "vecs", "value-after-load-into")
        X.py(["del", "F"])
        X.both(["fvals", "G", [hexes(x) for x in pts[:2]]], "fvals G " + evs(pts[:2]), "vecs", "value-after-load")

    # B: data
    bins = []
    exrp = os.path.join(w, "slice.exr")
    open(exrp, "wb").write(exr.write(8, 8, {q: [r.random() for _ in range(64)] for q in "RGB"}))
    gs = [4, 5]
    gp = os.path.join(w, "grid.alta")
    with open(gp, "w") as fh:
        fh.write("#DIM 2 3\n#PARAM_IN RUSIN_TH_TD\n#PARAM_OUT INV_STERADIAN\n#grid-size [4,5]\n")
        for j in range(5):
            for i in range(4):
                fh.write(" ".join(map(repr, [1.5 * i / 3, 1.5 * j / 4] + [r.random() for _ in range(3)])) + "\n")
    other = [("data_grid", gp, "RUSIN_TH_TD", 3, None), ("data_brdf_slice", exrp, "STARK_2D", 3, [0, 1, 5, 63])]
    other += [("data_rbf", p, pin, dy, None) for p, pin, dy, pout, rows in sets[:5] if len(rows) > 2]
    if True:
        up = os.path.join(w, "u.bin")
        v = [r.random() for _ in range(997)]
        open(up, "wb").write(struct.pack("<%dd" % (288 * 288 * 3), *(v[i % 997] for i in range(288 * 288 * 3))))
        other.append(("data_utia", up, "SPHERICAL_TL_PL_TV_PV", 3, [0, 1, 1000, 288 * 288 - 1]))
        mp = os.path.join(w, "m.binary")
        n = 90 * 90 * 180
        with open(mp, "wb") as fh:
            fh.write(struct.pack("<3i", 90, 90, 180))
            for ch in range(3):
                fh.write(struct.pack("<997d", *v) * (n // 997) + struct.pack("<%dd" % (n % 997), *v[:n % 997]))
        other.append(("data_merl", mp, "RUSIN_TH_TD_PD", 3, [0, 7, 12345, n - 1]))
    for plugin, path, pin, dy, some in [("", p, pin, dy, None) for p, pin, dy, pout, rows in sets] + other:
        X = twin("data:" + plugin)
        i = len(T)
        X.both(["loadd", "D", plugin, path], "dload D %s %s -" % (driver.q(plugin), driver.q(path)), "size", "load_data")
        nrow = {"data_grid": 20, "data_brdf_slice": 64, "data_utia": 288 * 288, "data_merl": 90 * 90 * 180}.get(plugin)
        mine = [s for s in sets if s[0] == path]
        if nrow is None:
            nrow = len(mine[0][4])
        rows = mine[0][4] if mine else None
        X.both(["dlen", "D"], "dinfo D", "sizes", "size")
        for k in some or range(min(nrow, 6)):
            X.both(["dget", "D", k] + ([1] if r.random() < .5 else []), "drow D %d" % k, "vec", "row")
        for k in (-1, nrow, nrow + 1, 2 ** 31 - 1, -2 ** 31):
            X.py(["dget", "D", k] + ([1] if r.random() < .5 else []), lambda P, k=len(X.steps): None if P.out[k][:2] == ["ex", "IndexError"] else P.out[k], "row-outside")
        X.py(["dget", "D", 2 ** 40], "ex", "row-outside")
        if not some:
            X.both(["drows", "D"], "drows D", "vecs", "rows")
            X.both(["dall", "D", nrow + 5], "drows D", "vecs", "iteration")
        q = points(r, pin, 6)
        if plugin in ("data_merl", "data_utia", "data_brdf_slice", "data_rbf"):
            X.both(["dvals", "D", [hexes(x) for x in q]], "dvals D " + evs(q), "vecs", "value")
            X.py(["dvals", "D", [hexes(q[0][:-1])]], "ex", "value-of-short-vector")
        elif plugin == "data_grid":
            q = [[r.uniform(0, 1.5), r.uniform(0, 1.5)] for _ in range(6)]
            X.both(["dvals", "D", [hexes(x) for x in q]], "dvals D " + evs(q), "vecs", "value")
        if plugin in ("", "data_rbf", "data_grid"):
            for _ in range(3):
                k = r.randrange(nrow)
                v = [r.uniform(.1, 1) for _ in range(NAMED[pin] + dy)]
                if plugin:
                    break
                X.both(["dset", "D", k, hexes(v)] + ([1] if r.random() < .5 else []), "dset D %d %s" % (k, driver.fv(v)), "done", "set")
                X.both(["dget", "D", k], "drow D %d" % k, "vec", "row")
            for k in (-1, nrow, 2 ** 31 - 1):
                X.py(["dset", "D", k, hexes([.5] * (NAMED[pin] + dy))], lambda P, k=len(X.steps): None if P.out[k][:2] == ["ex", "IndexError"] else P.out[k], "set-outside")
            X.py(["dset", "D", 0, hexes([.5] * (NAMED[pin] + dy - 1))], "ex", "set-short-vector")
            X.both(["drows", "D"], "drows D", "vecs", "rows")
        if plugin in ("", "data_grid", "data_brdf_slice"):
            o = os.path.join(outs, "d%d" % i)
            n = X.dr("dsave D %s" % driver.q(o + ".cc"))
            if plugin == "data_brdf_slice":
                X.both(["dsave", "D", o + ".py", 0], "stat %s" % driver.q(o + ".cc"), "done", "save")
                X.py(["loadd", "E", plugin, o + ".py"])
            else:
                X.both(["dsave", "D", o + ".py", 1], "cat %s" % driver.q(o + ".cc"), ("text", n), "save")
            X.both(["loadd", "E", plugin, o + ".py"], "dload E %s %s -" % (driver.q(plugin), driver.q(o + ".cc")), "size", "reload")
            X.both(["dget", "E", 0], "drow E 0", "vec", "row-after-reload")
        X.py(["dparam", "P", "D"], "ok", "parametrization")
        if not plugin:
            pp, ppin, pdy, ppout, prow = mine[0]
            X.both(["getd", "N", "vertical_segment", 7, "P"], "dget N vertical_segment 7 %d %d %s %s -" % (NAMED[ppin], pdy, ppin, ppout), "size", "get_data")
            X.both(["dlen", "N"], "dinfo N", "sizes", "size")
            X.both(["drows", "N"], "drows N", "vecs", "rows-of-new")
            v = [r.uniform(.1, 1) for _ in range(NAMED[pin] + dy)]
            X.both(["dset", "N", 6, hexes(v)], "dset N 6 %s" % driver.fv(v), "done", "set")
            X.both(["drows", "N"], "drows N", "vecs", "rows-of-new")
    for pl, dim, pin, pout, args in (("data_brdf_slice", (2, 3), "STARK_2D", "RGB_COLOR", None), ("data_merl", (3, 3), "RUSIN_TH_TD_PD", "RGB_COLOR", None), ("data_utia", (4, 3), "SPHERICAL_TL_PL_TV_PV", "RGB_COLOR", None),
                                     ("data_astm", (4, 3), "SPHERICAL_TL_PL_TV_PV", "RGB_COLOR", None), ("data_grid", (2, 1), "RUSIN_TH_TD", "INV_STERADIAN", {"grid-size": "[3, 4]"}),
                                     ("data_brdf_slice", (2, 3), "STARK_2D", "RGB_COLOR", {"angle": "35"})):
        X = twin("new-data:" + pl)
        X.py(["param", "P", dim[0], dim[1], pin, pout])
        X.py(["args", "A", args])
        X.dr("args A alta %s" % " ".join("--%s %s" % (k, driver.q(v)) for k, v in (args or {}).items()))
        X.both(["getd", "D", pl, 12, "P"] + (["A"] if args else []), "dget D %s 12 %d %d %s %s %s" % (pl, dim[0], dim[1], pin, pout, "A"), "size", "get_data")
        X.both(["dlen", "D"], "dinfo D", "sizes", "size")
        X.both(["dget", "D", 0], "drow D 0", "vec", "row")
        X.both(["dget", "D", 11], "drow D 11", "vec", "row")
        X.py(["getd", "D", pl, 2 ** 31, "P"], "ex", "size-too-large")
        X.py(["getd", "D", pl, -1, "P"], "ex", "negative-size")

    # C: conversion, statistics, evaluation on data
    for path, pin, dy, pout, rows, to, od, ot, q in convs:
        X = twin("data2data")
        X.py(["loadd", "D", "", path], "ok", "load_data")
        X.py(["param", "P", NAMED[to], od, to, ot])
        cv = [(pre.toks(a), pre.toks(b)) for a, b in q]
        if any(a is None or b is None for a, b in cv):
            X.py(["d2d", "E", "D", "P"], "ex", "impossible-conversion")
            X.py(["drows", "D"], "ok")
            continue
        new = [[a.f() for _ in range(NAMED[to])] + b.vec()[:od] for a, b in cv]
        X.dr("dnew E 2 %d %d %s %s %d %s" % (NAMED[to], od, to, ot, len(new), driver.fv([v for row in new for v in row + [0.0] * (2 * od)])))
        X.both(["d2d", "E", "D", "P"], "dinfo E", "size", "size")
        X.both(["drows", "E"], "drows E", "vecs", "rows")
        X.py(["del", "D"])
        X.both(["drows", "E"], "drows E", "vecs", "rows-after-deletion")
        o = os.path.join(outs, X.name)
        X.dr("dsave E %s" % driver.q(o + ".cc"))
        X.both(["dsave", "E", o + ".py", 1], "cat %s" % driver.q(o + ".cc"), "text", "file")
        X.both(["dset", "E", 0, hexes(new[-1])], "dset E 0 %s" % driver.fv(new[-1]), "done", "set")
        X.both(["drows", "E"], "drows E", "vecs", "rows")
    for _ in range(c.scale(40, 200)):
        path, pin, dy, pout, rows = r.choice(sets)
        X = twin("data2stats")
        o = os.path.join(w, X.name + ".alta")
        keep = [row[:NAMED[pin]] + [v * r.uniform(.8, 1.2) for v in row[NAMED[pin]:]] for row in rows]
        if r.random() < .15:
            keep = keep[:-1] or keep
        open(o, "w").write("#DIM %d %d\n#PARAM_IN %s\n#PARAM_OUT %s\n" % (NAMED[pin], dy, FILE[pin], pout) + "".join(" ".join(map(repr, row)) + "\n" for row in keep))
        k = r.choice([("data_rbf", "data_rbf"), ("data_rbf", "data_rbf"), ("data_rbf", ""), ("", "data_rbf"), ("", "")])
        X.both(["loadd", "D", k[0], path], "dload D %s %s -" % (driver.q(k[0]), driver.q(path)), "size", "load_data")
        X.both(["loadd", "E", k[1], o], "dload E %s %s -" % (driver.q(k[1]), driver.q(o)), "size", "load_data")
        X.both(["d2s", "D", "E"], "metrics D E -", "metrics", "metrics")
        X.both(["d2s", "E", "D"], "metrics E D -", "metrics", "metrics")
        X.py(["d2s", "E", None], "ex", "metrics-of-None")
        X.py(["d2s", None, "D"], "ex", "metrics-of-None")
    three = [s for s in sets if s[2] == 3 and s[1] in ("CARTESIAN", "RUSIN_TH_PH_TD_PD", "SPHERICAL_TL_PL_TV_PV", "STEREOGRAPHIC")]
    for path, pin, dy, pout, rows in three * c.scale(2, 4):
        X = twin("brdf2data")
        n = r.choice([x for x in leaf if "fresnel" not in x])
        p = [r.uniform(.1, .9) for _ in range(nbs[n])]
        X.both(["loadd", "D", "", path], "dload D %%01 %s -" % driver.q(path), "size", "load_data")
        X.py(["param", "P", 6, 3, "CARTESIAN", "RGB_COLOR"])
        X.both(["getf", "F", n, "$P"], "fgetp F %s %s" % (n, P6), "object", "get_function")
        X.both(["fset", "F", hexes(p)], "fsetp F " + driver.fv(p), "done")
        X.py(["b2d", "F", "D"])
        a = X.py(["drows", "D"])
        later.append((X, a - 1, a, n, p, path, pin, rows))

    # D: fits
    one = os.path.join(w, "one.alta")
    rows1 = [[i / 39.0, (1 + .5 * i / 39.0) / (1.2 + (i / 39.0) ** 2)] for i in range(40)]
    open(one, "w").write("#DIM 1 1\n#PARAM_IN COS_TH\n#PARAM_OUT INV_STERADIAN\n" + "".join("%r %r\n" % tuple(x) for x in rows1))
    six = os.path.join(w, "six.alta")
    pts = [x for x in points(r, "CARTESIAN", 60) if x[2] > .1 and x[5] > .1][:24]
    open(six, "w").write("#DIM 6 3\n#PARAM_IN CARTESIAN\n#PARAM_OUT RGB_COLOR\n" + "".join(" ".join(map(repr, x + [.2 + .1 * x[2], .3, .5 * x[5]])) + "\n" for x in pts))
    fits = [(f, one, "rational_function", "1 1 COS_TH INV_STERADIAN", (1, 1, "COS_TH", "INV_STERADIAN"), o) for f, o in
            [("rational_fitter_eigen", "--np 3 --nq 3"), ("rational_fitter_leastsquare", "--np 3 --nq 2"), ("rational_fitter_quadprog", "--min-np 2 --np 6 --min-nq 2 --nq 6 --dt 0.2"),
             ("rational_fitter_parallel", "--min-np 2 --np 6 --min-nq 2 --nq 6 --dt 0.2 --nb-cores 1"), ("rational_fitter_eigen", ""), ("rational_fitter_quadprog", ""), ("rational_fitter_leastsquare", "")]]
    for f in build.NFITTERS:
        for n in ("nonlinear_function_diffuse", "nonlinear_function_beckmann", "nonlinear_function_ward", "nonlinear_function_lafortune"):
            fits.append((f, six, n, P6, (6, 3, "CARTESIAN", "RGB_COLOR"), r.choice(["", "--fit-max-iterations 5"] if "nlopt" not in f else ["--nlop-optimizer COBYLA --nlop-max-num-iterations 20"])))
    for fitter, path, n, prm, P, o in fits:
        X = twin("fit:" + fitter)
        X.both(["loadd", "D", "", path], "dload D %%01 %s -" % driver.q(path), "size", "load_data")
        X.py(["param", "P"] + list(P))
        X.both(["getf", "F", n, "$P"], "fgetp F %s %s" % (n, prm), "object", "get_function")
        X.py(["getfit", "X", fitter], "ok", "get_fitter")
        w2 = o.split()
        X.py(["args", "A", dict((w2[i][2:], w2[i + 1]) for i in range(0, len(w2), 2))])
        X.dr("args A alta " + o)
        X.py(["fit", "X", None, "F"], "ex", "fit-None")
        X.py(["fit", "X", "D", None], "ex", "fit-None")
        X.both(["fit", "X", "D", "F"] + (["A"] if o or r.random() < .5 else []), "fit %s D F A" % fitter, "bool", "fit_data")
        ev = [[i / 17.0] for i in range(18)] if path == one else pts[:6]
        X.both(["fvals", "F", [hexes(x) for x in ev]], "fvals F " + evs(ev), "vecs", "value-after-fit")
        if path == six:
            X.both(["fgetp", "F"], "fpar F", "vec", "parameters-after-fit")
        X.py(["del", "X", "D"])
        X.both(["fvals", "F", [hexes(x) for x in ev]], "fvals F " + evs(ev), "vecs", "value-after-fit")

    # E: what is no object, no file, no dimension
    misuse(c, twin, w, sets, leaf)
    # F: random histories
    hist = [history(c, twin, leaf, nbs, sets) for _ in range(c.scale(240, 2500))]

    S = driver.Script()
    for X in T:
        for h in hist:
            if h[0] is X:
                for n, p, pts, k in h[1]:
                    h[2].append(len(X.cmds))
                    X.cmds += ["fgetp L %s %s" % (n, P6), "fsetp L " + driver.fv(p), "fvals L " + evs(pts)]
        if X.cmds:
            S.case(X.name, X.cmds, cpu=120)
    # files the library writes first are read by both
    R, err = driver.run(t, S, os.path.join(c.tmp(), "cxx"))
    P, err2 = pyalta.run(t, [(X.name, X.steps) for X in T], os.path.join(c.tmp(), "py"))
    for e in err + err2:
        c.fail("driver", error=e)
    for X in T:
        judge(c, X, P[X.name], R.get(X.name))
    for h in hist:
        judge_history(c, h, P[h[0].name], R.get(h[0].name))
    S2 = driver.Script()
    for X, k, a, n, p, path, pin, rows in later:
        S2.case(X.name, ["fgetp F %s %s" % (n, P6), "fsetp F " + driver.fv(p)] + ["pconv %s CARTESIAN %s" % (pin, driver.fv(row[:NAMED[pin]])) for row in rows])
    R2, err = driver.run(t, S2, os.path.join(c.tmp(), "b2d"))
    S3 = driver.Script()
    for X, k, a, n, p, path, pin, rows in later:
        cv = [R2[X.name].toks(2 + i) if R2[X.name].ok(2 + i) else None for i in range(len(rows))]
        X.cv = None if None in cv else [[x.f() for _ in range(6)] for x in cv]
        S3.case(X.name, ["fgetp F %s %s" % (n, P6), "fsetp F " + driver.fv(p)] + (["fvals F " + evs(X.cv)] if X.cv else []))
    R3, err3 = driver.run(t, S3, os.path.join(c.tmp(), "b2e"))
    for e in err + err3:
        c.fail("driver", error=e)
    for X, k, a, n, p, path, pin, rows in later:
        Q, D = P[X.name], R3[X.name]
        if not Q.done or not D.done:
            continue
        if (Q.out[k][0] == "ok") != (X.cv is not None):
            c.fail("brdf2data:one-fails", case=X.name, python=Q.out[k], steps=X.steps)
        elif X.cv:
            tk = D.toks(2)
            want = [[bits(v) for v in row[:NAMED[pin]]] + drvec(tk) for _, row in zip(range(tk.int()), rows)]
            got = [pyvec(v) for v in Q.out[a][1]]
            c.seen("brdf2data", n, pin, want[0])
            if got != want:
                c.fail("brdf2data:values", case=X.name, function=n, got=got[:2], want=want[:2])
    for X in T[:2] + T[-1:]:
        c.sample(dict(kind=X.kind, steps=[str(s)[:120] for s in X.steps[:8]]))
    c.count("cases", len(T))
    c.count("steps", sum(len(X.steps) for X in T))
    c.count("exceptions", sum(1 for X in T for o in P[X.name].out if o[0] == "ex"))


def misuse(c, twin, w, sets, leaf):
    r = c.rng
    empty = os.path.join(w, "empty.alta")
    open(empty, "w").write("")
    junk = os.path.join(w, "junk.alta")
    open(junk, "wb").write(bytes(r.randrange(256) for _ in range(300)))
    bad = [["loadd", "Z", "", "/nowhere/at.all"], ["loadd", "Z", "data_merl", "/nowhere/at.all"], ["loadd", "Z", "no_such_plugin", sets[0][0]], ["loadd", "Z", "", junk], ["loadd", "Z", "data_merl", junk],
           ["loadd", "Z", "data_utia", junk], ["loadd", "Z", "data_brdf_slice", junk], ["loadd", "Z", "data_astm", junk], ["loadd", "Z", "data_grid", junk], ["loadd", "Z", "data_rbf", junk], ["loadd", "Z", "data_grid", sets[0][0]],
           ["loadd", "Z", "data_grid", empty], ["loadd", "Z", "", empty], ["loadf", "Z", "/nowhere/at.all"], ["loadf", "Z", junk], ["loadf", "Z", empty], ["loadf", "Z", sets[0][0]], ["loadf", "Z", "/nowhere", "A"],
           ["getf", "Z", "no_such_plugin", "$P"], ["getf", "Z", "data_merl", "$P"], ["getf", "Z", "", "$P"], ["getf", "Z", "$A", "$P"], ["getf", "Z", "$B", "$P"],
           ["getfit", "Z", "no_such_plugin"], ["getfit", "Z", ""], ["getfit", "Z", "data_merl"], ["getd", "Z", "no_such_plugin", 3, "P"], ["getd", "Z", "", 0, "P"], ["getd", "Z", "", 100000, "P"],
           ["fadd", "Z", "F", None], ["fmul", "Z", "F", None], ["fadd", "Z", "F", "G"], ["fmul", "Z", "F", "G"], ["fadd", "Z", "F", "Q"], ["fmul", "Z", "Q", "Q"], ["fadd", "Z", "F", "H"], ["fmul", "Z", "F", "H"],
           ["fset", "F", []], ["fset", "F", hexes([1.0] * 500)], ["fset", "Q", hexes([1.0])], ["fgetp", "Q"], ["fvals", "F", [[]]], ["fvals", "F", [hexes([.5] * 3)]], ["fvals", "F", [hexes([float("nan")] * 6)]], ["fvals", "F", [hexes([0.0] * 6)]],
           ["fvals", "F", [hexes([1.0] * 9)]], ["fload", "F", "/nowhere/at.all"], ["fload", "F", junk], ["fload", "F", empty], ["fload", "Q", junk], ["fsave", "F", "/nowhere/at/all"], ["fsave", "Q", "/nowhere/at/all"],
           ["d2d", "Z", "D", "P"], ["d2d", "Z", "D", "U"], ["d2d", "Z", None, "P"], ["d2s", "D", "E"], ["d2s", None, None], ["b2d", "F", "D"], ["b2d", None, "D"], ["b2d", "F", None], ["b2d", "G", "D"], ["b2d", "U1", "D"], ["b2d", "Q", "D"],
           ["fit", "X", "D", "F"], ["fit", "X", "D", "Q"], ["fit", "Y", "D", "F"], ["fit", "Y", "D", "Q"], ["fit", "X", None, None], ["fit", "X", "D", None, "A"],
           ["param", "Z", 2 ** 31, 1, "UNKNOWN_INPUT", "UNKNOWN_OUTPUT"], ["param", "Z", 3, 2 ** 32 - 1, "UNKNOWN_INPUT", "UNKNOWN_OUTPUT"], ["param", "Z", 2, 1, "CARTESIAN", "UNKNOWN_OUTPUT"], ["param", "Z", 0, 0, "UNKNOWN_INPUT", "UNKNOWN_OUTPUT"],
           ["vadd", "Z", "V", "W"], ["vsub", "Z", "W", "V"], ["vset", "V", 3, "0x1p+0"], ["vset", "V", -1, "0x1p+0"], ["vget", "V", 3], ["vget", "V", -1], ["vadd", "Z", "V", None], ["norm", "N0"], ["norm", None], ["vget", "N0", 0], ["vset", "N0", 0, "0x1p+0"],
           ["argsget", "A", "no-such-key"], ["argsup", "A", "", ""], ["argsup", "A", "func", "["], ["dset", "D", 0, []], ["dsave", "D", "/nowhere/at/all", 1], ["dvals", "D", [[]]]]
    # these have to be refused rather than answered
    must = ["vadd", "vsub", "vset", "vget", "d2s", "param"]
    must_ex = [["loadd", "Z", "", "/nowhere/at.all"], ["loadd", "Z", "data_merl", "/nowhere/at.all"], ["vadd", "Z", "V", "W"], ["vsub", "Z", "W", "V"], ["vset", "V", 3, "0x1p+0"], ["vset", "V", -1, "0x1p+0"], ["vget", "V", 3], ["vget", "V", -1],
               ["vget", "N0", 0], ["vset", "N0", 0, "0x1p+0"], ["d2s", None, None], ["b2d", None, "D"], ["b2d", "F", None], ["fit", "X", None, None], ["fit", "X", "D", None, "A"], ["d2d", "Z", None, "P"], ["fvals", "F", [[]]], ["fvals", "F", [hexes([.5] * 3)]],
               ["dset", "D", 0, []], ["dvals", "D", [[]]], ["param", "Z", 2 ** 31, 1, "UNKNOWN_INPUT", "UNKNOWN_OUTPUT"], ["param", "Z", 3, 2 ** 32 - 1, "UNKNOWN_INPUT", "UNKNOWN_OUTPUT"], ["vadd", "Z", "V", None]]
    pool = bad + [b for b in must_ex if b not in bad]

    def world(X):
        X.py(["param", "P", 6, 3, "CARTESIAN", "RGB_COLOR"])
        X.py(["param", "U", 2, 3, "UNKNOWN_INPUT", "RGB_COLOR"])
        X.py(["param", "P1", 6, 1, "CARTESIAN", "INV_STERADIAN"])
        X.py(["param", "PX", 6, 3, "CARTESIAN", "XYZ_COLOR"])
        X.py(["param", "PR", 1, 1, "COS_TH", "INV_STERADIAN"])
        X.py(["args", "A", None])
        X.py(["args", "B", {"func": "[" + r.choice(leaf) + "," + r.choice(["no_such", "]", "[", leaf[0] + "]"])}])
        X.py(["getf", "F", r.choice(leaf), "$P"], "ok")
        X.py(["getf", "G", r.choice(leaf), "$P1"], "ok")
        X.py(["getf", "H", r.choice(leaf), "$PX"], "ok")
        X.py(["getf", "Q", "rational_function", "$PR"], "ok")
        X.py(["loadd", "D", "", r.choice(sets)[0]], "ok")
        X.py(["loadd", "E", "", r.choice(sets)[0]], "ok")
        X.py(["getfit", "X", "rational_fitter_eigen"], "ok")
        X.py(["getfit", "Y", "nonlinear_fitter_eigen"], "ok")
        X.py(["vec", "V", hexes([1.0, 2.0, 3.0])])
        X.py(["vec", "W", hexes([1.0, 2.0])])
        X.py(["vec", "N0", []])

    for b in pool:                                        # each alone
        X = twin("misuse:" + b[0])
        world(X)
        X.py(b, "ex" if b in must_ex else None)
        X.py(["vall", "V"], lambda P, k=len(X.steps): None if P.out[k] == ["ok", hexes([1.0, 2.0, 3.0])] else P.out[k], "vector-changed")
        if b[0] in ("fset", "fload", "fadd", "fmul"):
            X.py(["fgetp", "F"], "ok", "function-after")
    for _ in range(c.scale(30, 200)):                       # and one after the other
        X = twin("misuse:mixed")
        world(X)
        for b in r.sample(pool, 25):
            X.py(b, "ex" if b in must_ex and not any(s[0] in ("vset", "vadd", "vsub") and s[1] in "VW" for s in X.steps[18:]) else None, b[0])


# --- random histories of functions, sums, products, vectors and data with a model of their state

def history(c, twin, leaf, nbs, sets):
    r = c.rng
    X = twin("history")
    X.py(["param", "P", 6, 3, "CARTESIAN", "RGB_COLOR"])
    pts = [x for x in points(r, "CARTESIAN", 8)][:4]
    names, leaves, asks, at, checks = {}, [], [], [], []
    # names: variable -> node; node: ["leaf", plugin, params, used] | ["sum", a, b] | ["mul", a, b]
    data, vecs = {}, {}
    cnt = [0]

    def new(p):
        cnt[0] += 1
        return "%s%d" % (p, cnt[0])

    def params(n):
        return list(n[2]) if n[0] == "leaf" else params(n[1]) + params(n[2])

    def assign(n, v):
        if n[0] == "leaf":
            n[2][:] = v
        else:
            k = len(params(n[1]))
            assign(n[1], v[:k])
            assign(n[2], v[k:])

    def size(n):
        return 1 if n[0] == "leaf" else size(n[1]) + size(n[2])

    def twice(n):
        """A leaf met more than once has its parameters set more than once."""
        l = []
        def walk(m):
            if m[0] == "leaf":
                l.append(id(m))
            else:
                walk(m[1])
                walk(m[2])
        walk(n)
        return len(set(l)) != len(l)

    def value(n):
        """Reference to leaf evaluations and their combination."""
        if n[0] == "leaf":
            asks.append((n[1], list(n[2]), pts, None))
            return len(asks) - 1
        return (n[0], value(n[1]), value(n[2]))

    for _ in range(r.choice([15, 40])):
        op = r.choice(["leaf", "leaf", "fadd", "fmul", "fadd", "fset", "fset", "fgetp", "fvals", "fvals", "del", "alias", "loadd", "dset", "dget", "drows", "vec", "vadd", "vset", "vall", "vcopy", "bad"])
        if op == "leaf":
            n = r.choice(leaf)
            v = new("f")
            X.py(["getf", v, n, "$P"], "ok")
            p = [r.uniform(.1, .9) for _ in range(nbs[n])]
            X.py(["fset", v, hexes(p)], "ok")
            names[v] = ["leaf", n, p]
        elif op in ("fadd", "fmul") and names:
            a, b = r.choice(sorted(names)), r.choice(sorted(names))
            if size(names[a]) + size(names[b]) > 8:
                continue
            v = new("f")
            X.py([op, v, a, b], "ok")
            names[v] = ["sum" if op == "fadd" else "mul", names[a], names[b]]
        elif op == "fset" and names:
            v = r.choice(sorted(names))
            n = names[v]
            p = [r.uniform(.1, .9) for _ in params(n)]
            if twice(n):
                continue
            X.py(["fset", v, hexes(p)], "ok")
            assign(n, p)
        elif op == "fgetp" and names:
            v = r.choice(sorted(names))
            k = X.py(["fgetp", v])
            checks.append((k, "parameters", [bits(x) for x in params(names[v])]))
        elif op == "fvals" and names:
            v = r.choice(sorted(names))
            k = X.py(["fvals", v, [hexes(x) for x in pts]])
            checks.append((k, "values", value(names[v])))
        elif op == "del":
            pool = sorted(names) + sorted(data) + sorted(vecs)
            if pool:
                v = r.choice(pool)
                X.py(["del", v])
                for d in (names, data, vecs):
                    d.pop(v, None)
        elif op == "alias" and (names or data or vecs):
            d = r.choice([x for x in (names, data, vecs) if x])
            v, a = new("a"), r.choice(sorted(d))
            X.py(["alias", v, a])
            d[v] = d[a]
        elif op == "loadd":
            path, pin, dy, pout, rows = r.choice(sets)
            v = new("d")
            X.py(["loadd", v, "", path], "ok")
            data[v] = (NAMED[pin] + dy, [list(x) for x in rows])
        elif op == "dset" and data:
            v = r.choice(sorted(data))
            w, rows = data[v]
            i = r.choice([r.randrange(len(rows)), r.randrange(len(rows)), -1, len(rows), len(rows) + 3])
            x = [r.uniform(.1, 1) for _ in range(w)]
            X.py(["dset", v, i, hexes(x)], "ok" if 0 <= i < len(rows) else "ex", "dset")
            if 0 <= i < len(rows):
                rows[i] = x
        elif op == "dget" and data:
            v = r.choice(sorted(data))
            w, rows = data[v]
            i = r.choice([r.randrange(len(rows)), -1, len(rows)])
            k = X.py(["dget", v, i], None if 0 <= i < len(rows) else "ex", "dget")
            if 0 <= i < len(rows):
                checks.append((k, "row", [bits(x) for x in rows[i]]))
        elif op == "drows" and data:
            v = r.choice(sorted(data))
            k = X.py(["drows", v])
            checks.append((k, "rows", [[bits(x) for x in row] for row in data[v][1]]))
        elif op == "vec":
            v = new("v")
            vecs[v] = [r.uniform(-1, 1) for _ in range(r.choice([0, 1, 3, 3, 3, 6]))]
            X.py(["vec", v, hexes(vecs[v])], "ok")
        elif op == "vadd" and vecs:
            a, b, v = r.choice(sorted(vecs)), r.choice(sorted(vecs)), new("v")
            o = r.choice(["vadd", "vsub"])
            same = len(vecs[a]) == len(vecs[b])
            X.py([o, v, a, b], "ok" if same else "ex", o)
            if same:
                vecs[v] = [x + y if o == "vadd" else x - y for x, y in zip(vecs[a], vecs[b])]
        elif op == "vset" and vecs:
            v = r.choice(sorted(vecs))
            i = r.choice([0, 1, 2, 5, 6, -1])
            x = r.uniform(-1, 1)
            ok = 0 <= i < len(vecs[v])
            X.py(["vset", v, i, x.hex()], "ok" if ok else "ex", "vset")
            if ok:
                vecs[v][i] = x
        elif op == "vall" and vecs:
            v = r.choice(sorted(vecs))
            k = X.py(["vall", v])
            checks.append((k, "vector", [bits(x) for x in vecs[v]]))
            k = X.py(["vlen", v])
            checks.append((k, "length", len(vecs[v])))
        elif op == "vcopy" and vecs:
            a, v = r.choice(sorted(vecs)), new("v")
            X.py(["vcopy", v, a], "ok")
            vecs[v] = list(vecs[a])
        elif op == "bad" and names:
            v = r.choice(sorted(names))
            n = len(params(names[v]))
            X.py(r.choice([["fset", v, hexes([.5] * (n + 1))], ["fadd", "none", v, None], ["fvals", v, [hexes([.5] * 5)]]]))
    for v in sorted(names):
        k = X.py(["fvals", v, [hexes(x) for x in pts]])
        checks.append((k, "values", value(names[v])))
    return X, asks, at, checks


def judge_history(c, h, P, R):
    X, asks, at, checks = h
    if not P.done or (R is not None and not R.done):
        return
    if asks:
        vals = []
        for i in at:
            t = R.toks(i + 2)
            vals.append([t.vec() for _ in range(t.int())])

    def combine(e):
        if isinstance(e, int):
            return vals[e]
        a, b = combine(e[1]), combine(e[2])
        return [[x + y if e[0] == "sum" else x * y for x, y in zip(u, v)] for u, v in zip(a, b)]

    for k, what, want in checks:
        a = P.out[k]
        if what == "values":
            want = [[bits(0.0 + x) for x in u] for u in combine(want)]
            got = [[bits(0.0 + float.fromhex(x)) for x in u] for u in a[1]] if a[0] == "ok" else a
        elif a[0] != "ok":
            got = a
        elif what == "length":
            got = a[1]
        elif what == "rows":
            got = [pyvec(x) for x in a[1]]
        else:
            got = pyvec(a[1])
        c.seen("history", what, str(want)[:500])
        if got != want:
            c.fail("history:" + what, case=X.name, step=X.steps[k], got=str(got)[:400], want=str(want)[:400], steps=[str(s)[:150] for s in X.steps[:k + 1]])


check.main("C31", main,
           "one evaluation per answer of the Python module compared with the C++ library's (or a model of the state); distinct by kind of call and answer",
           ["known parametrizations are created with their own dimension", "files record the command line they were made with, which calls do not have: #CMD lines are not compared",
            "not executed: MERL and UTIA files beyond a few rows and positions"])
