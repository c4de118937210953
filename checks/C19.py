"""C19: a successful interval fit passes through every interval."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, driver
from rational import basis, widen

PLUGINS = ["rational_function", "rational_function", "rational_function_legendre", "rational_function_chebychev", "rational_function_cosine"]
SPACES = {1: [("COS_TH", 0, 1)], 2: [("RUSIN_TH_TD", 0, 1.5)], 3: [("RUSIN_TH_TD_PD", 0, 1.5)]}


def comb(n, d):
    return math.comb(n + d, d)


def powers(dx, deg):
    if dx == 0:
        return [()]
    return [(i,) + t for i in range(deg + 1) for t in powers(dx - 1, deg - i)]


class Truth:
    """Channels p/q over complete polynomials in the normalised coordinates, q positive."""

    def __init__(self, r, dx, dy, dp, dq):
        self.dx, self.dp, self.dq = dx, dp, dq
        self.pw, self.qw = powers(dx, dp), powers(dx, dq)
        self.p, self.q = [], []
        for _ in range(dy):
            p = [r.uniform(-1, 1) / math.sqrt(len(self.pw)) for _ in self.pw]
            q = [r.uniform(-1, 1) for _ in self.qw]
            s = sum(abs(v) for v in q) or 1.0
            q = [0.6 * v / s for v in q]
            z = self.qw.index((0,) * dx)
            q[z] = 1.0
            p[self.pw.index((0,) * dx)] += r.choice([0, 0, 1.5, -1.5])
            self.p.append(p)
            self.q.append(q)

    def at(self, u):
        def poly(c, w):
            return sum(a * math.prod(x ** k for x, k in zip(u, e)) for a, e in zip(c, w))
        return [poly(p, self.pw) / poly(q, self.qw) for p, q in zip(self.p, self.q)]


class Job:
    pass


def make(r, big, bump=False):
    j = Job()
    j.dx = dx = r.choice([1, 1, 1, 2, 2, 3]) if not bump else r.choice([1, 1, 2])
    j.dy = dy = r.choice([1, 1, 2, 3]) if not bump else r.choice([1, 2, 3])
    j.plugin = r.choice(PLUGINS)
    j.pin, lo0, hi0 = r.choice([("UNKNOWN_INPUT", -2, 2)] * 2 + SPACES[dx]) if j.plugin != "rational_function_cosine" or dx == 3 else ("UNKNOWN_INPUT", -2, 2)
    if j.plugin == "rational_function_cosine":
        j.pin, lo0, hi0 = "UNKNOWN_INPUT", -2, 2
    dp = r.randrange(0, {1: 5, 2: 3, 3: 2}[dx])
    dq = r.randrange(0, {1: 4, 2: 2, 3: 2}[dx])
    j.np0, j.nq0 = comb(dp, dx), comb(dq, dx)
    t = Truth(r, dx, dy, dp, dq)
    n = r.choice([1, 2, 3, 8, 20, 31, 32, 33, 40, 64, 65, 100, 130] + ([250] if big else [])) if not bump else r.choice([60, 150, 300])
    lo, hi = [], []
    for _ in range(dx):
        a = r.uniform(lo0, hi0 - 0.3)
        lo.append(a)
        hi.append(r.uniform(a + 0.25, hi0))
    if r.random() < 0.1:
        hi[0] = lo[0]
    X = [[r.uniform(a, b) for a, b in zip(lo, hi)] for _ in range(n)]
    if dx == 1 and (bump or r.random() < 0.5):
        X.sort()
    if r.random() < 0.2 and n > 3:
        X[r.randrange(n)] = list(X[r.randrange(n)])
    j.lo = [min(x[k] for x in X) for k in range(dx)]
    j.hi = [max(x[k] for x in X) for k in range(dx)]
    j.dom = widen(j.plugin, j.lo, j.hi)
    j.noisy = r.random() < 0.3
    j.rows = []
    for x in X:
        u = [2.0 * ((a - l) / (h - l) - 0.5) for a, l, h in zip(x, *j.dom)]
        if j.plugin in ("rational_function_legendre", "rational_function_chebychev", "rational_function_cosine"):
            u = [max(-1.0, min(1.0, v)) for v in u]
        y = t.at(u)
        if j.noisy:
            y = [v + r.gauss(0, 0.2) for v in y]
        j.rows.append((x, y, [v - r.uniform(0.03, 0.5) for v in y], [v + r.uniform(0.03, 0.5) for v in y]))
    if bump:
        # something narrow that few samples see, with channels of their own scale, place and tolerance
        j.noisy = True
        at, wide = r.randrange(n), r.choice([.6, 1.5, 3]) * (1 if dx == 1 else .02)
        scale = [r.choice([.01, 1, 1, 10]) for _ in range(dy)]
        off = [r.choice([0, 0, 3, -3]) for _ in range(dy)]
        tol = [r.choice([.02, .05, .3, 3]) for _ in range(dy)]
        high = [r.choice([0, .15, .4, -.15, -.4]) for _ in range(dy)]
        for i, (x, y, _, _) in enumerate(j.rows):
            d = (i - at if dx == 1 else math.dist(x, X[at])) / wide
            y = [(o + v + h * math.exp(-d * d)) * s for v, s, o, h in zip(y, scale, off, high)]
            j.rows[i] = (x, y, [v - a * s for v, a, s in zip(y, tol, scale)], [v + a * s for v, a, s in zip(y, tol, scale)])
    if n > 3 and any(j.rows[a][0] == j.rows[b][0] for a in range(n) for b in range(a)):
        j.noisy = j.noisy or False
    return j


def numbers(j, kind):
    out = []
    for x, y, l, h in j.rows:
        out += x + y
        if kind == 2:
            out += l + h
        elif kind == 1:
            out += [0.1] * j.dy
    return out


def quadprog_args(r, j):
    a = []
    np0, nq0 = j.np0, j.nq0
    k = r.random()
    if k < 0.4:                                # exactly the generating size
        np, nq, mp, mq = np0, nq0, None, None
    elif k < 0.8:                              # a range that ends at or above it
        np, nq = np0 + r.randrange(0, 4), nq0 + r.randrange(0, 4)
        mp, mq = r.randrange(1, np + 1), r.randrange(1, nq + 1)
    else:
        np, nq = r.randrange(1, 12), r.randrange(1, 8)
        mp, mq = r.randrange(1, np + 1), r.randrange(1, nq + 1)
    a += ["--np %d" % np, "--nq %d" % nq]
    if mp is not None:
        a += ["--min-np %d" % mp, "--min-nq %d" % mq]
    mode = r.choice([None, "SlidingWindows", "WorstSetFirst", "WorstFirst"])
    if mode:
        a.append("--scheduling-mode " + mode)
    if r.random() < 0.4:
        a.append("--scheduling-chunk-size %d" % r.choice([1, 2, 5, 17, 64, 1000]))
    if mode == "SlidingWindows" and r.random() < 0.5:
        a.append("--scheduling-grow-factor %s" % r.choice(["1", "1.2", "1.5", "2", "4"]))
    ls = r.random() < 0.2
    if ls:
        a.append("--add-ls-energy")
    if r.random() < 0.05:
        a.append("--export-qp")
    delta = r.choice([None, None, None, "0.1", "0.01", "3"])
    if delta:
        a.append("--delta " + delta)
    sizes = (mp or np, np, mq or nq, nq)
    sure = not j.noisy and np >= np0 and nq >= nq0 and len(j.rows) >= 1 and not ls
    return a, sizes, sure, "%s%s" % (mode or "default", ":ls" if ls else "")


def body(c):
    tree = build.ensure("asan", build.RATIONALS + ["rational_fitter_quadprog", "rational_fitter_parallel"], True)
    r = c.rng
    S = driver.Script()
    plan = {}
    for i in range(c.scale(2200, 30000)):
        bump = i % 15 in (2, 8) or i % 29 == 1
        j = make(r, c.thorough, bump)
        parallel = i % 3 == 2
        j.auto = False
        kind = 2
        if parallel:
            tot = j.np0 + j.nq0
            k = r.random()
            lo = tot if k < 0.5 else r.randrange(2, tot + 1) if k < 0.8 else r.randrange(2, 8)
            hi = lo + (0 if k < 0.5 and r.random() < 0.5 else r.randrange(0, 4))
            if k < 0.8:
                hi = max(hi, tot)
            if bump:
                lo, hi = tot, tot + r.choice([4, 8, 12])
            step = r.choice([None, None, 1, 2])
            a = ["--min-np %d" % lo, "--np %d" % hi, "--nb-cores %d" % r.choice([1, 2, 3, 4, 8])]
            if step:
                a.append("--np-step %d" % step)
            if r.random() < 0.6:
                a.append("--nb-starting-points %d" % r.choice([1, 2, 3, 5, 20, 100, 1000]))
            tag = "parallel"
            if r.random() < 0.25:
                a.append("--use_delta")
                tag += ":use_delta"
            j.sizes = (lo, hi, step or 1)
            reached = [n for n in range(lo, hi + 1, step or 1) if n >= tot]
            sure = not j.noisy and bool(reached) and "use_delta" not in tag
            fitter = "rational_fitter_parallel"
            if r.random() < 0.25:
                kind = r.choice([0, 1])
                dt = r.choice([None, 0.3, 0.05])
                if dt:
                    a.append("--dt %s" % dt)
                dt = dt or 0.1
                j.auto, sure, tag = True, False, tag + ":converted"
                j.rows = [(x, y, [v - dt * abs(v) for v in y], [v + dt * abs(v) for v in y]) for x, y, _, _ in j.rows]
        else:
            a, j.sizes, sure, tag = quadprog_args(r, j)
            fitter = "rational_fitter_quadprog"
            if r.random() < 0.05:
                kind = r.choice([0, 1])
        j.fitter, j.sure, j.tag, j.kind, j.args = fitter, sure, tag, kind, a
        A = "alta --func %s %s" % (j.plugin, " ".join(a))
        pr = "%d %d %s INV_STERADIAN" % (j.dx, j.dy, j.pin)
        j.flat = numbers(j, kind)
        cmds = ["args A " + A, "fget F A " + pr, "dnew X %d %s %d %s" % (kind, pr, len(j.rows), driver.fv(j.flat)),
                "fit %s X F A" % fitter, "drows X"]
        cmds += ["rcoef F %d" % k for k in range(j.dy)]
        cmds += ["rdeg F 0 80", "fvals F %d %s" % (len(j.rows), " ".join(driver.fv(x) for x, _, _, _ in j.rows)), "finfo F"]
        key = "f%d" % i
        plan[key] = j
        S.case(key, cmds, cpu=40)
    res, errors = driver.run(tree, S, c.tmp())
    for e in errors:
        c.unsure("driver: " + e[:300])
    for key, j in plan.items():
        R = res.get(key)
        if R is None:
            c.unsure("no result for " + key)
            continue
        info = dict(plugin=j.plugin, fitter=j.fitter, args=j.args, dims=(j.dx, j.dy), rows=len(j.rows), param=j.pin, noisy=j.noisy,
                    generating=(j.np0, j.nq0), data=j.flat if len(j.flat) < 150 else "(seed %d, case %s)" % (c.seed, key))
        if not R.done and R.end == "timeout":
            c.fail("no-answer:%s:%s" % (j.fitter, j.tag), **info)
            continue
        if not c.judge_death(R, j.tag + ":"):
            continue
        if not R.ok(3):
            c.fail("raised:%s:%s" % (j.fitter, j.tag), message=str(R.res.get(3))[:300], **info)
            continue
        judge(c, j, R, info)


def judge(c, j, R, info):
    what = j.fitter + ":" + j.tag
    ok = R.toks(3).int()
    c.count("fits")
    c.seen("fit", j.fitter, j.tag, j.dx, j.dy, j.plugin, len(j.rows), tuple(j.sizes), ok)
    T = R.toks(4)
    n = T.int()
    got = []
    for _ in range(n):
        got += T.vec()
    full, stored = len(j.flat) // len(j.rows), len(got) // max(n, 1)
    if n != len(j.rows) or got != [v for k in range(n) for v in j.flat[k * full:k * full + stored]]:
        c.fail("data-changed:" + what, **info)
        return
    if j.kind != 2 and j.fitter == "rational_fitter_quadprog":
        c.count("fits of data without intervals refused")
        if ok:
            c.fail("accepted-data-without-intervals", **info)
        return
    if not ok:
        c.count("fits refused")
        if j.sure:
            c.fail("feasible-fit-failed:" + what, sizes=j.sizes, **info)
        return
    c.count("fits accepted")
    if j.auto:
        c.count("fits accepted of converted data")
    P, Q = [], []
    for k in range(j.dy):
        T = R.toks(5 + k)
        P.append(T.vec())
        Q.append(T.vec())
    T = R.toks(5 + j.dy)
    degs = [[int(v) for v in T.vec()] for _ in range(T.int())]
    T = R.toks(6 + j.dy)
    T.int()
    vals = [T.vec() for _ in j.rows]
    for k in range(j.dy):
        np, nq = len(P[k]), len(Q[k])
        if j.fitter == "rational_fitter_quadprog":
            a, b, d, e = j.sizes
            good = a <= np <= b and d <= nq <= e
        else:
            a, b, s = j.sizes
            good = np >= 1 and nq >= 1 and a <= np + nq <= b and (np + nq - a) % s == 0
        if not good or (np, nq) != (len(P[0]), len(Q[0])):
            c.fail("size-out-of-range:" + what, size=(np, nq), channel=k, requested=j.sizes, **info)
            return
    # the reported function stays within the intervals: its evaluations and an independent sum of its coefficients
    for k in range(j.dy):
        sign = 0
        for i, (x, y, l, h) in enumerate(j.rows):
            bp, bq = basis(j.plugin, j.pin, j.dom, x, degs[:max(len(P[k]), len(Q[k]))])
            den = sum(a * b for a, b in zip(Q[k], bq))
            mag = sum(abs(a * b) for a, b in zip(Q[k], bq))
            num = sum(a * b for a, b in zip(P[k], bp))
            pm = sum(abs(a * b) for a, b in zip(P[k], bp))
            tol = 1e-9 * (h[k] - l[k])
            noise = 1e-12 * (pm + mag * max(abs(l[k]), abs(h[k]))) / max(abs(den), 1e-300)
            v = vals[i][k]
            c.count("interval tests")
            if not (l[k] - tol - noise <= v <= h[k] + tol + noise):
                c.fail("outside-interval:" + what, sample=i, channel=k, x=x, value=v, interval=[l[k], h[k]], numerator=num, denominator=den, **info)
                return
            if not abs(num / den - v) <= 1e-9 * (1 + abs(v)) + noise:
                c.fail("stored-function-differs:" + what, sample=i, channel=k, x=x, value=v, computed=num / den, **info)
                return
            s = (den > 0) - (den < 0)
            if abs(den) <= 1e-13 * mag:
                c.fail("denominator-vanishes:" + what, sample=i, channel=k, x=x, denominator=den, **info)
                return
            if sign and s != sign:
                c.fail("denominator-changes-sign:" + what, sample=i, channel=k, x=x, denominator=den, **info)
                return
            sign = s
    c.seen("accepted", j.fitter, j.tag, tuple(round(v, 9) for v in P[0]))
    c.sample("%s %s: %d samples, %d channels, size %d/%d, generated with %d/%d" % (j.fitter, " ".join(j.args), len(j.rows), j.dy, len(P[0]), len(Q[0]), j.np0, j.nq0))


check.main("C19", body, "one (fitter, options, dimensions, samples, sizes, outcome) per fit and one coefficient vector per accepted fit, every sample of which was tested against its interval",
           ["Intervals are at least 0.06 wide for values of the order of 1; narrower ones are judged only when the fit reports success.",
            "The fits that must succeed are those of noiseless data of a function of the requested size or smaller with a denominator between 0.4 and 1.6."])
