"""C21: least-squares rational fits minimise their objective."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, driver
from rational import basis, widen

PLUGINS = ["rational_function", "rational_function_legendre", "rational_function_chebychev", "rational_function_cosine"]


def dot(a, b):
    return math.fsum(x * y for x, y in zip(a, b))


def eigenvalues(A):
    """Ascending eigenvalues of a symmetric matrix (Jacobi rotations)."""
    n = len(A)
    A = [list(r) for r in A]
    for _ in range(60):
        off = sum(A[i][j] ** 2 for i in range(n) for j in range(n) if i != j)
        if off <= 1e-34 * sum(A[i][i] ** 2 for i in range(n)) or off == 0:
            break
        for p in range(n):
            for q in range(p + 1, n):
                if A[p][q] == 0:
                    continue
                t = (A[q][q] - A[p][p]) / (2 * A[p][q])
                t = (1 if t >= 0 else -1) / (abs(t) + math.hypot(t, 1))
                cs = 1 / math.hypot(t, 1)
                sn = t * cs
                for k in range(n):
                    a, b = A[k][p], A[k][q]
                    A[k][p], A[k][q] = cs * a - sn * b, sn * a + cs * b
                for k in range(n):
                    a, b = A[p][k], A[q][k]
                    A[p][k], A[q][k] = cs * a - sn * b, sn * a + cs * b
    return sorted(A[i][i] for i in range(n))


def powers(dx, deg):
    if dx == 0:
        return [()]
    return [(i,) + t for i in range(deg + 1) for t in powers(dx - 1, deg - i)]


class Job:
    pass


def make(r, fitter):
    j = Job()
    j.fitter = fitter
    j.dx, j.dy = r.choice([1, 1, 1, 2, 2, 3]), r.choice([1, 1, 2, 3]) if r.random() < .94 else r.choice([4, 6])
    j.plugin = r.choice(PLUGINS)
    n = r.choice([1, 2, 4, 8, 15, 25, 40, 60]) if r.random() < .95 else r.choice([129, 257, 600])
    lo = [r.uniform(-2, 2) for _ in range(j.dx)]
    hi = [a + r.uniform(0.3, 3) for a in lo]
    X = [[r.uniform(a, b) for a, b in zip(lo, hi)] for _ in range(n)]
    j.dom = widen(j.plugin, [min(x[k] for x in X) for k in range(j.dx)], [max(x[k] for x in X) for k in range(j.dx)])
    dp, dq = r.randrange(0, {1: 4, 2: 3, 3: 2}[j.dx]), r.randrange(0, {1: 4, 2: 2, 3: 2}[j.dx])
    j.mode = r.choice(["exact", "exact", "noisy", "free", "free"])
    if fitter == "rational_fitter_leastsquare" and j.mode == "exact":
        if r.random() < 0.5:
            dp = 0
        else:
            dq = 0
    j.np, j.nq = math.comb(dp + j.dx, j.dx), math.comb(dq + j.dx, j.dx)
    if j.mode == "free":
        j.np, j.nq = r.randrange(1, 7), r.randrange(1, 6)
    scale = r.choice([1, 1, 1, 0.1, 10])
    pw, qw = powers(j.dx, dp), powers(j.dx, dq)
    chan = []
    for _ in range(j.dy):
        p = [scale * r.uniform(0.2, 1) * r.choice([-1, 1]) for _ in pw]
        q = [r.uniform(0.2, 1) * r.choice([-1, 1]) for _ in qw]
        s = sum(abs(v) for v in q)
        q = [0.6 * v / s for v in q]
        z = (0,) * j.dx
        q[qw.index(z)] = 1.0
        if dp == 0:
            p[0] = scale * r.uniform(0.3, 2) * r.choice([-1, 1])
        chan.append((p, q))
    zero = j.mode == "free" and r.random() < 0.1
    j.rows = []
    for x in X:
        u = [2.0 * ((a - l) / (h - l) - 0.5) for a, l, h in zip(x, *j.dom)]
        y = []
        for p, q in chan:
            num = sum(a * math.prod(b ** e for b, e in zip(u, w)) for a, w in zip(p, pw))
            den = sum(a * math.prod(b ** e for b, e in zip(u, w)) for a, w in zip(q, qw))
            v = num / den
            if j.mode != "exact":
                v += r.gauss(0, 0.3 * scale)
            y.append(0.0 if zero else v)
        j.rows.append((x, y))
    j.iters = r.choice([1, 1, 1, 2, 3]) if fitter == "rational_fitter_leastsquare" and j.mode != "exact" else 1
    j.chan = chan
    return j


def body(c):
    tree = build.ensure("asan", build.RATIONALS + ["rational_fitter_eigen", "rational_fitter_leastsquare"], True)
    r = c.rng
    S = driver.Script()
    plan = {}
    for i in range(c.scale(1200, 12000)):
        j = make(r, ["rational_fitter_eigen", "rational_fitter_leastsquare"][i % 2])
        kind = 2 if r.random() < 0.97 else r.choice([0, 1])
        j.kind = kind
        a = "alta --func %s --np %d --nq %d" % (j.plugin, j.np, j.nq)
        if j.iters != 1:
            a += " --max-iter %d" % j.iters
        j.args = a
        flat = []
        for x, y in j.rows:
            flat += x + y
            flat += [v - 0.1 for v in y] + [v + 0.1 for v in y] if kind == 2 else [0.1] * j.dy if kind == 1 else []
        j.flat = flat
        pr = "%d %d UNKNOWN_INPUT INV_STERADIAN" % (j.dx, j.dy)
        cmds = ["args A " + a, "fget F A " + pr, "dnew X %d %s %d %s" % (kind, pr, len(j.rows), driver.fv(flat)),
                "fit %s X F A" % j.fitter, "drows X"] + ["rcoef F %d" % k for k in range(j.dy)] + \
               ["rdeg F 0 30", "fvals F %d %s" % (len(j.rows), " ".join(driver.fv(x) for x, _ in j.rows))]
        key = "l%d" % i
        plan[key] = j
        S.case(key, cmds, cpu=30)
    res, errors = driver.run(tree, S, c.tmp())
    for e in errors:
        c.unsure("driver: " + e[:300])
    for key, j in plan.items():
        R = res.get(key)
        if R is None:
            c.unsure("no result for " + key)
            continue
        if c.judge_death(R, j.fitter + ":"):
            judge(c, j, R, key)


def judge(c, j, R, key):
    info = dict(fitter=j.fitter, args=j.args, dims=(j.dx, j.dy), rows=len(j.rows), mode=j.mode,
                data=j.flat if len(j.flat) < 200 else "(seed %d, case %s)" % (c.seed, key))
    if not R.ok(3):
        c.fail("raised:" + j.fitter, message=str(R.res.get(3))[:300], **info)
        return
    ok = R.toks(3).int()
    c.count("fits")
    if j.kind != 2:
        c.count("fits of data without intervals refused")
        if ok:
            c.fail("accepted-data-without-intervals:" + j.fitter, **info)
        return
    T = R.toks(4)
    n = T.int()
    w = j.dx + j.dy
    full = len(j.flat) // len(j.rows)
    for i in range(n):
        if T.vec() != j.flat[i * full:i * full + w]:
            c.fail("data-changed:" + j.fitter, **info)
            return
    if not ok:
        c.count("fits refused")
        if j.mode == "exact" and len(j.rows) >= 1:
            c.fail("exact-fit-failed:" + j.fitter, **info)
        return
    c.count("fits accepted")
    T = R.toks(5 + j.dy)
    degs = [[int(v) for v in T.vec()] for _ in range(T.int())]
    T = R.toks(6 + j.dy)
    T.int()
    vals = [T.vec() for _ in j.rows]
    B = [basis(j.plugin, "UNKNOWN_INPUT", j.dom, x, degs[:max(j.np, j.nq)]) for x, _ in j.rows]
    for k in range(j.dy):
        T = R.toks(5 + k)
        p, q = T.vec(), T.vec()
        if len(p) != j.np or len(q) != j.nq:
            c.fail("size:" + j.fitter, size=(len(p), len(q)), requested=(j.np, j.nq), **info)
            return
        if any(not math.isfinite(v) for v in p + q):
            c.fail("not-finite:" + j.fitter, p=p, q=q, **info)
            return
        P = [b[0][:j.np] for b in B]
        Q = [b[1][:j.nq] for b in B]
        Y = [y[k] for _, y in j.rows]
        v = p + q
        c.seen(j.fitter, j.plugin, j.np, j.nq, len(Y), tuple(round(x, 9) for x in v))
        if j.fitter == "rational_fitter_eigen":
            if not eigen(c, j, k, P, Q, Y, v, vals, info):
                return
        elif not least(c, j, k, P, Q, Y, p, q, vals, info):
            return


def close_to_data(c, j, k, p, q, P, Q, Y, vals, err, info):
    """The fitted function goes through exact data; ERR: relative error allowed on the coefficients."""
    for i, y in enumerate(Y):
        den = dot(q, Q[i])
        num = dot(p, P[i])
        mag = sum(abs(a * b) for a, b in zip(p, P[i])) + abs(y) * sum(abs(a * b) for a, b in zip(q, Q[i]))
        if abs(den) < 1e-6 * sum(abs(a * b) for a, b in zip(q, Q[i])):
            c.count("samples near a pole of the fit")
            continue
        tol = err * (math.sqrt(dot(p, p) + dot(q, q)) * 5 * (1 + abs(y)) + mag) / abs(den)
        if tol > 0.05 * (1 + abs(y)):
            c.count("ill-conditioned samples")
            continue
        c.count("recovered samples")
        if not abs(vals[i][k] - y) <= tol:
            c.fail("not-recovered:" + j.fitter, sample=i, channel=k, value=vals[i][k], expected=y, tolerance=tol, p=p, q=q, **info)
            return False
    return True


def eigen(c, j, k, P, Q, Y, v, vals, info):
    C = [a + [-y * b for b in qq] for a, qq, y in zip(P, Q, Y)]
    N = len(v)
    M = [[math.fsum(r[a] * r[b] for r in C) for b in range(N)] for a in range(N)]
    ev = eigenvalues(M)
    top = max(ev[-1], 1e-300)
    nv = dot(v, v)
    if nv == 0:
        c.fail("null-solution:" + j.fitter, **info)
        return False
    ray = math.fsum(dot(r, v) ** 2 for r in C) / nv
    c.count("objectives compared")
    c.sample("eigen np=%d nq=%d, %d samples: objective %.6g, smallest eigenvalue %.6g of %.6g" % (j.np, j.nq, len(Y), ray, ev[0], top))
    if not ray <= max(ev[0], 0) + 1e-13 * N * top:
        c.fail("not-minimal:" + j.fitter, channel=k, objective=ray, minimum=ev[0], largest=top, coefficients=v, **info)
        return False
    if j.mode == "exact" and N > 1 and ev[1] > 1e-9 * top:
        return close_to_data(c, j, k, v[:j.np], v[j.np:], P, Q, Y, vals, 1e-13 * N * top / ev[1], info)
    return True


def stationary(A, x, b):
    """Normalised gradient of |Ax - b|^2."""
    res = [dot(r, x) - y for r, y in zip(A, b)]
    na = math.sqrt(sum(dot(r, r) for r in A))
    nb = math.sqrt(dot(b, b)) + na * math.sqrt(dot(x, x))
    if na == 0 or nb == 0:
        return 0.0
    return max(abs(math.fsum(r[i] * e for r, e in zip(A, res))) for i in range(len(x))) / (na * nb)


def least(c, j, k, P, Q, Y, p, q, vals, info):
    den = [dot(q, r) for r in Q]
    if any(d == 0 or abs(d) < 1e-10 * sum(abs(a * b) for a, b in zip(q, r)) for d, r in zip(den, Q)):
        c.count("fits with a sample on a pole")
        return True
    g = stationary([[a / d for a in r] for r, d in zip(P, den)], p, Y)
    c.count("objectives compared")
    if not g <= 1e-10:
        c.fail("numerator-not-minimal:" + j.fitter, channel=k, gradient=g, p=p, q=q, **info)
        return False
    if j.iters == 1:
        A = [[y * y * a for a in r] for r, y in zip(Q, Y)]
        b = [y * r[0] for r, y in zip(P, Y)]
        Aq = [dot(r, q) for r in A]
        if dot(Aq, Aq) > 0:
            s = dot(Aq, b) / dot(Aq, Aq)
            g = stationary(A, [s * v for v in q], b)
            c.count("objectives compared")
            if not g <= 1e-10:
                c.fail("denominator-not-minimal:" + j.fitter, channel=k, gradient=g, scale=s, q=q, **info)
                return False
    if j.mode == "exact":
        AQ = [[y * y * a for a in r] for r, y in zip(Q, Y)]
        N = eigenvalues([[math.fsum(r[a] * r[b] for r in AQ) for b in range(j.nq)] for a in range(j.nq)])
        AP = [[a / d for a in r] for r, d in zip(P, den)]
        L = eigenvalues([[math.fsum(r[a] * r[b] for r in AP) for b in range(j.np)] for a in range(j.np)])
        if len(Y) < max(j.np, j.nq) or N[0] <= 1e-12 * N[-1] or L[0] <= 1e-12 * L[-1]:
            c.count("ill-conditioned exact fits")
            return True
        e = 1e-12 * (math.sqrt(N[-1] / N[0]) + math.sqrt(L[-1] / L[0]))
        return close_to_data(c, j, k, p, q, P, Q, Y, vals, e, info)
    return True


check.main("C21", body, "one (fitter, basis, sizes, samples, coefficients) per channel fitted, whose objective was compared with the independently computed minimum",
           ["The objective of the eigenvalue fitter is the linearised residual over the norm of the coefficients; that of the least-squares fitter is the weighted "
            "reciprocal fit of the denominator followed by the numerator fit, as its comments state.",
            "Recovery is judged within the conditioning of each problem."])
