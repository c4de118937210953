"""C20: the quadratic-program solver returns the constrained optimum."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, driver
from gen import *

INF = float("inf")


def dot(a, b):
    return math.fsum(x * y for x, y in zip(a, b))


def matvec(M, x):
    return [dot(row, x) for row in M]


def tvec(n):
    return [0.0] * n


def unit(r, n):
    while True:
        v = [r.gauss(0, 1) for _ in range(n)]
        s = math.sqrt(dot(v, v))
        if s > 0.1:
            return [x / s for x in v]


def rank(cols, tol=1e-6):
    """Rank of a set of vectors (Gram-Schmidt)."""
    base = []
    for c in cols:
        v = list(c)
        s0 = math.sqrt(dot(v, v))
        for b in base:
            k = dot(v, b)
            v = [x - k * y for x, y in zip(v, b)]
        for b in base:
            k = dot(v, b)
            v = [x - k * y for x, y in zip(v, b)]
        s = math.sqrt(dot(v, v))
        if s > tol * max(s0, 1e-300):
            base.append([x / s for x in v])
    return len(base)


def spread(cols, tol=0.05):
    """Whether a set of vectors is comfortably independent."""
    return rank(cols, tol) == len(cols)


def matrix(r, n, kind):
    if kind == "identity":
        return [[float(i == j) for j in range(n)] for i in range(n)]
    if kind == "diagonal":
        return [[10 ** r.uniform(-1, 1) if i == j else 0.0 for j in range(n)] for i in range(n)]
    A = [[r.gauss(0, 1) for _ in range(n)] for _ in range(n)]
    G = [[dot(A[i], A[j]) + (r.uniform(0.5, 2) if i == j else 0.0) for j in range(n)] for i in range(n)]
    return [[G[max(i, j)][min(i, j)] for j in range(n)] for i in range(n)]


class QP:
    """A program whose optimum is known because it is built around it."""

    def __init__(self, r, big):
        self.n = n = r.choice([1, 1, 2, 2, 3, 4, 5, 6, 8] + ([12, 16] if big else []))
        self.kind = r.choice(["identity", "identity", "diagonal", "full", "full"])
        self.G = G = matrix(r, n, self.kind)
        p = r.choice([0, 0, 0, 1, 2, 3])
        p = min(p, n)
        while True:
            self.CE = [unit(r, n) for _ in range(p)]
            if spread(self.CE, 0.2):
                break
        scale = r.choice([1.0, 1.0, 1.0, 10.0, 0.1])
        self.x = x = [r.gauss(0, 1) * scale for _ in range(n)]
        if r.random() < 0.15:
            self.x = x = tvec(n)
        self.ce0 = [-dot(c, x) for c in self.CE]
        # active constraints with positive multipliers, independent
        k = r.randrange(0, n - p + 1)
        act = []
        for _ in range(k):
            for _ in range(8):
                a = unit(r, n)
                if spread(self.CE + act + [a], 0.2):
                    act.append(a)
                    break
        mu = [scale * 10 ** r.uniform(-1, 1) for _ in act]
        lam = [scale * r.gauss(0, 1) for _ in self.CE]
        cons = [(a, 0.0, "active") for a in act]
        self.degenerate = False
        if act and r.random() < 0.35:          # redundant active constraints
            self.degenerate = True
            for _ in range(r.randrange(1, 4)):
                w = [r.choice([0, 0, 1, 2, 0.5]) for _ in act]
                if not any(w):
                    w[r.randrange(len(w))] = 1.0
                v = [sum(wi * a[j] for wi, a in zip(w, act)) for j in range(n)]
                if dot(v, v) > 1e-3:
                    cons.append((v, 0.0, "redundant"))
        if r.random() < 0.25:                  # weakly active
            self.degenerate = True
            for _ in range(r.randrange(1, 4)):
                cons.append((unit(r, n), 0.0, "weak"))
        shape = r.choice(["none", "few", "many", "box", "parallel"])
        self.shape = shape
        if shape in ("few", "many"):
            for _ in range(r.randrange(1, 6) if shape == "few" else r.randrange(20, 160 if big else 90)):
                cons.append((unit(r, n), scale * 10 ** r.uniform(-2.5, 1), "inactive"))
        elif shape == "box":
            for j in range(n):
                for s in (1.0, -1.0):
                    cons.append(([s if i == j else 0.0 for i in range(n)], scale * r.uniform(0.05, 3), "inactive"))
        elif shape == "parallel" and cons:
            for a, _, _ in list(cons):
                for _ in range(r.randrange(1, 12)):
                    cons.append(([v * r.choice([1.0, 0.5, 2.0, -1.0]) for v in a], scale * 10 ** r.uniform(-2, 0.5), "inactive"))
        # the constraint lengths vary as those of a fit do
        out = []
        for a, s, t in cons:
            f = r.choice([1.0, 1.0, 1.0, 3.0, 0.3])
            out.append(([f * v for v in a], f * s, t, f))
        r.shuffle(out)
        self.cons = out
        self.CI = [a for a, _, _, _ in out]
        self.ci0 = [s - dot(a, x) for a, s, _, _ in out]
        self.slack = [s for _, s, _, _ in out]
        self.active = [i for i, o in enumerate(out) if o[2] == "active"]
        grad = tvec(n)
        for l, c in zip(lam, self.CE):
            grad = [g + l * v for g, v in zip(grad, c)]
        for m_, a in zip(mu, act):
            grad = [g + m_ * v for g, v in zip(grad, a)]
        self.g0 = [g - h for g, h in zip(grad, matvec(G, x))]
        self.f = self.value(x)
        self.feasible = True

    def value(self, x):
        return 0.5 * dot(x, matvec(self.G, x)) + dot(self.g0, x)

    def make_infeasible(self, r):
        """Add constraints that no point satisfies (a positive combination of them is 0 >= positive)."""
        n = self.n
        k = r.randrange(1, n + 1)
        a = [unit(r, n) for _ in range(k)]
        w = [r.uniform(0.3, 2) for _ in a]
        last = [-sum(wi * v[j] for wi, v in zip(w, a)) for j in range(n)]
        if dot(last, last) < 0.05:
            return False
        d = [dot(v, self.x) + r.uniform(-1, 1) for v in a]        # v.x >= d
        gap = r.choice([0.01, 0.1, 1.0, 10.0])
        dl = -sum(wi * di for wi, di in zip(w, d)) + gap
        for v, e in list(zip(a, d)) + [(last, dl)]:
            i = r.randrange(len(self.CI) + 1)
            self.CI.insert(i, v)
            self.ci0.insert(i, -e)
        self.feasible = False
        return True

    def text(self, mode, act=None):
        n, p, m = self.n, len(self.CE), len(self.CI)
        f = lambda v: float(v).hex()
        t = ["qp", mode, str(n), str(p), str(m)]
        t += [f(v) for row in self.G for v in row]
        t += [f(v) for v in self.g0]
        t += [f(self.CE[j][i]) for i in range(n) for j in range(p)]
        t += [f(v) for v in self.ce0]
        t += [f(self.CI[j][i]) for i in range(n) for j in range(m)]
        t += [f(v) for v in self.ci0]
        if act is not None:
            t += [str(len(act))] + [str(i) for i in act]
        return " ".join(t)


def judge(c, P, mode, T, tag):
    fv = T.f()
    x = T.vec()
    act = [T.int() for _ in range(T.int())]
    kind = mode.split(":")[0]
    what = "%s:%s" % (kind, tag)
    c.seen("solved", kind, P.n, len(P.CE), len(P.CI), P.feasible, round(P.f, 9))
    c.count("programs solved")
    detail = dict(mode=mode, n=P.n, p=len(P.CE), m=len(P.CI), kind=P.kind, shape=P.shape, degenerate=P.degenerate)
    if not P.feasible:
        c.count("infeasible programs")
        if fv != INF:
            c.fail("infeasible-reported-solved:" + what, cost=fv, x=x, program=P.text(mode)[:4000], **detail)
        return
    if fv == INF or fv != fv:
        c.fail("feasible-reported-infeasible:" + what, cost=str(fv), optimum=P.x, program=P.text(mode)[:4000], **detail)
        return
    size = 1.0 + max(abs(v) for v in P.x)
    gsize = 1.0 + abs(P.f) + dot(P.x, matvec(P.G, P.x)) + max(abs(v) for v in P.g0) * size
    if len(x) != P.n or any(v != v or abs(v) == INF for v in x):
        c.fail("not-finite:" + what, x=x, program=P.text(mode)[:4000], **detail)
        return
    for i, (a, b) in enumerate(zip(P.CI, P.ci0)):
        s = dot(a, x) + b
        if s < -1e-7 * size * (1 + math.sqrt(dot(a, a))):
            c.fail("inequality-violated:" + what, constraint=i, slack=s, x=x, optimum=P.x, program=P.text(mode)[:4000], **detail)
            return
    for i, (a, b) in enumerate(zip(P.CE, P.ce0)):
        s = dot(a, x) + b
        if abs(s) > 1e-7 * size:
            c.fail("equality-violated:" + what, constraint=i, residual=s, x=x, optimum=P.x, program=P.text(mode)[:4000], **detail)
            return
    e = max(abs(a - b) for a, b in zip(x, P.x))
    c.sample("%s: n=%d m=%d distance to the optimum %.3g, objective %.9g (expected %.9g)" % (mode, P.n, len(P.CI), e, fv, P.f))
    if e > 1e-6 * size:
        c.fail("not-the-optimum:" + what, x=x, optimum=P.x, values=[P.value(x), P.f], program=P.text(mode)[:4000], **detail)
        return
    if abs(fv - P.f) > 1e-7 * gsize:
        c.fail("wrong-objective:" + what, returned=fv, value=P.f, program=P.text(mode)[:4000], **detail)
        return
    if kind == "full":
        return
    # the active set on output: the equalities first, then satisfied-with-equality constraints
    ineq = [a for a in act if a >= 0]
    eqs = [a for a in act if a < 0]
    c.seen("active", len(ineq))
    if len(set(act)) != len(act) or len(eqs) > len(P.CE) or any(a >= len(P.CI) for a in ineq):
        c.fail("active-set-malformed:" + what, active=act, **detail)
        return
    for i in ineq:
        if abs(dot(P.CI[i], x) + P.ci0[i]) > 1e-6 * size * (1 + math.sqrt(dot(P.CI[i], P.CI[i]))):
            c.fail("active-set-has-slack:" + what, active=act, constraint=i, slack=dot(P.CI[i], x) + P.ci0[i],
                   program=P.text(mode)[:4000], **detail)
            return
    if not P.degenerate and sorted(ineq) != sorted(P.active):
        c.fail("active-set-wrong:" + what, active=act, expected=P.active, program=P.text(mode)[:4000], **detail)


def body(c):
    tree = build.ensure("asan", ["core"], True)
    S = driver.Script()
    plan = {}
    r = c.rng
    k = 0
    for _ in range(c.scale(5000, 60000)):
        P = QP(r, c.thorough or r.random() < 0.1)
        if r.random() < 0.2:
            P.make_infeasible(r)
        m = len(P.CI)
        cmds = []
        for mode in ["full", "worst", "sliding", "worstset"] + r.sample(
                ["sliding:1", "sliding:2", "sliding:3:2", "sliding:1:1.5", "sliding:5:3", "worstset:1", "worstset:4",
                 "sliding:%d" % max(1, m), "worstset:%d" % max(1, m), "sliding:%d" % (m + 7), "worstset:%d" % (2 * m + 3)], 3):
            act = None
            tag = "default"
            if mode != "full" and m and r.random() < 0.4:
                tag = "initial-active-set"
                act = r.sample(range(m), r.randrange(1, min(m, 2 * P.n) + 1))
                if r.random() < 0.3 and P.feasible and P.active:
                    act, tag = list(P.active), "exact-active-set"
                    r.shuffle(act)
            if mode.startswith("sliding:1:"):
                tag = "small-growth"
            cmds.append((mode, tag, P.text(mode, act)))
        key = "q%d" % k
        k += 1
        plan[key] = (P, cmds)
        S.case(key, [t for _, _, t in cmds], cpu=5)
    res, errors = driver.run(tree, S, c.tmp())
    for e in errors:
        c.unsure("driver: %s" % e[:300])
    for key, (P, cmds) in plan.items():
        R = res.get(key)
        if R is None:
            c.unsure("no result for " + key)
            continue
        c.seen("program", P.n, len(P.CE), P.kind, P.shape, P.degenerate, P.feasible)
        for i, (mode, tag, text) in enumerate(cmds):
            if R.ok(i):
                judge(c, P, mode, R.toks(i), tag)
            elif i in R.res:
                c.fail("raised:%s:%s" % (mode.split(":")[0], tag), message=str(R.res[i])[:300], program=text[:4000])
        if not R.done:
            i = R.failed_cmd
            mode, tag, text = cmds[min(i, len(cmds) - 1)]
            c.fail("%s:%s:%s:%s" % ("no-answer" if R.end == "timeout" else "died", mode.split(":")[0], tag, R.died() + ":" + R.where()),
                   log=R.log()[-1500:], n=P.n, p=len(P.CE), m=len(P.CI), mode=mode, end=R.end, program=text[:4000])


check.main("C20", body,
               rule="Programs are built around a known optimum (stationarity with chosen multipliers) or around a certificate of "
                    "infeasibility; each solution strategy runs on each of them under AddressSanitizer and UBSan and its point, "
                    "objective and active set are compared with the construction.",
               assumptions=["Well-scaled programs: constraint normals of length about 1, condition number of the objective below about 1e4.",
                            "Linearly dependent equality constraints, which raise an exception, are not generated."])
