"""Random functions: their command lines, how to build them through the driver, and what they are made of."""
import math
from gen import *
import dirs, driver, models

FULL = ["CARTESIAN", "CARTESIAN", "CARTESIAN", "RUSIN_TH_PH_TD_PD", "SPHERICAL_TL_PL_TV_PV"]


class Leaf:
    """One plugin object: its model, its parameters, where it sits in the expression."""
    def __init__(self, model, params, path, pin, free):
        self.m, self.p, self.path, self.pin, self.free = model, params, path, pin, free


class Fn:
    """A function: expression tree of ('leaf', Leaf) | ('mul', a, b) | ('sum', [..])."""
    kind = "nl"

    def __init__(self, toks, dx, dy, pin, pout, tree, leaves, kd, given):
        self.toks, self.dx, self.dy, self.pin, self.pout = toks, dx, dy, pin, pout
        self.tree, self.leaves, self.kd, self.given = tree, leaves, kd, given

    def value(self, V, L, tree=None):
        t = tree or self.tree
        if t[0] == "leaf":
            return t[1].m.value(t[1].p, self.dy, V, L, dict(kd=self.kd))
        if t[0] == "mul":
            return [a * b for a, b in zip(self.value(V, L, t[1]), self.value(V, L, t[2]))]
        vs = [self.value(V, L, s) for s in t[1]]
        return [sum(v[i] for v in vs) for i in range(self.dy)]

    def point(self, V, L):
        return dirs.coords(V, L, self.pin)

    def names(self):
        return "+".join("*".join(l.m.name.split("_", 1)[1] for l in part) for part in self.parts())

    def parts(self):
        d = {}
        for l in self.leaves:
            d.setdefault(l.path[0] if self.tree[0] == "sum" else 0, []).append(l)
        return [d[k] for k in sorted(d)]


class Rat:
    kind = "rational"

    def __init__(self, plugin, dx, dy, pin, pout, lo, hi, p, q, toks):
        self.plugin, self.dx, self.dy, self.pin, self.pout, self.lo, self.hi, self.p, self.q = plugin, dx, dy, pin, pout, lo, hi, p, q
        self.toks, self.leaves, self.given = toks, [], (dx, pin)


def _lobe(r, given, ok):
    while True:
        m = r.choice(models.LOBES)
        if ok(m, given):
            return m


def allowed(m, given):
    """Can this plugin be asked for with parametrization GIVEN?"""
    if m.pin == "CARTESIAN" or m.pin == "given":
        return given in FULL
    return True                                   # abc, blinn, retroblinn: their own whatever is asked for


def random_fn(r, dy=None, single=None, factor=None, given=None, fixed=True, nsum=None, pout=None):
    dy = dy or (r.choice([1, 1, 2, 3, 3, 4]) if r.random() < .95 else r.choice([5, 7]))
    pout = pout or r.choice(["INV_STERADIAN", "RGB_COLOR" if dy == 3 else "INV_STERADIAN", "UNKNOWN_OUTPUT"])
    if given is None:
        if single:
            given = single.pin if single.pin != "given" else r.choice(FULL)
            if single.name.endswith("_abc") and r.random() < .4:
                given = r.choice(FULL)            # becomes COS_TH when it is initialised or loaded
        else:
            given = r.choice(FULL + ["COS_TH"] * (not factor) + ["COS_TK"] * (not factor))
    kd = [r.choice([0.0, r.random(), r.random()]) for _ in range(dy)]
    leaves = []

    def leaf(m, path, free):
        l = Leaf(m, m.rand(r, dy), path, m.pin if m.pin != "given" else given, free)
        leaves.append(l)
        return ("leaf", l)

    def one(path, top):
        """A lobe, or a lobe times a factor."""
        m = single if top and single else _lobe(r, given, allowed)
        toks = [m.name] + list(m.opts)
        withf = factor if factor is not None else given in FULL and r.random() < .4
        fx = []
        if withf:
            f = r.choice(models.FACTORS) if not isinstance(factor, models.Model) else factor
            # abc and blinn live in COS_TH until combined; their product is evaluated in full directions
            toks += ["--fresnel", f.name]
            a, b = True, True
            if fixed and r.random() < .25:
                toks.append("--fixed-fresnel")
                b = False
            if fixed and r.random() < .15:
                toks.append("--fixed-lobe")
                a = False
            return toks, ("mul", leaf(m, path + (0,), a), leaf(f, path + (1,), b))
        return toks, leaf(m, path, True)

    n = nsum if nsum is not None else 1 if single else r.choice([1, 1, 2, 2, 3, 4])
    if n == 1:
        toks, tree = one((), True)
        toks = ["--func"] + toks
    else:
        subs, toks = [], ["--func", "["]
        for i in range(n):
            t, s = one((i,), False)
            if fixed == "all" or fixed and r.random() < .2:
                t.append("--fixed")
                for l in leaves:
                    if l.path[:1] == (i,):
                        l.free = False
            subs.append(s)
            toks += t
            toks[-1] += "," if i < n - 1 else ""
        toks.append("]")
        tree = ("sum", subs)
    pin = resolve(tree, given)
    f = Fn(toks, NAMED[pin], dy, pin, pout, tree, leaves, kd, (NAMED[given], given))
    return f


def built(r, dy=None):
    """An expression put together by a program: any function times, or plus, any other, at any depth."""
    dy = dy or r.choice([1, 2, 3, 3])
    pout = r.choice(["INV_STERADIAN", "UNKNOWN_OUTPUT"])
    kd = [r.choice([0.0, r.random()]) for _ in range(dy)]
    leaves, parts, glue = [], [], []

    def node(path, free, depth):
        """(tree, words, input parametrization)"""
        name = "_".join(["F"] + [str(k) for k in path])
        k = r.random()
        if depth == 0 or path and k < .4:
            m = r.choice(models.LOBES + models.FACTORS)
            s = random_fn(r, dy, single=m, factor=False, nsum=1, fixed=False, pout=pout)
            s.kd, l = kd, s.leaves[0]
            l.path, l.free, l.var = path, free, name
            leaves.append(l)
            parts.append((name, s))
            return ("leaf", l), m.name.split("_", 1)[1], l.pin
        two = k < .7
        n = 2 if two else r.choice([1, 2, 3, 4])
        fix = [r.random() < .25 for _ in range(n)]
        subs = [node(path + (i,), free and not fix[i], depth - 1) for i in range(n)]
        names = " ".join("%s_%d" % (name, i) for i in range(n))
        words = "(" + (" * " if two else " + ").join(w + (" fixed" if x else "") for (_, w, _), x in zip(subs, fix)) + ")"
        pin = subs[0][2] if all(p == subs[0][2] for _, _, p in subs) else "CARTESIAN"
        flags = " ".join(str(int(x)) for x in fix)
        glue.append("fprod %s %s %s" % (name, names, flags) if two else "fsum %s %d %s %s" % (name, n, names, flags))
        return (("mul", subs[0][0], subs[1][0]) if two else ("sum", [t for t, _, _ in subs])), words, pin

    tree, words, pin = node((), True, r.choice([1, 1, 2, 2, 3]))
    f = Fn(["built:", words], NAMED[pin], dy, pin, pout, tree, leaves, kd, (NAMED[pin], pin))
    f.kind, f.singles, f.glue = "built", parts, glue
    return f


def ctor(l, given):
    """Parametrization of a part when it is created (abc takes its own only later)."""
    return given if l.m.name.endswith("_abc") else l.pin


def resolve(tree, given):
    """Parametrization of an expression created for GIVEN: the common one of the parts, or cartesian."""
    if tree[0] == "leaf":
        return tree[1].pin
    def at(t):
        if t[0] == "leaf":
            return ctor(t[1], given)
        a, b = at(t[1]), at(t[2])
        return a if a == b else "CARTESIAN"
    if tree[0] == "mul":
        return at(tree)
    ps = [at(s) for s in tree[1]]
    return ps[0] if all(p == ps[0] for p in ps) else "CARTESIAN"


def random_rat(r, plugin=None, dy=None):
    plugin = plugin or r.choice(["rational_function", "rational_function_legendre", "rational_function_chebychev", "rational_function_cosine"])
    dy = dy or r.choice([1, 1, 2, 3])
    pin = r.choice(["COS_TH", "RUSIN_TH_TD", "COS_TH_TD", "RUSIN_TH_TD_PD"] if plugin != "rational_function_cosine" else ["RUSIN_TH_TD_PD", "ISOTROPIC_TV_TL_DPHI", "SPHERICAL_TL_PL_TV_PV"])
    dx = NAMED[pin]
    lo = [r.uniform(-1, 0) for _ in range(dx)]
    hi = [a + r.uniform(.5, 2) for a in lo]
    np, nq = r.randrange(1, 9), r.randrange(1, 7)
    p, q = [], []
    for _ in range(dy):
        p.append([r.uniform(-1, 1) for _ in range(np)])
        q.append([1.0 if j == 0 else r.uniform(-.4, .4) / nq for j in range(nq)])
    return Rat(plugin, dx, dy, pin, r.choice(["INV_STERADIAN", "RGB_COLOR" if dy == 3 else "INV_STERADIAN"]), lo, hi, p, q,
               ["--func", plugin] if plugin != "rational_function" or r.random() < .5 else [])


def functions(r, n):
    out = []
    pool = [("s", m) for m in models.LOBES] + [("f", m) for m in models.FACTORS]
    r.shuffle(pool)
    for i in range(n):
        if r.random() < .2:
            out.append(random_rat(r))
        elif i < len(pool):
            k, m = pool[i]
            out.append(random_fn(r, single=m, factor=False) if k == "s" else random_fn(r, factor=m, nsum=1))
        else:
            out.append(random_fn(r))
    return out


def build_cmds(F, f, A="A", D=None):
    """Commands that create arguments A and function F. A small data set backs the first guess."""
    if f.kind == "rational":
        c = ["args %s alta %s" % (A, " ".join(map(driver.q, f.toks))), "fget %s %s %d %d %s %s" % (F, A, f.dx, f.dy, f.pin, f.pout),
             "rsize %s %d %d" % (F, len(f.p[0]), len(f.q[0])), "fdomain %s %s %s" % (F, driver.fv(f.lo), driver.fv(f.hi))]
        for k in range(f.dy):
            c.append("rset %s %d %s %s" % (F, k, driver.fv(f.p[k]), driver.fv(f.q[k])))
        return c
    if f.kind == "built":
        c = []
        for name, s in f.singles:
            l = s.leaves[0]
            p, l.path = l.path, ()                # created on its own, always named after F
            c += build_cmds(name, s)
            l.path = p
        return c + f.glue
    D = D or F + "d"
    dx, given = f.given
    rows = [[.1] * dx + [k + e for k in f.kd] for e in (.5, 0, .25)]
    c = ["args %s alta %s" % (A, " ".join(map(driver.q, f.toks))), "fget %s %s %d %d %s %s" % (F, A, dx, f.dy, given, f.pout),
         "dnew %s 0 %d %d %s %s 3 %s" % (D, dx, f.dy, given, f.pout, driver.fv([v for l in rows for v in l])),
         "fboot %s %s %s" % (F, D, A)]
    return c + set_cmds(F, f)


def set_cmds(F, f):
    c = []
    seen = {(): F}
    for l in f.leaves:
        n = F
        for j in range(len(l.path)):
            k = l.path[:j + 1]
            if k not in seen:
                seen[k] = "%s_%s" % (F, "_".join(map(str, k)))
                c.append("fsub %s %s %d" % (seen[k], n, k[-1]))
            n = seen[k]
        l.var = n
        if l.p:
            c.append("fsetp %s %s" % (n, driver.fv(l.p)))
    return c


def free_params(f):
    """Concatenated parameters of the free parts, in order."""
    return [x for l in f.leaves if l.free for x in l.p]
