"""Closed forms of the analytic models, written from their publications and documentation."""
import math
from dirs import *


def _cart(V, L):
    return V, L


class Model:
    name = None          # plugin
    kind = "lobe"        # lobe, fresnel, shadowing
    opts = ()            # extra tokens understood by bootstrap
    pin = "CARTESIAN"    # parametrization of the plugin itself ("given": the one asked for)
    tags = ()

    def nb(self, dy):
        return self.k * dy

    def rand(self, r, dy):
        return [x for _ in range(dy) for x in self.one(r)]

    def split(self, p, dy):
        return [p[i * self.k:(i + 1) * self.k] for i in range(dy)]

    def value(self, p, dy, V, L, extra=None):
        return [self.f(q, V, L) for q in self.split(p, dy)]

    def bounds(self, dy):
        """(lower, upper) that the plugin documents; None: not checked."""
        return None


def lu(r, a, b):
    return 10 ** r.uniform(math.log10(a), math.log10(b))


class Abc(Model):
    name, k, pin = "nonlinear_function_abc", 3, "COS_TH"

    def one(self, r):
        return [lu(r, .05, 20), lu(r, .1, 2000), r.uniform(0, 3)]

    def f1(self, p, x):
        h = 1 - x
        return p[0] / (1 + p[1] * h) ** p[2] if 0 <= h <= 1 else 0.0

    def f(self, p, V, L):
        return self.f1(p, half(V, L)[2])


class Beckmann(Model):
    name, k = "nonlinear_function_beckmann", 2

    def one(self, r):
        return [lu(r, .05, 20), lu(r, .1, 1.5)]

    def f(self, p, V, L):
        h = half(V, L)[2]
        if h <= 0 or V[2] * L[2] <= 0:
            return 0.0
        t2 = (1 - h * h) / (h * h)
        return p[0] * math.exp(-t2 / p[1] ** 2) / (4 * math.pi * p[1] ** 2 * h ** 4)


class Blinn(Model):
    name, k, pin = "nonlinear_function_blinn", 2, "COS_TH"

    def one(self, r):
        return [lu(r, .05, 20), r.choice([1, 2, 10, r.uniform(.5, 80)])]

    def f1(self, p, x):
        return p[0] * x ** p[1] if x > 0 else 0.0

    def f(self, p, V, L):
        return self.f1(p, half(V, L)[2])


class Diffuse(Model):
    name, k = "nonlinear_function_diffuse", 0

    def one(self, r):
        return []

    def value(self, p, dy, V, L, extra=None):
        return list(extra["kd"])


class Lafortune(Model):
    name = "nonlinear_function_lafortune"

    def __init__(self, lobes=1):
        self.n = lobes
        self.opts = ("--lobes", str(lobes))

    def nb(self, dy):
        return 4 * self.n * dy

    def rand(self, r, dy):
        p = []
        for _ in range(self.n * dy):
            p += [r.uniform(-1.2, .3), r.uniform(-1.2, .3), r.uniform(.2, 1.3), r.choice([1, 2, r.uniform(1, 20)])]
        return p

    def value(self, p, dy, V, L, extra=None):
        y = []
        for i in range(dy):
            s = extra["kd"][i]
            for n in range(self.n):
                cx, cy, cz, e = p[(n * dy + i) * 4:(n * dy + i) * 4 + 4]
                d = cx * V[0] * L[0] + cy * V[1] * L[1] + cz * V[2] * L[2]
                if d > 0:
                    s += d ** e
            y.append(s)
        return y


class Sgd(Model):
    name = "nonlinear_function_sgd"

    def nb(self, dy):
        return 11 * dy

    def rand(self, r, dy):
        c = [[r.uniform(.1, 2), r.uniform(0, 1.2), r.uniform(.5, 6), r.uniform(.01, 1.5), r.uniform(.2, 1.5), r.uniform(0, 1),
              r.uniform(-.2, .2), r.uniform(.1, 30), r.uniform(0, 1), r.uniform(0, 5), lu(r, .02, 1)] for _ in range(dy)]
        return [c[i][k] for k in range(11) for i in range(dy)]

    def value(self, p, dy, V, L, extra=None):
        H = half(V, L)
        y = []
        # the first direction of the pair plays the light (the model is otherwise symmetric)
        for i in range(dy):
            c, t0, k, lam, pw, F0, F1, K, rd, rs, al = [p[i + j * dy] for j in range(11)]
            if V[2] < 0:
                y.append(0.0)
                continue
            c2 = H[2] ** 2
            ax = al + (1 - c2) / c2 / al
            D = math.exp(-ax) / ax ** pw / (math.pi * c2 * c2) * K
            G = 1.0
            for z in (V[2], L[2]):
                G *= 1 + lam * (1 - math.exp(c * max(math.acos(clamp(z)) - t0, 0) ** k))
            u = dot(L, H)
            y.append((rd + rs * D * G * (F0 - u * F1 + (1 - F0) * (1 - u) ** 5)) / math.pi)
        return y


class SG(Model):
    name, k = "nonlinear_function_spherical_gaussian", 2

    def __init__(self, typ=None):
        self.typ = typ or "mirror"
        self.opts = ("--sg-type", typ) if typ else ()

    def nb(self, dy):
        return 2 * dy + (self.typ == "moment")

    def one(self, r):
        return [lu(r, .05, 20), lu(r, .2, 60)]

    def rand(self, r, dy):
        return Model.rand(self, r, dy) + ([r.uniform(.2, 1.8)] if self.typ == "moment" else [])

    def arg(self, p, V, L):
        if self.typ == "half":
            return half(V, L)[2]
        R = [-V[0], -V[1], V[2]]
        if self.typ == "back":
            return half(R, L)[2]
        if self.typ == "retro":
            return dot(V, L)
        return dot(R, L)

    def value(self, p, dy, V, L, extra=None):
        if self.typ == "moment":
            # the light azimuth counts A times before mirroring
            return None
        return [q[0] * math.exp(q[1] * (self.arg(q, V, L) - 1)) for q in self.split(p, dy)]


class SGMoment(SG):
    """Mirror lobe whose first elevation is scaled by the extra parameter."""
    def __init__(self):
        SG.__init__(self, "moment")

    def value(self, p, dy, V, L, extra=None):
        a = p[2 * dy]
        t, ph = el(L), azi(L)
        # file format: TL PL TV PV; the scaled coordinate is the light azimuth of the converted pair
        M = sph(t, a * ph + math.pi)
        d = dot(M, V)
        return [q[0] * math.exp(q[1] * (d - 1)) for q in self.split(p, dy)]


class Ward(Model):
    name, k = "nonlinear_function_ward", 3

    def one(self, r):
        return [lu(r, .05, 20), lu(r, .08, 1.5), lu(r, .08, 1.5)]

    def f(self, p, V, L):
        if V[2] * L[2] <= 0:
            return 0.0
        h = half(V, L)
        e = ((h[0] / p[1]) ** 2 + (h[1] / p[2]) ** 2) / h[2] ** 2
        return p[0] * math.exp(-e) / (4 * math.pi * p[1] * p[2] * math.sqrt(V[2] * L[2]))


class RetroBeckmann(Model):
    name, k = "nonlinear_function_retrobeckmann", 2

    def __init__(self, retro=False):
        self.retro = retro
        self.opts = ("--retro",) if retro else ()

    def one(self, r):
        return [lu(r, .05, 20), lu(r, .1, 1.5)]

    def f(self, p, V, L):
        b = dot(V, L) if self.retro else half([-V[0], -V[1], V[2]], L)[2]
        if b <= 0:
            return 0.0
        t2 = (1 - b * b) / (b * b)
        return p[0] * math.exp(-t2 / p[1] ** 2) / (4 * math.pi * p[1] ** 2 * b ** 4)


class RetroBlinn(Model):
    name, k, pin = "nonlinear_function_retroblinn", 2, "COS_TK"

    def one(self, r):
        return [lu(r, .05, 20), r.choice([1, 2, 10, r.uniform(.5, 80)])]

    def f1(self, p, x):
        return p[0] * x ** p[1] if x >= 0 else 0.0

    def f(self, p, V, L):
        return self.f1(p, half([-V[0], -V[1], V[2]], L)[2])


class RetroYoo(Model):
    name, k, tags = "nonlinear_function_retroyoo", 2, ("yoo",)

    def one(self, r):
        return [lu(r, .05, 20), lu(r, .1, 30)]

    def f(self, p, V, L):
        q = 2 * math.pi * V[0] / 633.0
        return p[0] * 3 / (16 * math.pi) * (2.4 + 1 / (1 + q * p[1] ** 2)) * (1 + (1 - math.exp(-1.4 * q * p[1]) / (q * p[1])))

    def published(self, p, V, L):
        """Akkermans/Yoo coherent backscattering cone, q from the angle to the retro direction."""
        s = norm([a - b for a, b in zip(V, L)])
        ql = 2 * math.pi * s / 633.0 * p[1]
        return p[0] * 3 / (16 * math.pi) * (2.4 + 1 / (1 + ql) ** 2 * (1 + ((1 - math.exp(-1.4 * ql)) / ql if ql else 1.4)))


def schlick(u):
    return (1 - max(0.0, min(1.0, u))) ** 5


class FSchlick(Model):
    name, kind, k, pin = "nonlinear_fresnel_schlick", "fresnel", 1, "given"

    def one(self, r):
        return [r.choice([0.0, 1.0, r.random(), r.random()])]

    def f(self, p, V, L):
        return p[0] + (1 - p[0]) * schlick(dot(V, half(V, L)))


class FNormalized(FSchlick):
    name, pin = "nonlinear_fresnel_normalized_schlick", "CARTESIAN"

    def one(self, r):
        return [r.choice([1.0, r.uniform(.02, 1), r.uniform(.02, 1)])]

    def f(self, p, V, L):
        return 1 + (1 / p[0] - 1) * schlick(dot(V, half(V, L)))


class FRetro(FSchlick):
    name, pin = "nonlinear_fresnel_retroschlick", "CARTESIAN"

    def f(self, p, V, L):
        R = [-V[0], -V[1], V[2]]
        return p[0] + (1 - p[0]) * schlick(dot(half(R, L), R))


class SSchlick(Model):
    name, kind, k = "nonlinear_shadowing_schlick", "shadowing", 1

    def one(self, r):
        return [r.choice([0.0, 1.0, r.random(), r.random()])]

    def f(self, p, V, L):
        g = 1.0
        for z in (V[2], L[2]):
            g *= z / (z + p[0] * (1 - z))
        return g


class SSmith(Model):
    """Smith's shadowing of the light direction."""
    name, kind, k = "nonlinear_shadowing_smith", "shadowing", 1

    def one(self, r):
        return [lu(r, .05, 2)]

    def f(self, p, V, L):
        s = math.hypot(L[0], L[1])
        if s == 0:
            return 1.0
        r = L[2] / s / p[0]
        A = math.exp(-r * r / 2) / (math.sqrt(2 * math.pi) * r) - .5 * math.erfc(r / math.sqrt(2))
        return 1 / (1 + A)


class SWalter(Model):
    name, kind, k = "nonlinear_shadowing_walter_smith", "shadowing", 1

    def one(self, r):
        return [lu(r, .05, 2)]

    def f(self, p, V, L):
        H = half(V, L)
        if V[2] <= 0 or L[2] <= 0 or dot(V, H) <= 0:
            return 0.0
        g = 1.0
        for D in (V, L):
            s = math.hypot(D[0], D[1])
            if s == 0:
                continue
            a = D[2] / s / p[0]
            if a < 1.6:
                g *= (3.535 * a + 2.181 * a * a) / (1 + 2.276 * a + 2.577 * a * a)
        return g


LOBES = [Abc(), Beckmann(), Blinn(), Diffuse(), Lafortune(1), Lafortune(2), Lafortune(3), Lafortune(5), Sgd(), SG(), SG("mirror"), SG("half"), SG("back"),
         SG("retro"), SGMoment(), Ward(), RetroBeckmann(), RetroBeckmann(True), RetroBlinn(), RetroYoo()]
FACTORS = [FSchlick(), FNormalized(), FRetro(), SSchlick(), SSmith(), SWalter()]
