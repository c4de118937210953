"""Direction-pair generators and the independent definition of every parametrization.

Cartesian configurations are (V, L): view first, as documented."""
import math

DIM = dict(COS_TH=1, COS_TK=1, COS_TLV=1, COS_TLR=1, RUSIN_TH_TD=2, COS_TH_TD=2, ISOTROPIC_TV_PROJ_DPHI=2,
           STARK_2D=2, NEUMANN_2D=2, RUSIN_TH_TD_PD=3, ISOTROPIC_TV_TL_DPHI=3, RUSIN_VH=3, SCHLICK_VK=3,
           ISOTROPIC_TL_TV_PROJ_DPHI=3, SCHLICK_TL_TK_PROJ_DPHI=3, RETRO_TL_TVL_PROJ_DPHI=3, STARK_3D=3,
           NEUMANN_3D=3, RUSIN_TH_PH_TD_PD=4, SPHERICAL_TL_PL_TV_PV=4, STEREOGRAPHIC=4, CARTESIAN=6)
FULL = ["RUSIN_TH_PH_TD_PD", "SPHERICAL_TL_PL_TV_PV", "STEREOGRAPHIC", "CARTESIAN"]
ISO = ["RUSIN_TH_TD_PD", "ISOTROPIC_TV_TL_DPHI", "ISOTROPIC_TL_TV_PROJ_DPHI", "SCHLICK_TL_TK_PROJ_DPHI",
       "RETRO_TL_TVL_PROJ_DPHI", "STARK_3D", "NEUMANN_3D"]


def sph(t, p):
    return [math.sin(t) * math.cos(p), math.sin(t) * math.sin(p), math.cos(t)]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def norm(a):
    return math.sqrt(dot(a, a))


def unit(a):
    n = norm(a)
    return [x / n for x in a]


def clamp(x):
    return max(-1.0, min(1.0, x))


def half(V, L):
    return unit([a + b for a, b in zip(V, L)])


def rotz(v, a):
    return [v[0] * math.cos(a) - v[1] * math.sin(a), v[0] * math.sin(a) + v[1] * math.cos(a), v[2]]


def ang(a, b):
    """Accurate angle between two directions."""
    c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    return math.atan2(norm(c), dot(a, b))


def azi(v):
    return math.atan2(v[1], v[0])


def el(v):
    return math.atan2(math.hypot(v[0], v[1]), v[2])


def diffvec(V, L):
    """View expressed in the frame whose pole is the half vector."""
    H = half(V, L)
    th, ph = el(H), azi(H)
    d = rotz(V, -ph)
    c, s = math.cos(-th), math.sin(-th)
    return [c * d[0] + s * d[2], d[1], -s * d[0] + c * d[2]]


def coords(V, L, p):
    """Documented coordinates; angles that are undefined come back as None."""
    if p == "CARTESIAN":
        return V + L
    H = half(V, L)
    Hu = [(a + b) / 2 for a, b in zip(V, L)]
    Bu = [(b - a) / 2 for a, b in zip(V, L)]
    K = [V[0] - L[0], V[1] - L[1], V[2] + L[2]]       # back vector: half way between V and mirrored L
    if p == "COS_TH":
        return [H[2]]
    if p == "COS_TK":
        return [K[2] / norm(K)]
    if p == "COS_TLV":
        return [dot(V, L)]
    if p == "COS_TLR":
        R = [-V[0], -V[1], V[2]]
        return [dot(L, R)]
    if p == "COS_TH_TD":
        return [H[2], dot(H, V)]
    if p == "RUSIN_TH_TD":
        return [el(H), ang(H, V)]
    if p == "RUSIN_TH_TD_PD":
        return [el(H), ang(H, V), azi(diffvec(V, L))]
    if p == "RUSIN_TH_PH_TD_PD":
        return [el(H), azi(H), ang(H, V), azi(diffvec(V, L))]
    if p == "RUSIN_VH":
        return H
    if p == "SCHLICK_VK":
        n = norm(K)
        return [-K[0] / n, -K[1] / n, K[2] / n]
    if p == "SPHERICAL_TL_PL_TV_PV":
        return [el(L), azi(L), el(V), azi(V)]
    if p == "ISOTROPIC_TV_TL_DPHI":
        return [el(V), el(L), azi(L) - azi(V)]
    if p == "ISOTROPIC_TV_PROJ_DPHI":
        d = azi(V) - azi(L)
        return [el(V) * math.cos(d), el(V) * math.sin(d)]
    if p == "ISOTROPIC_TL_TV_PROJ_DPHI":
        d = azi(V) - azi(L)
        return [el(L), el(V) * math.cos(d), el(V) * math.sin(d)]
    if p == "SCHLICK_TL_TK_PROJ_DPHI":
        d = azi(K) - azi(L)
        t = el(K)
        return [el(L), t * math.cos(d), t * math.sin(d)]
    if p == "RETRO_TL_TVL_PROJ_DPHI":
        t = ang(V, L)
        # position of V around L, measured from the direction of the normal
        l = rotz(L, -azi(L))
        v = rotz(V, -azi(L))
        T = [-l[2], 0.0, l[0]]
        a = math.atan2(v[1], dot(v, T))
        return [el(L), t * math.cos(a), t * math.sin(a)]
    if p in ("STARK_2D", "STARK_3D"):
        r = [math.hypot(Hu[0], Hu[1]), norm(Bu)]
        return r + ([azi(Bu) - azi(Hu)] if p[-2] == "3" else [])
    if p in ("NEUMANN_2D", "NEUMANN_3D"):
        r = [math.hypot(Hu[0], Hu[1]), math.hypot(Bu[0], Bu[1])]
        return r + ([azi(Bu) - azi(Hu)] if p[-2] == "3" else [])
    if p == "STEREOGRAPHIC":
        return [V[0] / (1 + V[2]), V[1] / (1 + V[2]), L[0] / (1 + L[2]), L[1] / (1 + L[2])]
    raise KeyError(p)


# angle-valued coordinates (compared modulo 2 pi)
ANGLES = dict(RUSIN_TH_TD_PD=[2], RUSIN_TH_PH_TD_PD=[1, 3], SPHERICAL_TL_PL_TV_PV=[1, 3],
              ISOTROPIC_TV_TL_DPHI=[2], STARK_3D=[2], NEUMANN_3D=[2])


def wrap(a):
    return math.remainder(a, 2 * math.pi)


def rand_dir(r, tmax=math.pi / 2):
    k = r.random()
    if k < 0.5:                                   # uniform in solid angle
        z = 1 - r.random() * (1 - math.cos(tmax))
        t = math.acos(z)
    elif k < 0.8:
        t = r.random() * tmax
    elif k < 0.9:
        t = tmax * (1 - 10 ** r.uniform(-6, -1))   # near grazing
    else:
        t = tmax * 10 ** r.uniform(-6, -1)         # near normal
    return sph(t, r.uniform(-math.pi, math.pi))


def pairs(r, n, tmax=math.pi / 2):
    """(kind, V, L) of the upper hemisphere: generic ones and the singular configurations."""
    N = [0.0, 0.0, 1.0]
    X, Y = [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]
    out = []
    fixed = [("normal-normal", N, N), ("normal-x", N, X), ("x-normal", X, N), ("grazing-retro", X, X),
             ("grazing-orth", X, Y), ("normal-45", N, unit([1.0, 0, 1.0])), ("45-normal", unit([1.0, 0, 1.0]), N),
             ("45-45", unit([1.0, 0, 1.0]), unit([1.0, 0, 1.0])), ("45-mirror", unit([1.0, 0, 1.0]), unit([-1.0, 0, 1.0]))]
    out += [f for f in fixed]
    for i in range(n):
        k = i % 10
        V = rand_dir(r, tmax)
        if k < 5:
            out.append(("generic", V, rand_dir(r, tmax)))
        elif k == 5:
            out.append(("retro", V, list(V)))
        elif k == 6:
            out.append(("mirror", V, [-V[0], -V[1], V[2]]))
        elif k == 7:
            a, b = r.random() * tmax, r.random() * tmax
            p = r.choice([0.0, math.pi / 2, math.pi, -math.pi / 2, r.uniform(-3, 3)])
            out.append(("inplane", sph(a, p), sph(b, p + r.choice([0.0, math.pi]))))
        elif k == 8:
            e = 10 ** r.uniform(-9, -2)
            L = unit([V[0] + e * r.uniform(-1, 1), V[1] + e * r.uniform(-1, 1), abs(V[2] + e * r.uniform(-1, 1))])
            out.append(("near-retro", V, L))
        else:
            out.append(("one-normal", V, N) if r.random() < 0.5 else ("one-normal", N, V))
    return out


def weights(p, V, L):
    """How much each coordinate matters (azimuths are undefined at the poles)."""
    H = half(V, L)
    a = lambda v: math.hypot(v[0], v[1])
    d = a(diffvec(V, L))
    if p == "RUSIN_TH_TD_PD":
        # at the pole of H the azimuth origin is undefined too
        return [1, 1, d if a(H) > 1e-5 else 0]
    if p == "RUSIN_TH_PH_TD_PD":
        return [1, a(H), 1, d if a(H) > 1e-5 else 0]
    if p == "SPHERICAL_TL_PL_TV_PV":
        return [1, a(L), 1, a(V)]
    if p == "ISOTROPIC_TV_TL_DPHI":
        return [1, 1, min(a(V), a(L))]
    if p in ("ISOTROPIC_TV_PROJ_DPHI",):
        return [1, 1] if a(L) > 1e-5 else [0, 0]
    if p in ("ISOTROPIC_TL_TV_PROJ_DPHI",):
        return [1, 1, 1] if a(L) > 1e-5 else [1, 0, 0]
    if p in ("SCHLICK_TL_TK_PROJ_DPHI",):
        return [1, 1, 1] if a(L) > 1e-5 else [1, 0, 0]
    if p in ("RETRO_TL_TVL_PROJ_DPHI",):
        return [1, 1, 1] if a(L) > 1e-4 and ang(V, L) < math.pi - 1e-3 else [1, 0, 0]
    if p in ("STARK_3D", "NEUMANN_3D"):
        h = math.hypot(V[0] + L[0], V[1] + L[1])
        b = math.hypot(V[0] - L[0], V[1] - L[1])
        return [1, 1, min(h, b)]
    return [1] * DIM[p]
