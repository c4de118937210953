"""Polynomial bases of the rational functions, computed on their own."""
import math


def poly1(plugin, u, d):
    """(value, sum of the magnitudes added up) of the one-dimensional basis polynomial."""
    if plugin == "rational_function":
        return u ** d, abs(u) ** d
    if d == 0:
        return 1.0, 1.0
    a, b = (1.0, 1.0), (u, abs(u))
    for i in range(1, d):
        if plugin.endswith("chebychev"):
            n = (2 * u * b[0] - a[0], 2 * abs(u) * b[1] + a[1])
        else:
            n = (((2 * i + 1) * u * b[0] - i * a[0]) / (i + 1), ((2 * i + 1) * abs(u) * b[1] + i * a[1]) / (i + 1))
        a, b = b, n
    if plugin.endswith("chebychev") and abs(u) <= 1:
        return math.cos(d * math.acos(u)), 1.0 + d
    return b[0], b[1] if abs(u) > 1 else min(b[1], 60.0 * d)


def cosines(pin, x):
    """cos(theta_v) cos(theta_l) of a point of a parametrization."""
    if pin == "CARTESIAN":
        return x[2] * x[5]
    if pin == "SPHERICAL_TL_PL_TV_PV":
        return math.cos(x[0]) * math.cos(x[2])
    if pin == "ISOTROPIC_TV_TL_DPHI":
        return math.cos(x[0]) * math.cos(x[1])
    if pin in ("RUSIN_TH_PH_TD_PD", "RUSIN_TH_TD_PD"):
        th, td, pd = (x[0], x[2], x[3]) if len(x) == 4 else x
        a = math.cos(td) * math.cos(th)
        b = math.sin(td) * math.cos(pd) * math.sin(th)
        return (a - b) * (a + b)
    if pin == "UNKNOWN_INPUT":
        return 1.0
    return None


def widen(plugin, lo, hi):
    w = .1 if plugin == "rational_function" else 1.0
    return [a - w if a == b else a for a, b in zip(lo, hi)], [b + w if a == b else b for a, b in zip(lo, hi)]


def basis(plugin, pin, dom, x, degs):
    """The basis polynomials of multi-degrees DEGS at X: (numerator, denominator) values."""
    u = [2.0 * ((a - l) / (h - l) - 0.5) for a, l, h in zip(x, *dom)]
    q = []
    for d in degs:
        t = 1.0
        for k in range(len(x)):
            t *= poly1(plugin, u[k], d[k])[0]
        q.append(t)
    w = cosines(pin, x) if plugin.endswith("cosine") else 1.0
    return [w * t for t in q], q
