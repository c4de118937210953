"""Comparing values with closed forms: how much the closed form moves under rounding decides the tolerance."""
import math
import dirs


def jiggle(r, V, L, e):
    """The pair after disturbing every component by about E."""
    def one(v):
        w = [x + e * r.choice([-1, 1]) * r.uniform(.5, 1) for x in v]
        return dirs.unit(w)
    return one(V), one(L)


def closed(f, V, L):
    """Value of the closed form, or None where it has none."""
    try:
        y = f(V, L)
    except (ZeroDivisionError, ValueError, OverflowError):
        return None
    if any(isinstance(v, complex) or not math.isfinite(v) for v in y):
        return None
    return y


def band(r, f, V, L, e=1e-13, n=6):
    """(value, tolerance per channel); None when the closed form is undefined or jumps here."""
    y = closed(f, V, L)
    if y is None:
        return None
    # elevations near the normal are known to no better than the arc-cosine of a rounded number
    e += min(2e-8, 2e-16 / max(1e-9, min(math.hypot(*V[:2]), math.hypot(*L[:2]))))
    # and coordinates that project directions on the horizontal plane know as little of grazing ones
    e += min(2e-8, 4e-16 / max(1e-9, min(abs(V[2]), abs(L[2]))))
    tol = [1e-10 * abs(v) + 1e-30 for v in y]
    for _ in range(n):
        z = closed(f, *jiggle(r, V, L, e))
        if z is None:
            return None
        for i in range(len(y)):
            tol[i] = max(tol[i], 8 * abs(z[i] - y[i]))
    return y, tol
