"""Potentials and their slopes."""

import numpy as np

import quantum_systems as qs
from quantum_systems.quantum_dots.one_dim import one_dim_potentials as pots
from qsmon.checks.common import draw, seeds

KINDS = ("ho", "dw", "smooth", "sym", "asym", "gauss", "atomic", "wall")


def cases(rng, tier):
    n = 3000 if tier == "quick" else 40000
    for c in seeds(rng, n):
        c["kind"] = KINDS[draw(c, len(KINDS), "kind")]
        yield c


def make(rs, mon, kind):
    """Potential object, formula, slope, characteristic points."""
    if kind == "ho":
        w = rs.uniform(-3, 3)
        return mon.call("ho", pots.HOPotential, w), lambda x: 0.5 * w * w * x * x, lambda x: w * w * x, [0.0], {0.0: 0.0}
    if kind == "dw":
        w, l = rs.uniform(0.1, 3), rs.uniform(0.1, 8)
        if rs.randint(8) == 0:
            # a single well with a kink
            l = -l
            return (mon.call("dw", pots.DWPotential, w, l), lambda x: 0.5 * w * w * (np.abs(x) - 0.5 * l) ** 2,
                    lambda x: w * w * (np.abs(x) - 0.5 * l) * np.sign(x), [0.0], {0.0: w * w * l * l / 8})
        f = lambda x: 0.5 * w * w * (np.abs(x) - 0.5 * l) ** 2
        g = lambda x: w * w * (np.abs(x) - 0.5 * l) * np.sign(x)
        return mon.call("dw", pots.DWPotential, w, l), f, g, [l / 2, -l / 2, 0.0], {l / 2: 0.0, -l / 2: 0.0}
    if kind == "smooth":
        d = rs.randint(4) == 0
        a = 4 if d else rs.uniform(0.3, 8)
        p = mon.call("smooth", pots.DWPotentialSmooth) if d else mon.call("smooth", pots.DWPotentialSmooth, a=a)
        f = lambda x: (x * x - a * a / 4) ** 2 / (2 * a * a)
        g = lambda x: 2 * x * (x * x - a * a / 4) / (a * a)
        return p, f, g, [a / 2, -a / 2, 0.0], {a / 2: 0.0, -a / 2: 0.0}
    if kind == "sym":
        d = rs.randint(4) == 0
        a, b, c = (0.5, 1, -7) if d else rs.uniform(-3, 3, 3)
        p = mon.call("sym", pots.SymmetricDWPotential) if d else mon.call("sym", pots.SymmetricDWPotential, a, b, c)
        return (p, lambda x: a * x ** 6 + b * x ** 4 + c * x ** 2,
                lambda x: 6 * a * x ** 5 + 4 * b * x ** 3 + 2 * c * x, [0.0], {0.0: 0.0})
    if kind == "asym":
        d = rs.randint(4) == 0
        a, b, c = (1, 1, -2.5) if d else rs.uniform(-3, 3, 3)
        p = mon.call("asym", pots.AsymmetricDWPotential) if d else mon.call("asym", pots.AsymmetricDWPotential, a=a, b=b, c=c)
        return (p, lambda x: a * x ** 4 + b * x ** 3 + c * x ** 2,
                lambda x: 4 * a * x ** 3 + 3 * b * x ** 2 + 2 * c * x, [0.0], {0.0: 0.0})
    if kind in ("gauss", "wall"):
        w, c, d = rs.uniform(-4, 4), rs.uniform(-3, 3), rs.uniform(0.2, 3)
        f = lambda x: -w * np.exp(-((x - c) ** 2) / (2 * d * d))
        g = lambda x: w * (x - c) / d ** 2 * np.exp(-((x - c) ** 2) / (2 * d * d))
        if kind == "gauss" and rs.randint(3) == 0:
            # relative to each value far outside
            q = mon.call("gauss", pots.GaussianPotential, w, c, d, np)
            y = c + d * rs.uniform(4, 30, size=4) * np.array([1, -1, 1, -1])
            ones = np.ones(4)
            mon.close("tail", mon.call("evaluate", q, y) / f(y), ones, 1e-10, "value over formula")
            mon.close("tail", mon.call("derivative", q.derivative, y) / g(y), ones, 1e-10, "slope over formula")
        if kind == "gauss":
            return mon.call("gauss", pots.GaussianPotential, w, c, d, np), f, g, [c], {c: -w}
        xw = rs.uniform(0.5, 6)
        return (mon.call("wall", pots.GaussianPotentialHardWall, w, c, d, xw),
                lambda x: f(x) + 1e5 * (np.abs(x) > xw), None, [xw * 1.0001, -xw * 1.0001, xw * 0.9999, xw, -xw], {})
    d = rs.randint(4) == 0
    Z, c = (2, 0.54878464) if d else (rs.uniform(-2, 6), rs.uniform(0.05, 3))
    p = mon.call("atomic", pots.AtomicPotential) if d else mon.call("atomic", pots.AtomicPotential, Z, c)
    if not d and rs.randint(6) == 0:
        # the formula also holds outside of the pole of a negative parameter
        q = mon.call("atomic", pots.AtomicPotential, Z, -c)
        y = np.sqrt(c) * rs.uniform(1.1, 5, size=4) * np.array([1, -1, 1, -1])
        mon.close("value", mon.call("value", q, y), -Z / np.sqrt(y * y - c), 1e-12, "negative c", 10 * abs(Z) / np.sqrt(c))
        mon.close("derivative", mon.call("derivative", q.derivative, y), Z * y / (y * y - c) ** 1.5, 1e-12,
                  "negative c", 100 * abs(Z) / c)
    return (p, lambda x: -Z / np.sqrt(x * x + c), lambda x: Z * x / (x * x + c) ** 1.5, [0.0], {0.0: -Z / np.sqrt(c)})


def any_magnitude(rs, mon, kind):
    """Parameters and positions of any order of magnitude; every value relative
    to the terms it is a sum of."""
    any_ = lambda lo=-3.0, hi=3.0: float(10 ** rs.uniform(lo, hi))
    sign = lambda: 1 if rs.randint(2) else -1
    if kind == "ho":
        w = any_()
        p, f, g, x0 = pots.HOPotential(w), lambda x: [0.5 * w * w * x * x], lambda x: [w * w * x], any_()
    elif kind == "dw":
        w, l = any_(), any_()
        x0 = any_(-2, 2) * l
        p = pots.DWPotential(w, l)
        f = lambda x: [0.5 * w * w * x * x, w * w * l * l / 8, -0.5 * w * w * l * np.abs(x)]
        g = lambda x: [w * w * x, -0.5 * w * w * l * np.sign(x)]
    elif kind == "smooth":
        a = any_()
        x0 = any_(-2, 2) * a
        p = pots.DWPotentialSmooth(a=a)
        f = lambda x: [x ** 4 / (2 * a * a), -x * x / 4, a * a / 32]
        g = lambda x: [2 * x ** 3 / (a * a), -0.5 * x]
    elif kind == "sym":
        a, b, c = (sign() * any_() for _ in range(3))
        x0 = any_(-2, 2)
        p = pots.SymmetricDWPotential(a, b, c)
        f = lambda x: [a * x ** 6, b * x ** 4, c * x ** 2]
        g = lambda x: [6 * a * x ** 5, 4 * b * x ** 3, 2 * c * x]
    elif kind == "asym":
        a, b, c = (sign() * any_() for _ in range(3))
        x0 = any_(-2, 2)
        p = pots.AsymmetricDWPotential(a, b, c)
        f = lambda x: [a * x ** 4, b * x ** 3, c * x ** 2]
        g = lambda x: [4 * a * x ** 3, 3 * b * x ** 2, 2 * c * x]
    elif kind in ("gauss", "wall"):
        w, d = sign() * any_(), any_()
        c = sign() * d * float(rs.uniform(0, 3))
        x0 = d
        e = lambda x: np.exp(-((x - c) ** 2) / (2 * d * d))
        if kind == "gauss":
            p = pots.GaussianPotential(w, c, d, np)
            f, g = lambda x: [-w * e(x)], lambda x: [w * (x - c) / d ** 2 * e(x)]
        else:
            xw = d * float(rs.uniform(0.5, 6))
            p = pots.GaussianPotentialHardWall(w, c, d, xw)
            f, g = lambda x: [-w * e(x), 1e5 * (np.abs(x) > xw)], None
    else:
        Z, c = sign() * any_(), any_()
        x0 = any_(-2, 2) * np.sqrt(c)
        p = pots.AtomicPotential(Z, c)
        f, g = lambda x: [-Z / np.sqrt(x * x + c)], lambda x: [Z * x / (x * x + c) ** 1.5]
    x = x0 * rs.uniform(-2, 2, size=6)
    for what, fn, terms in (("value", p, f), ("derivative", getattr(p, "derivative", None), g)):
        if terms is None:
            continue
        t = np.array([np.broadcast_to(y, x.shape) for y in terms(x)], dtype=float)
        got = mon.call("any-magnitude", fn, x)
        # the argument of the exponential function is known to so many digits only
        mon.close("any-magnitude", (got - t.sum(axis=0)) / np.maximum(np.abs(t).sum(axis=0), 1e-300), np.zeros(len(x)), 1e-10,
                  f"{kind} {what}, error relative to the terms")
    mon.feature("any-magnitude")


def each(f, y):
    """Scale of a single value: the terms it is a sum of do not cancel."""
    return max(1e-9, abs(f(y)), abs(f(1.1 * y)), abs(f(1.7 * y)), abs(f(-1.3 * y)), 1.0 if abs(y) > 1e-3 else 1e-9)


def run_case(case, mon, rs):
    kind = case["kind"]
    mon.feature("potential:" + kind)
    if rs.randint(3) == 0:
        any_magnitude(rs, mon, kind)
    p, f, g, special, values = make(rs, mon, kind)
    wide = 10 ** rs.uniform(-3, 5) if rs.randint(3) == 0 else 6
    x = np.concatenate([rs.uniform(-wide, wide, size=int(rs.randint(1, 30))), special, [-x0 for x0 in special]])
    x0 = x.copy()
    sc = max(1.0, float(np.max(np.abs(f(x)))))
    mon.close("value", mon.call("evaluate", p, x), f(x), 1e-12, kind, sc)
    if kind != "wall":
        for y in x:
            mon.close("value-each", mon.call("evaluate", p, np.array([y]))[0], f(y), 1e-11, f"{kind} at {y}", each(f, y))
    mon.close("inputs-intact", x, x0, 0, "positions")
    for y, v in values.items():
        mon.close("landmark", mon.call("evaluate", p, np.array([y]))[0], v, 1e-12, f"{kind} at {y}", max(1.0, abs(v)))
    if kind != "wall":
        for y in list(x[:4]) + special:
            mon.close("value-scalar", mon.call("evaluate-scalar", p, float(y)), f(float(y)), 1e-12, f"{kind} at {y}", sc)
        z = rs.uniform(-4, 4, size=(3, 2))
        mon.close("value-2d", mon.call("evaluate-2d", p, z), f(z), 1e-12, kind, max(sc, each(f, 4.0)))
        k = np.arange(-3, 4)
        mon.close("value-int", mon.call("evaluate-ints", p, k), f(k.astype(float)), 1e-12, kind, max(sc, each(f, 4.0)))
        mon.close("value-reversed", mon.call("evaluate-view", p, x[::-1]), f(x)[::-1], 1e-12, kind, sc)
        i = int(rs.randint(-4, 5))
        mon.close("value-scalar", mon.call("evaluate-int", p, i), f(float(i)), 1e-12, f"{kind} at {i}",
                  max(sc, abs(f(float(i)))))
    if g is None:
        return
    want = g(x)
    sc = max(1.0, float(np.max(np.abs(want))))
    mon.close("derivative", mon.call("derivative", p.derivative, x), want, 1e-12, kind, sc)
    # and the slope of what the potential itself evaluates to
    y = x[np.abs(x) > 1e-2] if kind == "dw" else x
    if len(y):
        h = 1e-3
        num = (8 * (p(y + h) - p(y - h)) - (p(y + 2 * h) - p(y - 2 * h))) / (12 * h)
        mon.close("slope", mon.call("derivative", p.derivative, y), num, 1e-7, kind, max(sc, float(np.max(np.abs(f(y))))))
    for v in list(x[:3]) + special:
        mon.close("derivative-scalar", mon.call("derivative-scalar", p.derivative, float(v)), g(float(v)), 1e-12,
                  f"{kind} at {v}", sc)
    if kind == "dw":
        mon.close("kink", mon.call("derivative", p.derivative, np.array([0.0]))[0], 0.0, 1e-14, "slope on the kink")
    # exported on the basis classes
    for cls in (qs.ODQD, qs.ODSincDVR):
        for n in ("HOPotential", "DWPotential", "DWPotentialSmooth", "SymmetricDWPotential",
                  "AsymmetricDWPotential", "GaussianPotential", "AtomicPotential"):
            mon.true("exported", getattr(cls, n) is getattr(pots, n), n)
