"""1D two-body and laser elements are trapezoidal integrals."""

import numpy as np

import quantum_systems as qs
from quantum_systems.quantum_dots.one_dim.one_dim_qd import ODHO
from qsmon import gen
from qsmon.checks.common import draw, seeds


def cases(rng, tier):
    n = 600 if tier == "quick" else 8000
    for c in seeds(rng, n):
        c["kind"] = ("odqd", "odho")[draw(c, 2, "kind")]
        yield c


def weights(npts, dx):
    w = np.full(npts, dx)
    w[[0, -1]] *= 0.5
    return w


def interaction(f, x, alpha, a):
    """Double trapezoidal integral, all elements at once."""
    dx = x[1] - x[0]
    w = weights(len(x), dx)
    K = alpha / np.sqrt((x[:, None] - x[None, :]) ** 2 + a * a)
    P = np.einsum("pi,ri,i->pri", f.conj(), f, w)
    return np.einsum("pri,ij,qsj->pqrs", P, K, P, optimize=True)


def run_case(case, mon, rs):
    l = int(rs.randint(1, 7))
    npts = int(rs.randint(max(l + 2, 8), 70))
    if draw(case, 10, "branch1") < 2:
        npts = int(rs.randint(l + 2, 12))
    big = draw(case, 25, "big") >= 23
    if big:
        l, npts = (int(rs.randint(1, 4)), int(rs.randint(300, 1100))) if rs.randint(2) else (int(rs.randint(7, 21)), int(rs.randint(25, 120)))
        mon.feature("large")
    L = float(rs.uniform(0.5, 9)) if rs.randint(6) else gen.wide(rs, float(rs.uniform(9, 60)), -2, 3, 2)
    a = gen.wide(rs, float(rs.uniform(0.02, 3)) * (1 if rs.randint(5) else -1))
    alpha = gen.wide(rs, (float(rs.uniform(0.1, 3)), float(rs.uniform(-2, 0)), 0.0, 1, 2)[rs.randint(5)])
    beta = gen.wide(rs, (0, float(rs.uniform(-2, 2)))[rs.randint(2)], every=10)
    opts = {"a": a, "alpha": alpha, "beta": beta}
    default = [k for k in opts if rs.randint(5) == 0]
    kw = {k: v for k, v in opts.items() if k not in default}
    a, alpha, beta = (kw.get("a", 0.25), kw.get("alpha", 1.0), kw.get("beta", 0))
    mon.feature("basis:" + case["kind"], *("default-" + k for k in default))
    if case["kind"] == "odqd":
        name, pot = gen.potential(rs)
        b = mon.call("odqd", qs.ODQD, l, L, npts, potential=pot, **kw)
        mon.feature("potential:" + name)
    else:
        b = mon.call("odho", ODHO, l, L, npts, omega=float(rs.uniform(0.2, 3)), **kw)
    x, f = b.grid, b.spf
    mon.close("grid", x, np.linspace(-L, L, npts), 1e-12, "grid", L)
    U = interaction(f, x, alpha, a)
    sc = max(1e-12, float(np.max(np.abs(U))))
    mon.close("interaction", b.u, U, 1e-11, "u", sc)
    # one element through a plain double loop, from first principles
    p, q, r, s = rs.randint(0, l, size=4)
    w = weights(npts, x[1] - x[0])
    e = 0
    for i in range(npts if not big else 0):
        for j in range(npts):
            e += (w[i] * w[j] * np.conj(f[p, i]) * np.conj(f[q, j])
                  * alpha / np.sqrt((x[i] - x[j]) ** 2 + a * a) * f[r, i] * f[s, j])
    if not big:
        mon.close("interaction-element", b.u[p, q, r, s], e, 1e-10, f"u[{p},{q},{r},{s}]", sc)
    if case["kind"] == "odqd":
        D = np.einsum("pi,i,qi->pq", f.conj(), w * (x + beta * x ** 2), f)
        mon.equal("dipole-shape", b.dipole_moment.shape, (1, l, l), "shape")
        mon.close("dipole", b.dipole_moment[0], D, 1e-11, "x + beta x^2", max(1.0, L + abs(beta) * L * L))
        mon.feature("beta" if beta else "no-beta")
