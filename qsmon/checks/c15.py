"""ODHO: exact harmonic-oscillator states."""

import numpy as np

from quantum_systems.quantum_dots.one_dim.one_dim_qd import ODHO
from qsmon.checks.common import draw, seeds


def cases(rng, tier):
    n = 600 if tier == "quick" else 6000
    yield from seeds(rng, n)


def hermite_functions(l, omega, x):
    """Stable recurrence for the normalized eigenfunctions."""
    f = np.zeros((l + 1, len(x)))
    y = np.sqrt(omega) * x
    f[0] = (omega / np.pi) ** 0.25 * np.exp(-0.5 * y * y)
    if l > 0:
        f[1] = np.sqrt(2) * y * f[0]
    for n in range(2, l + 1):
        f[n] = np.sqrt(2 / n) * y * f[n - 1] - np.sqrt((n - 1) / n) * f[n - 2]
    return f[:l]


def run_case(case, mon, rs):
    l = int(rs.randint(1, 9)) if draw(case, 8, "l") else int(rs.randint(9, 17))
    huge = draw(case, 20, "huge") == 19
    if huge:
        l = int(rs.randint(17, 41))
    omega = (float(rs.uniform(0.05, 4)), 1, 2, float(10 ** rs.uniform(-3, 3)))[rs.randint(4)]
    default_omega = rs.randint(6) == 0
    if default_omega:
        omega = 0.25
    beta = (0, float(rs.uniform(-2, 2)))[rs.randint(2)]
    fine = draw(case, 2, "fine") == 0 and not huge
    if fine:
        L = (np.sqrt(2 * l + 1) + 7) / np.sqrt(omega)
        npts = int(rs.randint(150, 220)) + (60 if l > 8 else 0)
    else:
        L = float(rs.uniform(0.5, 9)) if rs.randint(2) else float(rs.uniform(0.5, 9) / np.sqrt(omega))
        npts = int(rs.randint(5, 60 if l < 30 else 30))
    kw = {"beta": beta} if beta or rs.randint(2) else {}
    if not default_omega:
        kw["omega"] = omega
    if l > 8:
        kw["alpha"] = 0.5
    b = mon.call("odho", ODHO, l, L, npts, **kw)
    mon.feature("fine" if fine else "coarse", "beta" if beta else "no-beta",
                "huge" if huge else "large" if l > 8 else "small")
    x = np.linspace(-L, L, npts)
    mon.close("grid", b.grid, x, 1e-12, "grid", L)
    mon.close("energies", b.h, np.diag(omega * (np.arange(l) + 0.5)), 1e-13, "omega (n + 1/2)")
    mon.close("overlap", b.s, np.eye(l), 1e-13, "overlap")
    F = hermite_functions(l, omega, x)
    tol = 1e-11
    mon.close("functions", b.spf, F, tol, "Hermite functions", max(1.0, omega ** 0.25))
    # beyond the turning points the functions are tiny: compare digit by digit
    Y = np.abs(np.sqrt(omega) * x)[None, :] > np.sqrt(2 * np.arange(l)[:, None] + 1) + 1
    Y &= np.abs(F) > 1e-250
    Y[21:] = False
    if Y.any():
        mon.close("tails", np.asarray(b.spf)[Y] / F[Y], np.ones(np.sum(Y)), 1e-7, "tails of the functions")
        mon.feature("tails")
    X = np.zeros((l + 3, l + 3))
    for k in range(l + 2):
        X[k, k + 1] = X[k + 1, k] = np.sqrt((k + 1) / (2 * omega))
    want = (X + beta * X @ X)[:l, :l]
    mon.close("laser", b.dipole_moment, want[None], 1e-12, "x + beta x^2", max(1e-6, float(np.max(np.abs(want)))))
    if fine:
        dx = x[1] - x[0]
        f = b.spf
        mon.close("grid-overlap", dx * f @ f.T, np.eye(l), 1e-7, "orthonormal on the grid")
        mon.close("grid-laser", dx * (f * (x + beta * x ** 2)) @ f.T, b.dipole_moment[0], 1e-7,
                  "laser elements", max(1.0, float(np.max(np.abs(want)))))
        # kinetic energy from the recurrence for the derivative
        G = hermite_functions(l + 1, omega, x)
        d = np.zeros_like(f)
        for k in range(l):
            d[k] = -np.sqrt(omega * (k + 1) / 2) * G[k + 1]
            if k:
                d[k] += np.sqrt(omega * k / 2) * G[k - 1]
        H = dx * (0.5 * d @ d.T + (f * (0.5 * omega ** 2 * x ** 2)) @ f.T)
        mon.close("grid-energy", H, b.h, 1e-7, "kinetic plus potential", max(1.0, omega * l))
    mon.close("ho_function", mon.call("ho_function", b.ho_function, x, l - 1), F[l - 1], tol,
              "ho_function", max(1.0, omega ** 0.25))
    mon.equal("flags", (b.includes_spin, b.anti_symmetrized_u, b.dim, b.l), (False, False, 1, l), "flags")
