"""ODQD: eigenfunctions of the three-point Hamiltonian on the grid."""

import numpy as np
import scipy.linalg

import quantum_systems as qs
from quantum_systems.quantum_dots.one_dim import one_dim_potentials as pots
from qsmon import gen
from qsmon.checks.common import draw, seeds

POTS = gen.POTENTIALS + ("wall", "default", "lambda", "flat")


def cases(rng, tier):
    n = 660 if tier == "quick" else 8000
    for c in seeds(rng, n):
        c["pot"] = POTS[draw(c, len(POTS), "pot")]
        yield c


def formula(rs, kind):
    """The potential object to pass and, independently, its formula."""
    if kind == "default":
        return None, lambda x: 0.5 * 0.25 ** 2 * x ** 2
    if kind == "lambda":
        k, d = rs.uniform(0, 2), rs.uniform(-1, 1)
        f = lambda x: k * np.abs(x - d) + 0.2 * np.cos(3 * x)
        return f, f
    if kind == "flat":
        f = lambda x: np.zeros_like(x)
        return f, f
    if kind == "wall":
        w, c, d, xw = rs.uniform(1, 5), rs.uniform(-1, 1), rs.uniform(0.5, 2), rs.uniform(2, 4)
        p = pots.GaussianPotentialHardWall(w, c, d, xw)
        return p, lambda x: -w * np.exp(-((x - c) ** 2) / (2 * d * d)) + 1e5 * (np.abs(x) > xw)
    _, p = gen.potential(rs, kind)
    return p, p


def run_case(case, mon, rs):
    pot, V = formula(rs, case["pot"])
    small = draw(case, 6, "small") == 5
    npts = int(rs.randint(3, 12)) if small else int(rs.randint(20, 140))
    L = gen.wide(rs, (float(rs.uniform(0.5, 12)), int(rs.randint(1, 12)))[rs.randint(2)], -2, 3, 10)
    big = draw(case, 15, "big") == 14
    if big:
        npts = int(rs.randint(140, 700))
    lmax = npts - 2
    l = int(rs.randint(1, 26)) if big else (1, lmax if lmax <= 12 else 7, int(rs.randint(1, min(lmax, 9) + 1)))[rs.randint(3)]
    kw = {} if pot is None and rs.randint(2) else {"potential": pot}
    mon.feature("potential:" + case["pot"], "all-states" if l == lmax else "lowest", *(["large"] if big else []))
    b = mon.call("odqd", qs.ODQD, l, L, npts, a=rs.uniform(0.1, 1), alpha=rs.uniform(0.2, 2), **kw)
    x = np.linspace(-L, L, npts)
    dx = 2 * L / (npts - 1)
    mon.close("grid", b.grid, x, 1e-13, "grid", L)
    v = V(x[1:-1])
    E = scipy.linalg.eigh_tridiagonal(
        1 / dx ** 2 + v, -0.5 / dx ** 2 * np.ones(npts - 3), eigvals_only=True
    )
    norm = float(np.max(np.abs(v)) + 2 / dx ** 2)
    mon.equal("sizes", (b.l, b.h.shape, b.spf.shape), (l, (l, l), (l, npts)), "sizes")
    mon.close("energies", np.real(np.diag(b.h)), E[:l], 1e-11, "l lowest, ascending", norm)
    mon.close("h-diagonal", b.h, np.diag(np.diag(b.h).real), 1e-13, "one-body Hamiltonian is diagonal and real")
    mon.close("attribute", b.eigen_energies, E[:l], 1e-11, "eigen_energies", norm)
    mon.true("ascending", np.all(np.diff(np.diag(b.h).real) >= -1e-11 * norm), "ascending energies")
    mon.close("overlap", b.s, np.eye(l), 1e-13, "overlap")
    f = b.spf
    mon.close("ends", f[:, [0, -1]], np.zeros((l, 2)), 1e-13, "functions vanish at both ends")
    fs = 1 / np.sqrt(dx)
    Hf = -0.5 * (f[:, 2:] - 2 * f[:, 1:-1] + f[:, :-2]) / dx ** 2 + v * f[:, 1:-1]
    mon.close("eigenvalue-equation", Hf, np.diag(b.h)[:, None] * f[:, 1:-1], 1e-11, "H f = E f", norm * fs)
    mon.close("orthonormal", dx * f.conj() @ f.T, np.eye(l), 1e-11, "under the grid quadrature")
    w = np.full(npts, dx)
    w[[0, -1]] /= 2
    mon.close("orthonormal", (f.conj() * w) @ f.T, np.eye(l), 1e-11, "under the trapezoidal rule")
    mon.close("bra", b.bra_spf, f.conj(), 1e-14, "bra functions")
    mon.equal("flags", (b.includes_spin, b.anti_symmetrized_u, b.dim), (False, False, 1), "flags")
    # the potential is taken seriously: matrix of H in the basis
    Hm = dx * f[:, 1:-1].conj() @ Hf.T
    mon.close("matrix", Hm, b.h, 1e-10, "matrix of H in the functions", norm)
