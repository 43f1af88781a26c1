"""Coulomb elements of the two-dimensional oscillator."""

import numpy as np
from scipy.interpolate import make_interp_spline
from scipy.special import jv

import quantum_systems as qs
from quantum_systems.quantum_dots.two_dim import two_dim_helper as h2
from quantum_systems.quantum_dots.two_dim.coulomb_elements import coulomb_ho
from qsmon import ref2d
from qsmon.checks.common import seeds


def cases(rng, tier):
    big = 21 if tier == "quick" else 28
    for l in range(1, big + 1):
        yield dict(kind="tensor", l=l, seed=rng.randrange(2**31))
    yield from seeds(rng, 48 if tier == "quick" else 500, kind="labels")
    for l in ((3, 6, 8) if tier == "quick" else (3, 4, 6, 8, 10, 12)):
        yield dict(kind="own-functions", l=l, seed=rng.randrange(2**31))


def symmetries(mon, u, tol):
    mon.close("exchange", u.transpose(1, 0, 3, 2), u, tol, "particle exchange")
    mon.close("bra-ket", u.transpose(2, 3, 0, 1), u, tol, "bra-ket exchange")


def run_case(case, mon, rs):
    mon.feature("kind:" + case["kind"])
    if case["kind"] == "tensor":
        l = case["l"]
        nm = ref2d.labels(l)
        tol = ref2d.coulomb_tol(nm)
        u = mon.call("get_coulomb_elements", h2.get_coulomb_elements, l)
        mon.close("exact", u, ref2d.coulomb(nm), tol, "exact integrals")
        symmetries(mon, u, tol)
        m = np.array([x[1] for x in nm])
        out = (m[:, None, None, None] + m[None, :, None, None]) != (
            m[None, None, :, None] + m[None, None, None, :]
        )
        mon.true("angular-momentum", np.all(u[out] == 0), "conserved angular momentum")
        flip = [nm.index((n, -k)) if (n, -k) in nm else None for n, k in nm]
        keep = [p for p in range(l) if flip[p] is not None]
        f = [flip[p] for p in keep]
        mon.close("mirror", u[np.ix_(f, f, f, f)], u[np.ix_(keep, keep, keep, keep)], tol,
                  "sign of all m flipped")
        mat = u.reshape(l * l, l * l)
        mon.true("positive", np.linalg.eigvalsh(0.5 * (mat + mat.T))[0] > -1e-8 - tol * l * l,
                 "positive semidefinite")
    elif case["kind"] == "labels":
        # a handful of orbitals of arbitrary labels, also far up
        while True:
            k = int(rs.randint(2, 5))
            nm = [(int(rs.randint(0, 5)), int(rs.randint(-5, 6))) for _ in range(k)]
            if ref2d.shell(nm) <= 8:
                break
        tol = ref2d.coulomb_tol(nm)
        how = rs.randint(3)
        if how == 0:
            nm = [(0, int(m)) for m in rs.randint(-12, 13, size=k)]
            tol = 1e-6
        elif how == 1:
            # far up, where only the elements which lose few digits are judged
            nm = [(int(rs.randint(0, 7)), int(rs.randint(-3, 4))) for _ in range(k)]
            tol = None
            mon.feature("far-up")
        want = ref2d.coulomb(nm, 100)
        for _ in range(12):
            p, q, r, s = (int(x) for x in rs.randint(0, k, size=4))
            args = [*nm[p], *nm[q], *nm[r], *nm[s]]
            if rs.randint(3) == 0:
                # diagonal in angular momentum: direct and exchange
                args = [*nm[p], *nm[q], *nm[q], *nm[p]] if rs.randint(2) else [*nm[p], *nm[q], *nm[p], *nm[q]]
                r, s = (q, p) if args[4:6] == [*nm[q]] and args[6:] == [*nm[p]] else (p, q)
            if rs.randint(2):
                args = [np.int64(x) for x in args]
            few = ref2d.element_tol([nm[i] for i in (p, q, r, s)])
            if tol is None and few > 0.02:
                continue
            got = mon.call("coulomb_ho", coulomb_ho, *args)
            mon.close("element", float(got), want[p, q, r, s], tol or few,
                      f"<{nm[p]} {nm[q]}|{nm[r]} {nm[s]}>", 1.0)
            if want[p, q, r, s]:
                mon.feature("non-zero")
    else:
        own_functions(case["l"], mon)


def own_functions(l, mon):
    """The integral over the basis set's own functions, numerically: 1/r12 in
    Fourier-Bessel space, radial functions off the basis set's grid."""
    npts, R = 301, 9.0
    b = mon.call("tdho", qs.TwoDimensionalHarmonicOscillator, l, R, npts)
    f = np.asarray(b.spf)
    r0 = np.linspace(0, R, npts)
    # angular part: f(r, t) = f(r, 0) e^{imt}; read m off the grid, independently
    th = np.linspace(0, 2 * np.pi, npts)
    m = np.zeros(l, dtype=int)
    rad = np.zeros((l, npts))
    for p in range(l):
        best = None
        for k in range(-12, 13):
            c = np.einsum("t,tr->r", np.exp(-1j * k * th[:-1]), f[p][:-1]) / (npts - 1)
            w = float(np.sum(np.abs(c) ** 2))
            if best is None or w > best[0]:
                best = (w, k, c)
        m[p] = best[1]
        rad[p] = best[2].real
        mon.true("pure-m", np.max(np.abs(best[2].imag)) < 1e-10, "real radial function")
        mon.close("separable", f[p], rad[p][None, :] * np.exp(1j * m[p] * th)[:, None], 1e-10, "radial times e^{im theta}")
    x, w = np.polynomial.legendre.leggauss(240)
    r = 0.5 * R * (x + 1)
    wr = 0.5 * R * w * r
    g = make_interp_spline(r0, rad, k=7, axis=1)(r)
    x, w = np.polynomial.legendre.leggauss(100)
    Q = 14.0
    q = 0.5 * Q * (x + 1)
    wq = 0.5 * Q * w
    G = np.zeros((l, l, len(q)))
    K = m[None, :] - m[:, None]
    for k in np.unique(K):
        J = jv(k, np.outer(q, r))
        for p, s in np.argwhere(K == k):
            G[p, s] = 2 * np.pi * (J * (g[p] * g[s] * wr)[None]).sum(axis=1)
    u = np.einsum("prk,qsk,k->pqrs", G, G, wq, optimize=True)
    # int d^2q over the directions leaves e^{i(k1+k2) phi}, and i^k1 (-i)^k2
    # with k2 = -k1 and J_{-k} = (-1)^k J_k
    k1 = K[:, None, :, None]
    k2 = K[None, :, None, :]
    u = np.where(k1 + k2 == 0, u * (-1.0) ** np.abs(k1), 0)
    mon.close("own-functions", np.asarray(b.u), u * np.ones((l,) * 4), 1e-9, "integral over the functions on the grid")
    mon.trace = mon.trace[:6]
