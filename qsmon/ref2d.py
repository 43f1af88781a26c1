"""Independent references for the two-dimensional oscillator: labels by brute
force, closed-form Coulomb elements, orbitals and quadratures."""

import numpy as np
from scipy.special import eval_genlaguerre, gammaln, roots_genlaguerre


def labels(l):
    """(n, m) of the first l orbitals: by shell, then by m."""
    out = []
    shell = 1
    while len(out) < l:
        for m in range(-(shell - 1), shell, 2):
            out.append(((shell - 1 - abs(m)) // 2, m))
        shell += 1
    return out[:l]


def orbital(n, m, mass, omega, r, theta):
    a2 = mass * omega
    t = a2 * r * r
    norm = np.exp(0.5 * (np.log(a2) + gammaln(n + 1) - gammaln(n + abs(m) + 1) - np.log(np.pi)))
    return (
        norm * np.exp(-t / 2) * t ** (abs(m) / 2)
        * eval_genlaguerre(n, abs(m), t) * np.exp(1j * m * theta)
    )


def _radial(nm_p, nm_q, mass, omega, alpha):
    """int r dr  r R_p R_q  with the normalization of the orbitals, exact by
    Gauss-Laguerre in t = mass omega r^2; alpha is the fractional part of the
    power of t."""
    (n_p, m_p), (n_q, m_q) = nm_p, nm_q
    power = 0.5 * (abs(m_p) + abs(m_q) + 1)
    k = n_p + n_q + int(power) + 2
    t, w = roots_genlaguerre(k, alpha)
    f = t ** (power - alpha) * eval_genlaguerre(n_p, abs(m_p), t) * eval_genlaguerre(n_q, abs(m_q), t)
    norm = np.exp(
        0.5 * (gammaln(n_p + 1) - gammaln(n_p + abs(m_p) + 1)
               + gammaln(n_q + 1) - gammaln(n_q + abs(m_q) + 1))
    ) / np.pi
    return norm * np.dot(w, f) / (2 * np.sqrt(mass * omega))


def dipole(nm, mass, omega):
    l = len(nm)
    d = np.zeros((2, l, l), dtype=complex)
    for p in range(l):
        for q in range(l):
            k = nm[q][1] - nm[p][1]
            if abs(k) != 1:
                continue
            R = _radial(nm[p], nm[q], mass, omega, 0.0)
            # int cos(t) e^{ikt} = pi,   int sin(t) e^{ikt} = i k pi
            d[0, p, q] = np.pi * R
            d[1, p, q] = 1j * k * np.pi * R
    return d


def abs_xy(nm, mass, omega, axis):
    """Matrix of |x| (axis 0) or |y| (axis 1)."""
    l = len(nm)
    x, w = np.polynomial.legendre.leggauss(60)
    th = np.concatenate([np.pi / 4 * (x + 1) + j * np.pi / 2 for j in range(4)])
    wt = np.concatenate([np.pi / 4 * w] * 4)
    f = np.abs(np.cos(th) if axis == 0 else np.sin(th))
    out = np.zeros((l, l), dtype=complex)
    for p in range(l):
        for q in range(l):
            k = nm[q][1] - nm[p][1]
            ang = np.dot(wt, f * np.exp(1j * k * th))
            alpha = 0.5 if (nm[p][1] + nm[q][1]) % 2 == 0 else 0.0
            out[p, q] = ang * _radial(nm[p], nm[q], mass, omega, alpha)
    return out


def _ladder(n, m):
    return n + (abs(m) + m) // 2, n + (abs(m) - m) // 2


def _displacement(N, x):
    """<M| exp(i x (a + a^dag)) |N> without the phase i^|M-N|."""
    D = np.zeros((N, N, len(x)))
    x2 = x * x
    for M in range(N):
        for K in range(M + 1):
            v = (
                np.exp(0.5 * (gammaln(K + 1) - gammaln(M + 1)) - x2 / 2)
                * x ** (M - K) * eval_genlaguerre(K, M - K, x2)
            )
            D[M, K] = D[K, M] = v
    return D


def coulomb(nm, K=80):
    """Exact <pq|1/r12|rs> for unit mass and frequency: 1/r12 in Fourier space,
    the plane waves factorize into displacement operators of the two circular
    ladder modes, and the remaining radial integral over q is a Gaussian times
    a polynomial (Gauss-Hermite, exact)."""
    t, w = np.polynomial.hermite.hermgauss(K)
    sel = t > 0
    t, w = t[sel], w[sel]
    q = np.sqrt(2) * t
    wq = np.sqrt(2) * w * np.exp(t * t)
    lad = [_ladder(n, m) for n, m in nm]
    D = _displacement(max(max(a) for a in lad) + 1, q / 2)
    l = len(nm)
    F = np.zeros((l, l, len(q)))
    ph = np.zeros((l, l), dtype=int)
    for p in range(l):
        for r in range(l):
            (a, b), (c, d) = lad[p], lad[r]
            F[p, r] = D[a, c] * D[b, d]
            ph[p, r] = abs(a - c) + abs(b - d)
    n = np.array([x[0] for x in nm])
    m = np.array([x[1] for x in nm])
    A = F * (1j ** ph)[:, :, None]
    B = F * ((-1j) ** ph)[:, :, None]
    u = np.einsum("prk,qsk,k->pqrs", A, B, wq, optimize=True)
    s = (-1.0) ** n
    keep = (m[:, None, None, None] + m[None, :, None, None]) == (
        m[None, None, :, None] + m[None, None, None, :]
    )
    return np.where(keep, u, 0).real * np.einsum("p,q,r,s->pqrs", s, s, s, s)


def shell(nm):
    return max(2 * n + abs(m) + 1 for n, m in nm)


def element_tol(nm, base=1e-12):
    """The code's alternating sums lose digits with the labels.  Measured for
    elements of four equal labels: 1e-10 (3, 0), 2e-8 (3, 2), 3e-8 (4, 0),
    1e-6 (4, 1), 3e-5 (5, 0), 9e-5 (4, 3), 2e-10 (0, 12), 4e-6 (0, 20)."""
    return base * 10.0 ** (0.33 * max(0, sum(2 * n + 0.6 * abs(m) for n, m in nm) - 12))


def coulomb_tol(nm):
    """The same for all elements of these orbitals (measured 1e-15 in three
    shells, 4e-14 in five, 7e-12 in six, 3e-9 in eight)."""
    return max(element_tol([x] * 4, 1e-11) for x in nm)
