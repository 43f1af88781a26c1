"""Sinc-DVR elements."""

import numpy as np

import quantum_systems as qs
from qsmon import gen, ref
from qsmon.checks import c13
from qsmon.checks.common import draw, seeds

POTS = gen.POTENTIALS + ("wall", "default", "lambda", "flat")


def cases(rng, tier):
    n = 800 if tier == "quick" else 10000
    for c in seeds(rng, n):
        c["pot"] = POTS[draw(c, len(POTS), "pot")]
        c["repr"] = ("2d", "4d", None)[draw(c, 3, "repr")]
        yield c
    for i in range(6 if tier == "quick" else 60):
        yield {"i": i, "seed": rng.randrange(2**31), "pot": "spectrum", "repr": "2d"}


def spectrum(case, mon, rs):
    w = float(rs.uniform(0.3, 1.5))
    l = int(rs.randint(81, 121))
    L = 10 / np.sqrt(w)
    b = mon.call("dvr", qs.ODSincDVR, l, L, potential=qs.ODSincDVR.HOPotential(w), u_repr="2d")
    e = np.linalg.eigvalsh(b.h)
    mon.close("spectrum", e[:12], w * (np.arange(12) + 0.5), 1e-8, "oscillator spectrum")
    # Poeschl-Teller: -n(n+1)/2 sech^2 has the bound states -k^2/2
    n = int(rs.randint(1, 4))
    p = lambda x: -0.5 * n * (n + 1) / np.cosh(x) ** 2
    b = mon.call("dvr", qs.ODSincDVR, 161, 20.0, potential=p, u_repr="2d")
    e = np.linalg.eigvalsh(b.h)
    mon.close("spectrum", e[:n], [-0.5 * (n - k) ** 2 for k in range(n)], 1e-6, "Poeschl-Teller spectrum")
    mon.feature("spectrum")


def run_case(case, mon, rs):
    if case["pot"] == "spectrum":
        return spectrum(case, mon, rs)
    pot, V = c13.formula(rs, case["pot"])
    l = int(rs.randint(2, 9)) if case["repr"] == "4d" or draw(case, 4, "l") else int(rs.randint(9, 40))
    if draw(case, 40, "branch1") == 39:
        l = int(rs.randint(40, 150)) if case["repr"] != "4d" else int(rs.randint(9, 22))
        if case["repr"] != "4d" and rs.randint(3) == 0:
            l = int(rs.randint(150, 450))
        mon.feature("large")
    L = (float(rs.uniform(0.5, 12)), int(rs.randint(1, 12)), float(rs.uniform(12, 80)))[rs.randint(3)]
    L = gen.wide(rs, L, -2, 3, 10)
    opts = {"a": gen.wide(rs, float(rs.uniform(0.05, 2)) * (1 if rs.randint(6) else -1)),
            "alpha": gen.wide(rs, float(rs.uniform(-1, 3))), "beta": gen.wide(rs, float(rs.uniform(-1, 1)), every=10)}
    kw = {k: v for k, v in opts.items() if rs.randint(4)}
    if not (pot is None and rs.randint(2)):
        kw["potential"] = pot
    if case["repr"]:
        kw["u_repr"] = case["repr"]
    b = mon.call("dvr", qs.ODSincDVR, l, L, **kw)
    a, alpha, beta = kw.get("a", 0.25), kw.get("alpha", 1.0), kw.get("beta", 0)
    mon.feature("potential:" + case["pot"], "repr:" + str(case["repr"]))
    x = np.linspace(-L, L, l)
    dx = 2 * L / (l - 1)
    mon.close("grid", b.grid, x, 1e-12, "grid", L)
    v = V(x)
    H = np.diag(np.pi ** 2 / (6 * dx ** 2) + v).astype(float)
    for k in range(1, l):
        t = (1.0 - 2 * (k % 2)) / (dx * k) ** 2 * np.ones(l - k)
        H += np.diag(t, k) + np.diag(t, -k)
    mon.close("h", b.h, H, 1e-12, "kinetic plus potential", max(1.0, float(np.max(np.abs(H)))))
    mon.close("overlap", b.s, np.eye(l), 1e-13, "overlap")
    mon.close("dipole", b.dipole_moment, np.diag(x + beta * x ** 2)[None], 1e-12, "x + beta x^2", max(1.0, L + abs(beta) * L * L))
    mon.close("functions", b.spf, np.eye(l) / np.sqrt(dx), 1e-12, "1/sqrt(dx) at the own point", 1 / np.sqrt(dx))
    U = alpha / np.sqrt((x[:, None] - x[None, :]) ** 2 + a * a)
    mon.equal("storage", b.u.ndim, 4 if case["repr"] == "4d" else 2, "number of indices")
    mon.equal("storage", b.u_repr, "4d" if case["repr"] == "4d" else "2d", "u_repr")
    sc = max(1e-12, float(np.max(np.abs(U))))
    if b.u.ndim == 2:
        mon.close("interaction", b.u, U, 1e-12, "2d", sc)
    else:
        want = np.zeros((l,) * 4)
        for p in range(l):
            for q in range(l):
                want[p, q, p, q] = U[p, q]
        mon.close("interaction", b.u, want, 1e-12, "4d", sc)
    for k in ("h", "s", "u", "spf", "dipole_moment"):
        mon.equal("complex", getattr(b, k).dtype, np.dtype(np.complex128), k)
    mon.equal("flags", (b.includes_spin, b.anti_symmetrized_u, b.dim, b.l), (False, False, 1, l), "flags")
    mon.close("bra", b.bra_spf, b.spf.conj(), 1e-14, "bra")
