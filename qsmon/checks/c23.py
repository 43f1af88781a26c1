"""The two-dimensional dot in a magnetic field."""

import numpy as np

import quantum_systems as qs
from qsmon import ref2d
from qsmon.checks.common import seeds
from qsmon.checks.c21 import judge_oscillator, keywords, parameters


def cases(rng, tier):
    # strong fields fill one Landau level: large angular momenta of either sign
    for l, k in ((14, 5), (13, 4), (15, 0), (12, 1), (10, 3), (9, 5)):
        yield dict(i=1, l=l, k=k, seed=rng.randrange(2**31))
    yield from seeds(rng, 96 if tier == "quick" else 1500)


def lowest(l, W, wc):
    e = [
        W * (2 * n + abs(m) + 1) - wc * m / 2
        for n in range(l + 1) for m in range(-l - 1, l + 2)
    ]
    return np.sort(e)[:l]


def identify(mon, b, l, W, wc, mass, R, npts, taken=()):
    """Which state (n, m) each function is, judged by its values."""
    r, t = np.meshgrid(np.linspace(0, R, npts), np.linspace(0, 2 * np.pi, npts))
    out = []
    e = np.diag(np.asarray(b.h)).real
    for p in range(l):
        cand = []
        for n in range(l + 2):
            for m in range(-l - 2, l + 3):
                if abs(W * (2 * n + abs(m) + 1) - wc * m / 2 - e[p]) < 1e-8 * max(W, abs(e[p])):
                    w = ref2d.orbital(n, m, mass, W, r, t)
                    d = float(np.max(np.abs(w - np.asarray(b.spf)[p])))
                    if d < 1e-10 * float(np.max(np.abs(w))):
                        cand.append((d, (n, m)))
        mon.true("state-found", len(cand) > 0, f"function {p} is no state of energy {e[p]}")
        out.append(min(cand)[1])
    return out


def run_case(case, mon, rs):
    l, omega, mass, R, npts = parameters(rs, case, 6, 9)
    npts = max(7, npts) | 1
    W0 = omega
    k = case.get("k", rs.randint(8))
    wc = (0, float(rs.uniform(-3, 3)), float(rs.uniform(0, 3)), 2 * omega, 20 * omega, -8 * omega,
          # (hardly lifting any degeneracy)
          float(omega * 10 ** rs.uniform(-8, -3) * rs.choice([-1, 1])),
          # (all states in one Landau level)
          float(omega * 10 ** rs.uniform(1.5, 4) * rs.choice([-1, 1])))[k]
    # (keep the functions visible on the grid)
    W = np.sqrt(omega ** 2 + wc ** 2 / 4)
    R = float(rs.uniform(2, 5)) / np.sqrt(mass * W)
    kw = keywords(rs, omega=omega, mass=mass)
    if wc or rs.randint(2):
        kw["omega_c"] = wc
    b = mon.call("tdb", qs.TwoDimHarmonicOscB, l, R, npts, **kw)
    mon.feature(
        "field" if wc else "no-field", "negative-field" if wc < 0 else "positive-field",
        "strong" if abs(wc) > 4 * omega else "weak", f"l:{l}", "mass" if mass != 1 else "unit-mass",
    )
    e = np.diag(np.asarray(b.h))
    mon.close("diagonal", b.h, np.diag(e), 0, "diagonal")
    mon.close("lowest", e, lowest(l, W, wc), 1e-10, "lowest energies, ascending", W)
    nm = identify(mon, b, l, W, wc, mass, R, npts)
    mon.true("distinct", len(set(nm)) == l, f"distinct states {nm}")
    judge_oscillator(mon, b, nm, l, mass, W, R, npts)
    if wc == 0:
        mon.close("no-field-limit", e, [W0 * (2.0 * n + abs(m) + 1) for n, m in ref2d.labels(l)], 1e-12, "shells", W * l)
