"""The two-dimensional double well."""

import numpy as np

import quantum_systems as qs
from qsmon import gen, ref2d
from qsmon.checks.common import seeds
from qsmon.checks.c21 import judge_oscillator, keywords, parameters


def cases(rng, tier):
    for l in (10, 12, 15, 21):
        yield dict(i=1, l=l, seed=rng.randrange(2**31))
    yield from seeds(rng, 96 if tier == "quick" else 1500)


def run_case(case, mon, rs):
    l, omega, mass, R, npts = parameters(rs, case)
    npts = min(npts, 9)
    axis = int(rs.randint(2))
    bar = (0, 1, 2, float(rs.uniform(0.1, 6)), gen.wide(rs, float(rs.uniform(0.1, 6)), -3, 3, 3),
           gen.wide(rs, float(rs.uniform(-3, 0)), -3, 3, 3))[rs.randint(6)]
    kw = keywords(rs, omega=omega, mass=mass, barrier_strength=bar)
    if axis or rs.randint(2):
        kw["axis"] = axis
    b = mon.call("tddw", qs.TwoDimensionalDoubleWell, l, R, npts, **kw)
    mon.feature(f"axis:{axis}", "barrier" if bar else "no-barrier", "mass" if mass != 1 else "unit-mass", f"l:{l}")
    nm = ref2d.labels(l)
    judge_oscillator(mon, b, nm, l, mass, omega, R, npts)
    h0 = np.diag([omega * (2.0 * n + abs(m) + 1) for n, m in nm])
    X = ref2d.abs_xy(nm, mass, omega, axis)
    want = h0 + 0.5 * mass * omega ** 2 * (0.25 * bar ** 2 * np.eye(l) - bar * X)
    size = float(np.max(h0) + 0.5 * mass * omega ** 2 * (0.25 * bar ** 2 + abs(bar) * np.max(np.abs(X))))
    mon.close("hamiltonian", b.h, want, 1e-10, "kinetic energy plus double well", size)
    mon.close("hermitian", b.h, np.conj(np.asarray(b.h)).T, 1e-10, "Hermitian", size)
    if bar == 0:
        mon.close("no-barrier-limit", b.h, h0, 1e-13, "oscillator", size)
    if l >= 4:
        # rotating the dot by a right angle exchanges the axes
        rot = np.diag([1j ** m for _, m in nm])
        other = mon.call(
            "tddw-other-axis", qs.TwoDimensionalDoubleWell, l, R, npts, omega=omega, mass=mass,
            barrier_strength=bar, axis=1 - axis,
        )
        mon.close("rotation", rot.conj().T @ np.asarray(b.h) @ rot, other.h, 1e-10, "rotated by a right angle", size)
