"""The two-dimensional oscillator basis as a whole."""

import numpy as np

import quantum_systems as qs
from qsmon import ref2d
from qsmon.checks.common import draw, seeds


def cases(rng, tier):
    for l in (10, 12, 15, 21):
        yield dict(i=1, l=l, seed=rng.randrange(2**31))
    yield from seeds(rng, 96 if tier == "quick" else 2500)


def judge_oscillator(mon, b, nm, l, mass, omega, R, npts, oracle="", dipole=True):
    r, t = np.meshgrid(np.linspace(0, R, npts), np.linspace(0, 2 * np.pi, npts))
    want = np.array([ref2d.orbital(n, m, mass, omega, r, t) for n, m in nm])
    a = np.sqrt(mass * omega)
    mon.close(oracle + "functions", b.spf, want, 1e-11, "oscillator functions", a)
    # beyond the turning points also relative to each value
    for p, (n, m) in enumerate(nm):
        far = (a * r) ** 2 > 4 * (2 * n + abs(m) + 2)
        far &= np.abs(want[p]) > 1e-280
        if np.any(far):
            mon.close(oracle + "tails", b.spf[p][far] / want[p][far], np.ones(int(far.sum())), 1e-9, f"tail of {(n, m)}")
    mon.close(oracle + "overlap", b.s, np.eye(l), 1e-13, "overlap")
    mon.close(
        oracle + "dipole", b.dipole_moment, ref2d.dipole(nm, mass, omega), 1e-10, "dipole",
        np.sqrt(l) / a,
    )
    mon.close(
        oracle + "interaction", b.u, a * ref2d.coulomb(nm), ref2d.coulomb_tol(nm),
        "interaction", a,
    )
    mon.equal(oracle + "shape", (b.l, b.dim, b.includes_spin, b.anti_symmetrized_u), (l, 2, False, False), "flags")


def parameters(rs, case, small=6, big=10):
    l = int(rs.randint(1, small + 1)) if draw(case, 8, "l") else int(rs.randint(small + 1, big + 1))
    l = case.get("l", l)
    omega = (1, 2, 0.5, float(rs.uniform(0.05, 4)), float(10 ** rs.uniform(-2, 2)))[rs.randint(5)]
    mass = (1, 1, float(rs.uniform(0.05, 3)), 2, float(10 ** rs.uniform(-2, 1.5)))[rs.randint(5)]
    if rs.randint(8) == 0:
        # any unit of energy
        omega = float(10 ** rs.uniform(-12, 5))
    R = float(rs.uniform(0.5, 12)) if rs.randint(3) else int(rs.randint(1, 9))
    npts = int(rs.randint(2, 30)) if draw(case, 6, "npts") else int(rs.randint(30, 90))
    if rs.randint(3) == 0:
        # a grid that fits the functions
        R = float(rs.uniform(1, 6)) / np.sqrt(mass * omega)
    return l, omega, mass, R, npts


def keywords(rs, **kw):
    """Leave out some of the parameters that have their default value, and give
    some of those which only concern the construction."""
    out = {k: v for k, v in kw.items() if not (v == 1 and rs.randint(2))}
    if rs.randint(4) == 0:
        out["verbose"] = bool(rs.randint(2))
    if rs.randint(4) == 0:
        out["np"] = (np, None)[rs.randint(2)]
    return out


def run_case(case, mon, rs):
    l, omega, mass, R, npts = parameters(rs, case)
    b = mon.call("tdho", qs.TwoDimensionalHarmonicOscillator, l, R, npts, **keywords(rs, omega=omega, mass=mass))
    mon.feature("mass" if mass != 1 else "unit-mass", "omega" if omega != 1 else "unit-omega", f"l:{l}")
    nm = ref2d.labels(l)
    judge_oscillator(mon, b, nm, l, mass, omega, R, npts)
    mon.close("energies", b.h, np.diag([omega * (2.0 * n + abs(m) + 1) for n, m in nm]), 1e-13, "omega (2n+|m|+1)", omega * l)
    if rs.randint(3) == 0:
        # as a system, in spin orbitals
        n = int(rs.randint(0, 2 * l + 1))
        sys_ = mon.call("general-system", qs.GeneralOrbitalSystem, n, b)
        e = np.sort([omega * (2 * a + abs(m) + 1) for a, m in nm])
        mon.close("system-energies", np.sort(np.diag(sys_.h).real), np.repeat(e, 2), 1e-12, "doubled energies", omega * l)
        mon.feature("system")
