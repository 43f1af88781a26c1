"""Random basis sets."""

import numpy as np

import quantum_systems as qs
from quantum_systems.random_basis import RandomBasisSet
from qsmon import gen
from qsmon.checks.common import draw, seeds


def cases(rng, tier):
    yield from seeds(rng, 900 if tier == "quick" else 8000)


def judge(mon, b, l, dim, oracle=""):
    h, s, u, d = (np.asarray(x) for x in (b.h, b.s, b.u, b.dipole_moment))
    mon.equal(oracle + "shapes", (h.shape, s.shape, u.shape, d.shape), ((l, l), (l, l), (l,) * 4, (dim, l, l)), "shapes")
    for name, x in (("h", h), ("s", s), ("u", u), ("dipole", d)):
        mon.true(oracle + "complex", np.iscomplexobj(x) and np.all(np.isfinite(x)), f"{name} is complex and finite")
    mon.close(oracle + "hermitian:h", h, h.conj().T, 1e-12, "h")
    mon.close(oracle + "hermitian:s", s, s.conj().T, 1e-12, "s")
    for k in range(dim):
        mon.close(oracle + "hermitian:dipole", d[k], d[k].conj().T, 1e-12, f"dipole {k}")
    mon.close(oracle + "exchange", u, u.transpose(1, 0, 3, 2), 1e-12, "u")


def upper(x):
    i = np.triu_indices(x.shape[0])
    return x[i]


def draws(b):
    """All the independent numbers drawn."""
    h, s, u, d = (np.asarray(x) for x in (b.h, b.s, b.u, b.dipole_moment))
    parts = [upper(h), upper(s)] + [upper(x) for x in d]
    l = h.shape[0]
    m = u.reshape(l * l, l * l)
    perm = np.arange(l * l).reshape(l, l).T.ravel()
    # representatives under the exchange of the particles
    idx = np.arange(l ** 4).reshape(l * l, l * l)
    rep = np.minimum(idx, idx[np.ix_(perm, perm)])
    parts.append(m.ravel()[np.unique(rep)])
    return np.concatenate([p.ravel() for p in parts])


def run_case(case, mon, rs):
    l = int(rs.randint(1, 9)) if draw(case, 20, "l") else int(rs.randint(9, 15))
    dim = int(rs.randint(1, 6))
    seed = int(rs.randint(2**31 - 1))
    np.random.seed(seed)
    kw = {}
    if rs.randint(3) == 0:
        kw["np"] = np
    one = mon.call("random-basis", RandomBasisSet, l, dim, **kw)
    two = mon.call("random-basis", qs.RandomBasisSet, l, dim, **kw)
    np.random.seed(seed)
    again = mon.call("random-basis", RandomBasisSet, l, dim, **kw)
    mon.feature(f"dim:{dim}", "large" if l > 8 else "small")
    for b in (one, two, again):
        judge(mon, b, l, dim)
        e = b.nuclear_repulsion_energy
        mon.true("nuclear-repulsion", 0 <= e <= 1, f"nuclear repulsion {e}")
        mon.equal("flags", (b.l, b.dim, b.includes_spin, b.anti_symmetrized_u), (l, dim, False, False), "flags")
    for name in ("h", "s", "u", "dipole_moment"):
        mon.close("same-seed", getattr(again, name), getattr(one, name), 0, name)
        mon.true("other-draw", np.min(np.abs(getattr(one, name) - getattr(two, name))) > 0 or l > 8,
                 f"{name} of two draws share entries")
    mon.equal("same-seed", again.nuclear_repulsion_energy, one.nuclear_repulsion_energy, "nuclear repulsion")
    mon.true("other-draw", one.nuclear_repulsion_energy != two.nuclear_repulsion_energy, "nuclear repulsion")
    x = draws(one)
    mon.true("non-vanishing", np.all(np.abs(x) > 1e-12), "no vanishing entries")
    mon.true("not-repeated", len(np.unique(x)) == len(x), f"{len(np.unique(x))} distinct of {len(x)} independent entries")
    if len(x) > 30:
        off = x[np.abs(x.imag) > 0]
        mon.true("imaginary", len(off) > 0.3 * len(x), "imaginary parts")
        mon.true("spread", np.std(x.real) > 0.02, "spread of the entries")
    # transformations
    kind = rs.randint(3)
    if kind == 0:
        C = gen.unitary(rs, l)
        mon.call("change-basis", one.change_basis, C)
        judge(mon, one, l, dim, "unitary:")
        mon.close("unitary-spectrum", np.linalg.eigvalsh(one.h), np.linalg.eigvalsh(again.h), 1e-10, "spectrum")
    elif kind == 1 and l <= 7:
        anti = bool(rs.randint(2))
        _, a, b = gen.spin_basis(rs)
        mon.call("add-spin", one.change_to_general_orbital_basis, a=a, b=b, anti_symmetrize=anti)
        judge(mon, one, 2 * l, dim, "spin:")
        if anti:
            u = np.asarray(one.u)
            mon.close("anti", u, -u.transpose(0, 1, 3, 2), 1e-12, "anti-symmetric")
    elif l <= 7:
        n = int(rs.randint(0, l + 1))
        sys_ = mon.call("spatial-system", qs.SpatialOrbitalSystem, 2 * n, one)
        g = mon.call("general-system", sys_.construct_general_orbital_system)
        judge(mon, g, 2 * l, dim, "system:")
    # the static helpers
    A = gen.crandn(rs, (l, l))
    mon.close("make-hermitian", RandomBasisSet.make_hermitian(A.copy()), 0.5 * (A + A.conj().T), 1e-13, "Hermitian part")
