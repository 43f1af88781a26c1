import hashlib

import numpy as np

import quantum_systems as qs
from qsmon import gen, ref


def seeds(rng, n, **fixed):
    """n numbered cases with a seed each."""
    for i in range(n):
        yield dict(fixed, i=i, seed=rng.randrange(2**31))


def draw(case, k, what):
    """A choice out of k for this case.  The choices of a case are independent of
    each other (which they would not be, were they digits of its number): every
    kind of basis set meets every route, every operator, every size, ..."""
    h = hashlib.blake2b(f"{case['seed']}:{what}".encode(), digest_size=8)
    return int.from_bytes(h.digest(), "big") % k


def grow(case, small, big, every=12, huge=None):
    """Mostly small basis sets, every now and then a larger one."""
    if huge and draw(case, 31, "huge") == 30:
        return huge
    return big if draw(case, every, "big") == 0 else small


def state(x):
    """The basis set behind a system, or the basis set itself."""
    if isinstance(x, qs.BasisSet):
        return x
    for v in vars(x).values():
        if isinstance(v, qs.BasisSet):
            return v
    raise LookupError("no basis set in system")


def touch_some(rs, b):
    """Read the (lazily created) bra functions in some cases only."""
    if rs.randint(2):
        return True
    return False


def make_basis(rs, mon, kind, lmax, spin=False, anti=None, lmin=1, **opt):
    """A basis set of the given kind with or without spin.  Returns the basis
    and the explicitly assigned bra functions, if any."""
    if kind == "custom":
        b, bra = gen.custom(rs, int(rs.randint(lmin, lmax + 1)), **opt)
    else:
        b, bra = gen.spatial(rs, kind, lmax)
        for _ in range(50):
            if b.l >= lmin:
                break
            b, bra = gen.spatial(rs, kind, lmax)
    mon.feature("basis:" + kind)
    if spin:
        name, a_, b_ = gen.spin_basis(rs)
        if anti is None:
            anti = bool(rs.randint(2))
        mon.call(
            "add-spin", b.change_to_general_orbital_basis, a=a_, b=b_,
            anti_symmetrize=anti,
        )
        if bra is not None:
            bra = np.repeat(bra, 2, axis=0)
        mon.feature("spin-doubled", "spin-basis:" + name)
    return b, bra


def make_system(rs, mon, b, n=None, anti=None):
    if b.includes_spin:
        n = int(rs.randint(0, b.l + 1)) if n is None else n
        anti = bool(rs.randint(2)) if anti is None else anti
        return mon.call(
            "general-system", qs.GeneralOrbitalSystem, n, b, anti_symmetrize=anti
        )
    n = int(rs.randint(0, b.l + 1)) if n is None else n
    return mon.call("spatial-system", qs.SpatialOrbitalSystem, 2 * n, b)


def flags(mon, oracle, got, pre, names=("includes_spin", "anti_symmetrized_u", "dim", "l")):
    for name in names:
        mon.equal(oracle, got[name], pre[name], name)
    mon.close(
        oracle, got["nuclear_repulsion_energy"], pre["nuclear_repulsion_energy"],
        1e-14, "nuclear_repulsion_energy",
    )
    mon.close(oracle, got["grid"], pre["grid"], 0, "grid")


def same_state(mon, oracle, got, pre, tol=0, skip=()):
    # The bra functions of the state before may be the conjugate of the ket
    # functions, which equals what the library holds up to rounding only.
    ref.compare(mon, oracle, got, pre, tol, skip=(*skip, "bra_spf"))
    if "bra_spf" not in skip:
        w = pre["bra_spf"]
        mon.close(f"{oracle}:bra_spf", got["bra_spf"], w, max(tol, 1e-13), "bra_spf",
                  None if w is None else float(np.max(np.abs(w), initial=0)) * 100)
    flags(mon, oracle, got, pre)
    for name in ("sigma_x", "sigma_y", "sigma_z"):
        mon.close(oracle + ":sigma", got[name], pre[name], tol, name)
