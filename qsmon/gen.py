"""Workload generators: basis sets of every kind, coefficient matrices, spin
bases.  Everything is drawn from the RandomState of the case."""

import functools

import numpy as np

import quantum_systems as qs
from quantum_systems.quantum_dots.one_dim.one_dim_qd import ODHO
from quantum_systems.quantum_dots.one_dim import one_dim_potentials as pots

POTENTIALS = ("ho", "dw", "smooth", "sym", "asym", "gauss", "atomic")

# kind -> largest number of basis functions drawn
SPATIAL_KINDS = (
    "custom", "custom", "custom", "random", "odho", "odqd", "dvr2d", "dvr4d",
    "tdho", "tddw", "tdb", "ao",
)


def wide(rs, x, lo=-4.0, hi=4.0, every=6):
    """x as it is, or now and then of any order of magnitude."""
    if rs.randint(every):
        return x
    return float((1 if x >= 0 else -1) * 10 ** rs.uniform(lo, hi))


def potential(rs, kind=None):
    kind = kind or POTENTIALS[rs.randint(len(POTENTIALS))]
    if kind == "ho":
        return kind, pots.HOPotential(rs.uniform(0.1, 2))
    if kind == "dw":
        return kind, pots.DWPotential(rs.uniform(0.2, 1.5), rs.uniform(0.5, 6))
    if kind == "smooth":
        return kind, pots.DWPotentialSmooth(a=rs.uniform(1.5, 6))
    if kind == "sym":
        return kind, pots.SymmetricDWPotential(
            rs.uniform(0.1, 1), rs.uniform(-1, 2), rs.uniform(-7, 1)
        )
    if kind == "asym":
        return kind, pots.AsymmetricDWPotential(
            rs.uniform(0.3, 1.5), rs.uniform(-1, 1), rs.uniform(-3, 1)
        )
    if kind == "gauss":
        return kind, pots.GaussianPotential(
            rs.uniform(0.3, 3), rs.uniform(-2, 2), rs.uniform(0.5, 3), np
        )
    return kind, pots.AtomicPotential(rs.uniform(0.5, 4), rs.uniform(0.2, 1.5))


def crandn(rs, shape, real=False):
    x = rs.standard_normal(shape)
    return x if real else x + 1j * rs.standard_normal(shape)


def herm(rs, l, real=False):
    a = crandn(rs, (l, l), real)
    return 0.5 * (a + a.conj().T)


def overlap(rs, l, real=False):
    """Well conditioned, Hermitian, positive definite."""
    a = crandn(rs, (l, l), real) / np.sqrt(2 * l)
    s = a @ a.conj().T + np.eye(l)
    d = np.sqrt(np.real(np.diag(s)))
    return s / d[:, None] / d[None, :]


def two_body(rs, l, real=False, hermitian=True):
    u = crandn(rs, (l,) * 4, real)
    u = u + u.transpose(1, 0, 3, 2)
    if hermitian:
        u = u + u.conj().transpose(2, 3, 0, 1)
    return 0.25 * u


def custom(rs, l, dim=None, includes_spin=False, **opt):
    """A BasisSet filled with arbitrary matrix elements."""
    dim = dim or int(rs.randint(1, 4))
    real = opt.get("real", bool(rs.randint(2)))
    b = qs.BasisSet(
        l,
        dim,
        includes_spin=includes_spin,
        anti_symmetrized_u=opt.get("anti_symmetrized_u", False),
    )
    b.h = herm(rs, l, real) if opt.get("hermitian", True) else crandn(
        rs, (l, l), real
    )
    sk = opt.get("s", ("identity", "overlap")[rs.randint(2)])
    if sk == "identity":
        b.s = np.eye(l)
    elif sk == "overlap":
        b.s = overlap(rs, l, real)
    b.u = two_body(rs, l, real, opt.get("hermitian", True))
    if opt.get("anti_symmetrized_u"):
        b.u = b.u - b.u.transpose(0, 1, 3, 2)
    if opt.get("dipole", rs.randint(4) > 0):
        b.dipole_moment = np.array([herm(rs, l, real) for _ in range(dim)])
    bra = None
    if opt.get("spf", rs.randint(4) > 0):
        shape = (l,) + tuple(int(k) for k in rs.randint(2, 6, size=dim))
        sreal = opt.get("spf_real", real)
        b.spf = crandn(rs, shape, sreal)
        if opt.get("bra", rs.randint(3) == 0):
            bra = crandn(rs, shape, sreal)
            b.bra_spf = bra
    special(rs, b, opt)
    b.nuclear_repulsion_energy = float(rs.uniform(0, 5)) if rs.randint(5) else float(rs.randint(-1, 1))
    if dim == 1:
        b.grid = np.linspace(-1, 1, 7)
    return b, bra


def special(rs, b, opt):
    """Sometimes give the elements a structure which invites shortcuts."""
    k = int(rs.randint(18))
    if k == 0:
        b.u = np.zeros_like(b.u)
    elif k == 1:
        b.u = b.u - b.u.transpose(0, 1, 3, 2)
    elif k == 2:
        b.h = 10.0 ** rs.uniform(-14, -4) * b.h
        b.u = 10.0 ** rs.uniform(-14, -4) * b.u
        if opt.get("anti_symmetrized_u"):
            b.u = 0.5 * (b.u - b.u.transpose(0, 1, 3, 2))
    elif k == 3:
        b.h = np.diag(np.diag(b.h))
        if b.dipole_moment is not None:
            b.dipole_moment = np.zeros_like(b.dipole_moment)
    elif k in (6, 7):
        # diagonal, real, orthonormal, ... but for a little
        e = 10.0 ** rs.uniform(-12, -6)
        d = np.eye(b.l)
        b.h = (d + e * (1 - d)) * b.h
        if b.s is not None:
            b.s = d + e * herm(rs, b.l, not np.iscomplexobj(b.s))
        if np.iscomplexobj(b.u) and k == 7:
            b.u = b.u.real + 1j * e * b.u.imag
            b.h = b.h.real + 1j * e * b.h.imag
        if b.dipole_moment is not None:
            b.dipole_moment = e * b.dipole_moment
    elif k == 4:
        b.h = np.asfortranarray(b.h)
        b.u = np.asfortranarray(b.u)
    elif k == 5:
        b.h = np.repeat(np.repeat(b.h, 2, axis=0), 2, axis=1)[::2, ::2]
        b.u = np.repeat(b.u, 2, axis=3)[..., ::2]
        if b.spf is not None:
            b.spf = np.repeat(b.spf, 2, axis=0)[::2]


# Construction of the two-dimensional dots is slow (symbolic integration), so
# each worker builds a given one once and hands out copies made by hand.
@functools.lru_cache(maxsize=None)
def _tdho(l, omega, mass, npts):
    return qs.TwoDimensionalHarmonicOscillator(
        l, 4, npts, omega=omega, mass=mass
    )


@functools.lru_cache(maxsize=None)
def _tddw(l, omega, mass, barrier, axis, npts):
    return qs.TwoDimensionalDoubleWell(
        l, 4, npts, omega=omega, mass=mass, barrier_strength=barrier, axis=axis
    )


@functools.lru_cache(maxsize=None)
def _tdb(l, omega, omega_c, npts):
    return qs.TwoDimHarmonicOscB(l, 4, npts, omega=omega, omega_c=omega_c)


@functools.lru_cache(maxsize=None)
def _ao(molecule, basis):
    import io
    from contextlib import redirect_stdout

    with redirect_stdout(io.StringIO()):
        system = qs.construct_pyscf_system_ao(
            molecule, basis=basis, add_spin=False
        )
    return next(v for v in vars(system).values() if isinstance(v, qs.BasisSet))


def clone(b):
    """An independent basis set of the same class, without the code's own copy
    functions: plain attributes by reference, arrays copied."""
    new = object.__new__(type(b))
    for k, v in b.__dict__.items():
        new.__dict__[k] = np.array(v, copy=True) if isinstance(v, np.ndarray) else v
    return new


MOLECULES = ("h 0 0 0; h 0 0 1.4", "he 0 0 0", "li 0 0 0; h 0 0 3.0")


def spatial(rs, kind, lmax=6):
    """A spatial basis set of the given kind.  Returns (basis, bra) with bra the
    explicitly assigned bra functions, if any."""
    l = int(rs.randint(1, lmax + 1))
    if kind == "custom":
        return custom(rs, l)
    if kind == "random":
        return qs.RandomBasisSet(l, int(rs.randint(1, 4))), None
    if kind == "odho":
        return ODHO(
            l, rs.uniform(4, 8), int(rs.randint(31, 62)), omega=rs.uniform(0.3, 1.5),
            a=rs.uniform(0.1, 1), alpha=rs.uniform(0.3, 2) * (1 if rs.randint(5) else -1),
        ), None
    if kind == "odqd":
        _, pot = potential(rs)
        return qs.ODQD(
            l, rs.uniform(3, 6), int(rs.randint(31, 62)), potential=pot,
            a=rs.uniform(0.1, 1), alpha=rs.uniform(0.3, 2) * (1 if rs.randint(5) else -1),
            beta=rs.uniform(-0.5, 0.5),
        ), None
    if kind in ("dvr2d", "dvr4d"):
        _, pot = potential(rs)
        return qs.ODSincDVR(
            max(2, l), rs.uniform(2, 6), potential=pot, a=rs.uniform(0.1, 1),
            alpha=rs.uniform(0.3, 2) * (1 if rs.randint(5) else -1), beta=rs.uniform(-0.5, 0.5),
            u_repr=kind[3:],
        ), None
    if kind == "tdho":
        l = min(l, 9)
        return clone(_tdho(l, 1.0 if l % 2 else 0.6, 1.0 if l % 3 else 1.3, 5)), None
    if kind == "tddw":
        l = min(l, 4)
        return clone(_tddw(l, 0.8, 1.0, 2.0, l % 2, 5)), None
    if kind == "tdb":
        l = min(l, 4)
        return clone(_tdb(l, 1.0, 0.7, 5)), None
    if kind == "ao":
        return clone(_ao(MOLECULES[rs.randint(3)], "sto-3g")), None
    raise ValueError(kind)


def unitary(rs, n, real=False):
    q, r = np.linalg.qr(crandn(rs, (n, n), real))
    d = np.diag(r)
    return q * (d / np.abs(d))


def invertible(rs, n, real=False):
    """Condition number at most about 9."""
    return unitary(rs, n, real) @ np.diag(rs.uniform(0.4, 2.5, n)) @ unitary(
        rs, n, real
    )


C_KINDS = (
    "identity", "permutation", "phases", "orthogonal", "unitary",
    "real", "complex", "fewer", "more", "integer", "noncontiguous", "fortran",
    "one-column", "near-identity", "near-unitary", "read-only",
)
CT_KINDS = ("none", "none", "adjoint", "inverse", "independent", "independent", "same")


def coefficients(rs, l, kind=None, ct_kind=None, min_cols=1):
    min_cols = max(1, min_cols)
    kind = kind or C_KINDS[rs.randint(len(C_KINDS))]
    ct_kind = ct_kind or CT_KINDS[rs.randint(len(CT_KINDS))]
    if kind == "identity":
        C = np.eye(l)
    elif kind == "permutation":
        C = np.eye(l)[:, rs.permutation(l)]
    elif kind == "phases":
        C = np.diag(np.exp(2j * np.pi * rs.uniform(size=l)))
    elif kind == "orthogonal":
        C = unitary(rs, l, True)
    elif kind == "unitary":
        C = unitary(rs, l)
    elif kind == "real":
        C = invertible(rs, l, True)
    elif kind == "complex":
        C = invertible(rs, l)
    elif kind == "fewer":
        k = int(rs.randint(min(min_cols, l), l + 1))
        C = unitary(rs, l)[:, :k]
    elif kind == "more":
        C = crandn(rs, (l, l + int(rs.randint(1, 3))))
    elif kind == "integer":
        C = rs.randint(-2, 3, size=(l, l))
        C[np.arange(l), np.arange(l)] += 5
    elif kind == "noncontiguous":
        C = invertible(rs, 2 * l)[::2, ::2]
    elif kind == "fortran":
        C = np.asfortranarray(invertible(rs, l))
    elif kind == "near-identity":
        # close enough to be taken for the identity by a careless comparison
        C = np.eye(l) + 10.0 ** rs.uniform(-8, -5) * crandn(rs, (l, l), bool(rs.randint(2)))
    elif kind == "near-unitary":
        C = unitary(rs, l) + 10.0 ** rs.uniform(-8, -5) * crandn(rs, (l, l))
    elif kind == "read-only":
        C = invertible(rs, l)
        C.flags.writeable = False
    elif kind == "one-column":
        C = crandn(rs, (l, max(1, min_cols)))
    else:
        raise ValueError(kind)
    if ct_kind == "none":
        Ct = None
    elif ct_kind == "adjoint":
        Ct = C.conj().T.copy()
    elif ct_kind == "inverse":
        Ct = np.linalg.pinv(C)
    elif ct_kind == "same" and C.shape[0] == C.shape[1]:
        Ct = C  # one and the same object
    else:
        Ct = crandn(rs, (C.shape[1], l), bool(rs.randint(2)))
    return kind, ct_kind, C, Ct


def spin_basis(rs):
    """An orthonormal spin basis: default, permuted, real or complex."""
    k = rs.randint(5)
    if k == 0:
        return "default", [1, 0], [0, 1]
    if k == 1:
        return "flipped", [0, 1], [1, 0]
    v = unitary(rs, 2, real=(k == 2))
    if k == 3:
        return "list", list(v[:, 0]), list(v[:, 1])
    if rs.randint(4) == 0:
        return "column", v[:, :1].copy(), v[:, 1:].copy()
    return ("real" if k == 2 else "complex"), v[:, 0], v[:, 1]
