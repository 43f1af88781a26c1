"""Molecular systems in restricted Hartree-Fock orbitals."""

import numpy as np

import quantum_systems as qs
from qsmon import mols, ref
from qsmon.checks.common import seeds
from qsmon.checks.c26 import judge_elements, options


def cases(rng, tier):
    for name in mols.MOLECULES:
        yield dict(i=0, molecule=name, seed=rng.randrange(2**31))
    yield from seeds(rng, 240 if tier == "quick" else 2500)


def run_case(case, mon, rs):
    name, spec, charge, basis = mols.draw(rs, case.get("molecule"))
    cart = bool(rs.randint(3) == 0)
    mol = mols.mole(spec, basis, charge, cart)
    I = mols.integrals(mol, (0, 0, 0))
    I = mols.integrals(mol, I["center"])
    kw, spin, anti = options(rs, I["l"])
    if charge or rs.randint(3) == 0:
        kw["charge"] = charge
    if cart or rs.randint(3) == 0:
        kw["cart"] = cart
    if not (basis == "cc-pvdz" and rs.randint(2)):
        kw["basis"] = basis
    kw.update(mols.extra(basis))
    if rs.randint(3) == 0:
        kw["verbose"] = bool(rs.randint(2))
    with mols.CaptureSCF() as cap:
        system = mon.call("construct-rhf", mols.quietly, qs.construct_pyscf_system_rhf, spec, **kw)
    mon.feature("molecule:" + name, "basis:" + basis, "spin" if spin else "no-spin",
                "anti" if spin and anti else "not-anti", "cart" if cart else "spherical",
                "charged" if charge else "neutral")
    l = system.l
    mon.close("orthonormal", system.s, np.eye(l), 1e-8, "overlap")
    h, u = np.asarray(system.h), np.asarray(system.u)
    occ = range(system.n)
    # energy and mean field of the determinant, from the elements themselves
    if spin:
        ua = u if anti else ref.anti(u)
        E = sum(h[i, i] for i in occ) + 0.5 * sum(ua[i, j, i, j] for i in occ for j in occ)
        F = h + sum(ua[:, i, :, i] for i in occ)
    else:
        E = 2 * sum(h[i, i] for i in occ) + sum(2 * u[i, j, i, j] - u[i, j, j, i] for i in occ for j in occ)
        F = h + sum(2 * u[:, i, :, i] - u[:, i, i, :] for i in occ)
    mf = mols.rhf(mol)
    if not mf.converged:
        mon.feature("reference-not-converged")
        return
    total = E + system.nuclear_repulsion_energy
    want = mf.e_tot
    if len(cap.seen) == 1 and abs(cap.seen[0][1] - want) > 1e-4 and cap.seen[0][0]:
        # the solver may stop at another stationary point than ours
        want = cap.seen[0][1]
        mon.feature("other-stationary-point")
    mon.close("rhf-energy", total, want, 2e-8, "total energy")
    if not spin or anti:
        mon.close("reference-energy", mon.call("energy", system.compute_reference_energy), E, 1e-9, "reference energy")
        mon.close("fock", mon.call("fock", system.construct_fock_matrix, system.h, system.u), F, 1e-9, "Fock matrix")
    e = np.diag(F).real
    mon.close("canonical", F, np.diag(e), 5e-5, "diagonal Fock matrix", 1.0)
    k = 2 if spin else 1
    mon.true("ascending", np.all(np.diff(e) > -1e-4), f"orbital energies {e}")
    same = want == mf.e_tot
    if same:
        mon.close("orbital-energies", e, np.repeat(mf.mo_energy, k), 1e-3, "orbital energies")
    if spin:
        mon.close("spin-pairs", e[0::2], e[1::2], 1e-8, "spin pairs")
    if I["n"] // 2 < I["l"]:
        mon.true("gap", e[: system.n].max() <= e[system.n:].min() + 1e-4, "occupied below virtual")
    if len(cap.seen) == 1:
        C = cap.seen[0][3]
        mon.feature("orbitals-observed")
        J = dict(
            I, h=C.T @ I["h"] @ C, s=C.T @ I["s"] @ C, u=ref.transform_2(I["u"], C, C.T),
            dipole_moment=np.array([C.T @ d @ C for d in I["dipole_moment"]]),
        )
        judge_elements(mon, system, J, spin, anti, 1e-9, module=kw.get("np", np))
    # invariants which do not need the orbitals
    from scipy.linalg import eigh

    mon.close("spectrum:h", np.linalg.eigvalsh(h), np.repeat(eigh(I["h"], I["s"], eigvals_only=True), k), 1e-7, "spectrum of h")
    for x in range(3):
        mon.close("spectrum:dipole", np.linalg.eigvalsh(system.dipole_moment[x]),
                  np.repeat(eigh(I["dipole_moment"][x], I["s"], eigvals_only=True), k), 1e-7, "spectrum of the dipole")
        if not same:
            continue
        P = mf.mo_coeff[:, : I["n"] // 2]
        mon.close("dipole-moment", sum(np.asarray(system.dipole_moment)[x, i, i] for i in occ) * (1 if spin else 2),
                  2 * np.einsum("ai,ab,bi", P, I["dipole_moment"][x], P), 2e-3, "electronic dipole moment")
    if rs.randint(4) == 0:
        odd, kw = (
            ("h 0 0 0", dict(spin=1)), ("li 0 0 0", dict(spin=1)), ("he 0 0 0; h 0 0 1.5", dict(spin=1)),
            ("h 0 0 0; h 0 0 1.4", dict(charge=1, spin=1)), ("be 0 0 0", dict(charge=1, spin=1)),
            ("h 0 0 0", {}),
        )[rs.randint(6)]
        mon.refuses("odd-refused", "construct-rhf-odd", mols.quietly, qs.construct_pyscf_system_rhf, odd,
                    basis="sto-3g", add_spin=bool(rs.randint(2)), **kw)
