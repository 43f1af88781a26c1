"""Molecular systems in atomic orbitals."""

import numpy as np

import quantum_systems as qs
from qsmon import mols, ref
from qsmon.checks.c12 import Module
from qsmon.checks.common import seeds, state


def cases(rng, tier):
    for name in mols.MOLECULES:
        yield dict(i=0, molecule=name, seed=rng.randrange(2**31))
    yield from seeds(rng, 240 if tier == "quick" else 2500)


def judge_elements(mon, system, I, spin, anti, tol, oracle="", module=np):
    """I: the expected spatial elements."""
    want = {k: I[k] for k in ("h", "s", "u", "dipole_moment")}
    l = I["l"]
    if spin:
        want = dict(
            h=ref.double_1(I["h"]), s=ref.double_1(I["s"]), u=ref.double_2(I["u"]),
            dipole_moment=np.array([ref.double_1(d) for d in I["dipole_moment"]]),
        )
        if anti:
            want["u"] = ref.anti(want["u"])
    mon.equal(oracle + "class", isinstance(system, qs.GeneralOrbitalSystem), spin, "kind of system")
    mon.equal(oracle + "kind", isinstance(system, qs.SpatialOrbitalSystem), not spin, "kind of system")
    mon.equal(oracle + "size", system.l, 2 * l if spin else l, "number of functions")
    mon.equal(oracle + "electrons", system.n, I["n"] if spin else I["n"] // 2, "occupied functions")
    mon.close(oracle + "nuclear-repulsion", float(np.real(system.nuclear_repulsion_energy)), I["nuc"], 1e-10, "nuclear repulsion")
    for k in ("h", "s", "u", "dipole_moment"):
        mon.close(oracle + k, getattr(system, k), want[k], tol, k)
    b = state(system)
    if not oracle:
        mon.true("module", system.np is module and b.np is module, "array module of the system")
    mon.equal(oracle + "spin-flag", bool(b.includes_spin), spin, "includes_spin")
    mon.equal(oracle + "anti-flag", bool(b.anti_symmetrized_u), bool(spin and anti), "anti_symmetrized_u")


def options(rs, l):
    kw = {}
    spin, anti = True, True
    k = rs.randint(5)
    if k or l > 15:
        spin = bool(rs.randint(2)) and l <= 15
        kw["add_spin"] = spin
    if rs.randint(2):
        anti = bool(rs.randint(2))
        kw["anti_symmetrize"] = anti
    if rs.randint(3) == 0:
        kw["np"] = np
    elif rs.randint(4) == 0:
        kw["np"] = Module("builder")
    return kw, spin, anti


def run_case(case, mon, rs):
    name, spec, charge, basis = mols.draw(rs, case.get("molecule"))
    cart = bool(rs.randint(4) == 0)
    mol = mols.mole(spec, basis, charge, cart)
    I = mols.integrals(mol, (0, 0, 0))
    kw, spin, anti = options(rs, I["l"])
    if charge:
        kw["charge"] = charge
    if cart:
        kw["cart"] = True
    if not (basis == "cc-pvdz" and rs.randint(2)):
        kw["basis"] = basis
    kw.update(mols.extra(basis))
    if rs.randint(4) == 0:
        kw["verbose"] = 0
    system = mon.call("construct-ao", mols.quietly, qs.construct_pyscf_system_ao, spec, **kw)
    mon.feature("molecule:" + name, "basis:" + basis, "spin" if spin else "no-spin",
                "anti" if spin and anti else "not-anti", "cart" if cart else "spherical",
                "charged" if charge else "neutral")
    judge_elements(mon, system, I, spin, anti, 1e-10, module=kw.get("np", np))
    if I["l"] <= 14:
        # in restricted Hartree-Fock orbitals
        mf = mols.rhf(mol)
        if not mf.converged:
            return
        C = mf.mo_coeff
        J = dict(
            I, h=C.T @ I["h"] @ C, s=C.T @ I["s"] @ C, u=ref.transform_2(I["u"], C, C.T),
            dipole_moment=np.array([C.T @ d @ C for d in I["dipole_moment"]]),
        )
        Cs = ref.double_1(C) if spin else C
        mon.call("change-basis", system.change_basis, Cs)
        judge_elements(mon, system, J, spin, anti, 1e-9, "rhf-orbitals:")
        if not spin or anti:
            e = mon.call("energy", system.compute_reference_energy)
            mon.close("rhf-energy", e + system.nuclear_repulsion_energy, mf.e_tot, 1e-8, "energy in RHF orbitals")
    if rs.randint(5) == 0:
        odd, spin_ = (("h 0 0 0", 1), ("li 0 0 0", 1), ("he 0 0 0; h 0 0 1.5", 1))[rs.randint(3)]
        mon.refuses("odd-refused", "construct-ao-odd", mols.quietly, qs.construct_pyscf_system_ao, odd,
                    basis="sto-3g", spin=spin_, add_spin=bool(rs.randint(2)))
