"""The two storages of the sinc-DVR interaction are interchangeable."""

import numpy as np

import quantum_systems as qs
from quantum_systems.time_evolution_operators import operator as top
from qsmon import gen, ref
from qsmon.checks.common import grow, same_state, seeds, state


def cases(rng, tier):
    n = 900 if tier == "quick" else 8000
    yield from seeds(rng, n)


def same(mon, oracle, x, y, tol=1e-11, skip=()):
    a, b = ref.snapshot(x), ref.snapshot(y)
    sc = {}
    for k in ref.ARRAYS:
        sc[k] = max(1.0, float(np.max(np.abs(b[k]))) if b[k] is not None and b[k].size else 1.0)
    ref.compare(mon, oracle, a, b, tol, skip=skip, scales=sc)
    for k in ("includes_spin", "anti_symmetrized_u", "dim", "l"):
        mon.equal(oracle, a[k], b[k], k)


SPINS = ("spin_x", "spin_y", "spin_z", "spin_2", "spin_2_tb")


def run_case(case, mon, rs):
    l = int(rs.randint(2, grow(case, 5, 8, huge=14) + 1))
    _, pot = gen.potential(rs)
    args = (l, float(rs.uniform(1, 8)))
    kw = dict(potential=pot, a=float(rs.uniform(0.1, 1)), alpha=(float(rs.uniform(0.3, 2)), float(rs.uniform(-2, 2)), 0)[rs.randint(3)], beta=float(rs.uniform(-1, 1)))
    A = mon.call("dvr-2d", qs.ODSincDVR, *args, u_repr="2d", **kw)
    B = mon.call("dvr-4d", qs.ODSincDVR, *args, u_repr="4d", **kw)
    mon.equal("storage", (A.u.ndim, B.u.ndim), (2, 4), "as requested")
    mon.equal("storage", (A.sparse_repr, B.sparse_repr), (True, False), "sparse_repr")
    same(mon, "construct", A, B)
    for bad in ("3d", "sparse", "", None, 2, "4D"):
        mon.refuses("invalid-name", f"u_repr={bad!r}", qs.ODSincDVR, *args, u_repr=bad, **kw)
    if rs.randint(3) == 0:
        # elements assigned by the user, complex and not symmetric
        z = gen.crandn(rs, (l, l))
        B.u = ref.u4(z)
        A.u = z
        mon.feature("own-elements")
        same(mon, "own-elements", A, B)
    # conversions
    conv = rs.randint(4)
    pre = ref.snapshot(A)
    if conv == 1:
        mon.call("to-4d", A.set_u_repr, "4d")
        mon.equal("storage", (A.u_repr, A.u.ndim), ("4d", 4), "after conversion")
        same_state(mon, "conversion", ref.snapshot(A), pre)
        mon.call("to-2d", A.set_u_repr, "2d")
        mon.equal("storage", (A.u_repr, A.u.ndim), ("2d", 2), "after conversion back")
        same_state(mon, "conversion", ref.snapshot(A), pre)
    elif conv == 2:
        mon.call("to-2d", B.set_u_repr, "2d")
        mon.close("conversion", B.u, pre["u"], 1e-15, "2d elements")
        mon.equal("storage", B.u_repr, "2d", "after conversion")
        mon.call("to-4d", B.set_u_repr, "4d")
        same(mon, "conversion", B, A)
    elif conv == 3:
        mon.call("to-same", A.set_u_repr, "2d")
        mon.call("to-same", B.set_u_repr, "4d")
        same_state(mon, "conversion", ref.snapshot(A), pre)
        mon.refuses("invalid-name", "set_u_repr('3d')", A.set_u_repr, "3d")
        mon.refuses("invalid-name", "set_u_repr('3d')", B.set_u_repr, "sparse")
        same_state(mon, "conversion", ref.snapshot(A), pre)
    mon.feature(f"conversion:{conv}")
    if rs.randint(4) == 0:
        # declarations of the user are kept
        D = mon.call("dvr-declared", qs.ODSincDVR, *args, u_repr=("2d", "4d")[rs.randint(2)], **kw,
                     anti_symmetrized_u=bool(rs.randint(2)), includes_spin=bool(rs.randint(2)))
        kept = ref.snapshot(D)
        for to in ("4d", "2d", "4d"):
            mon.call("to-" + to, D.set_u_repr, to)
            mon.equal("storage", D.u_repr, to, "after conversion")
            same_state(mon, "conversion", ref.snapshot(D), dict(kept, u=D.u))
            mon.close("conversion", ref.u4(D.u), ref.u4(kept["u"]), 0, "elements")
        mon.feature("declared")
    # previews
    kind, ctk, C, Ct = gen.coefficients(rs, l)
    mon.feature("C:" + kind, "Ct:" + ctk)
    mon.close("preview", mon.call("preview", A.get_transformed_u, C), mon.call("preview", B.get_transformed_u, C),
              1e-11, "get_transformed_u", max(1.0, float(np.max(np.abs(B.get_transformed_u(C))))))
    u4 = B.transform_two_body_elements(B.u, C, np, C_tilde=Ct)
    sc = max(1.0, float(np.max(np.abs(u4))))
    mon.close("preview", mon.call("preview", A.transform_two_body_elements, A.u, C, np, C_tilde=Ct), u4, 1e-11,
              "transform_two_body_elements", sc)
    mon.close("preview-anti", mon.call("preview", A.transform_two_body_elements, A.u, C, np, anti_symmetrize=True, C_tilde=Ct),
              ref.anti(u4), 1e-11, "anti-symmetrized preview", 2 * sc)
    same_state(mon, "preview-pure", ref.snapshot(A), pre)
    # spin and basis change in either order, systems, copies, switching
    spin = bool(rs.randint(3))
    anti = bool(rs.randint(2))
    order = ("spin-first", "basis-first", "no-basis-change")[rs.randint(3)]
    mon.feature("order:" + order, f"anti:{anti}", f"spin:{spin}")
    _, a_, b_ = gen.spin_basis(rs)

    def add_spin():
        for x in (A, B):
            mon.call("add-spin", x.change_to_general_orbital_basis, a=a_, b=b_, anti_symmetrize=anti)

    def change():
        k, c, C, Ct = gen.coefficients(rs, A.l)
        for x in (A, B):
            mon.call("change-basis", x.change_basis, C, Ct)
        mon.equal("storage", (A.u.ndim, B.u.ndim), (4, 4), "four indices after a basis change")

    skip = ()
    if order == "basis-first":
        change()
        same(mon, "changed", A, B)
        if spin:
            add_spin()
    else:
        if spin:
            add_spin()
            if not anti:
                # spin operators are not set up in the compact form
                skip = SPINS
                mon.equal("storage", A.u.ndim, 2, "compact form kept without anti-symmetrization")
        if order == "spin-first":
            same(mon, "doubled", A, B, skip=skip)
            change()
    same(mon, "result", A, B, skip=skip)
    if rs.randint(2):
        A2, B2 = mon.call("copy", A.copy_basis), mon.call("copy", B.copy_basis)
        same(mon, "copied", A2, B2, skip=skip)
        A, B = A2, B2
    n = int(rs.randint(0, A.l + 1))
    if spin:
        anti2 = bool(rs.randint(2))
        SA, SB = (mon.call("general-system", qs.GeneralOrbitalSystem, n, x, anti_symmetrize=anti2) for x in (A, B))
    else:
        SA, SB = (mon.call("spatial-system", qs.SpatialOrbitalSystem, 2 * n, x) for x in (A, B))
    same(mon, "system", state(SA), state(SB), skip=skip)
    f = float(rs.uniform(-2, 2))
    for s in (SA, SB):
        mon.call("attach", s.set_time_evolution_operator, top.AdiabaticSwitching(lambda t: f * t))
    t = float(rs.uniform(0, 3))
    ua, ub = mon.call("u_t", SA.u_t, t), mon.call("u_t", SB.u_t, t)
    sc = max(1.0, float(np.max(np.abs(ub))))
    mon.close("switched", ref.u4(ua), ref.u4(ub), 1e-11, "u_t", sc)
    if not spin:
        GA, GB = (mon.call("to-general", s.construct_general_orbital_system, a=a_, b=b_) for s in (SA, SB))
        same(mon, "general", state(GA), state(GB))
        mon.close("switched", ref.u4(mon.call("u_t", GA.u_t, t)), ref.u4(mon.call("u_t", GB.u_t, t)), 1e-11, "u_t", 2 * sc)
        pairs = [(GA, GB)]
    else:
        pairs = []
    if SA.u.ndim == 4:
        pairs.append((SA, SB))
    for x, y in pairs:
        es = max(1e-300, float(np.sum(np.abs(y.h)) + np.sum(np.abs(y.u))))
        mon.close("energy", mon.call("reference-energy", x.compute_reference_energy),
                  mon.call("reference-energy", y.compute_reference_energy), 1e-12, "reference energy", es)
        mon.close("fock", mon.call("fock", x.construct_fock_matrix, x.h, x.u),
                  mon.call("fock", y.construct_fock_matrix, y.h, y.u), 1e-12, "Fock", es)
        mon.feature("energies")
