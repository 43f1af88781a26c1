"""Spatial system versus the general-orbital system built from it."""

import numpy as np

import quantum_systems as qs
from qsmon import gen, ref
from qsmon.checks import c08
from qsmon.checks.common import draw, grow, make_basis, same_state, seeds, state

KINDS = ("custom", "custom", "custom", "random", "odho", "odqd", "dvr4d", "tdho",
         "tddw", "tdb", "ao", "dvr2d")


def cases(rng, tier):
    n = 1260 if tier == "quick" else 10000
    for c in seeds(rng, n):
        c["kind"] = KINDS[draw(c, len(KINDS), "kind")]
        c["op"] = c08.OPERATORS[draw(c, len(c08.OPERATORS), "op")]
        yield c


def energy(h, u, n, spin):
    if spin:
        return np.trace(h[:n, :n]) + 0.5 * np.einsum("ijij->", u[:n, :n, :n, :n])
    return (
        2 * np.trace(h[:n, :n])
        + 2 * np.einsum("ijij->", u[:n, :n, :n, :n])
        - np.einsum("ijji->", u[:n, :n, :n, :n])
    )


def run_case(case, mon, rs):
    b, _ = make_basis(rs, mon, case["kind"], grow(case, 6, 8, huge=12), **(
        {"dipole": True} if case["kind"] == "custom" and case["op"] in c08.DIPOLE else {}))
    if rs.randint(3) == 0:
        _, _, C, Ct = gen.coefficients(rs, b.l, ("complex", "real", "fewer", "unitary")[rs.randint(4)])
        mon.call("change-basis", b.change_basis, C, Ct)
    n = int(rs.randint(0, b.l + 1))
    spas = mon.call("spatial-system", qs.SpatialOrbitalSystem, 2 * n, b)
    op, dh, fu, rec = c08.make_operator(rs, mon, case["op"], b.dim, b.l)
    if op is not None:
        mon.call("attach", spas.set_time_evolution_operator, op)
    mon.feature("operator:" + case["op"])
    pre = ref.snapshot(b)
    four = b.u.ndim == 4
    times = [0.0, float(rs.uniform(-3, 3)), float(rs.uniform(0, 30))]
    ht = [ref.cp(spas.h_t(t)) for t in times]
    ut = [ref.u4(ref.cp(spas.u_t(t))) for t in times]
    e0 = mon.call("reference-energy", spas.compute_reference_energy) if four else None
    name, a_, b_ = gen.spin_basis(rs)
    mon.feature("spin-basis:" + name)
    kw = {} if name == "default" and rs.randint(2) else {"a": a_, "b": b_}
    if rs.randint(3) == 0:
        # not the first one built from this system
        first = mon.call("construct-general", spas.construct_general_orbital_system)
        mon.call("general-h_t", first.h_t, times[1])
        mon.feature("built-before")
    gos = mon.call("construct-general", spas.construct_general_orbital_system, **kw)
    mon.true("kind", type(gos) is qs.GeneralOrbitalSystem, str(type(gos)))
    mon.equal("sizes", (gos.n, gos.l, gos.m), (2 * n, 2 * pre["l"], 2 * (pre["l"] - n)), "n, l, m")
    mon.equal("sizes", (gos.o, gos.v), (slice(0, 2 * n), slice(2 * n, 2 * pre["l"])), "slices")
    mon.equal("sizes", (spas.n, spas.l), (n, pre["l"]), "spatial sizes")
    same_state(mon, "spatial-kept", ref.snapshot(b), pre)
    for k in ("h", "s", "u", "dipole_moment", "spf"):
        x, y = getattr(spas, k), getattr(gos, k)
        if x is not None:
            mon.true("independent-memory", not np.shares_memory(x, y), k)
    want = ref.doubled(pre, a_, b_, True)
    ref.compare(mon, "elements", ref.snapshot(state(gos)), want, 1e-11)
    sc = max(1e-300, float(np.sum(np.abs(pre["h"])) + np.max(np.abs(pre["u"])) * 4 * (n + 1) ** 2))
    if four:
        mon.close("energy", mon.call("reference-energy", gos.compute_reference_energy), e0,
                  1e-11, "reference energy", sc)
        fs = mon.call("fock", spas.construct_fock_matrix, spas.h, spas.u)
        fg = mon.call("fock", gos.construct_fock_matrix, gos.h, gos.u)
        mon.close("fock", fg, ref.double_1(fs), 1e-11, "Fock matrix", sc)
    # under the time-evolution operator
    for k in ("has_one_body_time_evolution_operator", "has_two_body_time_evolution_operator"):
        mon.equal("indicator", getattr(gos, k), getattr(spas, k), k)
    for i, t in enumerate(times):
        h = mon.call("general-h_t", gos.h_t, t)
        u = mon.call("general-u_t", gos.u_t, t)
        st = max(sc, float(np.sum(np.abs(ht[i])) + np.max(np.abs(ut[i])) * 4 * (n + 1) ** 2))
        mon.close("h_t", h, ref.double_1(ht[i]), 1e-11, f"t={t}", st)
        mon.close("u_t", u, ref.anti(ref.double_2(ut[i])), 1e-11, f"t={t}", st)
        mon.close("energy_t", energy(h, u, 2 * n, True), energy(ht[i], ut[i], n, False),
                  1e-11, f"reference energy at {t}", st)
        if four:
            mon.close(
                "fock_t", mon.call("fock", gos.construct_fock_matrix, h, u),
                ref.double_1(mon.call("fock", spas.construct_fock_matrix, ht[i], ut[i])),
                1e-11, f"t={t}", st,
            )
    # in-place changes to what the spatial operator holds
    if op is not None and rs.randint(2):
        held = [v for v in vars(op).values() if isinstance(v, (np.ndarray, list))]
        kept = [list(v) if isinstance(v, list) else v.copy() for v in held]
        for v in held:
            v[:] = [x + 3.0 for x in v] if isinstance(v, list) else v + 3.0
            mon.feature("operator-contents")
        for i, t in enumerate(times):
            mon.close("independent-operator", mon.call("general-h_t", gos.h_t, t), ref.double_1(ht[i]), 1e-11, f"t={t}",
                      max(sc, float(np.sum(np.abs(ht[i])))))
        for v, w in zip(held, kept):
            v[:] = w
    # densities
    if pre["spf"] is not None and pre["spf"].dtype == pre["bra_spf"].dtype:
        Du, Dd = gen.crandn(rs, (pre["l"],) * 2), gen.crandn(rs, (pre["l"],) * 2)
        D = np.zeros((2 * pre["l"],) * 2, dtype=complex)
        D[::2, ::2], D[1::2, 1::2] = Du, Dd
        ds = max(1e-300, float(np.sum(np.abs(D)) * np.max(np.abs(pre["spf"])) * np.max(np.abs(pre["bra_spf"]))))
        mon.close("density", mon.call("density", gos.compute_particle_density, D),
                  mon.call("density", spas.compute_particle_density, Du + Dd), 1e-11,
                  "spin-summed density", ds)
    # the same system directly from the spatial basis
    twin = gen.clone(b)
    direct = mon.call("direct", qs.GeneralOrbitalSystem, 2 * n, twin, **kw)
    same_state(mon, "direct", ref.snapshot(state(direct)), ref.snapshot(state(gos)), 1e-13)
    mon.equal("direct", (direct.n, direct.l), (gos.n, gos.l), "sizes")
    # independence: changing the general system leaves the spatial one alone
    C = gen.invertible(rs, gos.l)
    mon.call("change-basis", gos.change_basis, C)
    same_state(mon, "independent", ref.snapshot(b), pre)
    for i, t in enumerate(times):
        mon.close("independent-h_t", mon.call("h_t", spas.h_t, t), ht[i], 1e-13, f"t={t}")
        mon.close("independent-u_t", ref.u4(mon.call("u_t", spas.u_t, t)), ut[i], 1e-13, f"t={t}")
        if case["op"] != "custom":
            s = ref.snapshot(state(gos), touch_bra=False)
            w = s["h"] if dh is None else s["h"] + dh(t, s["dipole_moment"])
            mon.close("follows-h_t", mon.call("h_t", gos.h_t, t), w, 1e-11, f"t={t}",
                      max(1.0, float(np.max(np.abs(w)))))
    # and the other way around
    g0 = ref.snapshot(state(gos))
    mon.call("change-basis", spas.change_basis, gen.unitary(rs, spas.l))
    same_state(mon, "independent", ref.snapshot(state(gos)), g0)
    # anti-symmetrization only on request
    g2 = mon.call("construct-general", spas.construct_general_orbital_system,
                  anti_symmetrize=False)
    mon.close("plain", ref.u4(g2.u), ref.double_2(ref.u4(spas.u)), 1e-12, "u not anti-symmetrized")
