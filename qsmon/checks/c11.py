"""Sizes and shapes; refusal of misuse."""

import numpy as np

import quantum_systems as qs
from qsmon import gen, ref
from qsmon.checks.common import draw, grow, make_basis, same_state, seeds, state


def cases(rng, tier):
    n = 1260 if tier == "quick" else 10000
    for c in seeds(rng, n):
        c["kind"] = gen.SPATIAL_KINDS[draw(c, len(gen.SPATIAL_KINDS), "kind")]
        c["spin"] = draw(c, 2, "spin") == 0
        yield c


def invariant(mon, obj, n=None):
    b = state(obj)
    l = b.l
    for k in ("h", "s", "spin_x", "spin_y", "spin_z", "spin_2"):
        x = getattr(b, k)
        if x is not None:
            mon.equal("shape", x.shape, (l, l), k)
    for k in ("u", "spin_2_tb"):
        x = getattr(b, k)
        if x is not None:
            mon.true("shape", x.shape in ((l,) * 4, (l,) * 2), f"{k} {x.shape} for l={l}")
    if b.dipole_moment is not None:
        mon.equal("shape", b.dipole_moment.shape, (b.dim, l, l), "dipole_moment")
    if b.spf is not None:
        mon.equal("shape", b.spf.shape[0], l, "spf")
        mon.equal("shape", b.spf.ndim, b.dim + 1, "spf dimensions")
        mon.equal("shape", b.bra_spf.shape, b.spf.shape, "bra_spf")
    if obj is not b:
        mon.equal("partition", obj.l, l, "system and basis size")
        mon.equal("partition", obj.n, n, "occupied")
        mon.equal("partition", obj.m, l - n, "virtual")
        idx = list(range(l))
        mon.equal("partition", idx[obj.o], idx[:n], "occupied range")
        mon.equal("partition", idx[obj.v], idx[n:], "virtual range")
        mon.equal("partition", obj.h[obj.o, obj.o].shape, (n, n), "occupied block")
        mon.equal("partition", obj.h[obj.v, obj.v].shape, (l - n, l - n), "virtual block")


def refused_assignments(mon, rs, b):
    pre = ref.snapshot(b)
    l = b.l
    bad = []
    for d in (-1, 1, int(rs.randint(2, 4))):
        k = l + d
        if k < 1:
            continue
        bad += [
            ("h", np.zeros((k, k))), ("h", np.zeros((l, k))), ("h", np.zeros((k, l))),
            ("s", np.zeros((k, k))), ("s", np.zeros((k, l))), ("s", np.zeros((l, k))),
            ("dipole_moment", np.zeros((b.dim, k, k))),
            ("dipole_moment", np.zeros((b.dim, l, k))),
            ("dipole_moment", np.zeros((b.dim, k, l))),
        ]
        pos = rs.randint(4)
        shp = [l] * 4
        shp[pos] = k
        bad += [("u", np.zeros((k,) * 4)), ("u", np.zeros(shp))]
        g = (2,) * b.dim
        bad += [("spf", np.zeros((k,) + g)), ("bra_spf", np.zeros((k,) + g))]
        if b.includes_spin:
            for s in ("spin_x", "spin_y", "spin_z", "spin_2"):
                bad.append((s, np.zeros((k, k))))
                bad.append((s, np.zeros((l, k))))
            bad.append(("spin_2_tb", np.zeros(shp)))
    bad += [
        ("dipole_moment", np.zeros((b.dim + 1, l, l))),
        ("spf", np.zeros((l,) + (2,) * (b.dim + 1))),
        ("bra_spf", np.zeros((l,) + (2,) * (b.dim + 1))),
    ]
    if b.dim > 1:
        bad += [
            ("dipole_moment", np.zeros((b.dim - 1, l, l))),
            ("dipole_moment", [np.zeros((l, l))] * (b.dim - 1) + [np.zeros((l + 1, l + 1))]),
            ("dipole_moment", [np.zeros((l, l + 1))] + [np.zeros((l, l))] * (b.dim - 1)),
            ("spf", np.zeros((l,) + (2,) * (b.dim - 1))),
            ("bra_spf", np.zeros((l,) + (2,) * (b.dim - 1))),
        ]
    if not b.includes_spin:
        for s in ("spin_x", "spin_y", "spin_z", "spin_2"):
            bad.append((s, np.zeros((l, l))))
        bad.append(("spin_2_tb", np.zeros((l,) * 4)))
        for s in ("sigma_x", "sigma_y", "sigma_z"):
            bad.append((s, np.zeros((2, 2))))
    idx = rs.permutation(len(bad))[:14]
    for i in idx:
        k, x = bad[i]
        mon.refuses("refused-assignment", f"{k} = array{[y.shape for y in x] if isinstance(x, list) else x.shape} for l={l}, dim={b.dim}",
                    setattr, b, k, x)
        mon.feature("refused:" + k)
    same_state(mon, "refused-unchanged", ref.snapshot(b), pre)


def accepted_assignments(mon, rs, b):
    l = b.l
    g = tuple(rs.randint(2, 4, size=b.dim))
    good = {
        "h": gen.herm(rs, l), "s": gen.overlap(rs, l), "u": gen.two_body(rs, l),
        "dipole_moment": np.array([gen.herm(rs, l) for _ in range(b.dim)]),
        "spf": gen.crandn(rs, (l,) + g), "bra_spf": gen.crandn(rs, (l,) + g),
    }
    if b.includes_spin:
        for s in ("spin_x", "spin_y", "spin_z", "spin_2"):
            good[s] = gen.herm(rs, l)
        good["spin_2_tb"] = gen.two_body(rs, l)
    for k, x in good.items():
        mon.call("assign-" + k, setattr, b, k, x)
        mon.close("assigned", getattr(b, k), x, 0, k)


def run_case(case, mon, rs):
    b, _ = make_basis(rs, mon, case["kind"], grow(case, 6, 8, huge=12), case["spin"])
    invariant(mon, b)
    refused_assignments(mon, rs, b)
    l = b.l
    # systems: admissible and inadmissible occupations
    n = (0, l, int(rs.randint(0, l + 1)))[rs.randint(3)]
    if b.includes_spin:
        mk = lambda k, bb=b: qs.GeneralOrbitalSystem(k, bb, anti_symmetrize=False)
        system = mon.call("general-system", mk, n)
        mon.refuses("refused-occupation", f"{l + 1} of {l} functions", mk, l + 1)
        mon.refuses("refused-occupation", "more occupied than functions", mk, l + int(rs.randint(1, 9)))
        mon.refuses("refused-spin-basis", "spin-including basis in a spatial system",
                    qs.SpatialOrbitalSystem, 0, b)
        if l >= 2:
            mon.refuses("refused-spin-basis", "spin-including basis in a spatial system",
                        qs.SpatialOrbitalSystem, 2, b)
    else:
        mk = lambda k: qs.SpatialOrbitalSystem(k, b)
        system = mon.call("spatial-system", mk, 2 * n)
        mon.refuses("refused-occupation", f"{2 * l + 2} particles in {l} orbitals", mk, 2 * l + 2)
        mon.refuses("refused-odd", "odd number of particles", mk, 2 * int(rs.randint(0, l + 1)) + 1)
        mon.refuses("refused-odd", "odd number of particles", mk, 1)
        c = gen.clone(b)
        mon.refuses("refused-occupation", "more particles than spin orbitals",
                    qs.GeneralOrbitalSystem, 2 * l + 1, c)
    invariant(mon, system, n)
    mon.refuses("refused-occupation", "set_system_size", system.set_system_size, l + 1, l)
    invariant(mon, system, n)
    # histories
    for _ in range(int(rs.randint(1, 5))):
        k = rs.randint(5)
        if k == 0:
            _, _, C, Ct = gen.coefficients(rs, system.l, min_cols=max(1, n))
            if C.shape[1] < n:
                continue
            mon.call("change-basis", system.change_basis, C, Ct)
        elif k == 1:
            system = mon.call("copy", system.copy_system)
        elif k == 2 and isinstance(system, qs.SpatialOrbitalSystem) and state(system).s is not None:
            system = mon.call("to-general", system.construct_general_orbital_system)
            n = 2 * n
        elif k == 3:
            mon.call("cast", state(system).cast_to_complex)
        else:
            mon.call("change-module", system.change_module, np)
        invariant(mon, system, n)
        if system.l > 14:
            break
    # too few functions for the occupied ones
    if n >= 2:
        C = gen.crandn(rs, (system.l, n - 1))
        mon.refuses("refused-shrink", f"basis of {n - 1} for {n} occupied",
                    system.copy_system().change_basis, C)
    b = state(system)
    refused_assignments(mon, rs, b)
    # spin bases which are not orthonormal
    c, _ = make_basis(rs, mon, "custom", 3)
    v = gen.unitary(rs, 2)
    e = float(rs.uniform(1e-3, 1)) if rs.randint(2) else float(10 ** rs.uniform(-7, -3))
    wrong = [
        (v[:, 0] * (1 + e), v[:, 1]), (v[:, 0], v[:, 1] * (1 - e)),
        (v[:, 0], v[:, 1] * np.cos(e) + v[:, 0] * np.sin(e)), (v[:, 0], v[:, 0]),
        ([1, 0], [1, 0]), ([1, 1], [0, 1]), ([1, 0], [0, 0]),
        # overlap between the two is purely imaginary or negative
        (v[:, 0], v[:, 1] * np.cos(e) + 1j * v[:, 0] * np.sin(e)),
        (v[:, 0], v[:, 1] * np.cos(e) - v[:, 0] * np.sin(e)),
        (v[:, 0] * (1 - e), v[:, 1] * (1 + e)),
    ]
    a_, b_ = wrong[rs.randint(len(wrong))]
    if rs.randint(2):
        mon.refuses("refused-spin-functions", f"a={a_} b={b_}",
                    gen.clone(c).change_to_general_orbital_basis, a=a_, b=b_)
    else:
        mon.refuses("refused-spin-functions", f"a={a_} b={b_}",
                    qs.GeneralOrbitalSystem, int(rs.randint(0, 2 * c.l + 1)), gen.clone(c), a=a_, b=b_)
    accepted_assignments(mon, rs, c)
    invariant(mon, c)
