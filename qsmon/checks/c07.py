"""Particle density."""

import numpy as np

import quantum_systems as qs
from qsmon import gen, ref
from qsmon.checks.common import draw, grow, make_system, same_state, seeds, state

KINDS = ("custom", "custom", "custom", "odho", "odqd", "dvr4d", "dvr2d", "tdho", "tdb")


def cases(rng, tier):
    n = 1260 if tier == "quick" else 12000
    for c in seeds(rng, n):
        c["kind"] = KINDS[draw(c, len(KINDS), "kind")]
        c["spin"] = draw(c, 3, "spin") == 0
        yield c


def density(D, ket, bra):
    rho = 0
    for p in range(len(bra)):
        for q in range(len(ket)):
            rho = rho + bra[p] * D[q, p] * ket[q]
    return rho


DENSITIES = ("any", "any", "hermitian", "hermitian", "diagonal", "identity", "occupied",
             "single", "integer", "tiny", "tiny", "mixed-scales", "anti-hermitian", "strided",
             "read-only", "zero")


def density_matrix(rs, l, real):
    k = DENSITIES[rs.randint(len(DENSITIES))]
    D = gen.crandn(rs, (l, l), real)
    if k == "hermitian":
        D = D + D.conj().T
    elif k == "diagonal":
        D = np.diag(np.diag(D)).copy()
    elif k == "identity":
        D = np.eye(l)
    elif k == "occupied":
        D = np.zeros((l, l))
        n = rs.randint(0, l + 1)
        D[np.arange(n), np.arange(n)] = 1 + rs.randint(2)
    elif k == "single":
        p, q = rs.randint(l, size=2)
        x = D[p, q]
        D = np.zeros_like(D)
        D[p, q] = x
    elif k == "integer":
        D = rs.randint(-3, 4, size=(l, l))
    elif k == "tiny":
        D = 10.0 ** rs.uniform(-18, -6) * D
    elif k == "mixed-scales":
        D = D * 10.0 ** rs.uniform(-12, 3, size=(l, l))
        D = D * (10.0 ** rs.uniform(-9, 0, size=l))
    elif k == "anti-hermitian":
        D = D - D.conj().T
    elif k == "strided":
        D = np.repeat(np.repeat(D, 2, axis=0), 3, axis=1)[::2, ::3]
    elif k == "read-only":
        D.flags.writeable = False
    elif k == "zero":
        D = np.zeros_like(D)
    return k, D


def run_case(case, mon, rs):
    kind = case["kind"]
    if kind == "custom":
        l = int(rs.randint(1, grow(case, 5, 9, huge=16 if case["spin"] else 40) + 1))
        real = bool(rs.randint(2))
        b, bra = gen.custom(rs, l, spf=True, real=real, bra=bool(rs.randint(2)))
        if draw(case, 11, "branch1") == 3:
            # a grid of many points
            shape = (l,) + ((int(rs.randint(900, 5000)),), tuple(int(k) for k in rs.randint(30, 80, size=2)),
                            tuple(int(k) for k in rs.randint(8, 20, size=3)))[b.dim - 1]
            b, _ = gen.custom(rs, l, dim=b.dim, spf=False, real=real)
            b.spf = gen.crandn(rs, shape, real)
            bra = None
            if rs.randint(2):
                bra = gen.crandn(rs, shape, real)
                b.bra_spf = bra
            mon.feature("large-grid")
    else:
        b, bra = gen.spatial(rs, kind, grow(case, 5, 8, huge=14))
    mon.feature("basis:" + kind, f"dim:{b.dim}")
    spf0 = ref.cp(b.spf)
    bra0 = ref.cp(bra) if bra is not None else spf0.conj()
    if case["spin"]:
        mon.call("add-spin", b.change_to_general_orbital_basis,
                 anti_symmetrize=bool(rs.randint(2)))
        spf0, bra0 = np.repeat(spf0, 2, axis=0), np.repeat(bra0, 2, axis=0)
        mon.feature("spin-doubled")
    ops = {"basis": b}
    if rs.randint(2):
        ops["system"] = make_system(rs, mon, b)
    pre = ref.snapshot(b, touch_bra=False, known_bra=bra0)
    l = b.l
    for real in (True, False):
        dk, D = density_matrix(rs, l, real)
        mon.feature("D:" + dk)
        herm = np.array_equal(D, D.conj().T)
        if rs.randint(3) == 0:
            D = np.asfortranarray(D)
        D0 = ref.cp(D)
        sc = max(1e-300, float(np.max(density(np.abs(D), np.abs(spf0), np.abs(bra0)))))
        want = density(D, spf0, bra0)
        for name, obj in ops.items():
            rho = mon.call("density:" + name, obj.compute_particle_density, D)
            mon.close("density", rho, want, 1e-12, name, sc)
            mon.equal("grid-shape", rho.shape, spf0.shape[1:], "shape")
            if herm and bra is None:
                mon.close("real", np.imag(rho), 0 * np.real(rho), 1e-12, "imaginary part", sc)
        mon.close("inputs-intact", D, D0, 0, "density matrix")
        # coefficients
        k, ctk, C, Ct = gen.coefficients(rs, l)
        if np.iscomplexobj(Ct) != np.iscomplexobj(C) and Ct is not None:
            C = C.astype(complex)
            Ct = Ct.astype(complex)
        C0, Ct0 = ref.cp(C), ref.cp(Ct)
        D2 = density_matrix(rs, C.shape[1], real)[1]
        ket2 = np.einsum("ap,a...->p...", C, spf0)
        bra2 = np.einsum("pa,a...->p...", C.conj().T if Ct is None else Ct, bra0)
        want = density(D2, ket2, bra2)
        sc = max(1e-300, float(np.max(density(
            np.abs(D2), np.einsum("ap,a...->p...", np.abs(C), np.abs(spf0)),
            np.einsum("pa,a...->p...", np.abs(C.conj().T if Ct is None else Ct), np.abs(bra0)),
        ))))
        mon.feature("C:" + k, "Ct:" + ctk)
        for name, obj in ops.items():
            kw = {} if Ct is None and rs.randint(2) else {"C_tilde": Ct}
            rho = mon.call("density-C:" + name, obj.compute_particle_density, D2, C=C, **kw)
            mon.close("density-C", rho, want, 1e-12, name, sc)
        mon.close("inputs-intact", C, C0, 0, "C")
        mon.close("inputs-intact", Ct, Ct0, 0, "C_tilde")
        same_state(mon, "basis-intact", ref.snapshot(b), pre)
    # same as changing basis first
    other = gen.clone(b)
    mon.call("change-basis", other.change_basis, C, Ct)
    mon.close("density-C-changed", mon.call("density", other.compute_particle_density, D2),
              want, 1e-12, "after changing basis", sc)
    # normalization on the grid for functions orthonormal there
    if kind in ("odqd", "dvr2d", "dvr4d") and not case["spin"]:
        dx = b.grid[1] - b.grid[0]
        rho = mon.call("density", b.compute_particle_density, D)
        mon.close("integral", dx * np.sum(rho), np.trace(D), 1e-9, "integral over the grid",
                  max(1.0, float(np.sum(np.abs(D)))))
        g = gen.clone(b)
        mon.call("add-spin", g.change_to_general_orbital_basis, anti_symmetrize=False)
        Ds = gen.crandn(rs, (2 * l, 2 * l))
        summed = Ds[::2, ::2] + Ds[1::2, 1::2] + Ds[::2, 1::2] + Ds[1::2, ::2]
        # spin-diagonal density matrix: up- and down-part add up
        Du, Dd = Ds[::2, ::2], Ds[1::2, 1::2]
        Ds = np.zeros_like(Ds)
        Ds[::2, ::2], Ds[1::2, 1::2] = Du, Dd
        rs_ = mon.call("density", g.compute_particle_density, Ds)
        ro = mon.call("density", b.compute_particle_density, Du + Dd)
        mon.close("spin-sum", rs_, ro, 1e-11, "spin-summed density",
                  max(1.0, float(np.sum(np.abs(Ds)) * np.max(np.abs(spf0)) ** 2)))
        mon.feature("normalized")
    # no functions: refused
    if draw(case, 9, "branch2") == 0:
        e = qs.BasisSet(2, 1)
        mon.refuses("no-functions", "density without functions", e.compute_particle_density, np.eye(2))
