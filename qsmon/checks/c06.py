"""Reference energy and Fock matrix against the determinant itself."""

import numpy as np

import quantum_systems as qs
from qsmon import gen, ref
from qsmon.checks.common import draw, grow, make_basis, same_state, seeds, state

KINDS = ("custom", "custom", "custom", "random", "odho", "odqd", "dvr4d", "tdho",
         "tddw", "tdb", "ao")


def cases(rng, tier):
    n = 1260 if tier == "quick" else 12000
    for c in seeds(rng, n):
        c["kind"] = KINDS[draw(c, len(KINDS), "kind")]
        c["spin"] = draw(c, 2, "spin") == 0
        c["fock"] = draw(c, 7, "fock") == 0
        yield c


def general_energy(h, u, n):
    """u anti-symmetrized."""
    e = 0
    for i in range(n):
        e += h[i, i]
        for j in range(n):
            e += 0.5 * u[i, j, i, j]
    return e


def spatial_energy(h, u, n):
    e = 0
    for i in range(n):
        e += 2 * h[i, i]
        for j in range(n):
            e += 2 * u[i, j, i, j] - u[i, j, j, i]
    return e


def fock_matrix(h, u, n, spin):
    f = np.array(h, dtype=np.result_type(h, u, float))
    for i in range(n):
        if spin:
            f = f + u[:, i, :, i]
        else:
            f = f + 2 * u[:, i, :, i] - u[:, i, i, :]
    return f


def run_case(case, mon, rs):
    spin = case["spin"]
    fock = case["fock"]
    plain = False
    lmax = (2 if spin else 4) if fock else grow(case, 5, 9, huge=16)
    given = spin and draw(case, 3, "given") == 0
    if given:
        b, _ = gen.custom(rs, int(rs.randint(1, 2 * lmax + 1)), includes_spin=True,
                          hermitian=bool(rs.randint(2)))
        mon.feature("basis:given-spin")
    else:
        b, _ = make_basis(rs, mon, case["kind"], lmax, **(
            {"hermitian": bool(rs.randint(2))} if case["kind"] == "custom" else {}))
    if rs.randint(3) == 0:
        _, _, C, Ct = gen.coefficients(rs, b.l, ("complex", "real", "fewer", "permutation")[rs.randint(4)])
        mon.call("change-basis", b.change_basis, C, Ct)
    h0, u0 = ref.cp(b.h), ref.cp(b.u)
    if spin:
        l = b.l if given else 2 * b.l
        n = (0, l, int(rs.randint(0, l + 1)), int(rs.randint(0, l + 1)))[rs.randint(4)]
        if draw(case, 2, "branch1") or given:
            plain = rs.randint(4) == 0
            system = mon.call("general-system", qs.GeneralOrbitalSystem, n, b,
                              **({"anti_symmetrize": False} if plain else {}))
        else:
            n = 2 * (n // 2)
            system = mon.call(
                "from-spatial",
                mon.call("spatial-system", qs.SpatialOrbitalSystem, n, b).construct_general_orbital_system,
            )
        h1, u1 = (h0, u0) if given else (ref.double_1(h0), ref.double_2(u0))
        if plain:
            # the documented formulas, of elements without exchange
            mon.feature("general:no-exchange")
            fock = False
        else:
            u1 = ref.anti(u1)
        want = general_energy(h1, u1, n)
    else:
        n = (0, b.l, int(rs.randint(0, b.l + 1)), int(rs.randint(0, b.l + 1)))[rs.randint(4)]
        system = mon.call("spatial-system", qs.SpatialOrbitalSystem, 2 * n, b)
        h1, u1 = h0, u0
        want = spatial_energy(h1, u1, n)
    l = system.l
    mon.feature("n:none" if n == 0 else "n:all" if n == l else "n:some")
    mon.feature("general" if spin else "spatial")
    sc = max(1e-300, float(np.sum(np.abs(np.diag(h1))) + np.max(np.abs(u1)) * n * n * 2))
    pre = ref.snapshot(state(system))
    e = mon.call("reference-energy", system.compute_reference_energy)
    mon.close("energy", e, want, 1e-12, "reference energy", sc)
    mon.true("energy-scalar", np.ndim(e) == 0, "energy is a number")
    if fock:
        # the determinant in Fock space: independent of any index formula
        hh, uu = (h1, u1) if spin else (ref.double_1(h0), ref.anti(ref.double_2(u0)))
        ne = n if spin else 2 * n
        if len(hh) <= 8:
            c = ref.annihilators(len(hh))
            vec = np.zeros(2 ** len(hh))
            vec[0] = 1
            for i in reversed(range(ne)):
                vec = c[i].T @ vec
            Hv = 0
            for p in range(len(hh)):
                for q in range(len(hh)):
                    Hv = Hv + hh[p, q] * (c[p].T @ (c[q] @ vec))
            for r in range(ne):
                for s in range(ne):
                    v = c[s] @ (c[r] @ vec)
                    if not v.any():
                        continue
                    for p in range(ne):
                        for q in range(ne):
                            if uu[p, q, r, s] != 0:
                                Hv = Hv + 0.25 * uu[p, q, r, s] * (c[p].T @ (c[q].T @ v))
            mon.close("determinant-energy", e, vec @ Hv, 1e-11, "<Phi|H|Phi>", sc)
            mon.feature("fock-space")
    # Fock matrix, of the system's own and of other elements
    for which in range(3):
        if which == 0:
            h, u = system.h, system.u
        else:
            real = which == 2
            h = gen.crandn(rs, (l, l), real and bool(rs.randint(2)))
            u = gen.crandn(rs, (l,) * 4, real and bool(rs.randint(2)))
        hc, uc = ref.cp(h), ref.cp(u)
        w = fock_matrix(hc, uc, n, spin)
        fs = max(1e-300, float(np.max(np.abs(hc)) + 3 * max(1, n) * np.max(np.abs(uc))))
        if l > 12 and which > 0:
            break
        f = mon.call("fock", system.construct_fock_matrix, h, u)
        mon.close("fock", f, w, 1e-12, f"elements {which}", fs)
        mon.true("fock-new", not np.shares_memory(f, h), "result is not the input")
        out = np.full((l, l), np.nan, dtype=np.result_type(h, u))
        if rs.randint(2):
            out = np.asfortranarray(gen.crandn(rs, (l, l))).astype(complex, order="F")
        if rs.randint(4) == 0:
            # part of a larger array
            big = gen.crandn(rs, (2 * l, 2 * l))
            out = big[::2, 1::2]
        got = mon.call("fock-out", system.construct_fock_matrix, h, u, out)
        mon.close("fock-out", got, w, 1e-12, "returned", fs)
        mon.close("fock-out", out, w, 1e-12, "output array", fs)
        mon.true("fock-out-same", got is out, "the output array is returned")
        got = mon.call("fock-out", system.construct_fock_matrix, h, u, f=out)
        mon.close("fock-out", got, w, 1e-12, "output array used again", fs)
        mon.close("inputs-intact", h, hc, 0, "h")
        mon.close("inputs-intact", u, uc, 0, "u")
        if which == 0:
            half = 0.5 * np.sum(np.diag(hc)[:n] + np.diag(f)[:n])
            mon.close(
                "half-trace", (1 if spin else 2) * half, want, 1e-11,
                "half the trace of h + f over occupied functions", sc * 4,
            )
    same_state(mon, "system-intact", ref.snapshot(state(system)), pre)
    mon.equal("system-intact", (system.n, system.l, system.m), (n, l, l - n), "sizes")
