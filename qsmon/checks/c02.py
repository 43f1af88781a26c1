"""Expectation values, densities, spectra and reference energies do not depend
on the basis."""

import numpy as np
import scipy.linalg

from qsmon import gen, ref
from qsmon.checks.common import draw, grow, make_basis, make_system, seeds, state

ONE = ("h", "s", "spin_x", "spin_y", "spin_z", "spin_2")
TWO = ("u", "spin_2_tb")


def cases(rng, tier):
    n = 1080 if tier == "quick" else 9000
    for c in seeds(rng, n):
        c["kind"] = gen.SPATIAL_KINDS[draw(c, len(gen.SPATIAL_KINDS), "kind")]
        c["mode"] = ("dual", "adjoint", "block")[draw(c, 3, "mode")]
        c["spin"] = draw(c, 2, "spin") == 0
        yield c


def expectation(snap, D, G):
    out = {}
    for name in ONE:
        if snap[name] is not None:
            out[name] = np.einsum("pq,qp->", snap[name], D)
    if snap["dipole_moment"] is not None:
        out["dipole_moment"] = np.einsum("ipq,qp->i", snap["dipole_moment"], D)
    for name in TWO:
        if snap[name] is not None:
            out[name] = np.einsum(
                "pqrs,rspq->", ref.u4(snap[name]), G, optimize=True
            )
    return out


def magnitudes(snap, D, G):
    a = {k: (np.abs(v) if isinstance(v, np.ndarray) else v) for k, v in snap.items()}
    return {
        k: max(1e-300, float(np.max(np.abs(v))))
        for k, v in expectation(a, np.abs(D), np.abs(G)).items()
    }


def sorted_close(mon, oracle, a, b, tol, detail):
    """Multisets of complex numbers agree: match greedily."""
    a, b = list(a), list(b)
    mon.equal(oracle, len(a), len(b), detail)
    rest = list(b)
    got = []
    for x in a:
        j = int(np.argmin([abs(x - y) for y in rest]))
        got.append(rest.pop(j))
    mon.close(oracle, np.array(a), np.array(got), tol, detail)


def run_case(case, mon, rs):
    lmax = grow(case, 6, 8, huge=12)
    b, bra = make_basis(
        rs, mon, case["kind"], lmax, case["spin"], lmin=2,
        **({"hermitian": True} if case["kind"] == "custom" else {}),
    )
    sysm = make_system(rs, mon, b)
    mode = case["mode"]
    mon.feature("mode:" + mode)
    if ref.u4(b.u).shape[0] > 14:
        mode = "dual"
    l = b.l
    pre = ref.snapshot(b, touch_bra=bool(rs.randint(2)), known_bra=bra)
    real = bool(rs.randint(2))
    four = b.u.ndim == 4
    if mode == "dual":
        C = gen.invertible(rs, l, real)
        Ct = np.linalg.inv(C)
    elif mode == "adjoint":
        C, Ct = gen.invertible(rs, l, real), None
    else:
        n = sysm.n
        unitary = bool(rs.randint(2))
        mk = gen.unitary if unitary else gen.invertible
        C = np.zeros((l, l), dtype=float if real else complex)
        if n > 0:
            C[:n, :n] = mk(rs, n, real)
        if n < l:
            C[n:, n:] = mk(rs, l - n, real)
        Ct = None if unitary else np.linalg.inv(C)
        mon.feature("block-unitary" if unitary else "block-dual")
    D = gen.crandn(rs, (l, l))
    if rs.randint(2):
        D = D + D.conj().T
    G = gen.crandn(rs, (l,) * 4)
    want = expectation(pre, D, G)
    mag = magnitudes(pre, D, G)
    iC = np.linalg.inv(C)
    iCt = np.linalg.inv(C.conj().T if Ct is None else Ct)
    D2 = iC @ D @ iCt
    G2 = ref.transform_2(G, iCt, iC)
    rho = None
    if b.spf is not None and b.dim <= 2 and b.spf[0].size < 4000:
        if b.spf.dtype == (np.conj(b.spf) if bra is None else bra).dtype:
            rho = mon.call("particle-density", sysm.compute_particle_density, D)
    fock = energy = None
    if four and mode == "block":
        energy = mon.call("reference-energy", sysm.compute_reference_energy)
        fock = mon.call(
            "fock", sysm.construct_fock_matrix, sysm.h, sysm.u
        )
    ev = None
    s_ok = pre["s"] is not None and np.min(
        np.linalg.eigvalsh(0.5 * (pre["s"] + pre["s"].conj().T))
    ) > 1e-3
    if s_ok and case["kind"] != "random":
        ev = scipy.linalg.eigvals(pre["h"], pre["s"])

    mon.call("change-basis", sysm.change_basis, C, Ct)
    post = ref.snapshot(b)
    got = expectation(post, D2, G2)
    mag2 = magnitudes(post, D2, G2)
    for k in want:
        mon.close(
            f"expectation:{k}", got[k], want[k], 1e-11, k, max(mag[k], mag2[k])
        )
    mon.equal("expectation-kept", sorted(got), sorted(want), "operators")
    if rho is not None:
        rho2 = mon.call("particle-density", sysm.compute_particle_density, D2)
        sc = max(
            1.0,
            float(np.max(np.abs(post["spf"])) * np.max(np.abs(post["bra_spf"])) * np.sum(np.abs(D2))),
        )
        mon.close("density", rho2, rho, 1e-11, "particle density", sc)
    if ev is not None:
        ev2 = scipy.linalg.eigvals(post["h"], post["s"])
        sorted_close(mon, "spectrum", ev, ev2, 1e-8, "generalized spectrum of h")
    if energy is not None:
        sc = max(1e-300, float(np.sum(np.abs(pre["h"])) + np.sum(np.abs(pre["u"]))))
        mon.close(
            "reference-energy", mon.call(
                "reference-energy", sysm.compute_reference_energy
            ), energy, 1e-11, "reference energy", sc,
        )
        f2 = mon.call("fock", sysm.construct_fock_matrix, sysm.h, sysm.u)
        mon.close(
            "fock-covariant", f2,
            (C.conj().T if Ct is None else Ct) @ fock @ C, 1e-11, "Fock", sc,
        )
    # and back again
    if mode != "adjoint" and not (mode == "block" and Ct is None):
        mon.call("change-basis", sysm.change_basis, iC, iCt)
    else:
        mon.call("change-basis", sysm.change_basis, iC)
    sc = ref.transform_scales(post, iC, iCt)
    ref.compare(mon, "round-trip", ref.snapshot(b), pre, 1e-11, scales=sc)
    mon.equal("round-trip", (sysm.l, state(sysm).l), (l, l), "size")
