"""Spin operators: algebra, total spin, and behaviour in many-body space."""

import itertools

import numpy as np

import quantum_systems as qs
from qsmon import gen, ref
from qsmon.checks.common import draw, grow, seeds, state

KINDS = ("custom", "custom", "odho", "odqd", "dvr4d", "tdho", "tddw", "tdb", "ao", "dvr2d")


def cases(rng, tier):
    n = 900 if tier == "quick" else 6000
    for c in seeds(rng, n):
        c["kind"] = KINDS[draw(c, len(KINDS), "kind")]
        c["fock"] = draw(c, 2, "fock") == 0
        yield c


def comm(a, b, m):
    return a @ m @ b - b @ m @ a


def one_body_facts(mon, b, s, S, tol, tag):
    si = np.linalg.inv(s)
    sc = float(np.max(np.abs(s))) * 10
    for k in range(3):
        mon.close("hermitian", S[k], S[k].conj().T, tol, f"{tag} spin {k}", sc)
        mon.close(
            "commutator", comm(S[k], S[(k + 1) % 3], si), 1j * S[(k + 2) % 3], tol,
            f"{tag} [S{k}, S{(k + 1) % 3}]", sc,
        )
    mon.close(
        "one-body-square", b.spin_2, sum(x @ si @ x for x in S), tol, tag, sc
    )
    mon.close("one-body-square", b.spin_2, 0.75 * s, tol, f"{tag} 3/4 overlap", sc)
    tb = sum(np.einsum("pr,qs->pqrs", x, x) for x in S)
    if b.anti_symmetrized_u:
        tb = ref.anti(tb)
    mon.close("two-body-square", b.spin_2_tb, tb, min(tol, 1e-9), tag, sc * sc / 10)


def determinants(mon, b):
    """<S^2> of determinants by the Slater-Condon rules, orthonormal orbitals
    in the original (interleaved) order."""
    l = b.l
    f = 1.0
    tb = b.spin_2_tb if b.anti_symmetrized_u else ref.anti(b.spin_2_tb)

    def s2(occ):
        occ = list(occ)
        return np.trace(b.spin_2[np.ix_(occ, occ)]) + f * np.einsum(
            "ijij->", tb[np.ix_(occ, occ, occ, occ)]
        )

    mon.close("determinant", s2([]), 0, 1e-10, "vacuum")
    mon.close("determinant", s2([0]), 0.75, 1e-9, "one particle")
    mon.close("determinant", s2([0, 1]), 0, 1e-9, "closed shell")
    mon.close("determinant", s2(range(l)), 0, 1e-8, "all occupied")
    if l >= 4:
        mon.close("determinant", s2([0, 2]), 2, 1e-9, "parallel pair")
        mon.close("determinant", s2([1, 3]), 2, 1e-9, "parallel pair")
        mon.close("determinant", s2([0, 3]), 1, 1e-9, "anti-parallel pair")
    if l >= 6:
        mon.close("determinant", s2([0, 2, 4]), 3.75, 1e-9, "three parallel")


def many_body(mon, b, sz_tag):
    """Exact many-body operators on Fock space (orthonormal orbitals)."""
    c = ref.annihilators(b.l)
    S = [ref.fock_one_body(x, c) for x in (b.spin_x, b.spin_y, b.spin_z)]
    half = 0.5 if b.anti_symmetrized_u else 1.0
    S2 = ref.fock_one_body(b.spin_2, c) + half * ref.fock_two_body(b.spin_2_tb, c)
    mon.close("fock:S2", S2, sum(x @ x for x in S), 1e-8, "S^2 = Sx^2+Sy^2+Sz^2")
    ev = np.linalg.eigvalsh(0.5 * (S2 + S2.conj().T))
    spins = 0.5 * (np.sqrt(np.abs(1 + 4 * ev)) - 1)
    mon.close("fock:eigenvalues", 2 * spins, np.round(2 * spins), 1e-6, "s(s+1)")
    # multiplicities: product of l/2 copies of (2 singlets + 1 doublet)
    want = {0: 1}
    mult = {0.0: 2, 0.5: 1}
    cur = {0.0: 1}
    for _ in range(b.l // 2):
        nxt = {}
        for s, k in cur.items():
            nxt[s] = nxt.get(s, 0) + 2 * k
            nxt[s + 0.5] = nxt.get(s + 0.5, 0) + k
            if s > 0:
                nxt[s - 0.5] = nxt.get(s - 0.5, 0) + k
        cur = nxt
    dims = {}
    for x in np.round(2 * spins).astype(int):
        dims[int(x)] = dims.get(int(x), 0) + 1
    mon.equal(
        "fock:multiplicities", dims,
        {int(2 * s): int(k * (2 * s + 1)) for s, k in cur.items()}, "S^2 spectrum",
    )
    for k in range(3):
        mon.close(
            "fock:algebra", comm(S[k], S[(k + 1) % 3], np.eye(len(S2))),
            1j * S[(k + 2) % 3], 1e-8, f"[S{k}, S{(k + 1) % 3}]",
        )
    H = ref.fock_one_body(b.h, c) + 0.5 * half * ref.fock_two_body(b.u, c)
    sc = max(1.0, float(np.max(np.abs(H))))
    for k in range(3):
        mon.close("fock:H-commutes", H @ S[k] - S[k] @ H, 0 * H, 1e-8, f"[H, S{k}]", sc)
    mon.close("fock:H-commutes", H @ S2 - S2 @ H, 0 * H, 1e-8, "[H, S^2]", sc)


def run_case(case, mon, rs):
    lmax = 2 if case["fock"] else grow(case, 6, 8, huge=12)
    if case["fock"] and draw(case, 12, "branch1") == 0:
        lmax = 3
    if case["kind"] == "custom":
        b, _ = gen.custom(rs, int(rs.randint(1, lmax + 1)))
    elif case["kind"] == "ao":
        b, _ = gen.spatial(rs, "ao", 2)
        if case["fock"] and b.l > 2:
            case = dict(case, fock=False)
    else:
        b, _ = gen.spatial(rs, case["kind"], lmax)
    mon.feature("basis:" + case["kind"])
    cond = 1.0
    if case["kind"] == "custom" and b.l > 1 and rs.randint(3) == 0:
        # nearly linearly dependent orbitals, of any norm
        cond = 10.0 ** rs.uniform(1, 9)
        q = np.linalg.qr(gen.crandn(rs, (b.l, b.l), bool(rs.randint(2))))[0]
        w = np.exp(np.linspace(0, -np.log(cond), b.l))
        s = q @ np.diag(w) @ q.conj().T
        b.s = 10.0 ** rs.uniform(-3, 3) * 0.5 * (s + s.conj().T)
        mon.feature("nearly-dependent")
    s0 = ref.cp(b.s)
    name, a_, b_ = gen.spin_basis(rs)
    mon.feature("spin-basis:" + name)
    anti = bool(rs.randint(2)) or b.u.ndim == 2
    if rs.randint(2):
        mon.call("add-spin", b.change_to_general_orbital_basis, a=a_, b=b_,
                 anti_symmetrize=anti)
        view = b
    else:
        view = mon.call("general-system", qs.GeneralOrbitalSystem,
                        int(rs.randint(0, 2 * b.l + 1)), b, a=a_, b=b_,
                        anti_symmetrize=anti)
    sig = ref.pauli(a_, b_)
    S = []
    for k, x in enumerate("xyz"):
        w = 0.5 * np.kron(s0, sig[k])
        S.append(w)
        mon.close("definition", getattr(view, f"spin_{x}"), w, 1e-12, f"spin_{x}", float(np.max(np.abs(s0))))
        mon.close("pauli", getattr(b, f"sigma_{x}"), sig[k], 1e-12, f"sigma_{x}")
    one_body_facts(mon, b, b.s, S, max(1e-10, 1e-13 * cond), "initial")
    if cond > 1e4:
        return
    orthonormal = np.max(np.abs(s0 - np.eye(len(s0)))) < 1e-9
    mon.feature("orthonormal" if orthonormal else "non-orthonormal")
    # any basis change
    if rs.randint(3):
        kind = ("unitary", "complex", "real", "permutation")[rs.randint(4)]
        _, _, C, _ = gen.coefficients(rs, b.l, kind, "none")
        mon.call("change-basis", view.change_basis, C)
        mon.feature("changed:" + kind)
        S = [C.conj().T @ x @ C for x in S]
        for x, w in zip("xyz", S):
            mon.close("covariant", getattr(view, f"spin_{x}"), w, 1e-10, f"spin_{x}", 10 * float(np.max(np.abs(w))))
        one_body_facts(mon, b, b.s, S, max(1e-9, 1e-12 * cond), "changed")
        if rs.randint(2):
            iC = np.linalg.inv(C)
            mon.call("change-basis", view.change_basis, iC)
        orthonormal = np.max(np.abs(b.s - np.eye(b.l))) < 1e-9
    # orthonormalize, keeping pairs together (Loewdin in the spatial overlap)
    if not orthonormal:
        w, v = np.linalg.eigh(0.5 * (b.s + b.s.conj().T))
        X = v @ np.diag(1 / np.sqrt(w)) @ v.conj().T
        mon.call("change-basis", view.change_basis, X)
        mon.close("orthonormalized", b.s, np.eye(b.l), 1e-9, "overlap")
    if not anti and rs.randint(2):
        mon.call("anti-symmetrize", b.anti_symmetrize_two_body_elements)
    if case["fock"] and b.l <= 6:
        many_body(mon, b, name)
        mon.feature("many-body")
    # determinants of pairs, in a fresh interleaved orthonormal basis
    if np.max(np.abs(s0 - np.eye(len(s0)))) < 1e-9:
        b2 = qs.BasisSet(len(s0), 1)
        b2.h, b2.s, b2.u = np.eye(len(s0)), np.eye(len(s0)), np.zeros((len(s0),) * 4)
        mon.call("add-spin", b2.change_to_general_orbital_basis, a=a_, b=b_,
                 anti_symmetrize=bool(rs.randint(2)))
        determinants(mon, b2)
        mon.feature("determinants")
    # static helper, with column vectors of any type
    vecs = [np.array(v).reshape(-1, 1) for v in (a_, b_)]
    for x, w in zip(mon.call("pauli", qs.BasisSet.setup_pauli_matrices, *vecs, np), sig):
        mon.close("pauli", x, w, 1e-12, "setup_pauli_matrices")
    l = int(rs.randint(1, 4))
    sp = gen.overlap(rs, l)
    S = [0.5 * np.kron(sp, m) for m in sig]
    one, two = mon.call(
        "spin-squared", qs.BasisSet.setup_spin_squared_operator, *S,
        np.kron(sp, np.eye(2)), np,
    )
    mon.close("spin-squared", one, 0.75 * np.kron(sp, np.eye(2)), 1e-10, "one-body")
    mon.close(
        "spin-squared", two, sum(np.einsum("pr,qs->pqrs", x, x) for x in S), 1e-12,
        "two-body",
    )
