"""Reference models: what the operations have to produce, written from the
definitions (index sums), independently of how the code computes it."""

import numpy as np

ARRAYS = (
    "h", "s", "u", "dipole_moment", "spf", "bra_spf",
    "spin_x", "spin_y", "spin_z", "spin_2", "spin_2_tb",
)
SIGMA = (
    np.array([[0, 1], [1, 0]], dtype=complex),
    np.array([[0, -1j], [1j, 0]], dtype=complex),
    np.array([[1, 0], [0, -1]], dtype=complex),
)


def cp(x):
    return None if x is None else np.array(x, copy=True)


def snapshot(basis, touch_bra=True, known_bra=None):
    """Values of everything a user can read from a basis set.  Reading the bra
    functions creates them, so that is optional; they are then taken to be the
    conjugated ket functions (or ``known_bra``)."""
    d = {}
    for name in ARRAYS:
        if name == "bra_spf" and not touch_bra:
            if known_bra is not None:
                d[name] = cp(known_bra)
            else:
                d[name] = None if basis.spf is None else np.conj(basis.spf)
            continue
        d[name] = cp(getattr(basis, name))
    for name in ("sigma_x", "sigma_y", "sigma_z"):
        d[name] = cp(getattr(basis, name))
    d["grid"] = cp(basis.grid)
    d["l"] = basis.l
    d["dim"] = basis.dim
    d["nuclear_repulsion_energy"] = basis.nuclear_repulsion_energy
    d["includes_spin"] = basis.includes_spin
    d["anti_symmetrized_u"] = basis.anti_symmetrized_u
    return d


def u4(u):
    """Four-index form of the two-body elements (expands the diagonal 2d form
    of the sinc-DVR basis)."""
    if u is None or u.ndim == 4:
        return u
    l = u.shape[0]
    r = np.zeros((l, l, l, l), dtype=u.dtype)
    for p in range(l):
        for q in range(l):
            r[p, q, p, q] = u[p, q]
    return r


def transform_1(h, C, Ct):
    return np.einsum("pa,ab,bq->pq", Ct, h, C, optimize=True)


def transform_2(u, C, Ct):
    return np.einsum("pa,qb,abcd,cr,ds->pqrs", Ct, Ct, u, C, C, optimize=True)


def transformed(pre, C, Ct):
    """Expected state after a change of basis."""
    post = dict(pre)
    C = np.asarray(C)
    Ct = np.asarray(Ct)
    post["l"] = C.shape[1]
    for name in ("h", "s", "spin_x", "spin_y", "spin_z", "spin_2"):
        if pre[name] is not None:
            post[name] = transform_1(pre[name], C, Ct)
    for name in ("u", "spin_2_tb"):
        if pre[name] is not None:
            post[name] = transform_2(u4(pre[name]), C, Ct)
    if pre["dipole_moment"] is not None:
        post["dipole_moment"] = np.array(
            [transform_1(d, C, Ct) for d in pre["dipole_moment"]]
        )
    if pre["spf"] is not None:
        post["spf"] = np.einsum("ap,a...->p...", C, pre["spf"])
        post["bra_spf"] = np.einsum("pa,a...->p...", Ct, pre["bra_spf"])
    return post


def double_1(h):
    l = h.shape[0]
    r = np.zeros((2 * l, 2 * l), dtype=complex)
    for sigma in range(2):
        r[sigma::2, sigma::2] = h
    return r


def double_2(u):
    l = u.shape[0]
    r = np.zeros((2 * l,) * 4, dtype=complex)
    for sigma in range(2):
        for tau in range(2):
            r[sigma::2, tau::2, sigma::2, tau::2] = u
    return r


def anti(u):
    return u - np.swapaxes(u, 2, 3)


def pauli(a, b):
    """Pauli matrices in the spin basis (a, b)."""
    v = np.array([np.ravel(a), np.ravel(b)], dtype=complex).T
    return [v.conj().T @ m @ v for m in SIGMA]


def doubled(pre, a, b, anti_symmetrize):
    """Expected state after adding spin to a spatial basis."""
    post = dict(pre)
    l = pre["l"]
    post["l"] = 2 * l
    post["includes_spin"] = True
    post["h"] = double_1(pre["h"])
    post["s"] = double_1(pre["s"])
    post["u"] = double_2(u4(pre["u"]))
    if pre["dipole_moment"] is not None:
        post["dipole_moment"] = np.array(
            [double_1(d) for d in pre["dipole_moment"]]
        )
    for name in ("spf", "bra_spf"):
        if pre[name] is not None:
            post[name] = np.repeat(pre[name], 2, axis=0)
    sig = pauli(a, b)
    tb = 0
    for name, m in zip("xyz", sig):
        S = np.zeros((2 * l, 2 * l), dtype=complex)
        for i in range(2):
            for j in range(2):
                S[i::2, j::2] = 0.5 * m[i, j] * pre["s"]
        post[f"spin_{name}"] = S
        post[f"sigma_{name}"] = m
        tb = tb + np.einsum("pr,qs->pqrs", S, S)
    post["spin_2"] = 0.75 * double_1(pre["s"])
    post["spin_2_tb"] = tb
    if anti_symmetrize:
        post["u"] = anti(post["u"])
        post["spin_2_tb"] = anti(post["spin_2_tb"])
        post["anti_symmetrized_u"] = True
    return post


def annihilators(n_orb):
    """Jordan-Wigner annihilation operators on the 2^n_orb Fock space."""
    z = np.diag([1.0, -1.0])
    a = np.array([[0.0, 1.0], [0.0, 0.0]])
    ops = []
    for p in range(n_orb):
        m = np.eye(1)
        for k in range(n_orb):
            m = np.kron(m, z if k < p else (a if k == p else np.eye(2)))
        ops.append(m)
    return ops


def fock_one_body(h, c):
    n = len(c)
    return sum(
        h[p, q] * (c[p].T @ c[q]) for p in range(n) for q in range(n)
    )


def fock_two_body(u, c):
    """sum u[p,q,r,s] c+_p c+_q c_s c_r  (no prefactor)."""
    n = len(c)
    pairs = {(p, q): c[q] @ c[p] for p in range(n) for q in range(n)}
    dim = c[0].shape[0]
    out = np.zeros((dim, dim), dtype=complex)
    for p in range(n):
        for q in range(n):
            if p == q:
                continue
            acc = np.zeros((dim, dim), dtype=complex)
            for r in range(n):
                for s in range(n):
                    if r != s and u[p, q, r, s] != 0:
                        acc += u[p, q, r, s] * pairs[(r, s)]
            out += pairs[(p, q)].T @ acc
    return out


def transform_scales(pre, C, Ct):
    """Magnitude of the largest term summed per quantity, so that cancellation
    does not turn rounding errors into deviations."""
    A = {k: (np.abs(v) if isinstance(v, np.ndarray) else v) for k, v in pre.items()}
    t = transformed(A, np.abs(C), np.abs(Ct))
    return {
        k: max(1e-300, float(np.max(t[k]))) if t[k] is not None and t[k].size else 1.0
        for k in ARRAYS
    }


def compare(
    mon, oracle, got, want, tol=1e-10, skip=(), names=ARRAYS, scales=None
):
    for name in names:
        if name in skip:
            continue
        g, w = got[name], want[name]
        if name in ("u", "spin_2_tb"):
            g, w = u4(g), u4(w)
        mon.close(
            f"{oracle}:{name}", g, w, tol, name,
            scale=None if scales is None else scales[name],
        )
