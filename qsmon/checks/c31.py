"""The same physical problem in different discretizations, units and sizes."""

import numpy as np

import quantum_systems as qs
from quantum_systems.quantum_dots.one_dim.one_dim_qd import ODHO
from qsmon import ref2d
from qsmon.checks.common import seeds

SHELLS = (1, 3, 6, 10)


def cases(rng, tier):
    k = 1 if tier == "quick" else 15
    for kind, n in (("oscillator", 40), ("wells", 36), ("units", 90), ("mirror", 50), ("shift", 50),
                    ("nested-1d", 60), ("nested-2d", 24), ("field-off", 30), ("field-on", 30),
                    ("barrier-off", 16), ("barrier-axis", 16), ("units-2d", 24)):
        yield from seeds(rng, n * k, kind=kind)


def pair_energies(h, u):
    """All energies of two distinguishable particles."""
    l = len(h)
    H = np.einsum("pr,qs->pqrs", h, np.eye(l)) + np.einsum("pr,qs->pqrs", np.eye(l), h) + u
    H = H.reshape(l * l, l * l)
    return np.linalg.eigvalsh(0.5 * (H + H.conj().T))


def well(rs):
    """A smooth well that binds on its own, and a length on which all looked-at
    functions have died out."""
    k = ("ho", "smooth", "symmetric", "asymmetric", "tilted", "lambda")[rs.randint(6)]
    P = qs.ODQD
    if k == "ho":
        return P.HOPotential(float(rs.uniform(0.7, 1.6))), 8.5
    if k == "smooth":
        return P.DWPotentialSmooth(float(rs.uniform(2, 4))), 7.0
    if k == "symmetric":
        return P.SymmetricDWPotential(float(rs.uniform(0.3, 0.6)), float(rs.uniform(0.5, 1)), float(rs.uniform(-3, 1))), 4.0
    if k == "asymmetric":
        return P.AsymmetricDWPotential(float(rs.uniform(0.8, 1.2)), float(rs.uniform(-1, 1)), float(rs.uniform(-2.5, 0))), 5.0
    if k == "tilted":
        w, d = float(rs.uniform(0.8, 1.5)), float(rs.uniform(-1, 1))
        return (lambda x: 0.5 * w * w * x * x + d * x), 9.0
    w, g = float(rs.uniform(0.8, 1.5)), float(rs.uniform(0.2, 1.5))
    return (lambda x: 0.5 * w * w * x * x + g * np.exp(-x * x)), 8.5


def strength(rs):
    return float(rs.uniform(0.4, 1.2)), (float(rs.uniform(0.3, 2)), -float(rs.uniform(0.3, 1)), 1.0)[rs.randint(3)]


def aligned(f, g, b):
    """Signs that align the functions b (rows g) with the rows f."""
    o = np.real(np.sum(f.conj() * g, axis=1))
    return np.where(o < 0, -1.0, 1.0)


def apply_signs(sg, b):
    d = np.asarray(b.dipole_moment) * sg[None, :, None] * sg[None, None, :]
    u = np.asarray(b.u) * np.einsum("p,q,r,s->pqrs", sg, sg, sg, sg)
    return d, u


def case_oscillator(case, mon, rs):
    """The analytic oscillator basis against sinc-DVR brought to its own
    eigenfunctions by the library's change of basis."""
    w = float(rs.uniform(0.3, 3))
    l = int(rs.randint(2, 6))
    s = 1 / np.sqrt(w)
    a, alpha = strength(rs)
    a = s * float(rs.uniform(0.8, 1.5))
    beta = (0.0, float(rs.uniform(-0.5, 0.5)))[rs.randint(2)]
    L = 9.5 * s
    A = mon.call("odho", ODHO, l, L, 201, omega=w, a=a, alpha=alpha, beta=beta)
    n = int(rs.randint(95, 125))
    B = mon.call("dvr", qs.ODSincDVR, n, L, a=a, alpha=alpha, beta=beta, potential=qs.ODSincDVR.HOPotential(w), u_repr="2d")
    e, C = np.linalg.eigh(B.h)
    mon.call("eigenfunctions", B.change_basis, np.ascontiguousarray(C[:, :l]))
    F = np.array([A.ho_function(B.grid, k) for k in range(l)])
    sg = aligned(F, B.spf, B)
    d, u = apply_signs(sg, B)
    mon.close("one-body", B.h, A.h, 1e-8, "oscillator and sinc-DVR energies", w * l)
    mon.close("functions", B.spf * sg[:, None], F, 1e-6, "oscillator and sinc-DVR functions", w ** 0.25)
    mon.close("dipole", d, A.dipole_moment, 1e-8, "oscillator and sinc-DVR dipole", max(1.0, s) * (2 + l))
    mon.close("two-body", u, A.u, 1e-7, "oscillator and sinc-DVR interaction", max(1.0, abs(alpha) / s))
    mon.close("pair-energies", pair_energies(B.h, B.u), pair_energies(A.h, A.u), 1e-7, "energies of two particles",
              max(1.0, w * l))


def case_wells(case, mon, rs):
    """Finite differences, extrapolated to vanishing spacing, against sinc-DVR."""
    V, L = well(rs)
    l = int(rs.randint(1, 5))
    a, alpha = strength(rs)
    n = int(rs.randint(141, 181))
    kw = dict(a=a, alpha=alpha, potential=V)
    B = mon.call("dvr", qs.ODSincDVR, n, L, u_repr="2d", **kw)
    e, C = np.linalg.eigh(B.h)
    mon.call("eigenfunctions", B.change_basis, np.ascontiguousarray(C[:, :l]))
    m = int(rs.randint(150, 220))
    A1 = mon.call("odqd", qs.ODQD, l, L, m, **kw)
    A2 = mon.call("odqd", qs.ODQD, l, L, 2 * m - 1, **kw)

    def judge(oracle, x1, x2, y, what):
        x1, x2, y = (np.real(np.asarray(v)) for v in (x1, x2, y))
        step = float(np.max(np.abs(x1 - x2)))
        mon.close(oracle, (4 * x2 - x1) / 3, y, 1.0, what, 0.1 * step + 1e-7 * max(1.0, float(np.max(np.abs(y)))))

    judge("one-body", np.diag(A1.h), np.diag(A2.h), np.diag(B.h), "finite differences and sinc-DVR energies")
    if np.min(np.diff(e[: l + 1])) > 0.05:
        judge("dipole", np.abs(A1.dipole_moment), np.abs(A2.dipole_moment), np.abs(B.dipole_moment),
              "finite differences and sinc-DVR dipole")
        judge("two-body", np.abs(A1.u), np.abs(A2.u), np.abs(B.u), "finite differences and sinc-DVR interaction")
        judge("pair-energies", pair_energies(A1.h, A1.u), pair_energies(A2.h, A2.u), pair_energies(B.h, B.u),
              "energies of two particles")
        mon.feature("separated")


def one_dim(mon, which, l, L, n, V, a, alpha, beta, w):
    if which == "odho":
        return mon.call("odho", ODHO, l, L, n, omega=w, a=a, alpha=alpha, beta=beta)
    if which == "odqd":
        return mon.call("odqd", qs.ODQD, l, L, n, a=a, alpha=alpha, beta=beta, potential=V)
    return mon.call("dvr", qs.ODSincDVR, l, L, a=a, alpha=alpha, beta=beta, potential=V, u_repr="4d")


def compare(mon, which, A, B, eh, ed, eu, ef, flip=False, dh=0.0):
    """Elements of B against factors times those of A, up to signs."""
    h, f = np.asarray(A.h) * eh, np.asarray(A.spf) * ef
    mon.close("one-body", B.h, h + dh * np.eye(len(h)), 1e-10, which + " energies")
    if which == "odqd":
        e = np.diag(h).real
        if len(e) > 1 and np.min(np.diff(e)) < 1e-3 * max(1.0, float(np.max(np.abs(e)))):
            return
        # the uppermost function may be nearly degenerate with one not computed
        if abs(np.linalg.norm(np.sum(f.conj() * B.spf, axis=1)) ** 2
               - np.sum(np.sum(np.abs(f) ** 2, axis=1) * np.sum(np.abs(B.spf) ** 2, axis=1))) > 1e-2 * len(e) * float(
                   np.max(np.sum(np.abs(f) ** 2, axis=1))) ** 2:
            mon.true("functions", False, "functions differ")
    sg = aligned(f, B.spf, B)
    d, u = apply_signs(sg, B)
    mon.close("functions", B.spf * sg[:, None], f, 1e-8, which + " functions")
    mon.close("dipole", d, np.asarray(A.dipole_moment) * ed, 1e-9, which + " dipole")
    mon.close("two-body", u, np.asarray(A.u) * eu, 1e-9, which + " interaction")
    mon.feature("compared:" + which)


def case_units(case, mon, rs):
    """Another unit of length: all energies scale alike."""
    which = ("odho", "odqd", "dvr")[case["i"] % 3]
    s = float(2 ** rs.uniform(-3, 3))
    V, L = well(rs)
    L *= float(rs.uniform(0.5, 1.2))
    l = int(rs.randint(1, 6)) if which != "dvr" else int(rs.randint(2, 9))
    n = int(rs.randint(max(l + 3, 12), 70))
    a, alpha = strength(rs)
    beta = (0.0, float(rs.uniform(-0.5, 0.5)))[rs.randint(2)]
    w = float(rs.uniform(0.2, 2))
    A = one_dim(mon, which, l, L, n, V, a, alpha, beta, w)
    B = one_dim(mon, which, l, L / s, n, lambda x: s * s * V(s * x), a / s, alpha * s, beta * s, w * s * s)
    compare(mon, which, A, B, s * s, 1 / s, s * s, np.sqrt(s))


def case_mirror(case, mon, rs):
    """The mirror image of a well."""
    V, L = well(rs)
    L *= float(rs.uniform(0.5, 1.0))
    n = int(rs.randint(16, 70))
    a, alpha = strength(rs)
    which = ("odqd", "dvr")[case["i"] % 2]
    l = int(rs.randint(1, 6)) if which == "odqd" else int(rs.randint(2, 9))
    A = one_dim(mon, which, l, L, n, V, a, alpha, 0.0, 1.0)
    B = one_dim(mon, which, l, L, n, lambda x: V(-x), a, alpha, 0.0, 1.0)
    if which == "dvr":
        r = slice(None, None, -1)
        mon.close("one-body", B.h, A.h[r, r], 1e-11, "mirrored one-body")
        mon.close("two-body", B.u, A.u[r, r, r, r], 1e-11, "mirrored interaction")
        mon.close("dipole", B.dipole_moment, -A.dipole_moment[:, r, r], 1e-11, "mirrored dipole")
        return
    e = np.diag(A.h).real
    mon.close("one-body", B.h, A.h, 1e-9, "mirrored energies")
    if len(e) > 1 and np.min(np.diff(e)) < 1e-3:
        return
    f = np.asarray(A.spf)[:, ::-1]
    sg = aligned(f, B.spf, B)
    d, u = apply_signs(sg, B)
    mon.close("functions", B.spf * sg[:, None], f, 1e-8, "mirrored functions")
    mon.close("dipole", d, -np.asarray(A.dipole_moment), 1e-9, "mirrored dipole")
    mon.close("two-body", u, A.u, 1e-9, "mirrored interaction")
    mon.feature("compared:mirror")


def case_shift(case, mon, rs):
    """Another zero of energy."""
    V, L = well(rs)
    c = float(rs.uniform(-30, 30))
    n = int(rs.randint(16, 70))
    a, alpha = strength(rs)
    which = ("odqd", "dvr")[case["i"] % 2]
    l = int(rs.randint(1, 6)) if which == "odqd" else int(rs.randint(2, 9))
    A = one_dim(mon, which, l, L, n, V, a, alpha, 0.3, 1.0)
    B = one_dim(mon, which, l, L, n, lambda x: V(x) + c, a, alpha, 0.3, 1.0)
    compare(mon, which, A, B, 1, 1, 1, 1, dh=c)


def case_nested_1d(case, mon, rs):
    """A larger basis holds the smaller one."""
    which = ("odho", "odqd")[case["i"] % 2]
    V, L = well(rs)
    l = int(rs.randint(1, 5))
    k = l + int(rs.randint(1, 5))
    n = int(rs.randint(16, 90))
    a, alpha = strength(rs)
    w = float(rs.uniform(0.2, 2))
    A = one_dim(mon, which, l, L, n, V, a, alpha, 0.2, w)
    B = one_dim(mon, which, k, L, n, V, a, alpha, 0.2, w)
    mon.close("one-body", np.asarray(B.h)[:l, :l], A.h, 1e-10, which + ": energies of the smaller basis")
    e = np.diag(B.h).real
    if which == "odqd" and np.min(np.diff(e)) < 1e-3:
        return
    sg = np.concatenate([aligned(np.asarray(A.spf), np.asarray(B.spf)[:l], B), np.ones(k - l)])
    d, u = apply_signs(sg, B)
    mon.close("functions", np.asarray(B.spf)[:l] * sg[:l, None], A.spf, 1e-8, which + ": functions of the smaller basis")
    mon.close("dipole", d[:, :l, :l], A.dipole_moment, 1e-8, which + ": dipole of the smaller basis")
    mon.close("two-body", u[:l, :l, :l, :l], A.u, 1e-8, which + ": interaction of the smaller basis")
    mon.feature("compared:nested")


def case_nested_2d(case, mon, rs):
    l = int(rs.randint(1, 8))
    k = l + int(rs.randint(1, 5))
    w, m = float(rs.uniform(0.3, 2)), float(rs.uniform(0.5, 2))
    n = int(rs.randint(3, 12))
    cls, kw = ((qs.TwoDimensionalHarmonicOscillator, {}),
               (qs.TwoDimensionalDoubleWell, dict(barrier_strength=float(rs.uniform(0.2, 2)), axis=int(rs.randint(2)))))[case["i"] % 2]
    A = mon.call("2d", cls, l, 4.0, n, omega=w, mass=m, **kw)
    B = mon.call("2d", cls, k, 4.0, n, omega=w, mass=m, **kw)
    for name, x, y in (("one-body", B.h[:l, :l], A.h), ("two-body", B.u[:l, :l, :l, :l], A.u),
                       ("dipole", B.dipole_moment[:, :l, :l], A.dipole_moment), ("functions", B.spf[:l], A.spf)):
        mon.close(name, x, y, 1e-11, "2d: elements of the smaller basis")


def case_field_off(case, mon, rs):
    """A dot in no magnetic field is an oscillator: all energies of one and two
    particles agree where whole shells are included."""
    l = SHELLS[rs.randint(3 if case["i"] % 10 else 4)]
    w, m = float(rs.uniform(0.3, 2)), float(rs.uniform(0.5, 2))
    A = mon.call("2d", qs.TwoDimensionalHarmonicOscillator, l, 4.0, 5, omega=w, mass=m)
    B = mon.call("field", qs.TwoDimHarmonicOscB, l, 4.0, 5, omega=w, mass=m, omega_c=0)
    mon.close("one-body", np.linalg.eigvalsh(B.h), np.linalg.eigvalsh(A.h), 1e-11, "no field: one particle")
    mon.close("pair-energies", pair_energies(B.h, B.u), pair_energies(A.h, A.u), 1e-9, "no field: two particles")
    mon.close("dipole", np.linalg.norm(B.dipole_moment), np.linalg.norm(A.dipole_moment), 1e-9, "no field: dipole strength")


def case_field_on(case, mon, rs):
    """In a weak field the energies are those of the oscillator of the
    effective frequency minus omega_c/2 times the angular momentum."""
    l = SHELLS[rs.randint(3)]
    w, m = float(rs.uniform(0.5, 2)), float(rs.uniform(0.5, 2))
    # weak enough for the shells not to cross
    wc = float(rs.uniform(-0.3, 0.3)) * w
    W = np.sqrt(w * w + wc * wc / 4)
    A = mon.call("2d", qs.TwoDimensionalHarmonicOscillator, l, 4.0, 5, omega=W, mass=m)
    B = mon.call("field", qs.TwoDimHarmonicOscB, l, 4.0, 5, omega=w, mass=m, omega_c=wc)
    nm = ref2d.labels(l)
    h = np.asarray(A.h) - 0.5 * wc * np.diag([float(x[1]) for x in nm])
    mon.close("one-body", np.linalg.eigvalsh(B.h), np.linalg.eigvalsh(h), 1e-11, "field: one particle")
    mon.close("pair-energies", pair_energies(B.h, B.u), pair_energies(h, A.u), 1e-9, "field: two particles")
    mon.close("dipole", np.linalg.norm(B.dipole_moment), np.linalg.norm(A.dipole_moment), 1e-9, "field: dipole strength")


def case_barrier_off(case, mon, rs):
    l = int(rs.randint(1, 9))
    w, m = float(rs.uniform(0.3, 2)), float(rs.uniform(0.5, 2))
    A = mon.call("2d", qs.TwoDimensionalHarmonicOscillator, l, 4.0, 5, omega=w, mass=m)
    B = mon.call("2d", qs.TwoDimensionalDoubleWell, l, 4.0, 5, omega=w, mass=m, barrier_strength=0, axis=int(rs.randint(2)))
    for name in ("h", "u", "s", "dipole_moment", "spf"):
        mon.close("barrier-off", getattr(B, name), getattr(A, name), 1e-11, "no barrier: " + name)


def case_barrier_axis(case, mon, rs):
    """Wells along x and along y: the same energies of one and two particles."""
    l = SHELLS[rs.randint(3)]
    kw = dict(omega=float(rs.uniform(0.3, 2)), mass=float(rs.uniform(0.5, 2)), barrier_strength=float(rs.uniform(0.1, 2)))
    A, B = (mon.call("2d", qs.TwoDimensionalDoubleWell, l, 4.0, 5, axis=k, **kw) for k in (0, 1))
    mon.close("one-body", np.linalg.eigvalsh(B.h), np.linalg.eigvalsh(A.h), 1e-9, "wells along x and y: one particle")
    mon.close("pair-energies", pair_energies(B.h, B.u), pair_energies(A.h, A.u), 1e-9, "wells along x and y: two particles")
    if l > 1:
        ea, ca = np.linalg.eigh(A.h)
        eb, cb = np.linalg.eigh(B.h)
        if min(np.min(np.diff(ea)), np.min(np.diff(eb))) > 1e-3:
            da = np.abs(np.einsum("pi,apq,qj->aij", ca.conj(), A.dipole_moment, ca))
            db = np.abs(np.einsum("pi,apq,qj->aij", cb.conj(), B.dipole_moment, cb))
            mon.close("dipole", db[::-1], da, 1e-9, "wells along x and y: dipole")
            mon.feature("compared:axes")


def case_units_2d(case, mon, rs):
    """Another unit of length or mass."""
    l = int(rs.randint(1, 8))
    w, m, n = float(rs.uniform(0.3, 2)), float(rs.uniform(0.5, 2)), int(rs.randint(3, 12))
    s, k = float(2 ** rs.uniform(-2, 2)), (1.0, float(2 ** rs.uniform(-2, 2)))[rs.randint(2)]
    g = s * np.sqrt(k)
    cls, kw, kv = ((qs.TwoDimensionalHarmonicOscillator, {}, {}),
                   (qs.TwoDimensionalDoubleWell, dict(barrier_strength=0.7), dict(barrier_strength=0.7 / g)),
                   (qs.TwoDimHarmonicOscB, dict(omega_c=0.4), dict(omega_c=0.4 * s * s)))[case["i"] % 3]
    A = mon.call("2d", cls, l, 4.0, n, omega=w, mass=m, **kw)
    B = mon.call("2d", cls, l, 4.0 / g, n, omega=w * s * s, mass=m * k, **kv)
    for name, f in (("h", s * s), ("u", g), ("dipole_moment", 1 / g), ("spf", g), ("s", 1)):
        mon.close("units", getattr(B, name), f * np.asarray(getattr(A, name)), 1e-9, "other unit of length: " + name)


def run_case(case, mon, rs):
    mon.feature("kind:" + case["kind"])
    globals()["case_" + case["kind"].replace("-", "_")](case, mon, rs)
