"""Every shipped basis set is a valid discretized quantum system."""

import os
import pickle
import struct

import numpy as np

import quantum_systems as qs
from quantum_systems.quantum_dots.one_dim.one_dim_qd import ODHO
from qsmon import gen, mols, ref
from qsmon.mon import HarnessError, Violation
from qsmon.variants import Draws
from qsmon.checks.common import seeds, state

# how many of each kind a worker compares with a process of its own (the
# two-dimensional ones have to be compiled anew there)
LIMIT = {"tdho": 2, "tddw": 1, "tdb": 4, "ao": 4, "rhf": 4, "odqd": 16}

KINDS = ("odho", "odqd", "odqd", "dvr2d", "dvr4d", "tdho", "tddw", "tdb", "ao", "rhf")


def cases(rng, tier):
    yield dict(i=0, kind="smooth-double-well", seed=rng.randrange(2**31))
    n = 40 if tier == "quick" else 700
    for kind in KINDS:
        k = n // 2 if kind in ("tddw", "tdb") else n
        yield from seeds(rng, k, kind=kind, tier=tier)


def recipe(rs, kind, case):
    """A function constructing the basis set, with fixed parameters."""
    l = int(rs.randint(1, 7))
    more = rs.randint(6) == 0
    par = dict(
        a=gen.wide(rs, float(rs.uniform(0.1, 1)), -3, 2, 8),
        alpha=gen.wide(rs, float(rs.uniform(0.1, 2)), -4, 4, 8),
        beta=gen.wide(rs, float(rs.uniform(-0.5, 0.5)), -4, 2, 8),
    )
    if kind in ("odho", "odqd") and more:
        l = int(rs.randint(7, 19))
    if kind == "odho":
        L, n, omega = float(rs.uniform(3, 9)), int(rs.randint(21, 62)), gen.wide(rs, float(rs.uniform(0.1, 2)), -3, 2, 8)
        return lambda: ODHO(l, L, n, omega=omega, **par)
    if kind == "odqd":
        st = int(rs.randint(2**31))
        L, n = gen.wide(rs, float(rs.uniform(3, 9)), -1, 2, 8), int(rs.randint(21, 62))
        if rs.randint(8) == 0:
            return lambda: qs.ODQD(l, L, n, **par)
        return lambda: qs.ODQD(l, L, n, potential=pot(st), **par)
    if kind in ("dvr2d", "dvr4d"):
        st = int(rs.randint(2**31))
        L, l = gen.wide(rs, float(rs.uniform(2, 9)), -1, 2, 8), int(rs.randint(7, 25)) if more else max(2, l)
        return lambda: qs.ODSincDVR(l, L, potential=pot(st), u_repr=kind[3:], **par)
    omega, mass = float(rs.uniform(0.2, 2)), float(rs.uniform(0.5, 2)) if rs.randint(2) else 1
    omega, mass = gen.wide(rs, omega, -2, 2, 8), gen.wide(rs, mass, -2, 1.5, 12) if mass != 1 else 1
    R, n = float(rs.uniform(1, 6)), int(rs.randint(2, 9))
    if more:
        l = int(rs.randint(7, 11)) if kind == "tdho" else int(rs.randint(6, 8))
    if kind == "tdho":
        return lambda: qs.TwoDimensionalHarmonicOscillator(l, R, n, omega=omega, mass=mass)
    if kind == "tddw":
        b, ax = gen.wide(rs, float(rs.uniform(0, 4)), -3, 3, 8), int(rs.randint(2))
        return lambda: qs.TwoDimensionalDoubleWell(l, R, n, omega=omega, mass=mass, barrier_strength=b, axis=ax)
    if kind == "tdb":
        wc = gen.wide(rs, float(rs.uniform(-2, 2)), -3, 1.5, 8) if rs.randint(3) else 0
        return lambda: qs.TwoDimHarmonicOscB(l, R, n, omega=omega, mass=mass, omega_c=wc)
    name, spec, charge, basis = mols.draw(rs)
    if basis == "cc-pvdz":
        basis = "6-31g"
    build = qs.construct_pyscf_system_ao if kind == "ao" else qs.construct_pyscf_system_rhf
    return lambda: state(mols.quietly(build, spec, basis=basis, charge=charge, add_spin=False, **mols.extra(basis)))


# -- a process in which nothing has been constructed ----------------------------


class Pristine:
    """A process forked before anything was constructed, which forks once more
    for each request, so that each is answered as if it were the first."""

    def __init__(self):
        self.pid = None

    def start(self):
        r1, self.w = os.pipe()
        self.r, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid:
            os.close(r1)
            os.close(w2)
            return
        os.close(self.w)
        os.close(self.r)
        try:
            while True:
                msg = read(r1)
                if msg is None:
                    break
                pid = os.fork()
                if not pid:
                    try:
                        out = answer(*pickle.loads(msg))
                    except BaseException as e:  # noqa: B902
                        out = f"{type(e).__name__}: {e}"
                    write(w2, pickle.dumps(out))
                    os._exit(0)
                os.waitpid(pid, 0)
        finally:
            os._exit(0)

    def ask(self, *args):
        write(self.w, pickle.dumps(args))
        msg = read(self.r)
        if msg is None:
            raise HarnessError("the pristine process is gone")
        return pickle.loads(msg)


def write(fd, data):
    data = struct.pack("<q", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def read(fd):
    def take(n):
        out = b""
        while len(out) < n:
            x = os.read(fd, n - len(out))
            if not x:
                return None
            out += x
        return out

    head = take(8)
    return None if head is None else take(struct.unpack("<q", head)[0])


def answer(seed, vary, kind, case):
    b = recipe(Draws(seed, vary), kind, case)()
    return {k: None if getattr(b, k) is None else np.array(getattr(b, k)) for k in ("h", "s", "u", "dipole_moment")}


PRISTINE = Pristine()
ASKED = {}


def pot(st):
    return gen.potential(np.random.RandomState(st))[1]


def judge(mon, b, oracle, repulsive=True, dvr2d=False):
    l = b.l
    h, s = np.asarray(b.h), np.asarray(b.s)
    u = ref.u4(np.asarray(b.u))
    mon.equal(oracle + "size", (h.shape, s.shape, u.shape), ((l, l), (l, l), (l,) * 4), "shapes")
    for name, x in (("h", h), ("s", s), ("u", u)):
        mon.true(oracle + "finite", np.all(np.isfinite(x)), f"{name} is finite")
    sc = max(1.0, float(np.max(np.abs(h))))
    mon.close(oracle + "hermitian:h", h, h.conj().T, 1e-11, "h", sc)
    mon.close(oracle + "hermitian:s", s, s.conj().T, 1e-11, "s")
    mon.true(oracle + "positive:s", np.linalg.eigvalsh(s)[0] > 1e-9, "positive definite overlap")
    d = b.dipole_moment
    if d is not None:
        d = np.asarray(d)
        mon.equal(oracle + "size", d.shape, (b.dim, l, l), "dipole shape")
        mon.true(oracle + "finite", np.all(np.isfinite(d)), "dipole is finite")
        for x in d:
            mon.close(oracle + "hermitian:dipole", x, x.conj().T, 1e-11, "dipole")
    mon.close(oracle + "exchange", u, u.transpose(1, 0, 3, 2), 1e-11, "exchange of the particles")
    mon.close(oracle + "hermitian:u", u, u.conj().transpose(2, 3, 0, 1), 1e-11, "u")
    m = u.reshape(l * l, l * l)
    if repulsive and l <= 20:
        e = np.linalg.eigvalsh(0.5 * (m + m.conj().T))
        mon.true(oracle + "repulsive", e[0] > -1e-8 * max(1.0, e[-1]), f"lowest eigenvalue of the interaction {e[0]}")
    if b.spf is not None:
        mon.equal(oracle + "size", (b.spf.shape[0], b.bra_spf.shape), (l, b.spf.shape), "functions")
        mon.true(oracle + "finite", np.all(np.isfinite(np.asarray(b.spf))), "functions are finite")


def run_case(case, mon, rs):
    kind = case["kind"]
    mon.feature("kind:" + kind)
    if kind == "smooth-double-well":
        try:
            b = mon.call("construct-smooth-double-well", qs.TwoDimSmoothDoubleWell, 3, 4, 5)
        except Violation as v:
            v.key = "TwoDimSmoothDoubleWell(3, 4, 5):" + v.key.split(":")[-1]
            raise
        judge(mon, b, "smooth:")
        return
    make = recipe(rs, kind, case)
    one = mon.call("construct", make)
    keep = {k: ref.cp(getattr(one, k)) for k in ("h", "s", "u", "dipole_moment", "spf")}
    judge(mon, one, "")
    # others in between
    for _ in range(int(rs.randint(1, 3))):
        k = KINDS[rs.randint(len(KINDS))]
        if k in ("tddw", "tdb") and rs.randint(2):
            k = "odho"
        mon.call("construct-between", recipe(rs, k, case))
    for k, v in keep.items():
        mon.close("unaffected", getattr(one, k), v, 0, k)
    two = mon.call("construct-again", make)
    h1, h2 = np.asarray(one.h), np.asarray(two.h)
    same = 1e-9 if kind == "rhf" else 1e-11
    mon.close("again:h", h2, h1, same, "h", max(1.0, float(np.max(np.abs(h1)))))
    mon.close("again:s", two.s, one.s, same, "s")
    g = np.diff(np.sort(np.diag(h1).real))
    reproducible = kind != "rhf"
    if kind == "odqd" and len(g):
        x = np.asarray(one.grid)
        size = 2 / (x[1] - x[0]) ** 2 + float(np.max(np.abs(one.potential(x))))
        reproducible = g.min() > 1e-6 * max(1.0, size) and g.min() > 1e-3
    if reproducible:
        # (eigenvectors are reproducible up to their sign)
        mon.close("again:u", np.abs(two.u), np.abs(one.u), 1e-9, "u")
        if one.dipole_moment is not None:
            mon.close("again:dipole", np.abs(two.dipole_moment), np.abs(one.dipole_moment), 1e-9, "dipole")
    if ASKED.get(kind, 0) < LIMIT.get(kind, 10) * (1 if case["tier"] == "quick" else 10):
        ASKED[kind] = ASKED.get(kind, 0) + 1
        first = PRISTINE.ask(case["seed"] % 2**32, case.get("vary"), kind, case)
        if isinstance(first, str):
            raise Violation("alone", f"construction in a new process failed: {first}")
        mon.close("alone:h", h1, first["h"], same, "h", max(1.0, float(np.max(np.abs(h1)))))
        mon.close("alone:s", one.s, first["s"], same, "s")
        if reproducible:
            mon.close("alone:u", np.abs(one.u), np.abs(first["u"]), 1e-9, "u")
            if one.dipole_moment is not None:
                mon.close("alone:dipole", np.abs(one.dipole_moment), np.abs(first["dipole_moment"]), 1e-9, "dipole")
    mon.equal("again:l", (two.l, two.dim), (one.l, one.dim), "size")
    # facts survive
    l = one.l
    how = rs.randint(3)
    if how in (0, 2):
        mon.call("change-basis", one.change_basis, gen.unitary(rs, l, bool(rs.randint(2))))
        judge(mon, one, "unitary:")
    if how in (1, 2) and l <= 6:
        anti = bool(rs.randint(2))
        _, a, b = gen.spin_basis(rs)
        mon.call("add-spin", one.change_to_general_orbital_basis, a=a, b=b, anti_symmetrize=anti)
        judge(mon, one, "spin:")
        mon.feature("spin")


PRISTINE.start()
