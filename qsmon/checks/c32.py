"""Nothing but the object an operation is called on changes."""

import decimal
import gc
import io
import locale
import os
import random
import shutil
import signal
import sys
import tempfile
import threading
import warnings
from contextlib import redirect_stdout

import numba
import numpy as np
import pandas as pd
import scipy

import quantum_systems as qs
from quantum_systems.quantum_dots.one_dim import one_dim_potentials as pots
from quantum_systems.quantum_dots.one_dim.one_dim_qd import ODHO
from quantum_systems.quantum_dots.two_dim import two_dim_helper as h2
from quantum_systems.sampler import SampleCollector
from quantum_systems.time_evolution_operators import (
    AdiabaticSwitching,
    CustomOneBodyOperator,
    LaserField,
)
from qsmon import gen
from qsmon.checks.common import draw, seeds

KINDS = ("elements", "elements", "elements", "operators", "dots", "dots", "dots-2d", "functions", "samplers", "random")


def cases(rng, tier):
    n = 500 if tier == "quick" else 6000
    for c in seeds(rng, n):
        c["kind"] = KINDS[draw(c, len(KINDS), "kind")]
        yield c
    for c in seeds(rng, 16 if tier == "quick" else 160, kind="molecule"):
        yield c


# -- what must stay ------------------------------------------------------------
def surroundings(scratch):
    rnd = np.random.get_state()
    d = {
        "numpy error handling": dict(np.geterr()),
        "numpy error callback": np.geterrcall(),
        "numpy print options": {k: repr(v) for k, v in np.get_printoptions().items()},
        "numpy random state": (rnd[0], rnd[1].tobytes(), rnd[2:]),
        "random state": random.getstate(),
        "environment": dict(os.environ),
        "working directory": os.getcwd(),
        "files of the working directory": tree(scratch),
        "module search path": list(sys.path),
        "warning filters": [tuple(map(str, f)) for f in warnings.filters],
        "recursion limit": sys.getrecursionlimit(),
        "signal handlers": [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
        "pending timers": signal.getitimer(signal.ITIMER_REAL)[0] > 0,
        "locale": locale.setlocale(locale.LC_ALL),
        "decimal context": str(decimal.getcontext()),
        "numba threads": numba.get_num_threads(),
        "garbage collection": gc.isenabled(),
        "python threads": threading.active_count(),
        "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "exception hook": id(sys.excepthook),
        "pandas options": {k: repr(pd.get_option(k)) for k in ("display.max_rows", "display.precision", "mode.chained_assignment")},
        "scipy error handling": repr(scipy.special.geterr()),
        "umask": umask(),
    }
    return d


def umask():
    m = os.umask(0)
    os.umask(m)
    return m


def tree(d):
    return sorted((os.path.relpath(os.path.join(r, f), d), os.path.getsize(os.path.join(r, f)))
                  for r, _, fs in os.walk(d) for f in fs)


class Stays:
    """Fingerprints of things handed to the library."""

    def __init__(self):
        self.items = []

    def add(self, label, x):
        self.items.append((label, x, freeze(x)))
        return x

    def judge(self, mon, after):
        for label, x, was in self.items:
            mon.true("handed-over", freeze(x) == was, f"{label} changed by {after}")


def freeze(x, depth=0):
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("objects", x.shape, tuple(freeze(y, depth + 1) for y in x.ravel()))
        return ("array", x.shape, x.dtype.str, x.flags.writeable, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(y, depth + 1) for y in x))
    if isinstance(x, set):
        return ("set", frozenset(id(y) for y in x))
    if isinstance(x, dict):
        return ("dict", tuple((repr(k), freeze(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, (int, float, complex, str, bytes, bool, type(None), np.generic)):
        return (type(x).__name__, repr(x))
    if isinstance(x, pots.OneDimPotential) and depth < 4:
        return (type(x).__name__, tuple(sorted((k, freeze(v, depth + 1)) for k, v in vars(x).items())))
    return ("object", id(x))


class Watch:
    """Runs operations with the surroundings watched."""

    def __init__(self, mon, scratch):
        self.mon, self.scratch, self.stays = mon, scratch, Stays()

    def __call__(self, label, fn, *args, **kw):
        ignore = kw.pop("_ignore", ())
        for i, a in enumerate(args):
            self.stays.add(f"argument {i} of {label}", a)
        for k, a in kw.items():
            self.stays.add(f"argument {k} of {label}", a)
        seen = {}

        def watched(*args, **kw):
            # inside, as the monitor itself silences warnings around the call
            # and with settings nobody would choose, so that a change shows
            with warnings.catch_warnings(), np.errstate(divide="warn", over="ignore", under="warn", invalid="ignore"):
                warnings.resetwarnings()
                warnings.filterwarnings("ignore", message=".*")
                seen["modules"] = len(sys.modules)
                seen["before"] = surroundings(self.scratch)
                out = fn(*args, **kw)
                seen["after"] = surroundings(self.scratch)
            return out

        out = self.mon.call(label, watched, *args, **kw)
        if len(sys.modules) != seen["modules"]:
            ignore += ("warning filters",)  # a first import may register some
        for k, v in seen["before"].items():
            if k not in ignore:
                self.mon.true("surroundings", seen["after"][k] == v, f"{k} changed by {label}")
        self.stays.judge(self.mon, label)
        return out

    def read(self, label, obj, names):
        self(label, lambda: [getattr(obj, n) for n in names])


def values(rs, shape):
    """Values of all magnitudes, some of them zero."""
    x = gen.crandn(rs, shape, bool(rs.randint(2)))
    if rs.randint(2):
        x = x * 10.0 ** rs.uniform(-15, 2, size=shape) * (rs.randint(4, size=shape) > 0)
    return x


NAMES = ("h", "u", "s", "dipole_moment", "spf", "bra_spf", "grid", "nuclear_repulsion_energy")


# -- workloads -----------------------------------------------------------------
def assigned(w, rs, l=None, spin=False):
    """A basis set whose elements the caller keeps."""
    b, bra = gen.custom(rs, l or int(rs.randint(1, 5)), includes_spin=False, spf=bool(rs.randint(4)))
    for n in ("h", "u", "s", "dipole_moment", "spf", "grid"):
        x = getattr(b, n)
        if x is not None:
            w.stays.add("assigned " + n, x)
    if bra is not None:
        w.stays.add("assigned bra_spf", bra)
    return b


def use_basis(w, rs, b):
    """One operation on a basis set."""
    k = int(rs.randint(9))
    _, _, C, Ct = gen.coefficients(rs, b.l)
    if k == 0:
        w("get_transformed_h", b.get_transformed_h, C)
        w("get_transformed_u", b.get_transformed_u, C)
    elif k == 1:
        w("change_basis", b.change_basis, C, Ct)
    elif k == 2:
        w("cast_to_complex", b.cast_to_complex)
    elif k == 3:
        w("change_module", b.change_module, np)
    elif k == 4:
        w("copy_basis", b.copy_basis)
    elif k == 5:
        w("anti_symmetrize", b.anti_symmetrize_two_body_elements)
    elif k == 6 and not b.includes_spin and b.s is not None:
        _, a_, b_ = gen.spin_basis(rs)
        w("add-spin", b.change_to_general_orbital_basis, a=a_, b=b_, anti_symmetrize=bool(rs.randint(2)))
    elif k == 7 and b.spf is not None and b.spf.dtype == b.bra_spf.dtype:
        n = int(rs.randint(1, 4))
        rho = values(rs, (b.l, b.l)) if rs.randint(2) else None
        if rho is not None:
            w("density", b.compute_particle_density, rho)
        else:
            C = gen.crandn(rs, (b.l, n))
            Ct = gen.crandn(rs, (n, b.l)) if rs.randint(2) else None
            w("density", b.compute_particle_density, values(rs, (n, n)), C=C, C_tilde=Ct)
    else:
        w.read("read", b, NAMES)


def use_system(w, rs, s):
    k = int(rs.randint(7))
    l = s.l
    if k == 0:
        h, u = (s.h, s.u) if rs.randint(2) else (values(rs, (l, l)), values(rs, (l,) * 4))
        w("fock", s.construct_fock_matrix, h, u)
    elif k == 1:
        h, u = values(rs, (l, l)), values(rs, (l,) * 4)
        f = np.empty((l, l), dtype=complex)
        w.stays.add("one-body elements", h)
        w.stays.add("two-body elements", u)
        w("fock-into", lambda: s.construct_fock_matrix(h, u, f=f))
    elif k == 2:
        w("energy", s.compute_reference_energy)
    elif k == 3:
        _, _, C, Ct = gen.coefficients(rs, l)
        w("transform", s.transform_one_body_elements, values(rs, (l, l)), C, C_tilde=Ct)
        w("transform", s.transform_two_body_elements, values(rs, (l,) * 4), C, C_tilde=Ct)
    elif k == 4:
        w("copy_system", s.copy_system)
    elif k == 5 and isinstance(s, qs.SpatialOrbitalSystem) and s.s is not None:
        _, a_, b_ = gen.spin_basis(rs)
        w("general", s.construct_general_orbital_system, a=a_, b=b_, anti_symmetrize=bool(rs.randint(2)))
    else:
        _, _, C, Ct = gen.coefficients(rs, l, min_cols=s.n)
        if C.shape[1] >= s.n:
            w("change_basis", s.change_basis, C, Ct)


def case_elements(case, w, rs):
    b = assigned(w, rs)
    for _ in range(int(rs.randint(2, 6))):
        use_basis(w, rs, b)
    if rs.randint(2) and b.s is not None:
        s = w.mon.call("system", qs.GeneralOrbitalSystem, int(rs.randint(0, b.l + 1)), b) if rs.randint(2) or b.includes_spin \
            else w.mon.call("system", qs.SpatialOrbitalSystem, 2 * int(rs.randint(0, b.l + 1)), b)
        for _ in range(int(rs.randint(2, 5))):
            use_system(w, rs, s)


def case_operators(case, w, rs):
    b, _ = gen.custom(rs, int(rs.randint(1, 4)), s="overlap", dipole=True)
    for n in ("h", "u", "dipole_moment"):
        w.stays.add("assigned " + n, getattr(b, n))
    s = w.mon.call("system", qs.SpatialOrbitalSystem, 2 * int(rs.randint(0, b.l + 1)), b)
    pol = rs.uniform(-1, 1, size=b.dim)
    ops = [
        ("laser", lambda: LaserField(float(rs.uniform(-1, 1)), pol)),
        ("laser", lambda: LaserField(np.sin, lambda t: pol)),
        ("laser", lambda: LaserField(np.cos)),
        ("switch", lambda: AdiabaticSwitching(np.sin)),
        ("custom", None),
    ]
    w.stays.add("polarization", pol)
    name, make = ops[rs.randint(len(ops))]
    if make is None:
        m = w.stays.add("custom operator", gen.crandn(rs, (b.l, b.l)))
        make = lambda: CustomOneBodyOperator((np.sin, 0.3)[rs.randint(2)], m)
    w.mon.call("set-operator", s.set_time_evolution_operator, make())
    t = w.stays.add("time", np.array(float(rs.uniform(-3, 3))))
    for _ in range(3):
        w(name + ":h_t", s.h_t, float(t))
        w(name + ":u_t", s.u_t, float(t))
        use_system(w, rs, s)
        if name == "custom" and s.l != b.l:
            break
        if name == "custom" and s.l != len(m):
            break


def case_dots(case, w, rs):
    k = int(rs.randint(3))
    l = int(rs.randint(2, 6))
    kw = dict(a=float(rs.uniform(0.2, 1)), alpha=float(rs.uniform(-1, 2)), beta=float(rs.uniform(-1, 1)))
    if k == 0:
        b = w("odho", ODHO, l, float(rs.uniform(2, 9)), int(rs.randint(10, 40)), omega=float(rs.uniform(0.2, 2)), **kw)
    else:
        _, p = gen.potential(rs)
        if rs.randint(3) == 0:
            for name in ("omega", "weight", "l", "a"):
                if hasattr(p, name) and rs.randint(2):
                    setattr(p, name, -getattr(p, name))
        w.stays.add("potential", p)
        x = w.stays.add("positions", rs.uniform(-4, 4, size=9))
        w("potential", p, x)
        if not isinstance(p, pots.GaussianPotentialHardWall):
            w("derivative", p.derivative, x)
        if k == 1:
            b = w("odqd", qs.ODQD, l, float(rs.uniform(2, 9)), int(rs.randint(10, 40)), potential=p, **kw)
        else:
            b = w("dvr", qs.ODSincDVR, l, float(rs.uniform(2, 9)), potential=p, u_repr=("2d", "4d")[rs.randint(2)], **kw)
            if rs.randint(2):
                with redirect_stdout(io.StringIO()):
                    w("set_u_repr", b.set_u_repr, ("2d", "4d")[rs.randint(2)])
    for _ in range(3):
        if b.spf is not None:
            use_basis(w, rs, b)


def case_dots_2d(case, w, rs):
    l = int(rs.randint(1, 5))
    kw = dict(omega=float(rs.uniform(0.3, 2)), mass=float(rs.uniform(0.5, 2)))
    k = int(rs.randint(3))
    cls = (qs.TwoDimensionalHarmonicOscillator, qs.TwoDimensionalDoubleWell, qs.TwoDimHarmonicOscB)[k]
    kw.update(({}, {"barrier_strength": float(rs.uniform(0, 2)), "axis": int(rs.randint(2))}, {"omega_c": float(rs.uniform(-1, 1))})[k])
    b = w("2d", cls, l, 4.0, int(rs.randint(2, 9)), **kw)
    for _ in range(2):
        use_basis(w, rs, b)
    w("coulomb", h2.get_coulomb_elements, l)


def case_functions(case, w, rs):
    """The functions behind the methods."""
    l = int(rs.randint(1, 4))
    _, _, C, Ct = gen.coefficients(rs, l)
    B = qs.BasisSet
    h, u = values(rs, (l, l)), values(rs, (l,) * 4)
    spf = values(rs, (l, 5))
    w("transform_spf", B.transform_spf, spf, C, np)
    w("transform_one_body", B.transform_one_body_elements, h, C, np, C_tilde=Ct)
    w("transform_two_body", B.transform_two_body_elements, u, C, np, C_tilde=Ct)
    w("add_spin_one_body", B.add_spin_one_body, h, np=np)
    w("add_spin_two_body", B.add_spin_two_body, u, np=np)
    w("add_spin_spf", B.add_spin_spf, spf, np)
    w("anti_symmetrize_u", B.anti_symmetrize_u, u)
    a, b = np.array([[1], [0]]), np.array([[0], [1]])
    x, y, z = w("pauli", B.setup_pauli_matrices, a, b, np)


def case_samplers(case, w, rs):
    class S:
        def __init__(self, key):
            self.key, self.rows = key, []

        def sample(self, step):
            self.rows.append(step)

        def dump(self, samples):
            samples[self.key] = np.array(self.rows)
            return samples

    xs = [S(f"s{i}") for i in range(int(rs.randint(1, 4)))]
    given = (list, tuple, set)[rs.randint(3)](xs)
    w.stays.add("samplers", given if not isinstance(given, set) else sorted(id(x) for x in given))
    c = w("collector", SampleCollector, given, np)
    for t in range(int(rs.randint(1, 5))):
        w("sample", c.sample, t)
    x = w.stays.add("sample", rs.uniform(size=4))
    w("add_sample", c.add_sample, "mine", x)
    w("dump", c.dump, save_samples=False)
    w.stays.items = [y for y in w.stays.items if "dump" not in y[0]]
    before = tree(w.scratch)
    name = f"out{rs.randint(100)}"
    w("dump", c.dump, path=name, filename="data", _ignore=("files of the working directory",))
    new = [f for f, _ in tree(w.scratch) if f not in [g for g, _ in before]]
    w.mon.equal("files", new, [os.path.join(name, "data.npy")], "files written")
    shutil.rmtree(os.path.join(w.scratch, name))


def case_random(case, w, rs):
    """Random elements use NumPy's generator and nothing else."""
    b = w("random", qs.RandomBasisSet, int(rs.randint(1, 5)), int(rs.randint(1, 4)), _ignore=("numpy random state",))
    for _ in range(3):
        use_basis(w, rs, b)


MOLS = ("he 0 0 0", "h 0 0 0; h 0 0 1.4", "li 0 0 0; h 0 0 3.0", "be 0 0 0")


def case_molecule(case, w, rs):
    f = (qs.construct_pyscf_system_rhf, qs.construct_pyscf_system_ao)[rs.randint(2)]
    m = MOLS[rs.randint(len(MOLS))]
    if rs.randint(2):
        m = [[x.split()[0], tuple(float(y) for y in x.split()[1:])] for x in m.split(";")]
    basis = "sto-3g"
    if rs.randint(2):
        atoms = ("h", "he", "li", "be")
        basis = {a: "sto-3g" for a in atoms}
    with redirect_stdout(io.StringIO()):
        w("molecule", f, m, basis=basis, add_spin=bool(rs.randint(2)), _ignore=("files of the working directory",))
    gc.collect()
    w.mon.equal("files", tree(w.scratch), [], "files left behind")


WARM = []


def warm_up():
    """Lazy imports register filters, options and threads once."""
    if WARM:
        return
    WARM.append(1)
    with redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        qs.construct_pyscf_system_rhf("he 0 0 0", basis="sto-3g")
        qs.TwoDimHarmonicOscB(2, 3, 3)
        ODHO(2, 3, 9)


def run_case(case, mon, rs):
    mon.feature("kind:" + case["kind"])
    scratch = tempfile.mkdtemp(prefix="qsmon-c32-")
    home = os.getcwd()
    try:
        os.chdir(scratch)
        warm_up()
        np.random.seed(int(rs.randint(2**31)))
        random.seed(1)
        globals()["case_" + case["kind"].replace("-", "_")](case, Watch(mon, scratch), rs)
    finally:
        os.chdir(home)
        shutil.rmtree(scratch, ignore_errors=True)
