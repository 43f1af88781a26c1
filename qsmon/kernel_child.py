"""Runs the compiled kernels through the public interface in the configuration
given by the environment and stores every result:
    kernel_child.py SEED SIZE OUT
SIZE small also for the interpreter; full adds larger problems.  Calls from
several threads at once are compared with serial calls right here."""

import json
import sys
import threading

import numpy as np

import quantum_systems as qs
from quantum_systems.quantum_dots.one_dim.one_dim_qd import ODHO
from quantum_systems.quantum_dots.two_dim import two_dim_helper as h2
from quantum_systems.quantum_dots.two_dim.coulomb_elements import coulomb_ho
from quantum_systems.quantum_dots.one_dim.one_dim_potentials import DWPotentialSmooth

seed, size, out = int(sys.argv[1]), sys.argv[2], sys.argv[3]
R, E = {}, {}


def run(name, fn):
    try:
        R[name] = np.asarray(fn())
    except Exception as e:
        E[name] = f"{type(e).__name__}: {e}"


def jobs(full):
    rs = np.random.RandomState(seed)
    J = {}
    for l in (1, 2, 3, 4) + ((6, 8, 10, 12) if full else ()):
        J[f"coulomb-{l}"] = lambda l=l: h2.get_coulomb_elements(l)
    for k in range(12):
        n = rs.randint(0, 3, size=4)
        m = rs.randint(-2, 3, size=4)
        m[3] = m[0] + m[1] - m[2]
        a = [int(x) for p in zip(n, m) for x in p]
        J[f"element-{k}"] = lambda a=a: coulomb_ho(*a)
    for k in range(10):
        # far up: the longest sums and largest factorials
        m = rs.randint(8, 16, size=2) * (1 if k % 4 == 3 else [1, -1])
        a = [0, m[0], 0, m[1]] + ([0, m[1], 0, m[0]] if k % 2 else [0, m[0], 0, m[1]])
        J[f"far-{k}"] = lambda a=a: coulomb_ho(*[int(x) for x in a])
    if full:
        rf = np.random.RandomState(seed + 2)
        for k in range(6):
            n = rf.randint(0, 6, size=4)
            m = rf.randint(-3, 4, size=4)
            m[3] = m[0] + m[1] - m[2]
            a = [int(x) for p in zip(n, m) for x in p]
            J[f"far-n-{k}"] = lambda a=a: coulomb_ho(*a)
    for p in (0, 1, 2, 5, 9, 10, 77, 1000, 12345):
        J[f"label-{p}"] = lambda p=p: h2.get_indices_nm(p)
        J[f"index-{p}"] = lambda p=p: h2.get_index_p(*h2.get_indices_nm(p))
    for l in (1, 3, 20):
        J[f"one-body-{l}"] = lambda l=l: h2.get_one_body_elements(l)
    for k, (l, n) in enumerate([(1, 2), (2, 5), (3, 21)] + ([(5, 101), (8, 61)] if full else [])):
        w, a, al, L = rs.uniform(0.3, 1.5), rs.uniform(0.1, 1), rs.uniform(0.3, 2), rs.uniform(2, 6)
        J[f"odho-{k}"] = lambda l=l, n=n, w=w, a=a, al=al, L=L: ODHO(l, L, n, omega=w, a=a, alpha=al).u
        if n > 4:
            J[f"odqd-{k}"] = lambda l=l, n=n, a=a, al=al, L=L: np.abs(qs.ODQD(
                l, L, n, a=a, alpha=al).u)
            J[f"odqd-dw-{k}"] = lambda l=l, n=n, a=a, al=al, L=L: np.abs(qs.ODQD(
                l, L, n, a=a, alpha=al, potential=ODQD_pot).u)
    def two(cls, l, **kw):
        b = cls(l, 4, 5, **kw)
        return np.concatenate([np.ravel(b.u), np.ravel(b.h)])
    J["tdho"] = lambda: two(qs.TwoDimensionalHarmonicOscillator, 3, omega=0.7)
    J["tdb"] = lambda: two(qs.TwoDimHarmonicOscB, 3, omega=0.7, omega_c=0.4)
    for l in (1, 3):
        b = qs.RandomBasisSet(l, 2)
        J[f"spin-{l}"] = lambda l=l: spin(l)
    return J


def spin(l):
    np.random.seed(l)
    b = qs.RandomBasisSet(l, 2)
    b.spf = np.random.random((l, 4, 3)) + 0j
    b.change_to_general_orbital_basis(anti_symmetrize=True)
    return np.concatenate([np.ravel(getattr(b, k)) for k in ("h", "s", "u", "spf", "spin_x", "spin_2_tb")])


ODQD_pot = DWPotentialSmooth(a=3.0)
J = jobs(size == "full")
for name, fn in J.items():
    run(name, fn)

# every result again, in another order
rs = np.random.RandomState(seed + 1)
names = [n for n in J if n in R]
repeat = {"compared": 0, "different": []}
for i in rs.permutation(len(names)):
    n = names[i]
    try:
        x = np.asarray(J[n]())
    except Exception as e:
        repeat["different"].append(f"{n}: {type(e).__name__}: {e}")
        continue
    repeat["compared"] += 1
    if x.shape != R[n].shape or not np.allclose(x, R[n], rtol=0, atol=1e-11):
        repeat["different"].append(n)

# and from several threads at once
threads = {"compared": 0, "different": []}
if size != "tiny":
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    cheap = [n for n in names if not n.startswith(("tdho", "tdb"))]
    go = threading.Barrier(6)

    def work(k):
        r = np.random.RandomState(seed + 10 + k)
        order = r.permutation(len(cheap))[: 25]
        go.wait()
        for i in order:
            n = cheap[i]
            if n.startswith("spin"):
                continue
            try:
                x = np.asarray(J[n]())
                threads["compared"] += 1
                if x.shape != R[n].shape or not np.allclose(x, R[n], rtol=0, atol=1e-11):
                    threads["different"].append(n)
            except BaseException as e:
                threads["different"].append(f"{n}: {type(e).__name__}: {e}")

    ts = [threading.Thread(target=work, args=(k,)) for k in range(6)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    sys.setswitchinterval(old)

import numba

try:
    layer = numba.threading_layer()
except Exception:
    layer = "none"
np.savez(out + ".npz", **R)
with open(out + ".json", "w") as f:
    json.dump({"errors": E, "repeat": repeat, "threads": threads, "layer": layer,
               "max_threads": numba.config.NUMBA_NUM_THREADS}, f)
