"""(n, m) labels of the two-dimensional oscillator."""

import numpy as np

from quantum_systems.quantum_dots.two_dim import two_dim_helper as h2
from qsmon import ref2d


def cases(rng, tier):
    top = 12000 if tier == "quick" else 200000
    step = 1000 if tier == "quick" else 2000
    for lo in range(0, top, step):
        yield dict(kind="range", lo=lo, hi=lo + step, seed=1)
    for _ in range(60 if tier == "quick" else 600):
        yield dict(kind="random", seed=rng.randrange(2**31))
    for _ in range(20 if tier == "quick" else 100):
        yield dict(kind="elements", seed=rng.randrange(2**31))


def shell_of(p):
    """Largest s with s(s-1)/2 <= p."""
    from math import isqrt

    return (1 + isqrt(1 + 8 * p)) // 2


def judge(mon, p):
    n, m = mon.call("get_indices_nm", h2.get_indices_nm, p)
    s = shell_of(p)
    k = p - s * (s - 1) // 2
    wm = -(s - 1) + 2 * k
    wn = (s - 1 - abs(wm)) // 2
    mon.equal("label", (int(n), int(m)), (wn, wm), f"label of orbital {p}")
    mon.true("integer", n == int(n) and m == int(m), "integers")
    mon.equal("round-trip", int(mon.call("get_index_p", h2.get_index_p, wn, wm)), p,
              f"orbital of label {(wn, wm)}")
    mon.equal("shell-energy", float(mon.call("get_shell_energy", h2.get_shell_energy, wn, wm)), float(s),
              f"shell energy of {(wn, wm)}")


def run_case(case, mon, rs):
    if case["kind"] == "range":
        seen = set()
        for p in range(case["lo"], case["hi"]):
            judge(mon, p)
            n, m = h2.get_indices_nm(p)
            seen.add((int(n), int(m)))
        mon.true("distinct", len(seen) == case["hi"] - case["lo"], "labels are distinct")
        mon.feature("range")
        mon.trace = mon.trace[:3]
    elif case["kind"] == "random":
        e = rs.uniform(2, 8 if rs.randint(3) else 10)
        s = int(10 ** (e / 2))
        # the beginning, middle and end of a random shell, and anywhere in it
        start = s * (s - 1) // 2
        for k in {0, 1, s // 2 - 1, s // 2, s // 2 + 1, s - 2, s - 1, int(rs.randint(s))}:
            if 0 <= k < s:
                judge(mon, start + k)
        mon.feature("random-shell")
    else:
        l = int(rs.randint(1, 120))
        h = mon.call("get_one_body_elements", h2.get_one_body_elements, l)
        want = np.diag([2 * n + abs(m) + 1.0 for n, m in ref2d.labels(l)])
        mon.close("one-body", h, want, 0, "shell energies on the diagonal")
        mon.feature("elements")
