"""Time-dependent Hamiltonians."""

import functools

import numpy as np

import quantum_systems as qs
from quantum_systems.time_evolution_operators import operator as top
from qsmon import gen, ref
from qsmon.checks.common import draw, grow, make_basis, make_system, same_state, seeds, state

KINDS = ("custom", "custom", "random", "odho", "odqd", "dvr4d", "dvr2d", "tdho", "tdb", "ao")
OPERATORS = ("laser", "laser", "switch", "custom", "none", "laser", "own", "still", "laser", "switch", "custom")
ONE = ("laser", "custom", "own")
TWO = ("switch", "own")
# (operators using the dipole elements)
DIPOLE = ("laser", "own")


class Still(top.TimeEvolutionOperator):
    """A user's operator which changes nothing."""


class Own(top.TimeEvolutionOperator):
    """A user's operator of both parts."""

    is_one_body_operator = True
    is_two_body_operator = True

    def __init__(self, f, g):
        self.f, self.g = f, g

    def set_system(self, system):
        super().set_system(system)
        self.mine = system

    def h_t(self, t):
        return super().h_t(t) + self.f(t) * self.mine.dipole_moment[0]

    def u_t(self, t):
        return self.g(t) * super().u_t(t)


class OwnLaser(top.LaserField):
    """A laser field with a switched interaction."""

    def __init__(self, f, g):
        super().__init__(f)
        self.g = g

    @property
    def is_two_body_operator(self):
        return True

    def u_t(self, t):
        return self.g(t) * super().u_t(t)


def cases(rng, tier):
    n = 1260 if tier == "quick" else 10000
    for c in seeds(rng, n):
        c["kind"] = KINDS[draw(c, len(KINDS), "kind")]
        c["spin"] = draw(c, 2, "spin") == 0
        c["op"] = OPERATORS[draw(c, len(OPERATORS), "op")]
        yield c


def default_axis(op, mon):
    return any(op is x for x in mon.__dict__.setdefault("default_axis", []))


class Recorder:
    """A user's function of time which records its arguments."""

    def __init__(self, f):
        self.f = f
        self.calls = []

    def __call__(self, t):
        self.calls.append(t)
        return self.f(t)


def number(rs, cplx):
    """A constant, a function, or a wrapped recording function of time."""
    k = rs.randint(8)
    c = complex(rs.standard_normal(), rs.standard_normal()) if cplx else float(rs.standard_normal())
    if k == 0:
        return "constant", c, (lambda t: c)
    if k == 1:
        i = int(rs.randint(-2, 3))
        return "integer", i, (lambda t: i)
    w, p = rs.uniform(0.1, 3), rs.uniform(0, 6)
    f = lambda t: c * np.sin(w * t + p) + t * t * 0.01
    if k == 2:
        return "zero-constant", 0.0, (lambda t: 0.0)
    if k == 5:
        return "plain-function", f, f
    if k == 6:
        return "partial", functools.partial(lambda x, t: x * f(t), 2.0), (lambda t: 2.0 * f(t))
    if k == 7:
        c *= 10.0 ** rs.uniform(-9, -6)
        return "tiny", c, (lambda t: c)
    return "function", Recorder(f), f


def polarization(rs, dim):
    k = rs.randint(7)
    v = rs.standard_normal(dim)
    if k == 6:
        # (circular polarization)
        v = v + 1j * rs.standard_normal(dim)
        return "complex", v.copy(), (lambda t: v)
    if k == 0:
        e = np.zeros(dim)
        e[0] = 1
        return "default", None, (lambda t: e)
    if k == 1:
        return "list", list(map(float, v)), (lambda t: v)
    if k == 2:
        return "array", v.copy(), (lambda t: v)
    if k == 3:
        e = np.zeros(dim)
        e[rs.randint(dim)] = 1
        return "axis", e.copy(), (lambda t: e)
    if k == 4:
        return "tuple", tuple(map(float, v)), (lambda t: v)
    w = rs.uniform(0.2, 2)
    f = lambda t: v * np.cos(w * t) + 0.1 * t
    kind = rs.randint(4)
    if kind == 0:
        # a rotating field, in complex notation
        f = lambda t: v * np.exp(1j * w * t * np.arange(1, dim + 1))
        return "rotating", Recorder(f), f
    if kind == 1:
        return "function-of-lists", Recorder(lambda t: list(f(t))), f
    return "function", Recorder(f), f


def make_operator(rs, mon, kind, dim, l):
    """(operator, h(t) increment as function of (t, elements), u factor)"""
    if kind == "none":
        return None, None, None, []
    if kind == "laser":
        k, pulse, f = number(rs, bool(rs.randint(2)))
        pk, pol, g = polarization(rs, dim)
        mon.feature("pulse:" + k, "polarization:" + pk)
        op = mon.call("laser", top.LaserField, pulse, **(
            {} if pol is None and rs.randint(2) else {"polarization_vector": pol}))

        if pol is None:
            mon.__dict__.setdefault("default_axis", []).append(op)

        def dh(t, d):
            return f(t) * np.einsum("i,ipq->pq", np.asarray(g(t)), d)

        return op, dh, None, [x for x in (pulse, pol) if isinstance(x, Recorder)]
    if kind == "switch":
        k, fun, f = number(rs, bool(rs.randint(2)))
        mon.feature("switch:" + k)
        return mon.call("switch", top.AdiabaticSwitching, fun), None, f, [
            x for x in (fun,) if isinstance(x, Recorder)]
    if kind == "still":
        return (Still, top.TimeEvolutionOperator)[rs.randint(2)](), None, None, []
    if kind == "own":
        w, c = rs.uniform(0.2, 2), rs.standard_normal()
        f, g = (lambda t: c * np.sin(w * t)), (lambda t: 1 / (1 + w * t * t))
        cls = (Own, OwnLaser)[rs.randint(2)]
        mon.feature("own:" + cls.__name__)
        return mon.call("own-operator", cls, f, g), (lambda t, d: f(t) * d[0]), g, []
    k, w, f = number(rs, bool(rs.randint(2)))
    O = gen.crandn(rs, (l, l), bool(rs.randint(2)))
    mon.feature("weight:" + k)
    return (
        mon.call("custom-operator", top.CustomOneBodyOperator, w, O),
        lambda t, d: f(t) * O, None,
        [x for x in (w,) if isinstance(x, Recorder)],
    )


def observe(mon, rs, system, kind, dh, fu, recorders, times):
    b = state(system)
    pre = ref.snapshot(b, touch_bra=False)
    one = kind in ONE
    mon.equal("indicator", bool(system.has_one_body_time_evolution_operator), one, "one-body")
    mon.equal("indicator", bool(system.has_two_body_time_evolution_operator), kind in TWO, "two-body")
    for t in times:
        order = rs.randint(2)
        for what in ("hu" if order else "uh"):
            if what == "h":
                for r in recorders:
                    r.calls.clear()
                want = pre["h"] if dh is None else pre["h"] + dh(t, pre["dipole_moment"])
                got = mon.call("h_t", system.h_t, t)
                sc = max(1e-300, float(np.max(np.abs(want))), float(np.max(np.abs(pre["h"]))))
                mon.close("h_t", got, want, 1e-12, f"{kind} at {t}", sc)
                if one:
                    for r in recorders:
                        mon.true("exact-time", all(x == t for x in r.calls),
                                 f"function evaluated at {r.calls}, requested {t}")
            else:
                want = pre["u"] if fu is None else fu(t) * pre["u"]
                for r in recorders:
                    r.calls.clear()
                got = mon.call("u_t", system.u_t, t)
                mon.close("u_t", ref.u4(got), ref.u4(want), 1e-12, f"{kind} at {t}",
                          max(1e-300, float(np.max(np.abs(want)))))
                if kind == "switch":
                    for r in recorders:
                        mon.true("exact-time", all(x == t for x in r.calls),
                                 f"function evaluated at {r.calls}, requested {t}")
    same_state(mon, "static-intact", ref.snapshot(b, touch_bra=False), pre)
    mon.close("static-intact", system.h, pre["h"], 0, "system h")
    mon.close("static-intact", system.u, pre["u"], 0, "system u")


def times_of(rs):
    ts = [0, 0.0, float(rs.uniform(-5, 5)), float(rs.uniform(0, 100)), float(rs.uniform(100, 1e5)), -1e-9, int(rs.randint(1, 9)),
          np.float64(rs.uniform(0, 3))]
    idx = rs.randint(0, len(ts), size=4)
    ts = [ts[i] for i in idx]
    return ts + ts[:2]


def run_case(case, mon, rs):
    need = {"dipole": True} if case["kind"] == "custom" else {}
    b, _ = make_basis(rs, mon, case["kind"], grow(case, 6, 8, huge=12), case["spin"], **need)
    system = make_system(rs, mon, b)
    mon.feature("operator:" + case["op"])
    op, dh, fu, rec = make_operator(rs, mon, case["op"], b.dim, b.l)
    # without an operator the static elements are returned
    observe(mon, rs, system, "none", None, None, [], times_of(rs)[:2])
    if case["op"] in ("laser", "switch", "own", "still") and rs.randint(2) == 0:
        # the operator was used by another system (with the default polarization
        # also of another dimension) before
        o, _ = make_basis(
            rs, mon, "custom", 3, dipole=True,
            dim=None if default_axis(op, mon) else b.dim,
        )
        other = make_system(rs, mon, o)
        mon.call("attach", other.set_time_evolution_operator, op)
        if o.dim == b.dim:
            observe(mon, rs, other, case["op"], dh, fu, [], times_of(rs)[:2])
        else:
            mon.call("h_t", other.h_t, 0.5)
        mon.feature("reused-operator")
    mon.call("attach", system.set_time_evolution_operator, op)
    observe(mon, rs, system, case["op"], dh, fu, rec, times_of(rs))
    # later basis changes are followed
    if case["op"] != "custom" and rs.randint(2):
        _, _, C, Ct = gen.coefficients(
            rs, b.l, ("unitary", "complex", "real", "more", "permutation")[rs.randint(5)])
        mon.call("change-basis", system.change_basis, C, Ct)
        observe(mon, rs, system, case["op"], dh, fu, rec, times_of(rs)[:3])
        mon.feature("after-basis-change")
    if rs.randint(3) == 0:
        c = mon.call("copy", system.copy_system)
        observe(mon, rs, c, case["op"], dh, fu, [], times_of(rs)[:2])
        observe(mon, rs, system, case["op"], dh, fu, rec, times_of(rs)[:2])
        mon.feature("copied")
    # replace the operator
    if rs.randint(2):
        k2 = OPERATORS[rs.randint(len(OPERATORS))]
        op2, dh2, fu2, rec2 = make_operator(rs, mon, k2, b.dim, b.l)
        mon.call("attach", system.set_time_evolution_operator, op2)
        observe(mon, rs, system, k2, dh2, fu2, rec2, times_of(rs)[:3])
        mon.feature("replaced-operator")
        if rs.randint(2):
            mon.call("attach", system.set_time_evolution_operator, op)
            if not (case["op"] == "custom"):
                observe(mon, rs, system, case["op"], dh, fu, rec, times_of(rs)[:2])
