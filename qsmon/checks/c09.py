"""Copies are equal and independent."""

import numpy as np

import quantum_systems as qs
from qsmon import gen, ref
from qsmon.checks import c08
from qsmon.checks.common import draw, grow, make_basis, make_system, same_state, seeds, state

NAMES = ref.ARRAYS + ("sigma_x", "sigma_y", "sigma_z", "grid")


def cases(rng, tier):
    n = 1260 if tier == "quick" else 10000
    for c in seeds(rng, n):
        c["kind"] = gen.SPATIAL_KINDS[draw(c, len(gen.SPATIAL_KINDS), "kind")]
        c["spin"] = draw(c, 2, "spin") == 0
        c["system"] = draw(c, 3, "system") != 0
        c["op"] = c08.OPERATORS[draw(c, len(c08.OPERATORS), "op")]
        yield c


def arrays(b):
    return {k: getattr(b, k) for k in NAMES if isinstance(getattr(b, k), np.ndarray)}


def disjoint(mon, a, b):
    for k, x in arrays(a).items():
        for j, y in arrays(b).items():
            mon.true("no-shared-memory", not np.shares_memory(x, y), f"{k} and {j}")


def equal(mon, oracle, a, b, pre):
    same_state(mon, oracle, ref.snapshot(state(b)), pre)
    mon.true("same-kind", type(a) is type(b), f"{type(a)} {type(b)}")
    mon.true("same-kind", type(state(a)) is type(state(b)), "basis class")
    mon.true("module", state(a).np is np and state(b).np is np, "array module")
    for k, v in vars(state(a)).items():
        if isinstance(v, (int, float, complex, str, bool)) and not k.startswith("_"):
            mon.equal("attributes", getattr(state(b), k, None), v, k)
        elif isinstance(v, np.ndarray) and not k.startswith("_"):
            mon.close("attributes", getattr(state(b), k, None), v, 0, k)
    if a is not state(a):
        for k in ("n", "l", "m", "o", "v"):
            mon.equal("attributes", getattr(b, k), getattr(a, k), k)
        mon.true("module", b.np is np and a.np is np, "array module of the system")
        mon.true("own-basis", state(a) is not state(b), "basis objects")


def mutate(rs, mon, b):
    """Modify every array of b in place."""
    for k, x in arrays(b).items():
        if x.flags.writeable and x.size:
            x += 1.0 + rs.standard_normal()
            mon.events["in-place:" + k] += 1


XS = np.array([-1.7, -0.4, 0.0, 0.3, 2.1])


def belongings(b):
    """What else a basis set carries: tables, further arrays, its potential."""
    out = {}
    for k, v in vars(b).items():
        if k.startswith("_") or k in NAMES:
            continue
        if isinstance(v, np.ndarray):
            out[k] = v.copy()
        elif hasattr(v, "iloc"):
            out[k] = v.values.astype(float).copy()
        elif callable(v) and k == "potential":
            out[k] = np.array(v(XS), dtype=float)
    return out


def spoil(mon, b):
    """Modify all of these in place."""
    for k, v in vars(b).items():
        if k.startswith("_") or k in NAMES:
            continue
        if isinstance(v, np.ndarray) and v.flags.writeable and v.dtype.kind in "fc":
            v += 1.25
        elif hasattr(v, "iloc"):
            v.loc[:, "E"] += 1.0
        elif k == "potential" and hasattr(v, "__dict__"):
            for j, x in vars(v).items():
                if isinstance(x, (int, float)) and not isinstance(x, bool):
                    setattr(v, j, x + 1.5)
        else:
            continue
        mon.events["in-place:" + k] += 1


def operate(rs, mon, obj, extra=None):
    """Some operation on obj."""
    b = state(obj)
    k = rs.randint(7)
    if k == 0:
        _, _, C, Ct = gen.coefficients(rs, b.l)
        if obj is not b and C.shape[1] < obj.n:
            C, Ct = gen.unitary(rs, b.l), None
        mon.call("op:change-basis", obj.change_basis, C, Ct)
    elif k == 1:
        mon.call("op:cast", b.cast_to_complex)
    elif k == 2 and not b.includes_spin and b.s is not None:
        mon.call("op:add-spin", b.change_to_general_orbital_basis,
                 anti_symmetrize=bool(rs.randint(2)))
    elif k == 3 and b.includes_spin:
        mon.call("op:anti-symmetrize", b.anti_symmetrize_two_body_elements)
    elif k == 4:
        b.h = gen.crandn(rs, (b.l, b.l))
        b.nuclear_repulsion_energy = 17.0
        mon.events["op:assign"] += 1
    elif k == 5:
        mutate(rs, mon, b)
    elif k == 6 and obj is not b:
        mon.call("op:attach", obj.set_time_evolution_operator, extra)


def run_case(case, mon, rs):
    kind = case["kind"]
    opt = {}
    if kind == "custom":
        opt = {"dipole": True} if case["op"] in c08.DIPOLE else {}
        if not case["spin"] and rs.randint(4) == 0:
            opt["s"] = "none"
    b, bra = make_basis(rs, mon, kind, grow(case, 6, 8, huge=12), case["spin"], **opt)
    if rs.randint(3) == 0:
        _, _, C, Ct = gen.coefficients(rs, b.l)
        mon.call("change-basis", b.change_basis, C, Ct)
        bra = None if bra is None else ref.cp(b.bra_spf)
    obj, op, dh, fu = b, None, None, None
    if case["system"]:
        obj = make_system(rs, mon, b)
        op, dh, fu, _ = c08.make_operator(rs, mon, case["op"], b.dim, b.l)
        if op is not None:
            mon.call("attach", obj.set_time_evolution_operator, op)
        mon.feature("operator:" + case["op"])
    touch = bool(rs.randint(2)) or bra is None and draw(case, 2, "touch") == 0
    pre = ref.snapshot(b) if touch else ref.snapshot(
        b, touch_bra=False, known_bra=bra if bra is not None else None)
    if not touch and b.spf is not None and bra is None and getattr(b, "_bra_spf", None) is not None:
        pre["bra_spf"] = ref.cp(b.bra_spf)
    times = [0.0, float(rs.uniform(-3, 3)), float(rs.uniform(0, 30))]
    pre_t = None
    if case["system"]:
        pre_t = [(ref.cp(obj.h_t(t)), ref.cp(obj.u_t(t))) for t in times]
    copy = mon.call("copy", obj.copy_system if case["system"] else obj.copy_basis)
    mon.true("new-object", copy is not obj, "copy is a new object")

    def unchanged(oracle, x, snap, snap_t):
        same_state(mon, oracle, ref.snapshot(state(x)), snap)
        if snap_t is not None:
            for t, (h, u) in zip(times, snap_t):
                mon.close(oracle + ":h_t", mon.call("h_t", x.h_t, t), h, 1e-13, f"h_t({t})")
                mon.close(oracle + ":u_t", mon.call("u_t", x.u_t, t), u, 1e-13, f"u_t({t})")

    equal(mon, "equal", obj, copy, pre)
    unchanged("original-kept", obj, pre, pre_t)
    unchanged("equal", copy, pre, pre_t)
    disjoint(mon, state(obj), state(copy))
    if case["system"]:
        for k in ("has_one_body_time_evolution_operator", "has_two_body_time_evolution_operator"):
            mon.equal("indicator", getattr(copy, k), getattr(obj, k), k)
    # second generation
    if rs.randint(3) == 0:
        copy2 = mon.call("copy", copy.copy_system if case["system"] else copy.copy_basis)
        equal(mon, "equal", obj, copy2, pre)
        disjoint(mon, state(copy), state(copy2))
        if rs.randint(2):
            copy = copy2
        mon.feature("second-generation")
    # operate on one, the other must not notice
    active, passive = (obj, copy) if rs.randint(2) else (copy, obj)
    mon.feature("operated-on:" + ("original" if active is obj else "copy"))
    for _ in range(int(rs.randint(1, 4))):
        extra = c08.make_operator(rs, mon, "laser", b.dim, b.l)[0]
        operate(rs, mon, active, extra)
        unchanged("independent", passive, pre, pre_t)
        if state(active).l > 16:
            break
    mutate(rs, mon, state(active))
    unchanged("independent", passive, pre, pre_t)
    kept = belongings(state(passive))
    spoil(mon, state(active))
    for k, v in belongings(state(passive)).items():
        mon.close("independent:belongings", v, kept[k], 0, k)
    unchanged("independent", passive, pre, pre_t)
    disjoint(mon, state(obj), state(copy))
    # in-place changes to the user's operator matrix reach the original only
    if case["system"] and case["op"] == "custom" and passive is copy:
        for v in vars(op).values():
            if isinstance(v, np.ndarray):
                v += 3.0
        unchanged("independent", copy, pre, pre_t)
        mon.feature("operator-matrix")
    # the copy stays attached to itself
    if case["system"] and passive is copy and dh is not None and case["op"] in c08.DIPOLE:
        C = gen.unitary(rs, state(copy).l)
        mon.call("change-basis", copy.change_basis, C)
        t = times[1]
        s = ref.snapshot(state(copy), touch_bra=False)
        mon.close("attached-to-copy", mon.call("h_t", copy.h_t, t),
                  s["h"] + dh(t, s["dipole_moment"]), 1e-11, "h_t of the copy",
                  max(1.0, float(np.max(np.abs(s["h"])))))
