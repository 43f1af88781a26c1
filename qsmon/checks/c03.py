"""Spin doubling: orbital 2p + sigma is spatial orbital p with spin sigma."""

import numpy as np

import quantum_systems as qs
from qsmon import gen, ref
from qsmon.checks.common import draw, grow, same_state, seeds, state


def cases(rng, tier):
    n = 1260 if tier == "quick" else 10000
    for c in seeds(rng, n):
        c["kind"] = gen.SPATIAL_KINDS[draw(c, len(gen.SPATIAL_KINDS), "kind")]
        c["route"] = ("basis", "system", "spatial-system")[draw(c, 3, "route")]
        yield c


def given(mon, rs):
    l = 2 * int(rs.randint(1, 4))
    b, bra = gen.custom(rs, l, includes_spin=True, anti_symmetrized_u=bool(rs.randint(2)))
    if rs.randint(2):
        for k in ("spin_x", "spin_y", "spin_z", "spin_2"):
            setattr(b, k, gen.herm(rs, l, bool(rs.randint(2))))
    touch = bool(rs.randint(2))
    pre = ref.snapshot(b, touch_bra=touch, known_bra=bra)
    held = {k: getattr(b, k) for k in ref.ARRAYS if k != "bra_spf"}
    anti = bool(rs.randint(2)) and b.anti_symmetrized_u
    name, a_, b_ = gen.spin_basis(rs)
    mon.call("given-spin", b.change_to_general_orbital_basis, a=a_, b=b_, anti_symmetrize=anti)
    post = ref.snapshot(b)
    same_state(mon, "given-spin", post, pre)
    for k, v in held.items():
        mon.equal("given-spin-type", None if post[k] is None else post[k].dtype,
                  None if v is None else v.dtype, f"type of {k}")
    mon.feature("given-spin")


def run_case(case, mon, rs):
    b, bra = gen.spatial(rs, case["kind"], grow(case, 5, 8, huge=16))
    if rs.randint(3) == 0:
        kind, _, C, Ct = gen.coefficients(rs, b.l, ct_kind="none")
        mon.call("change-basis", b.change_basis, C)
        bra = None if bra is None else C.conj().T @ bra.reshape(bra.shape[0], -1)
        if bra is not None:
            bra = bra.reshape((b.l,) + b.spf.shape[1:])
        mon.feature("after-basis-change")
    mon.feature("basis:" + case["kind"], "route:" + case["route"])
    touch = bool(rs.randint(2))
    pre = ref.snapshot(b, touch_bra=touch, known_bra=bra)
    passed = {k: getattr(b, k) for k in ("h", "s", "u", "dipole_moment", "spf")}
    name, a_, b_ = gen.spin_basis(rs)
    mon.feature("spin-basis:" + name)
    anti = bool(rs.randint(2))
    sparse = b.u.ndim == 2 and not anti
    defaults = name == "default" and rs.randint(2)
    kw = {} if defaults else dict(a=a_, b=b_)
    obj = b
    if case["route"] == "basis":
        r = mon.call(
            "add-spin", b.change_to_general_orbital_basis, anti_symmetrize=anti, **kw
        )
        mon.true("returns-basis", r is b, "conversion returns the basis itself")
    elif case["route"] == "system":
        obj = mon.call(
            "add-spin", qs.GeneralOrbitalSystem, int(rs.randint(0, 2 * b.l + 1)), b, anti_symmetrize=anti, **kw
        )
    else:
        spas = mon.call("spatial-system", qs.SpatialOrbitalSystem, 2 * int(rs.randint(0, b.l + 1)), b)
        obj = mon.call(
            "add-spin", spas.construct_general_orbital_system,
            anti_symmetrize=anti, **kw,
        )
        same_state(mon, "original-kept", ref.snapshot(b), pre)
        b = state(obj)
    want = ref.doubled(pre, a_, b_, anti)
    skip = ()
    if sparse:
        # spin operators are documented as not available in the 2d form
        skip = ("spin_x", "spin_y", "spin_z", "spin_2", "spin_2_tb")
        mon.feature("compact-form")
    got = ref.snapshot(b)
    copied = ("h", "s", "u", "dipole_moment", "spf", "bra_spf")
    sc = {k: 1e-300 if want[k] is None or not want[k].size else max(1e-300, float(np.max(np.abs(want[k]))))
          for k in copied}
    ref.compare(mon, "doubling", got, want, 1e-13, names=copied, scales=sc)
    ref.compare(mon, "doubling", got, want, 1e-11, skip=skip + copied)
    if not sparse:
        for k in ("sigma_x", "sigma_y", "sigma_z"):
            mon.close("doubling:sigma", got[k], want[k], 1e-13, k)
    mon.equal("doubling-size", b.l, 2 * pre["l"], "l")
    mon.true("includes-spin", b.includes_spin, "includes_spin")
    mon.close(
        "untouched", got["nuclear_repulsion_energy"],
        pre["nuclear_repulsion_energy"], 0, "nuclear repulsion",
    )
    mon.close("untouched", got["grid"], pre["grid"], 0, "grid")
    for k in ref.ARRAYS:
        if got[k] is not None:
            mon.equal("complex", got[k].dtype, np.dtype(np.complex128), k)
    # the arrays handed over before are the user's
    for k, v in passed.items():
        if v is not None:
            mon.close("inputs-intact", v, pre[k], 0, k)
    if obj is not b:
        for k in ("h", "s", "u", "dipole_moment", "spf", "bra_spf"):
            mon.close(
                "system-view", ref.u4(getattr(obj, k)) if k == "u"
                else getattr(obj, k), want[k], 1e-11, k,
            )
        if not sparse:
            for k in ("spin_x", "spin_y", "spin_z", "spin_2", "spin_2_tb"):
                mon.close("system-view", getattr(obj, k), want[k], 1e-11, k)
        mon.equal("doubling-size", obj.l, 2 * pre["l"], "system l")
    # a second conversion changes nothing
    name2, a2, b2 = gen.spin_basis(rs)
    if rs.randint(2) or b.anti_symmetrized_u:
        mon.call(
            "second-conversion", b.change_to_general_orbital_basis, a=a2, b=b2,
            anti_symmetrize=bool(rs.randint(2)),
        )
        same_state(mon, "second-conversion", ref.snapshot(b), got)
    else:
        mon.call(
            "second-conversion", b.change_to_general_orbital_basis, a=a2, b=b2,
            anti_symmetrize=False,
        )
        same_state(mon, "second-conversion", ref.snapshot(b), got)
    # a basis handed over as including spin: nothing is added, cast or touched
    if draw(case, 5, "branch1") == 0:
        given(mon, rs)
    # static helpers
    if draw(case, 4, "branch2") == 0:
        l = int(rs.randint(1, 5))
        h = gen.crandn(rs, (l, l), bool(rs.randint(2)))
        u = gen.crandn(rs, (l,) * 4, bool(rs.randint(2)))
        f = gen.crandn(rs, (l, 3, 2))
        mon.close("static", mon.call("add-spin-1", qs.BasisSet.add_spin_one_body, h, np),
                  ref.double_1(h), 0, "one-body")
        mon.close("static", mon.call("add-spin-2", qs.BasisSet.add_spin_two_body, u, np),
                  ref.double_2(u), 0, "two-body")
        mon.close("static", mon.call("add-spin-spf", qs.BasisSet.add_spin_spf, f, np),
                  np.repeat(f, 2, axis=0), 0, "spf")
        mon.close("static", mon.call("add-spin-bra", qs.BasisSet.add_spin_bra_spf, f, np),
                  np.repeat(f, 2, axis=0), 0, "bra_spf")
