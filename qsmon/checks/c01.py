"""Change of basis acts as one tensor transformation on every quantity."""

import numpy as np

import quantum_systems as qs
from qsmon import gen, ref
from qsmon.checks.common import draw, grow, seeds, state


def cases(rng, tier):
    n = 1260 if tier == "quick" else 12000
    for c in seeds(rng, n):
        c["kind"] = gen.SPATIAL_KINDS[draw(c, len(gen.SPATIAL_KINDS), "kind")]
        c["C"] = gen.C_KINDS[draw(c, len(gen.C_KINDS), "C")]
        c["spin"] = draw(c, 3, "spin") != 0
        yield c


def observe(mon, obj, pre, C, Ct, touch, explicit_bra):
    want = ref.transformed(pre, C, C.conj().T if Ct is None else Ct)
    b = state(obj)
    got = ref.snapshot(b)
    sc = ref.transform_scales(pre, C, C.conj().T if Ct is None else Ct)
    ref.compare(mon, "covariance", got, want, 1e-11, scales=sc)
    mon.equal("size", b.l, want["l"], "number of basis functions")
    for name in ("includes_spin", "anti_symmetrized_u", "dim"):
        mon.equal("unrelated", got[name], pre[name], name)
    mon.close(
        "unrelated",
        got["nuclear_repulsion_energy"],
        pre["nuclear_repulsion_energy"],
        1e-14,
        "nuclear_repulsion_energy",
    )
    mon.close("unrelated", got["grid"], pre["grid"], 0, "grid")
    if obj is not b:
        for name in ("h", "s", "u", "dipole_moment", "spf", "bra_spf"):
            mon.close(
                "system-view", ref.u4(getattr(obj, name)) if name == "u"
                else getattr(obj, name), want[name], 1e-11, name, scale=sc[name],
            )
        mon.equal("size", obj.l, want["l"], "system l")
    return got


def run_case(case, mon, rs):
    lmax = grow(case, 5, 9, huge=14 if case["spin"] else 30)
    if case["kind"] == "custom" and draw(case, 5, "branch1") == 0:
        opt = dict(hermitian=bool(rs.randint(2)))
        if not case["spin"]:
            opt["s"] = ("identity", "overlap", "none")[rs.randint(3)]
        b, bra = gen.custom(rs, int(rs.randint(1, lmax + 1)), **opt)
    else:
        b, bra = gen.spatial(rs, case["kind"], lmax)
    mon.feature("basis:" + case["kind"])
    if case["spin"]:
        _, a_, b_ = gen.spin_basis(rs)
        anti = bool(rs.randint(2))
        if case["kind"] == "dvr2d":
            anti = draw(case, 2, "anti") == 0
        mon.call(
            "add-spin", b.change_to_general_orbital_basis, a=a_, b=b_,
            anti_symmetrize=anti,
        )
        if bra is not None:
            bra = np.repeat(bra, 2, axis=0)
        mon.feature("spin-doubled")
    obj = b
    n = 1
    if rs.randint(3) == 0:
        if case["spin"]:
            n = int(rs.randint(0, b.l + 1))
            obj = mon.call(
                "general-system", qs.GeneralOrbitalSystem, n, b,
                anti_symmetrize=bool(rs.randint(2)),
            )
        else:
            n = int(rs.randint(0, b.l + 1))
            obj = mon.call(
                "spatial-system", qs.SpatialOrbitalSystem, 2 * n, b
            )
        mon.feature("through-system")
    touch = bool(rs.randint(2))
    pre = ref.snapshot(b, touch_bra=touch, known_bra=bra)
    kind = case["C"]
    last = None
    for step in range(int(rs.randint(1, 4))):
        kind, ctk, C, Ct = gen.coefficients(
            rs, b.l, kind, min_cols=max(1, n) if obj is not b else 1
        )
        if obj is not b and C.shape[1] < n:
            break
        mon.feature(f"C:{kind}", f"Ct:{ctk}")
        if C.shape[0] != C.shape[1]:
            mon.feature("rectangular")
        if last is not None and last.shape == C.shape and rs.randint(2):
            # the same array as before, with other contents
            last[...] = C
            C = last
            mon.feature("array-reused")
        if C.flags.writeable and C.dtype == complex:
            last = C
        C0, Ct0 = ref.cp(C), ref.cp(Ct)
        sc = ref.transform_scales(pre, C, C.conj().T)
        want_h = ref.transform_1(pre["h"], C, C.conj().T)
        got_h = mon.call("transformed-h", b.get_transformed_h, C)
        mon.close("preview", got_h, want_h, 1e-11, "get_transformed_h", sc["h"])
        want_u = ref.transform_2(ref.u4(pre["u"]), C, C.conj().T)
        got_u = mon.call("transformed-u", b.get_transformed_u, C)
        mon.close("preview", got_u, want_u, 1e-11, "get_transformed_u", sc["u"])
        if obj is not b:
            X = gen.crandn(rs, (b.l, b.l))
            mon.close(
                "preview",
                mon.call(
                    "system-transform-1", obj.transform_one_body_elements,
                    X, C, C_tilde=Ct,
                ),
                ref.transform_1(X, C, C.conj().T if Ct is None else Ct),
                1e-10, "transform_one_body_elements",
            )
            mon.close(
                "preview",
                mon.call(
                    "system-transform-2", obj.transform_two_body_elements,
                    pre["u"], C, C_tilde=Ct,
                ),
                ref.transform_2(
                    ref.u4(pre["u"]), C, C.conj().T if Ct is None else Ct
                ),
                1e-11, "transform_two_body_elements",
                ref.transform_scales(pre, C, C.conj().T if Ct is None else Ct)["u"],
            )
        # previews must not have changed anything
        if touch:
            ref.compare(mon, "preview-pure", ref.snapshot(b), pre, 0)
        if Ct is None and rs.randint(2):
            mon.call("change-basis", obj.change_basis, C)
        else:
            mon.call("change-basis", obj.change_basis, C, Ct)
        mon.close("inputs-intact", C, C0, 0, "C")
        mon.close("inputs-intact", Ct, Ct0, 0, "C_tilde")
        pre = observe(mon, obj, pre, C, Ct, touch, bra)
        touch = True
        if max(np.max(np.abs(pre[k])) for k in ("h", "u")) > 1e6:
            break
        kind = None
        if b.l > 14:
            break
    mon.feature(f"steps:{step + 1}")
    # static helpers on plain arrays
    if draw(case, 4, "branch2") == 0:
        m, k = int(rs.randint(1, 6)), int(rs.randint(1, 6))
        C = gen.crandn(rs, (m, k), bool(rs.randint(2)))
        Ct = gen.crandn(rs, (k, m), bool(rs.randint(2)))
        x1 = gen.crandn(rs, (m, m), bool(rs.randint(2)))
        x2 = gen.crandn(rs, (m,) * 4, bool(rs.randint(2)))
        for t in (None, Ct):
            tt = C.conj().T if t is None else t
            mon.close(
                "static", mon.call(
                    "static-1", qs.BasisSet.transform_one_body_elements, x1, C,
                    np=np, C_tilde=t,
                ), ref.transform_1(x1, C, tt), 1e-10, "one-body",
            )
            mon.close(
                "static", mon.call(
                    "static-2", qs.BasisSet.transform_two_body_elements, x2, C,
                    np=np, C_tilde=t,
                ), ref.transform_2(x2, C, tt), 1e-10, "two-body",
            )
        f = gen.crandn(rs, (m, 3, 2))
        mon.close(
            "static", mon.call("static-spf", qs.BasisSet.transform_spf, f, C, np),
            np.einsum("ap,axy->pxy", C, f), 1e-10, "spf",
        )
        mon.close(
            "static",
            mon.call("static-bra", qs.BasisSet.transform_bra_spf, f, Ct, np),
            np.einsum("pa,axy->pxy", Ct, f), 1e-10, "bra_spf",
        )
