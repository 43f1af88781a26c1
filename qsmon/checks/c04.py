"""Anti-symmetrization happens exactly once, however it is requested."""

import numpy as np

import quantum_systems as qs
from qsmon import gen, ref
from qsmon.checks.common import draw, grow, seeds, state

OPS = ("explicit", "system", "convert", "basis-change", "copy", "copy-system")


def cases(rng, tier):
    n = 1260 if tier == "quick" else 12000
    for c in seeds(rng, n):
        c["kind"] = gen.SPATIAL_KINDS[draw(c, len(gen.SPATIAL_KINDS), "kind")]
        c["start"] = ("convert", "system", "via-spatial", "given")[draw(c, 4, "start")]
        yield c


class Model:
    """What u and spin_2_tb have to be, and whether they are anti-symmetrized."""

    def __init__(self, u, tb, flag):
        self.u, self.tb, self.flag = u, tb, flag

    def anti(self):
        if not self.flag:
            self.u = ref.anti(self.u)
            self.tb = None if self.tb is None else ref.anti(self.tb)
            self.flag = True

    def transform(self, C, Ct):
        self.u = ref.transform_2(self.u, C, Ct)
        self.tb = None if self.tb is None else ref.transform_2(self.tb, C, Ct)


def judge(mon, b, model, pair_symmetric):
    sc = max(1.0, float(np.max(np.abs(model.u))))
    mon.close("u", ref.u4(b.u), model.u, 1e-10, "u", sc)
    mon.close("spin_2_tb", b.spin_2_tb, model.tb, 1e-10, "spin_2_tb")
    mon.equal("flag", bool(b.anti_symmetrized_u), model.flag, "anti_symmetrized_u")
    if b.anti_symmetrized_u:
        mon.true("flag-4d", b.u.ndim == 4, "flagged elements have four indices")
        mon.close("anti-symmetry", b.u, -b.u.transpose(0, 1, 3, 2), 1e-10, "ket", sc)
        if pair_symmetric:
            mon.close("anti-symmetry", b.u, -b.u.transpose(1, 0, 2, 3), 1e-10, "bra", sc)
            mon.close("anti-symmetry", b.u, b.u.transpose(1, 0, 3, 2), 1e-10, "pair", sc)


def spatial_only(case, mon, rs, lmax):
    """Requests on a basis without spin: it may be declared anti-symmetrized, or be
    made so explicitly."""
    declared = bool(rs.randint(2))
    if declared or rs.randint(2):
        b, _ = gen.custom(rs, int(rs.randint(1, lmax + 2)), anti_symmetrized_u=declared)
        if declared:
            b.u = ref.anti(b.u)
    else:
        b, _ = gen.spatial(rs, case["kind"], lmax)
    mon.feature("spatial-only", "declared:" + str(declared))
    model = Model(ref.cp(ref.u4(b.u)), None, declared)
    judge(mon, b, model, True)
    for _ in range(int(rs.randint(2, 6))):
        op = ("explicit", "basis-change", "copy", "copy-system", "system")[rs.randint(5)]
        mon.feature("spatial-op:" + op)
        if op == "explicit":
            mon.call("explicit", b.anti_symmetrize_two_body_elements)
            model.anti()
        elif op == "basis-change":
            C = (gen.unitary, gen.invertible)[rs.randint(2)](rs, b.l)
            mon.call("basis-change", b.change_basis, C)
            model.transform(C, C.conj().T)
        elif op == "copy":
            old = b
            b = mon.call("copy", b.copy_basis)
            if rs.randint(2):
                mon.call("explicit", old.anti_symmetrize_two_body_elements)
        else:
            s = mon.call("spatial-system", qs.SpatialOrbitalSystem, 2 * int(rs.randint(0, b.l + 1)), b)
            b = state(mon.call("copy-system", s.copy_system) if op == "copy-system" else s)
        judge(mon, b, model, True)
        if np.max(np.abs(model.u)) > 1e4:
            break


def run_case(case, mon, rs):
    lmax = grow(case, 6, 8, huge=12)
    if draw(case, 7, "branch1") == 6:
        return spatial_only(case, mon, rs, lmax)
    start = case["start"]
    anti = bool(rs.randint(2))
    mon.feature("start:" + start, f"request:{anti}")
    if start == "given":
        # a spin-including basis filled by the user, declared one way or another
        declared = bool(rs.randint(2))
        b, _ = gen.custom(
            rs, int(rs.randint(1, 2 * lmax)), includes_spin=True,
            anti_symmetrized_u=declared,
        )
        mon.feature("declared:" + str(declared))
        if not declared and rs.randint(3) == 0:
            # anti-symmetric (or empty) by chance, without having been declared so
            b.u = ref.anti(b.u) if rs.randint(2) else np.zeros_like(b.u)
            mon.feature("undeclared-anti-symmetric")
        model = Model(ref.cp(b.u), None, declared)
        if rs.randint(2):
            l = b.l
            for k in ("spin_x", "spin_y", "spin_z", "spin_2"):
                setattr(b, k, gen.herm(rs, l))
            tb = gen.two_body(rs, l)
            if declared:
                tb = ref.anti(tb)
            b.spin_2_tb = tb
            model.tb = ref.cp(tb)
        if anti:
            if rs.randint(2):
                obj = mon.call("system", qs.GeneralOrbitalSystem, int(rs.randint(0, b.l + 1)), b)
                mon.true("same-basis", state(obj) is b, "system uses the given basis")
            else:
                mon.call("explicit", b.anti_symmetrize_two_body_elements)
            model.anti()
        else:
            mon.call("system", qs.GeneralOrbitalSystem, int(rs.randint(0, b.l + 1)), b, anti_symmetrize=False)
    else:
        b, bra = gen.spatial(rs, case["kind"], lmax)
        if rs.randint(3) == 0:
            C = gen.invertible(rs, b.l)
            mon.call("basis-change", b.change_basis, C)
        mon.feature("basis:" + case["kind"])
        pre = ref.snapshot(b, touch_bra=bool(rs.randint(2)), known_bra=bra)
        mon.equal("spatial-flag", bool(b.anti_symmetrized_u), False, "spatial basis")
        name, a_, b_ = gen.spin_basis(rs)
        compact = b.u.ndim == 2 and not anti
        if start == "convert":
            mon.call("convert", b.change_to_general_orbital_basis, a=a_, b=b_,
                     anti_symmetrize=anti)
        elif start == "system":
            mon.call("system", qs.GeneralOrbitalSystem, int(rs.randint(0, 2 * b.l + 1)), b, a=a_, b=b_,
                     anti_symmetrize=anti)
        else:
            spas = mon.call("spatial-system", qs.SpatialOrbitalSystem, 2 * int(rs.randint(0, b.l + 1)), b)
            gos = mon.call("via-spatial", spas.construct_general_orbital_system,
                           a=a_, b=b_, anti_symmetrize=anti)
            mon.equal("spatial-flag", bool(b.anti_symmetrized_u), False, "spatial basis")
            mon.close("spatial-u", b.u, pre["u"], 0, "spatial elements")
            b = state(gos)
        want = ref.doubled(pre, a_, b_, anti)
        model = Model(want["u"], None if compact else want["spin_2_tb"], anti)
    judge(mon, b, model, True)
    for _ in range(int(rs.randint(2, 7))):
        op = OPS[rs.randint(len(OPS))]
        mon.feature("op:" + op)
        req = bool(rs.randint(2))
        if op == "explicit":
            mon.call("explicit", b.anti_symmetrize_two_body_elements)
            model.anti()
        elif op == "system":
            mon.call("system", qs.GeneralOrbitalSystem, int(rs.randint(0, b.l + 1)), b,
                     anti_symmetrize=req)
            if req:
                model.anti()
        elif op == "convert":
            # already includes spin: warns and leaves everything as it is
            mon.call("convert", b.change_to_general_orbital_basis, anti_symmetrize=req)
        elif op == "basis-change":
            kind, _, C, Ct = gen.coefficients(
                rs, b.l, ("unitary", "complex", "real", "fewer", "permutation")[rs.randint(5)],
                ("none", "inverse")[rs.randint(2)],
            )
            mon.call("basis-change", b.change_basis, C, Ct)
            model.transform(C, C.conj().T if Ct is None else Ct)
        elif op == "copy":
            old = b
            b = mon.call("copy", b.copy_basis)
            if rs.randint(2):
                mon.call("explicit", old.anti_symmetrize_two_body_elements)
        else:
            s = mon.call("system", qs.GeneralOrbitalSystem, int(rs.randint(0, b.l + 1)), b, anti_symmetrize=req)
            if req:
                model.anti()
            b = state(mon.call("copy-system", s.copy_system))
        judge(mon, b, model, True)
        if np.max(np.abs(model.u)) > 1e4:
            break
    # the static helper
    if draw(case, 5, "branch2") == 0:
        u = gen.crandn(rs, (int(rs.randint(1, 5)),) * 4)
        mon.close("static", mon.call("static", qs.BasisSet.anti_symmetrize_u, u),
                  ref.anti(u), 0, "anti_symmetrize_u")
